// D05: time conversions are exact, or refused.
//
// "factors": every combination of core time base, number, prefix and unit, requested as a string, a C string and a UnitAlgebra, fresh and again,
//            against exact rational arithmetic; then conversions of boundary times with the converter, its period, and its saved and restored copy.
// "clock": the current time asked in every such unit (also units finer than the core time base) at boundary cycles.
// "cache": sequences of requests to one time lord yield what single requests yield.
#include "mc.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <new>
#include "sst/core/baseComponent.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/simulation.h"
#include "sst/core/timeConverter.h"
#include "sst/core/timeLord.h"
#include "sst/core/unitAlgebra.h"
using mc::Ctx;
using mc::fmt;
using namespace SST;
using SST::Core::Serialization::serializer;
using boost::multiprecision::cpp_int;
using Rat = boost::multiprecision::cpp_rational;

static cpp_int p10(int n) { cpp_int r = 1; while ( n-- > 0 ) r *= 10; return r; }
static Rat     scale(int e) { return e >= 0 ? Rat(p10(e)) : Rat(cpp_int(1), p10(-e)); }
static Rat     parse(std::string s)
{
    int  e  = 0;
    auto ep = s.find('e');
    if ( ep != s.npos ) { e = atoi(s.c_str() + ep + 1); s = s.substr(0, ep); }
    auto dp = s.find('.');
    if ( dp != s.npos ) { e -= (int)(s.size() - dp - 1); s.erase(dp, 1); }
    cpp_int m = 0;
    for ( char c : s ) m = m * 10 + (c - '0');
    return Rat(m) * scale(e);
}
struct Prefix { const char* name; int e; };
static const std::vector<Prefix> SPRE = { { "a", -18 }, { "f", -15 }, { "p", -12 }, { "n", -9 }, { "u", -6 }, { "m", -3 }, { "", 0 }, { "k", 3 } };
static const std::vector<Prefix> HPRE = { { "m", -3 }, { "", 0 }, { "k", 3 }, { "M", 6 }, { "G", 9 }, { "T", 12 }, { "P", 15 } };
static const std::vector<std::string> NUM = { "1", "2", "3", "5", "7", "9", "10", "12.5", "100", "333", "999", "1000", "1.5", "2.5", "0.5", "0.1", "0.3", "1024", "3.3", "1e3", "2.5e-1", "65536", "4294967296",
    "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "0" };
struct Time { std::string text; Rat seconds; bool zero_hz; };
static Time pick_time(Ctx& c)
{
    std::string n = c.pick(NUM);
    bool        hz = c.flip();
    const auto& p = c.pick(hz ? HPRE : SPRE);
    Rat         v = parse(n) * scale(p.e);
    Time        t;
    t.text    = n + (c.flip() ? " " : "") + p.name + (hz ? "Hz" : "s");
    t.zero_hz = hz && v == 0;
    t.seconds = hz ? (v == 0 ? Rat(0) : Rat(1) / v) : v;
    return t;
}
struct Base { const char* text; Rat seconds; };
static const std::vector<Base>& bases()
{
    static std::vector<Base> b;
    if ( b.empty() )
        for ( auto* s : { "1ps", "1ns", "1fs", "1as", "10ps", "3ps", "2.5ns", "1us", "7us", "100ms", "1s", "1 ps", "250fs", "3ns" } ) {
            std::string t(s), n = t.substr(0, t.find_first_not_of("0123456789."));
            std::string u = t.substr(t.find_first_not_of("0123456789. "));
            int         e = 0;
            for ( auto& p : SPRE ) if ( u == std::string(p.name) + "s" ) e = p.e;
            b.push_back({ s, parse(n) * scale(e) });
        }
    return b;
}
static TimeLord* lord(const Base& b)
{
    TimeLord* t = Simulation::getTimeLord();
    t->~TimeLord();
    new ( t ) TimeLord();
    t->init(b.text);
    return t;
}
static const cpp_int MAX = cpp_int(~0ull);
static cpp_int floor_(const Rat& r) { return numerator(r) / denominator(r); }
enum Want { EXACT, ROUND, TOO_SMALL, TOO_LARGE, UNSPEC };
// What a request must yield.
static Want want(const Rat& r, const Time& t, cpp_int& lo, cpp_int& hi)
{
    if ( t.zero_hz ) return UNSPEC;
    if ( r > 0 && r < 1 ) return TOO_SMALL;
    if ( r > Rat(MAX) ) return TOO_LARGE;
    cpp_int f = floor_(r);
    if ( Rat(f) == r ) { lo = hi = f; return EXACT; }
    Rat d = r - Rat(f) - Rat(1, 2), eps(cpp_int(1), p10(9));
    lo = d > eps ? cpp_int(f + 1) : f;
    hi = d < -eps ? f : cpp_int(f + 1);
    return ROUND;
}
enum Got { VALUE, UNDER, OVER, OTHER };
template <class F>
static Got attempt(F f, SimTime_t& v)
{
    try { v = f(); return VALUE; }
    catch ( const std::underflow_error& ) { return UNDER; }
    catch ( const std::overflow_error& ) { return OVER; }
    catch ( const std::exception& ) { return OTHER; }
}
static void judge(Ctx& c, const std::string& what, const Rat& r, const Time& t, Got g, const SimTime_t& v)
{
    static const char* gn[] = { "a value", "underflow_error", "overflow_error", "another exception" };
    cpp_int lo, hi;
    Want    w = want(r, t, lo, hi);
    if ( w == UNSPEC ) return;
    if ( w == TOO_SMALL ) c.check(g == UNDER, "small", "%s is less than one unit: %s (%lu) instead of underflow_error", what.c_str(), gn[g], g == VALUE ? v : 0);
    else if ( r >= Rat(p10(24)) ) c.check(g != VALUE, "large", "%s does not fit, but is %lu", what.c_str(), v); // beyond what a UnitAlgebra holds
    else if ( w == TOO_LARGE ) c.check(g == OVER, "large", "%s does not fit: %s (%lu) instead of overflow_error", what.c_str(), gn[g], g == VALUE ? v : 0);
    else {
        c.check(g == VALUE, "refused", "%s is %s units: %s", what.c_str(), lo.str().c_str(), gn[g]);
        c.check(cpp_int(v) >= lo && cpp_int(v) <= hi, "factor", "%s is %lu units instead of %s", what.c_str(), v, lo.str().c_str());
    }
}
static const std::vector<SimTime_t> TIMES = { 0, 1, 2, 3, 7, 10, 999, 1000, 1001, 65535, 4294967295ull, 4294967296ull, 1000000000000ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull - 1, ~0ull };

static void factors(Ctx& c)
{
    const Base& b = c.pick(bases());
    Time        t = pick_time(c);
    TimeLord*   l = lord(b);
    Rat         r = t.seconds / b.seconds;
    SimTime_t   v = 0;
    std::string what = t.text + " at " + b.text;
    for ( int again = 0; again < 2; ++again ) {
        judge(c, what, r, t, attempt([&] { return l->getTimeConverter(t.text).getFactor(); }, v), v);
        judge(c, what + " (UnitAlgebra)", r, t, attempt([&] { return l->getTimeConverter(UnitAlgebra(t.text)).getFactor(); }, v), v);
        judge(c, what + " (constructor)", r, t, attempt([&] { return TimeConverter(t.text).getFactor(); }, v), v);
        judge(c, what + " (constructor, C string)", r, t, attempt([&] { return TimeConverter(t.text.c_str()).getFactor(); }, v), v);
        judge(c, what + " (constructor, UnitAlgebra)", r, t, attempt([&] { return TimeConverter(UnitAlgebra(t.text)).getFactor(); }, v), v);
        judge(c, what + " (cycles)", r, t, attempt([&] { return l->getSimCycles(t.text, ""); }, v), v);
        c.step(6);
    }
    cpp_int lo, hi;
    Want    w = want(r, t, lo, hi);
    if ( w == EXACT || w == ROUND ) {
        TimeConverter tc = l->getTimeConverter(t.text), back;
        cpp_int       f(tc.getFactor());
        c.check(tc.isInitialized() == (f != 0) && (bool)tc == (f != 0), "initialized", "%s: isInitialized is wrong", what.c_str());
        std::vector<char> buf;
        for ( int phase = 0; phase < 3; ++phase ) {
            serializer ser;
            if ( phase == 0 ) { ser.start_sizing(); SST_SER(tc); buf.resize(ser.size()); }
            else if ( phase == 1 ) { ser.start_packing(buf.data(), buf.size()); SST_SER(tc); }
            else { ser.start_unpacking(buf.data(), buf.size()); SST_SER(back); }
        }
        c.check(back.getFactor() == tc.getFactor(), "restored", "%s: a restored converter has factor %lu", what.c_str(), back.getFactor());
        if ( f != 0 ) {
            for ( SimTime_t x : TIMES ) {
                c.check(cpp_int(tc.convertFromCoreTime(x)) == cpp_int(x) / f, "from", "%s: %lu from core time is %lu", what.c_str(), x, tc.convertFromCoreTime(x));
                for ( SimTime_t y : { x, tc.convertFromCoreTime(x) } )
                    if ( cpp_int(y) * f <= MAX ) c.check(cpp_int(tc.convertToCoreTime(y)) == cpp_int(y) * f, "to", "%s: %lu to core time is %lu", what.c_str(), y, tc.convertToCoreTime(y));
            }
            UnitAlgebra p = tc.getPeriod();
            c.check(p.hasUnits("s"), "period", "%s: the period is not a time", what.c_str());
            Rat  pv   = parse(p.getValue().toString(0)), want = Rat(f) * b.seconds;
            c.check(pv == want, "period", "%s: the period is %s", what.c_str(), p.toStringBestSI().c_str());
        }
        tc.reset();
        c.check(!tc.isInitialized() && tc.getFactor() == 0, "reset", "%s: reset does not reset", what.c_str());
    }
    c.note("%s", what.c_str());
    c.validated();
    c.nontrivial(w != UNSPEC);
}

struct Probe : BaseComponent
{
    Probe() : BaseComponent() {}
    void serialize_order(serializer&) override {}
    bool isAnonymous() { return true; }
    ImplementSerializable(Probe)
};

static void clocks(Ctx& c)
{
    static const std::vector<SimTime_t> CYC = { 0, 1, 2, 3, 7, 10, 999, 1000, 1001, 123456789, 4294967296ull, 1000000000000ull, 9223372036854775807ull, ~0ull - 1, ~0ull };
    const Base& b   = c.pick(bases());
    SimTime_t   cyc = c.pick(CYC);
    int         q   = c.choose(4);
    static char* mem  = (char*)calloc(1, sizeof(Simulation) + 64);
    Simulation*  sim  = (Simulation*)(((uintptr_t)mem + 63) & ~63ull);
    TimeLord*    l    = lord(b);
    static Probe* probe = new Probe();
    sim->currentSimCycle = cyc;
    probe->sim_          = sim;
    Rat         now  = Rat(cyc) * b.seconds;
    SimTime_t   v = 0;
    std::string what = fmt("at cycle %lu of %s, ", cyc, b.text);
    // the exact time in the given unit, rounded down; a unit that is a number of core units that is not whole is rounded first
    auto ask = [&](const Rat& unit, const std::string& name, auto&& f) {
        Rat     r = unit / b.seconds;
        Time    t { name, unit, false };
        cpp_int lo, hi;
        Want    w = want(r, t, lo, hi);
        if ( w == ROUND || w == TOO_LARGE || unit == 0 || unit * Rat(p10(24)) <= 1 ) return; // the last: beyond what a UnitAlgebra holds
        cpp_int e = floor_(now / unit);
        if ( e >= p10(24) ) return; // likewise
        Got     g = attempt(f, v);
        c.step();
        if ( e > MAX ) c.check(g == OVER, "clock-large", "%sthe time in %s does not fit, but is given as %lu (%d)", what.c_str(), name.c_str(), v, g);
        else c.check(g == VALUE && cpp_int(v) == e, "clock", "%sthe time in %s is %lu (%d) instead of %s", what.c_str(), name.c_str(), v, g, e.str().c_str());
    };
    if ( q == 0 ) {
        Time t = pick_time(c);
        if ( t.zero_hz ) c.discard();
        what += t.text + " ";
        ask(t.seconds, t.text, [&] { return probe->getCurrentSimTime(t.text); });
        ask(t.seconds, t.text, [&] { return probe->getCurrentSimTime(t.text.c_str()); });
        if ( t.seconds >= b.seconds && Rat(t.seconds / b.seconds) <= Rat(MAX) ) ask(t.seconds, t.text, [&] { return probe->getCurrentSimTime(l->getTimeConverter(t.text)); });
    }
    else if ( q == 1 ) ask(scale(-9), "ns", [&] { return probe->getCurrentSimTimeNano(); });
    else if ( q == 2 ) ask(scale(-6), "us", [&] { return probe->getCurrentSimTimeMicro(); });
    else ask(scale(-3), "ms", [&] { return probe->getCurrentSimTimeMilli(); });
    c.note("%s%d", what.c_str(), q);
    c.validated();
    c.nontrivial();
}

static void cache(Ctx& c)
{
    static const std::vector<std::string> T = { "1ns", "1 ns", "1000ps", "1GHz", "2ns", "500 MHz", "3s", "1fs", "2 s", "1ms" };
    static const Rat S[] = { scale(-9), scale(-9), scale(-9), scale(-9), Rat(2) * scale(-9), Rat(2) * scale(-9), Rat(3), scale(-15), Rat(2), scale(-3) };
    const Base& b = bases()[c.choose(4)];
    TimeLord*   l = lord(b);
    std::string hist = b.text;
    int         n = c.thorough() ? 5 : 4;
    for ( int i = 0; i < n; ++i ) {
        int       k = c.choose((int)T.size());
        SimTime_t v = 0;
        hist += ", " + T[k];
        Time      t { T[k], S[k], false };
        Got       g = attempt([&] { return i % 2 ? l->getSimCycles(T[k], "") : l->getTimeConverter(T[k]).getFactor(); }, v);
        judge(c, hist, S[k] / b.seconds, t, g, v);
        c.step();
    }
    Time n9 { "nano", scale(-9), false };
    SimTime_t v[3] = { l->getNano().getFactor(), l->getMicro().getFactor(), l->getMilli().getFactor() };
    for ( int i = 0; i < 3; ++i ) {
        Rat r = scale(-9 + 3 * i) / b.seconds;
        c.check(cpp_int(v[i]) == (r < 1 ? cpp_int(0) : floor_(r)), "builtin", "%s: built-in converter %d has factor %lu", b.text, i, v[i]);
    }
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

int main(int argc, char** argv)
{
    Units::registerBaseUnit("s");
    Units::registerCompoundUnit("Hz", "1/s");
    return mc::run(argc, argv, { { "factors", factors }, { "clock", clocks }, { "cache", cache } });
}
