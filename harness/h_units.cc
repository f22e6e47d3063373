// UnitAlgebra and the decimal number behind it, against exact integer arithmetic.
#include "mc.h"
#include "sst/core/decimal_fixedpoint.h"
#include "sst/core/unitAlgebra.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <map>
using namespace SST;
using boost::multiprecision::cpp_int;

static cpp_int p10(int n) { cpp_int r = 1; while ( n-- > 0 ) r *= 10; return r; }
static const cpp_int ONE = p10(24);     // scale of the reference: 24 fraction digits
static const cpp_int LIM = p10(48);

// exact value of a decimal literal times 10^24, truncated towards zero below 10^-24
static cpp_int ref_parse(const std::string& in)
{
    std::string s = in; bool neg = false; int e = 0;
    if ( s[0] == '-' ) { neg = true; s = s.substr(1); }
    auto ep = s.find_first_of("eE");
    if ( ep != s.npos ) { e = atoi(s.c_str() + ep + 1); s = s.substr(0, ep); }
    auto dp = s.find('.');
    std::string frac;
    if ( dp != s.npos ) { frac = s.substr(dp + 1); s = s.substr(0, dp); }
    cpp_int m(0);
    for ( char c : s + frac ) m = m * 10 + (c - '0');
    int sc = 24 + e - (int)frac.size();
    if ( sc >= 0 ) m *= p10(sc); else m /= p10(-sc);
    return neg ? cpp_int(-m) : m;
}
static std::string S(const cpp_int& v) { return v.str(); }
static cpp_int absv(const cpp_int& v) { return v < 0 ? cpp_int(-v) : v; }

// what the number holds, read back through its full-precision printed form
static cpp_int held(const sst_big_num& n) { return ref_parse(n.toString(0)); }

static const std::vector<std::string> LITS = {
    "0", "1", "2", "3", "7", "9", "10", "99", "1000", "99999999", "100000000", "100000001", "12345678", "999999999999",
    "1234567890123456", "9999999999999999", "18446744073709551615", "123456789012345678901234", "999999999999999999999999",
    "0.1", "0.5", "0.25", "0.99999999", "0.00000001", "0.000000001", "0.3333333333333333", "1.5", "2.50", "1.000000000000000000000001",
    "0.000000000000000000000001", "99999999.99999999", "100000000.00000001", "1e3", "1e-3", "1.25e6", "1.25e-6", "1E18", "1e-18", "5e-24", "1e23",
    "12345.678e-7", "0.0000000500000001", "4294967295", "4294967296", "9223372036854775807", "0001", "1.", "0.0",
    "-1", "-2.5", "-0.000000001", "-1e-18", "-99999999.5", "-1234567890123456", "-1e18", "-0.75", "-10", "-3"
};
static const std::vector<std::string> EXTREME = { "1e24", "9e24", "1e30", "12345678901234567890123456789", "1e-25", "9.99e-24", "1.2345e-23", "5e-30",
    "1e100", "1e-100", "0.00000000000000000000000000123", "1000000000000000000000000", "0e50", "0.0e-50", "-1e-30", "-1e26" };

static std::string cmpname(int k) { static const char* n[] = { "==", "!=", "<", ">", "<=", ">=" }; return n[k]; }
template <class A> bool docmp(int k, const A& a, const A& b)
{ switch ( k ) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }

// ---- decimal_fixedpoint ----------------------------------------------------
static void dec_parse(mc::Ctx& c)
{
    // mantissa digits x decimal point position x exponent x sign
    static const std::vector<std::string> digs = { "0", "1", "5", "9", "10", "12", "99", "123", "100000001", "99999999", "123456789", "1234567812345678",
        "12345678123456781", "999999999999999999999999", "100000000000000000000001", "5000000000000000000000005", "00012", "12000" };
    std::string d   = c.pick(digs);
    int         dot = c.choose((int)d.size() + 2); // 0 = none, k = after k digits
    int         e   = c.choose(64);                // 0 none, else -32..30
    bool        neg = c.flip();
    std::string lit = d;
    if ( dot ) lit.insert(std::min<size_t>(dot, d.size()), ".");
    if ( e ) lit += mc::fmt(c.flip() ? "e%d" : "E%+d", e - 33);
    if ( neg ) lit = "-" + lit;
    cpp_int want = ref_parse(lit);
    c.note("parse %s", lit.c_str()); c.nontrivial(); c.step();
    sst_big_num n;
    bool        threw = false;
    try { n = sst_big_num(lit); }
    catch ( std::exception& ) { threw = true; }
    if ( absv(want) >= LIM ) { c.check(threw, "parse-overflow-accepted", "'%s' does not fit but was accepted as %s", lit.c_str(), n.toString(0).c_str()); return; }
    c.check(!threw, "parse-rejected", "'%s' was rejected", lit.c_str());
    c.check(held(n) == want, "parse-value", "'%s' parsed as %s", lit.c_str(), n.toString(0).c_str());
    // printing at full precision and parsing again is the identity
    sst_big_num m(n.toString(0));
    c.check(m == n, "print-parse", "'%s' -> %s -> %s", lit.c_str(), n.toString(0).c_str(), m.toString(0).c_str());
    // conversions
    double dd = n.toDouble(), dw = want.convert_to<double>() / 1e24;
    c.check(std::fabs(dd - dw) <= std::fabs(dw) * 1e-14, "to-double", "'%s' toDouble %.17g want %.17g", lit.c_str(), dd, dw);
    cpp_int a = absv(want), w = a / ONE, r = a % ONE, half = ONE / 2;
    cpp_int rd = w + ((r > half || (r == half && (w % 2) == 1)) ? 1 : 0);
    if ( rd <= cpp_int(INT64_MAX) ) {
        int64_t want_l = rd.convert_to<int64_t>(); if ( want < 0 ) want_l = -want_l;
        c.check(n.toLong() == want_l, "to-long", "'%s' toLong %lld want %lld", lit.c_str(), (long long)n.toLong(), (long long)want_l);
        c.check(n.convert_to<int64_t>() == want_l, "convert-long", "'%s' convert_to<int64_t>", lit.c_str());
    }
    if ( want >= 0 && w <= cpp_int(UINT64_MAX) ) {
        uint64_t u = n.toUnsignedLong(), wt = w.convert_to<uint64_t>();
        c.check(u == wt || (rd <= cpp_int(UINT64_MAX) && u == rd.convert_to<uint64_t>()), "to-ulong", "'%s' toUnsignedLong %llu want %llu", lit.c_str(),
            (unsigned long long)u, (unsigned long long)wt);
    }
    c.check(n.isZero() == (want == 0), "is-zero", "'%s' isZero %d", lit.c_str(), n.isZero());
}
static void dec_print(mc::Ctx& c)
{
    std::string lit = c.pick(LITS);
    int p = 1 + c.choose(30);
    sst_big_num n(lit);
    cpp_int v = ref_parse(lit);
    std::string s = n.toString(p);
    c.note("print %s at %d = %s", lit.c_str(), p, s.c_str()); c.nontrivial(); c.step();
    cpp_int a = absv(v);
    if ( a == 0 ) { c.check(ref_parse(s) == 0, "print-zero", "0 prints as %s", s.c_str()); return; }
    int nd = (int)a.str().size();
    cpp_int unit = nd > p ? p10(nd - p) : cpp_int(1); // place value of the last printed digit
    cpp_int got = ref_parse(s), err = absv(got - v);
    c.check(2 * err <= unit, "print-rounding", "%s printed with %d digits as %s", lit.c_str(), p, s.c_str());
    c.check((got < 0) == (v < 0) || got == 0, "print-sign", "%s printed as %s", lit.c_str(), s.c_str());
}
static void dec_ops(mc::Ctx& c)
{
    const std::string& la = c.pick(LITS);
    const std::string& lb = c.pick(LITS);
    sst_big_num a(la), b(lb);
    cpp_int va = ref_parse(la), vb = ref_parse(lb);
    c.note("%s op %s", la.c_str(), lb.c_str()); c.nontrivial();
    for ( int k = 0; k < 6; ++k ) {
        bool g = docmp(k, a, b), w = docmp(k, va, vb);
        c.step();
        c.check(g == w, mc::fmt("cmp%s", cmpname(k).c_str()).c_str(), "%s %s %s is %d, expected %d", la.c_str(), cmpname(k).c_str(), lb.c_str(), g, w);
    }
    auto in = [&](const cpp_int& v) { return absv(v) < LIM; };
    { sst_big_num x = a; x += b; c.step(); if ( in(va + vb) ) c.check(held(x) == va + vb, "add", "%s + %s = %s", la.c_str(), lb.c_str(), x.toString(0).c_str());
      c.check(held(b) == vb, "operand-changed", "+ changed its operand"); }
    { sst_big_num x = a - b; c.step(); if ( in(va - vb) ) c.check(held(x) == va - vb, "sub", "%s - %s = %s", la.c_str(), lb.c_str(), x.toString(0).c_str()); }
    { sst_big_num x = a * b; c.step(); cpp_int w = absv(va) * absv(vb) / ONE; if ( (va < 0) != (vb < 0) ) w = -w;
      if ( in(w) ) c.check(absv(held(x) - w) <= 1, "mul", "%s * %s = %s want %s e-24", la.c_str(), lb.c_str(), x.toString(0).c_str(), S(w).c_str()); }
    if ( vb != 0 ) {
        cpp_int w = absv(va) * ONE / absv(vb);
        // the reciprocal has to be representable with useful precision
        if ( in(w) && absv(vb) <= p10(36) && absv(vb) >= p10(6) && absv(va) <= p10(44) ) {
            if ( (va < 0) != (vb < 0) ) w = -w;
            sst_big_num x = a / b; c.step();
            cpp_int tol = (absv(va) / ONE + 2) * 8 + absv(w) / p10(18);
            c.check(absv(held(x) - w) <= tol, "div", "%s / %s = %s want %s e-24", la.c_str(), lb.c_str(), x.toString(0).c_str(), S(w).c_str());
            sst_big_num i = b; i.inverse(); c.step();
            cpp_int wi = ONE * ONE / absv(vb); if ( vb < 0 ) wi = -wi;
            c.check(absv(held(i) - wi) <= 16 + absv(wi) / p10(18), "inverse", "1 / %s = %s", lb.c_str(), i.toString(0).c_str());
        }
    }
}
static void dec_native(mc::Ctx& c)
{
    // construction from the native types
    static const std::vector<int64_t> is = { 0, 1, -1, 7, -7, 99999999, 100000000, -100000001, 4294967296ll, -4294967297ll, 1000000000000000000ll,
        -999999999999999999ll, 9223372036854775807ll, -9223372036854775807ll };
    int kind = c.choose(4);
    c.nontrivial(); c.step();
    if ( kind == 0 ) { int64_t v = c.pick(is); c.note("int64 %lld", (long long)v); sst_big_num n(v);
        c.check(held(n) == cpp_int(v) * ONE, "from-int", "%lld held as %s", (long long)v, n.toString(0).c_str()); c.check(n.toLong() == v, "int-back", "%lld read back as %lld", (long long)v, (long long)n.toLong());
        sst_big_num m; m = v; c.check(m == n, "assign-int", "assignment of %lld", (long long)v); }
    else if ( kind == 1 ) { uint64_t v = (uint64_t)c.pick(is); c.note("uint64 %llu", (unsigned long long)v); sst_big_num n(v);
        c.check(held(n) == cpp_int(v) * ONE, "from-uint", "%llu held as %s", (unsigned long long)v, n.toString(0).c_str());
        c.check(n.toUnsignedLong() == v, "uint-back", "%llu read back as %llu", (unsigned long long)v, (unsigned long long)n.toUnsignedLong());
        c.check(n.convert_to<uint64_t>() == v, "uint-convert", "%llu", (unsigned long long)v); }
    else if ( kind == 2 ) { int m = c.choose(33) - 16, e = c.choose(41) - 20; double v = std::ldexp((double)m + 0.5 * c.choose(2), e); c.note("double %.17g", v); sst_big_num n(v);
        c.check(std::fabs(n.toDouble() - v) <= std::fabs(v) * 1e-11, "from-double", "%.17g held as %s, read back %.17g", v, n.toString(0).c_str(), n.toDouble());
        sst_big_num a; a = v; c.check(a == n, "assign-double", "assignment of %.17g", v); }
    else { int m = c.choose(19) - 9, e = c.choose(37) - 18; double v = m * std::pow(10.0, e); c.note("double %.17g", v); sst_big_num n(v);
        c.check(std::fabs(n.toDouble() - v) <= std::fabs(v) * 1e-11 + 2e-24, "from-double10", "%.17g held as %s, read back %.17g", v, n.toString(0).c_str(), n.toDouble()); }
}

// ---- UnitAlgebra ------------------------------------------------------------
struct Dim { int s = 0, B = 0, b = 0, ev = 0; bool operator==(const Dim& o) const { return s == o.s && B == o.B && b == o.b && ev == o.ev; } };
struct U { std::string txt; Dim d; cpp_int num, den; };   // value multiplier num/den

static void reg()
{
    static bool done = false;
    if ( done ) return;
    done = true;
    for ( auto u : { "s", "B", "b", "events" } ) Units::registerBaseUnit(u);
    Units::registerCompoundUnit("Hz", "1/s"); Units::registerCompoundUnit("hz", "1/s"); Units::registerCompoundUnit("Bps", "B/s");
    Units::registerCompoundUnit("bps", "b/s"); Units::registerCompoundUnit("event", "events");
}
static void si(const std::string& p, cpp_int& n, cpp_int& d)
{
    static const std::map<char, int> dec = { { 'a', -18 }, { 'f', -15 }, { 'p', -12 }, { 'n', -9 }, { 'u', -6 }, { 'm', -3 }, { 'k', 3 }, { 'K', 3 }, { 'M', 6 }, { 'G', 9 }, { 'T', 12 }, { 'P', 15 }, { 'E', 18 } };
    static const std::map<char, int> bin = { { 'k', 1 }, { 'K', 1 }, { 'M', 2 }, { 'G', 3 }, { 'T', 4 }, { 'P', 5 }, { 'E', 6 } };
    n = 1; d = 1;
    if ( p.empty() ) return;
    if ( p.size() == 2 ) { for ( int i = bin.at(p[0]); i; --i ) n *= 1024; return; }
    int e = dec.at(p[0]);
    if ( e > 0 ) n = p10(e); else d = p10(-e);
}
static const std::vector<std::string> PRE = { "", "a", "f", "p", "n", "u", "m", "k", "K", "M", "G", "T", "P", "E", "ki", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei" };
struct BU { const char* n; Dim d; };
static const std::vector<BU> BUS = { { "s", { 1, 0, 0, 0 } }, { "B", { 0, 1, 0, 0 } }, { "b", { 0, 0, 1, 0 } }, { "events", { 0, 0, 0, 1 } }, { "Hz", { -1, 0, 0, 0 } }, { "hz", { -1, 0, 0, 0 } },
    { "Bps", { -1, 1, 0, 0 } }, { "bps", { -1, 0, 1, 0 } }, { "event", { 0, 0, 0, 1 } } };
static Dim addd(Dim a, const Dim& b, int k) { a.s += k * b.s; a.B += k * b.B; a.b += k * b.b; a.ev += k * b.ev; return a; }
static const std::vector<U>& units()
{
    static std::vector<U> v;
    if ( v.empty() ) {
        v.push_back({ "", {}, 1, 1 });
        for ( auto& p : PRE ) for ( auto& b : BUS ) { U u; u.txt = p + b.n; u.d = b.d; si(p, u.num, u.den); v.push_back(u); }
        // products and quotients
        auto add = [&](const char* t, std::vector<std::pair<int, std::pair<const char*, const char*>>> f) {
            U u; u.txt = t; u.num = 1; u.den = 1;
            for ( auto& x : f ) { cpp_int n, d; si(x.second.first, n, d); for ( auto& b : BUS ) if ( std::string(b.n) == x.second.second ) u.d = addd(u.d, b.d, x.first);
                if ( x.first > 0 ) { u.num *= n; u.den *= d; } else { u.num *= d; u.den *= n; } }
            v.push_back(u);
        };
        add("B/s", { { 1, { "", "B" } }, { -1, { "", "s" } } }); add("GB/s", { { 1, { "G", "B" } }, { -1, { "", "s" } } }); add("b/ns", { { 1, { "", "b" } }, { -1, { "n", "s" } } });
        add("MiB/us", { { 1, { "Mi", "B" } }, { -1, { "u", "s" } } }); add("1/s", { { -1, { "", "s" } } }); add("1/ms", { { -1, { "m", "s" } } }); add("B-s", { { 1, { "", "B" } }, { 1, { "", "s" } } });
        add("kB-ms/ns", { { 1, { "k", "B" } }, { 1, { "m", "s" } }, { -1, { "n", "s" } } }); add("s-s", { { 1, { "", "s" } }, { 1, { "", "s" } } }); add("events/s", { { 1, { "", "events" } }, { -1, { "", "s" } } });
        add("B/s-s", { { 1, { "", "B" } }, { -1, { "", "s" } }, { -1, { "", "s" } } }); add("GHz-ns", { { 1, { "G", "Hz" } }, { 1, { "n", "s" } } }); add("Bps/Hz", { { 1, { "", "Bps" } }, { -1, { "", "Hz" } } });
        add("B-B/b", { { 1, { "", "B" } }, { 1, { "", "B" } }, { -1, { "", "b" } } }); add("s/s", { { 1, { "", "s" } }, { -1, { "", "s" } } });
    }
    return v;
}
static void ua_parse(mc::Ctx& c)
{
    reg();
    const U& u = c.pick(units());
    static const std::vector<std::string> nums = { "0", "1", "2", "3", "10", "999", "1000", "1.5", "0.25", "12.375", "1000000", "-1", "-2.5", "7e3", "1e-3" };
    std::string n = c.pick(nums);
    if ( u.txt.find("1") != u.txt.npos ) c.discard(); // only meaningful as a unit, not after a number
    int ws = c.choose(6);
    static const char* form[] = { "%s%s", "%s %s", " %s %s ", "\t%s  %s", "%s %s\n", "  %s%s  " };
    std::string txt = mc::fmt(form[ws], n.c_str(), u.txt.c_str());
    cpp_int want = ref_parse(n) * u.num / u.den;
    cpp_int rem = ref_parse(n) * u.num % u.den;
    if ( absv(want) >= LIM ) c.discard();
    c.note("'%s'", txt.c_str()); c.nontrivial(); c.step();
    bool neg_den = u.txt.find('/') != std::string::npos || u.txt.find("1/") != std::string::npos;
    try {
        UnitAlgebra a(txt);
        cpp_int got = held(a.getValue());
        // one truncation per prefix factor; a reciprocal prefix is only representable to 1e-24
        cpp_int tol = neg_den ? cpp_int(absv(want) / p10(15) + 64 * (absv(ref_parse(n)) / ONE + 2)) : (rem == 0 ? cpp_int(0) : cpp_int(1));
        c.check(absv(got - want) <= tol, "ua-parse", "'%s' = %s want %s e-24", txt.c_str(), a.getValue().toString(0).c_str(), S(want).c_str());
        std::string dim = mc::fmt("%d %d %d %d", u.d.s, u.d.B, u.d.b, u.d.ev);
        for ( auto& v : units() ) c.check(a.hasUnits(v.txt) == (v.d == u.d), "has-units", "'%s' hasUnits(%s) = %d (dimension %s)", txt.c_str(), v.txt.c_str(), a.hasUnits(v.txt), dim.c_str());
        // printing and parsing again keeps value and units
        UnitAlgebra r(a.toString(0));
        c.check(r == a, "ua-print-parse", "'%s' -> '%s' differs", txt.c_str(), a.toString(0).c_str());
        c.check(r.hasUnits(u.txt.empty() ? "1" : u.txt), "ua-print-units", "'%s' -> '%s' has other units", txt.c_str(), a.toString(0).c_str());
        if ( u.d == Dim() ) return; // a prefix without a unit is not part of the input language
        UnitAlgebra b(a.toStringBestSI(30));
        c.check(b.hasUnits(u.txt.empty() ? "1" : u.txt) && absv(held(b.getValue()) - got) <= absv(got) / p10(15) + 1, "ua-bestsi", "'%s' best SI '%s'", txt.c_str(), a.toStringBestSI(30).c_str());
        cpp_int aa = absv(got), w = aa / ONE, rr = aa % ONE, half = ONE / 2;
        cpp_int rd = w + ((rr > half || (rr == half && (w % 2) == 1)) ? 1 : 0);
        if ( rd <= cpp_int(INT64_MAX) ) { int64_t wl = rd.convert_to<int64_t>(); if ( got < 0 ) wl = -wl; c.check(a.getRoundedValue() == wl, "ua-rounded", "'%s' rounds to %lld", txt.c_str(), (long long)a.getRoundedValue()); }
        double dw = got.convert_to<double>() / 1e24; c.check(std::fabs(a.getDoubleValue() - dw) <= 1e-14 * std::fabs(dw), "ua-double", "'%s' double %.17g", txt.c_str(), a.getDoubleValue());
        c.check(a.isValueZero() == (got == 0), "ua-zero", "'%s'", txt.c_str());
    }
    catch ( std::exception& e ) { c.fail("ua-rejected", "'%s' rejected: %s", txt.c_str(), e.what()); }
}
static void ua_bad(mc::Ctx& c)
{
    reg();
    static const std::vector<std::string> bad = { "1 q", "1 nq", "1 sB", "1 ss", "1 Hzz", "1 Xs", "2 B/q", "3 q/s", "1 kk s", "1 GiiB", "1 K", "1 s-", "1 -s", "1 s--B", "1 s/", "1 iB" };
    std::string t = c.pick(bad);
    c.note("bad '%s'", t.c_str()); c.nontrivial(); c.step();
    // trailing separators leave an empty unit; only genuinely unknown names have to be rejected
    bool must = t.find("q") != t.npos || t == "1 sB" || t == "1 ss" || t == "1 Hzz" || t == "1 Xs" || t == "1 GiiB" || t == "1 iB" || t == "1 kk s";
    bool threw = false; std::string got;
    try { UnitAlgebra a(t); got = a.toString(0); } catch ( UnitAlgebra::UnitAlgebraException& ) { threw = true; } catch ( std::exception& ) { threw = true; }
    if ( must ) c.check(threw, "bad-unit-accepted", "'%s' accepted as '%s'", t.c_str(), got.c_str());
}
static void ua_ops(mc::Ctx& c)
{
    reg();
    static const std::vector<std::string> nums = { "0", "1", "2.5", "3", "1000", "-4", "-0.5", "12345678.5" };
    static std::vector<int> us;
    auto& all = units();
    if ( us.empty() ) for ( size_t i = 0; i < all.size(); ++i ) {
        for ( auto n : { "", "s", "ns", "ps", "ms", "B", "KiB", "GB", "b", "events", "Hz", "GHz", "kHz", "Bps", "GB/s", "b/ns", "MiB/us", "B-s", "s-s", "B/s-s", "GHz-ns", "s/s", "mevent" } ) if ( all[i].txt == n ) us.push_back(i);
    }
    std::string na = c.pick(nums), nb = c.pick(nums);
    const U &ua = all[c.pick(us)], &ub = all[c.pick(us)];
    UnitAlgebra a(na + " " + ua.txt), b(nb + " " + ub.txt);
    const UnitAlgebra a0 = a, b0 = b;
    cpp_int va = held(a.getValue()), vb = held(b.getValue());
    bool same = ua.d == ub.d;
    std::string d = na + " " + ua.txt + " , " + nb + " " + ub.txt;
    c.note("%s", d.c_str()); c.nontrivial();
    c.check((a == b) == (same && va == vb), "ua==", "(%s) == gives %d", d.c_str(), a == b); c.step();
    c.check((a != b) == !(same && va == vb), "ua!=", "(%s) != gives %d", d.c_str(), a != b); c.step();
    for ( int k = 2; k < 6; ++k ) {
        bool threw = false, g = false; c.step();
        try { g = docmp(k, a, b); } catch ( UnitAlgebra::UnitAlgebraException& ) { threw = true; }
        c.check(threw == !same, "ua-cmp-units", "(%s) %s: units %s but %s", d.c_str(), cmpname(k).c_str(), same ? "match" : "differ", threw ? "rejected" : "accepted");
        if ( same ) c.check(g == docmp(k, va, vb), ("ua" + cmpname(k)).c_str(), "(%s) %s gives %d", d.c_str(), cmpname(k).c_str(), g);
    }
    for ( int k = 0; k < 2; ++k ) {
        UnitAlgebra x = a0; bool threw = false; c.step();
        try { if ( k ) x -= b; else x += b; } catch ( UnitAlgebra::UnitAlgebraException& ) { threw = true; }
        c.check(threw == !same, "ua-add-units", "(%s) %s: units %s but %s", d.c_str(), k ? "-" : "+", same ? "match" : "differ", threw ? "rejected" : "accepted");
        cpp_int w = k ? cpp_int(va - vb) : cpp_int(va + vb);
        if ( same && absv(w) < LIM ) { c.check(held(x.getValue()) == w, k ? "ua-sub" : "ua-add", "(%s) gives %s", d.c_str(), x.toString(0).c_str()); }
        if ( same ) c.check(x.hasUnits(ua.txt.empty() ? "1" : ua.txt), "ua-add-dim", "(%s) units %s", d.c_str(), x.toString().c_str());
        if ( !same ) c.check(x == a0, "ua-add-rollback", "(%s) rejected but changed the left operand", d.c_str());
    }
    auto dimcheck = [&](const UnitAlgebra& x, const Dim& want, const char* op) {
        for ( int k : us ) if ( auto& v = all[k]; true ) c.check(x.hasUnits(v.txt.empty() ? "1" : v.txt) == (v.d == want), "ua-dim", "(%s) %s: hasUnits(%s)", d.c_str(), op, v.txt.c_str()); };
    { UnitAlgebra x = a0 * b; c.step(); cpp_int w = absv(va) * absv(vb) / ONE; if ( (va < 0) != (vb < 0) ) w = -w;
      if ( absv(w) < LIM ) c.check(absv(held(x.getValue()) - w) <= 1, "ua-mul", "(%s) * gives %s", d.c_str(), x.toString(0).c_str());
      dimcheck(x, addd(ua.d, ub.d, 1), "*"); }
    if ( vb != 0 && absv(vb) <= p10(33) && absv(va) <= p10(42) ) {
        UnitAlgebra x = a0 / b; c.step(); cpp_int w = absv(va) * ONE / absv(vb); if ( (va < 0) != (vb < 0) ) w = -w;
        if ( absv(w) < LIM ) c.check(absv(held(x.getValue()) - w) <= (absv(va) / ONE + 2) * 8 + absv(w) / p10(18), "ua-div", "(%s) / gives %s want %s", d.c_str(), x.toString(0).c_str(), S(w).c_str());
        dimcheck(x, addd(ua.d, ub.d, -1), "/");
        UnitAlgebra i = b0; i.invert(); c.step(); cpp_int wi = ONE * ONE / absv(vb); if ( vb < 0 ) wi = -wi;
        c.check(absv(held(i.getValue()) - wi) <= 16 + absv(wi) / p10(18), "ua-inv", "1/(%s) gives %s", d.c_str(), i.toString(0).c_str());
        dimcheck(i, addd(Dim(), ub.d, -1), "invert");
    }
    c.check(b == b0, "operand-changed", "(%s) an operator changed its right operand", d.c_str());
}
// associativity of the bookkeeping: sequences of operations on one accumulator
static void ua_seq(mc::Ctx& c)
{
    reg();
    UnitAlgebra acc("6 s");
    cpp_int n = 6, den = 1; Dim d { 1, 0, 0, 0 };
    struct T { const char* t; int v; Dim d; };
    static const std::vector<T> ts = { { "2 s", 2, { 1, 0, 0, 0 } }, { "4 B", 4, { 0, 1, 0, 0 } }, { "5 Hz", 5, { -1, 0, 0, 0 } }, { "2 Bps", 2, { -1, 1, 0, 0 } } };
    int len = c.thorough() ? 6 : 4;
    for ( int i = 0; i < len; ++i ) {
        int op = c.choose(11);
        if ( op == 8 ) { acc.invert(); std::swap(n, den); d = addd(Dim(), d, -1); c.note("invert"); }
        else if ( op == 9 ) { acc += acc; n *= 2; c.note("+=self"); }
        else if ( op == 10 ) { acc *= UnitAlgebra("1 ns"); acc *= UnitAlgebra("1 GHz"); c.note("*ns*GHz"); }
        else { auto& t = ts[op / 2]; if ( op & 1 ) { acc /= UnitAlgebra(t.t); den *= t.v; d = addd(d, t.d, -1); c.note("/%s", t.t); } else { acc *= UnitAlgebra(t.t); n *= t.v; d = addd(d, t.d, 1); c.note("*%s", t.t); } }
        c.step();
        cpp_int w = n * ONE / den;
        c.check(absv(held(acc.getValue()) - w) <= absv(w) / p10(12) + p10(9), "seq-value", "%s: %s want %s e-24", c.trace.c_str(), acc.toString(0).c_str(), S(w).c_str());
        for ( auto t : { 0, 1, 2, 5, 190, 196, 198 } ) { auto& v = units()[t];  c.check(acc.hasUnits(v.txt.empty() ? "1" : v.txt) == (v.d == d), "seq-dim", "%s: units %s, hasUnits(%s)", c.trace.c_str(), acc.toString().c_str(), v.txt.c_str()); }
        c.state(mc::mix(mc::hash(S(w)), mc::hash(acc.toString(0))));
    }
    c.nontrivial();
}

int main(int argc, char** argv)
{
    (void)EXTREME;
    return mc::run(argc, argv, { { "decimal-parse", dec_parse }, { "decimal-print", dec_print }, { "decimal-ops", dec_ops }, { "decimal-native", dec_native },
                                   { "unit-parse", ua_parse }, { "unit-reject", ua_bad }, { "unit-ops", ua_ops }, { "unit-sequences", ua_seq } });
}
