// O03: watchpoints trigger exactly when their condition becomes true.
//
// "compare": every operator on every pair of variable types and boundary values, after the variables changed behind the tree.
// "watch":   every history of values and handler boundaries for conditions of up to three comparisons.
// "trace":   every history of samples for every buffer size and delay: contents, tags, trigger record and the moment of the action.
#include "mc.h"
#include <climits>
#include <cmath>
#include <cstdlib>
#include <deque>
#include <limits>
#include <memory>
#include <sstream>
#include "sst/core/impl/interactive/NumericHandle.h"
#include "sst/core/impl/interactive/ObjTreeHelpers.h"
#include "sst/core/simulation.h"
#include "sst/core/watchPoint.h"
using mc::Ctx;
using mc::fmt;
using namespace SST;
using namespace SST::Core::Serialization;
using Cmp = ObjTreeComparison;
using Op  = Cmp::Op;
static Simulation* sim;

static const Op    OPS[] = { Op::LT, Op::LTE, Op::GT, Op::GTE, Op::EQ, Op::NEQ };
static const char* ON[]  = { "<", "<=", ">", ">=", "==", "!=" };

// A variable of the model: its storage, its node in the object tree, and its value as an exact number.
struct Var
{
    int         type = 0; // 0..7 integers, 8 float, 9 double, 10 bool
    alignas(16) char mem[16] = {};
    template <class F> auto with(F&& f) {
        switch ( type ) {
        case 0: return f(*(int8_t*)mem);
        case 1: return f(*(int16_t*)mem);
        case 2: return f(*(int32_t*)mem);
        case 3: return f(*(int64_t*)mem);
        case 4: return f(*(uint8_t*)mem);
        case 5: return f(*(uint16_t*)mem);
        case 6: return f(*(uint32_t*)mem);
        case 7: return f(*(uint64_t*)mem);
        case 8: return f(*(float*)mem);
        default: return f(*(double*)mem);
        }
    }
    // The i-th boundary value of the type.
    static constexpr int NV = 6;
    void set(int i) {
        with([&](auto& v) {
            using T = std::decay_t<decltype(v)>;
            using L = std::numeric_limits<T>;
            if constexpr ( std::is_floating_point_v<T> ) { const T d[] = { (T)0, (T)1, (T)-1.5, (T)1e30, (T)0.1, (T)4294967295.0 }; v = d[i]; }
            else { const T d[] = { (T)0, (T)1, L::lowest(), L::max(), (T)(L::max() / 2 + 1), (T)-1 }; v = d[i]; }
        });
    }
    long double num() { return with([](auto& v) { return (long double)v; }); } // exact: the significand holds 64 bits
    std::string str() { return with([](auto& v) { if constexpr ( std::is_floating_point_v<std::decay_t<decltype(v)>> ) return fmt("%.17g", (double)v); else return std::to_string(v); }); }
    std::unique_ptr<ObjTreeCont> node(const char* name) {
        std::unique_ptr<ObjTreeCont> n(with([&](auto& v) -> ObjTreeCont* {
            using T = std::decay_t<decltype(v)>;
            if constexpr ( std::is_floating_point_v<T> ) return new FloatObj(v, mem); else return new IntegerObj(v, mem);
        }));
        n->setName(name);
        return n;
    }
};
static const char* TN[] = { "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float", "double" };
static bool holds(int op, long double a, long double b)
{
    switch ( op ) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; }
}
static void add(Cmp& c, std::unique_ptr<ObjTreeCont> a, Op op, std::unique_ptr<ObjTreeCont> b)
{
    c.objectsToCompare.emplace_back(std::deque<std::string> { "x" }, Cmp::valType::OBJ, std::move(a));
    c.objectsToCompare.emplace_back(std::deque<std::string> { "y" }, b ? Cmp::valType::OBJ : Cmp::valType::UNKNOWN, std::move(b));
    c.operators.push_back(op);
}

static void compare(Ctx& c)
{
    Var a, b;
    a.type = c.choose(10); b.type = c.choose(10);
    int op = c.choose(6), i = c.choose(Var::NV), j = c.choose(Var::NV);
    a.set(0); b.set(1);
    Cmp cmp;
    add(cmp, a.node("a"), OPS[op], b.node("b"));
    a.set(i); b.set(j); // the tree holds other values until it looks
    bool got = cmp.evaluateComparison(0, nullptr), want = holds(op, a.num(), b.num());
    c.check(got == want, "compare", "%s %s %s %s %s is %d", TN[a.type], a.str().c_str(), ON[op], TN[b.type], b.str().c_str(), got);
    a.set(j); b.set(i); // and again with the values of the other
    a.set(j);
    got = cmp.evaluateComparison(0, nullptr); want = holds(op, a.num(), b.num());
    c.check(got == want, "compare", "second time: %s %s %s %s %s is %d", TN[a.type], a.str().c_str(), ON[op], TN[b.type], b.str().c_str(), got);
    c.note("%d %d %d %d %d", a.type, b.type, op, i, j); c.nontrivial(); c.step(2); c.validated(2);
}

struct Act : public WatchPoint::WPAction
{
    std::function<void(WatchPoint*)> f;
    std::string actionToString() override { return "count"; }
    void invokeAction(WatchPoint* wp) override { f(wp); }
};
static void boundary(WatchPoint& w, int kind)
{
    switch ( kind ) {
    case 0: w.beforeHandler((uintptr_t)0, Cycle_t { 1 }); break;
    case 1: w.afterHandler((uintptr_t)0, true); break;
    case 2: w.beforeHandler((uintptr_t)0, (const Event*)nullptr); break;
    default: w.afterHandler((uintptr_t)0); break;
    }
}

// Conditions over x (int32) and y (double): "x op K", "x op y", "x changed", "y changed".
struct Term { int kind, op; };
static void watch(Ctx& c)
{
    static const Term TERMS[] = { { 0, 2 }, { 0, 4 }, { 1, 0 }, { 1, 5 }, { 2, 0 }, { 3, 0 } };
    int32_t x = 1; double y = 1; int32_t k = 1;
    auto    ix = [&] { auto p = std::make_unique<IntegerObj>(x, &x); p->setName("x"); return p; };
    int     n = 1 + c.choose(c.thorough() ? 3 : 2);
    auto    cmp = std::make_unique<Cmp>();
    std::vector<Term> terms;
    std::vector<int>  logic;
    std::string       log;
    for ( int i = 0; i < n; ++i ) {
        Term t = TERMS[c.choose(6)];
        if ( i ) { logic.push_back(c.choose(2)); log += logic.back() ? " or " : " and "; }
        terms.push_back(t);
        if ( t.kind == 0 ) { add(*cmp, ix(), OPS[t.op], std::make_unique<IntegerObj>(k, nullptr)); log += fmt("x %s 1", ON[t.op]); }
        else if ( t.kind == 1 ) { add(*cmp, ix(), OPS[t.op], std::make_unique<FloatObj>(y, &y)); log += fmt("x %s y", ON[t.op]); }
        else if ( t.kind == 2 ) { add(*cmp, ix(), Op::CHANGED, nullptr); log += "x changed"; }
        else { add(*cmp, std::make_unique<FloatObj>(y, &y), Op::CHANGED, nullptr); log += "y changed"; }
    }
    WatchPoint wp(0, "w", cmp.release());
    for ( int l : logic ) wp.addLogicOp(l ? WatchPoint::OR : WatchPoint::AND);
    static const unsigned MASKS[] = { WatchPoint::ALL, WatchPoint::BEFORE_CLOCK | WatchPoint::AFTER_EVENT, WatchPoint::AFTER_CLOCK, WatchPoint::BEFORE_EVENT };
    unsigned mask = MASKS[c.choose(4)];
    wp.setHandler(mask);
    int count = 0;
    auto act = std::make_unique<Act>();
    act->f = [&](WatchPoint*) { ++count; };
    wp.setAction(act.get());
    log += fmt(" handlers %u:", mask);
    std::vector<double> seen(n);
    for ( int i = 0; i < n; ++i ) seen[i] = terms[i].kind == 3 ? y : x;
    int steps = c.thorough() ? 4 : 3;
    static const unsigned BIT[] = { WatchPoint::BEFORE_CLOCK, WatchPoint::AFTER_CLOCK, WatchPoint::BEFORE_EVENT, WatchPoint::AFTER_EVENT };
    for ( int s = 0; s < steps; ++s ) {
        int v = c.choose(3), b = c.choose(4); // both variables take their values from the same small set
        if ( v == 1 ) x = x == 1 ? 2 : 1;
        if ( v == 2 ) y = y == 1 ? 2 : 1;
        log += fmt(" x=%d y=%g boundary %d", x, y, b);
        int  before = count;
        boundary(wp, b);
        bool want = false;
        if ( mask & BIT[b] ) {
            for ( int i = 0; i < n; ++i ) {
                bool r;
                const Term& t = terms[i];
                if ( t.kind == 0 ) r = holds(t.op, x, k);
                else if ( t.kind == 1 ) r = holds(t.op, x, y);
                else { double cur = t.kind == 3 ? y : x; r = cur != seen[i]; seen[i] = cur; }
                want = i == 0 ? r : logic[i - 1] ? (want || r) : (want && r);
            }
        }
        c.check(count - before == (want ? 1 : 0), "trigger", "%s: the action ran %d times, expected %d", log.c_str(), count - before, want);
    }
    c.note("%s", log.c_str()); c.nontrivial(count > 0); c.step(steps); c.validated(steps);
}

static void trace(Ctx& c)
{
    int     size = 1 + c.choose(4), delay = c.choose(4);
    bool    self = c.flip(); // the action resets the buffer itself, as the printing actions do
    int32_t x = 0, on = 0;
    auto    cmp = std::make_unique<Cmp>();
    auto    on_node = std::make_unique<IntegerObj>(on, &on);
    add(*cmp, std::move(on_node), Op::EQ, std::make_unique<IntegerObj>((int32_t)1, nullptr));
    WatchPoint         wp(0, "w", cmp.release());
    ObjTreeTraceBuffer tb(size, delay);
    wp.addTraceBuffer(&tb);
    auto xn = std::make_unique<IntegerObj>(x, &x);
    xn->setName("x");
    wp.addObjectBuffer(std::move(xn));
    wp.setHandler(WatchPoint::AFTER_EVENT);

    struct Rec { uint64_t cycle; char tag; int x; };
    std::vector<Rec> recs; // all samples since the buffer was cleared
    int      state = 0, post = 0, invoked = 0, last = -1;
    bool     reset = false;
    std::string log = fmt("size %d delay %d%s:", size, delay, self ? " (self resetting)" : "");
    auto     verify = [&](const char* when) {
        std::stringstream ss;
        tb.dumpTraceBufferT(ss);
        std::string       line;
        size_t            first = recs.size() > (size_t)size ? recs.size() - size : 0, i = first;
        for ( ; std::getline(ss, line); ++i ) {
            c.check(i < recs.size(), "trace-contents", "%s %s: more samples than taken\n%s", log.c_str(), when, ss.str().c_str());
            std::string want = fmt("AE @%llu (%c) x = %d", (unsigned long long)recs[i].cycle, recs[i].tag, recs[i].x);
            c.check(line.find(want) != std::string::npos, "trace-contents", "%s %s: sample is '%s', expected '%s'", log.c_str(), when, line.c_str(), want.c_str());
        }
        c.check(i == recs.size(), "trace-contents", "%s %s: %zu samples shown, %zu expected", log.c_str(), when, i - first, recs.size() - first);
        if ( state && last >= (int)first ) {
            std::stringstream tr;
            tb.dumpTriggerRecord(tr);
            std::string want = fmt("LastTriggerRecord:@cycle%llu: SamplesLost=", (unsigned long long)recs[last].cycle), val = fmt(": x = %d ", recs[last].x);
            c.check(tr.str().rfind(want, 0) == 0, "trigger-record", "%s %s: %s, expected %s", log.c_str(), when, tr.str().c_str(), want.c_str());
            c.check(tr.str().find(val) != std::string::npos, "trigger-value", "%s %s: %s, expected%s", log.c_str(), when, tr.str().c_str(), val.c_str());
        }
    };
    Act act;
    act.f = [&](WatchPoint* w) {
        ++invoked;
        verify("when the action runs");
        if ( self && w->checkReset() ) w->resetTraceBuffer();
    };
    wp.setAction(&act);
    int steps = c.thorough() ? 11 : 8;
    for ( int s = 0; s < steps; ++s ) {
        on = c.choose(2);
        x  = 10 + s;
        sim->currentSimCycle = 100 + 7 * s;
        log += on ? " !" : " .";
        if ( reset ) { recs.clear(); state = post = 0; last = -1; reset = false; }
        char tag = '-';
        bool act_now = false;
        if ( state == 0 && on ) { state = 1; tag = '!'; act_now = delay == 0; }
        else if ( state ) { tag = '+'; ++post; act_now = post >= delay; }
        recs.push_back({ (uint64_t)(100 + 7 * s), tag, x });
        if ( on ) last = (int)recs.size() - 1;
        int before = invoked;
        boundary(wp, 3);
        c.check(invoked - before == act_now, "trace-action", "%s: the action ran %d times, expected %d", log.c_str(), invoked - before, act_now);
        if ( act_now ) reset = true;
        if ( !(act_now && self) ) verify("after the sample");
    }
    c.note("%s", log.c_str()); c.nontrivial(invoked > 0); c.step(steps); c.validated(steps);
}

int main(int argc, char** argv)
{
    sim = (Simulation*)calloc(1, sizeof(Simulation));
    Simulation::instanceMap[std::this_thread::get_id()] = sim;
    return mc::run(argc, argv, { { "compare", compare }, { "watch", watch }, { "trace", trace } });
}
