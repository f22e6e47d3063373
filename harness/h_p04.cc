// P04: clock handlers run on exactly the cycles of their period.
//
// Each component of a simulation is one history: up to three clock handlers
// (unordered or ordered, over periods 2 and 3, registered at construction or
// later) and up to three operations on them, issued from clock handlers and
// from events at chosen times.  Many components share one simulation, hence
// one Clock object per period, so histories also run against each other.
#include "simlib.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace sl;
using mc::Ctx;
using mc::fmt;

static const int END = 26;

// One place an operation can be issued from, as the trigger of a rule.
static const std::vector<std::string> WHEN = { "C0[1]", "C0[2]", "C1[2]", "C2[1]", "C1[4]", "E0[4]", "E0[5]", "E0[6]", "E0[9]", "E0[12]" };
struct Op { char op; int clk; };

static std::vector<std::vector<ClockM>> clock_sets()
{
    std::vector<std::vector<ClockM>> out;
    for ( const char* k : { "nnn", "ooo", "non", "oon", "nln", "oLo" } )
        for ( int64_t p2 : { 2, 3 } )
            out.push_back({ { 2, k[0] }, { 2, k[1] }, { p2, k[2] } });
    return out;
}

static CompM comp_for(const std::vector<ClockM>& clocks, const std::vector<std::pair<int, Op>>& ops)
{
    CompM c;
    c.clocks = clocks;
    c.ports  = { { 0, 's' } };
    std::string s = "S>s0:4:4,s0:5:5,s0:6:6,s0:9:9,s0:12:12";
    for ( auto& o : ops ) s += ";" + WHEN[o.first] + fmt(">%c%d", o.second.op, o.second.clk);
    c.script = s;
    return c;
}

static bool valid(const std::vector<ClockM>& clocks, const std::vector<std::pair<int, Op>>& ops)
{
    for ( auto& o : ops ) {
        bool late = clocks[o.second.clk].kind == 'l' || clocks[o.second.clk].kind == 'L';
        if ( o.second.op == 'n' && !late ) return false;
        if ( o.second.op == 'R' && WHEN[o.first][0] != 'C' ) return false;
        // ordered handlers are controlled through activate/deactivate only
        bool ordered = strchr("oOL", clocks[o.second.clk].kind);
        if ( ordered && (o.second.op == 'r' || o.second.op == 'x') ) return false;
    }
    return true;
}

static const std::vector<Op> OPS = { { 'R', 0 }, { 'r', 0 }, { 'r', 1 }, { 'r', 2 }, { 'x', 0 }, { 'x', 1 }, { 'x', 2 }, { 'a', 0 }, { 'a', 1 }, { 'a', 2 }, { 'd', 0 }, { 'd', 1 }, { 'd', 2 },
    { 'n', 1 }, { 'q', 1 } };

static void run_batch(Ctx& c, const std::vector<CompM>& cs, const std::vector<std::string>& args = {})
{
    Model m;
    m.comps           = cs;
    m.options         = { { "stop-at", fmt("%dps", END) } };
    RefOpts ro;
    ro.stop = END;
    // drop the histories that leave the specified domain
    std::vector<CompM> keep;
    for ( auto& x : cs ) {
        Model one;
        one.comps = { x };
        Ref r = reference(one, ro);
        if ( r.ok ) keep.push_back(x);
    }
    if ( keep.empty() ) c.discard();
    m.comps = keep;
    Ref r   = reference(m, ro);
    if ( !r.ok ) c.fail("harness", "reference: %s", r.why.c_str());
    Opts o;
    o.args    = args;
    Run run   = run_sim(m, o);
    c.step(keep.size());
    c.nontrivial();
    c.note("%zu histories, first %s", keep.size(), keep[0].script.c_str());
    if ( run.status || run.timeout ) c.fail("run", "simulation ended with %s: %s", run.why().c_str(), run.out.substr(0, 800).c_str());
    canon_clocks(m, r.recs);
    canon_clocks(m, run.recs);
    auto want = lines(r.recs, END - 1), got = lines(run.recs, END - 1);
    for ( auto& w : want ) {
        std::map<int, std::vector<std::string>> a, b;
        a[w.first] = w.second;
        b[w.first] = got[w.first];
        std::string d = diff(a, b);
        if ( !d.empty() ) {
            auto&       x = keep[w.first];
            std::string k;
            for ( auto& cl : x.clocks ) k += fmt("%ld%c ", (long)cl.period, cl.kind);
            c.fail("clock", "clocks %s script %s: %s", k.c_str(), x.script.c_str(), d.c_str());
        }
        c.validated();
        std::string all; for ( auto& s : w.second ) all += s + "|"; c.state(mc::hash(all));
    }
}

static void pairs(Ctx& c)
{
    static const auto sets = clock_sets();
    int               si   = c.choose((int)sets.size());
    int               w1   = c.choose((int)WHEN.size());
    int               w2   = c.choose((int)WHEN.size());
    if ( w2 < w1 ) c.discard();
    std::vector<CompM> cs;
    for ( auto& a : OPS )
        for ( auto& b : OPS ) {
            std::vector<std::pair<int, Op>> ops = { { w1, a }, { w2, b } };
            if ( valid(sets[si], ops) ) cs.push_back(comp_for(sets[si], ops));
        }
    run_batch(c, cs);
}

static void triples(Ctx& c)
{
    if ( !c.thorough() ) c.discard();
    static const auto sets = clock_sets();
    int si = c.choose((int)sets.size());
    int w1 = c.choose((int)WHEN.size()), w2 = c.choose((int)WHEN.size()), w3 = c.choose((int)WHEN.size());
    if ( w2 < w1 || w3 < w2 ) c.discard();
    int  slice = c.choose((int)OPS.size());
    std::vector<CompM> cs;
    for ( auto& b : OPS )
        for ( auto& d : OPS ) {
            std::vector<std::pair<int, Op>> ops = { { w1, OPS[slice] }, { w2, b }, { w3, d } };
            if ( valid(sets[si], ops) ) cs.push_back(comp_for(sets[si], ops));
        }
    if ( cs.empty() ) c.discard();
    run_batch(c, cs);
}

// one history per simulation: nothing keeps the clock running
static void alone(Ctx& c)
{
    static const auto sets = clock_sets();
    int si = c.choose((int)sets.size());
    int w1 = c.choose((int)WHEN.size()), w2 = c.choose((int)WHEN.size());
    if ( w2 < w1 ) c.discard();
    if ( !c.thorough() && ((w1 != 0 && w1 != 2 && w1 != 5) || (w2 != 1 && w2 != 4 && w2 != 6 && w2 != 9)) ) c.discard();
    Op a = OPS[c.choose((int)OPS.size())], b = OPS[c.choose((int)OPS.size())];
    std::vector<std::pair<int, Op>> ops = { { w1, a }, { w2, b } };
    if ( !valid(sets[si], ops) ) c.discard();
    // keep a third of them: the histories in which a clock loses its last handler
    if ( a.op != 'x' && a.op != 'd' && a.op != 'R' && a.op != 'n' ) c.discard();
    CompM x = comp_for(sets[si], ops);
    // the other handlers stop by themselves on their second cycle
    x.script += ";C1[2]>R;C2[2]>R";
    run_batch(c, { x });
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "pairs", pairs, 60 }, { "alone", alone, 30 }, { "triples", triples, 60 } });
}
