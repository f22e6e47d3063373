// P05: a one-shot runs once, at the time it was asked for.
//
// Each component of a simulation is one history of registrations with the core's one-shot manager, issued from setup,
// a clock handler, event handlers and other one-shots, over colliding times and priorities.  Many histories share one
// simulation and hence one manager.
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

static const int END = 12;
static const std::vector<std::string> WHEN = { "S", "C0[2]", "E0[1]", "E0[2]", "T0", "T1", "T2" };

struct Op { char op; int d, prio; };
static std::vector<Op> ops(bool small)
{
    std::vector<Op> v;
    for ( int prio : small ? std::vector<int> { 45, 80 } : std::vector<int> { 30, 45, 80, 90 } ) {
        for ( int d : small ? std::vector<int> { 0, 1, 3 } : std::vector<int> { 0, 1, 2, 3 } ) v.push_back({ 'o', d, prio });
        for ( int d : small ? std::vector<int> { 4, 5 } : std::vector<int> { 0, 3, 4, 5, 7 } ) v.push_back({ 'z', d, prio });
    }
    return v;
}
static CompM comp_for(const std::vector<std::pair<int, Op>>& r)
{
    CompM c;
    c.ports  = { { 0, 's' } };
    c.clocks = { { 2, 'n' } };
    // one-shots also send, so that events become due at the time the one-shot runs
    std::string s = "S>s0:3:1,s0:4:2;C0[4]>R;T0>s0:0:50;T1>s0:1:51";
    for ( size_t i = 0; i < r.size(); ++i ) s += ";" + WHEN[r[i].first] + fmt(">%c%zu:%d:%d", r[i].second.op, i, r[i].second.d, r[i].second.prio);
    c.script = s;
    return c;
}
static void add(Batch& b, const std::vector<std::pair<int, Op>>& r)
{
    // a one-shot that registers itself or a later one that registers it in a circle does not end
    for ( size_t i = 0; i < r.size(); ++i ) if ( r[i].first >= 4 && r[i].first - 4 >= (int)i ) return;
    Model m;
    m.comps = { comp_for(r) };
    b.add(m);
}
static void pairs(Ctx& c)
{
    auto  P = ops(false);
    int   w = c.choose(6);
    Op    o = c.pick(P);
    int   t = c.choose(2); // one thread, or two with independent managers
    Batch b;
    for ( int w2 = 0; w2 < 6; ++w2 )
        for ( auto& o2 : P ) add(b, { { w, o }, { w2, o2 } });
    if ( b.models.empty() ) c.discard();
    if ( t ) {
        b.opts.threads = 2;
        for ( size_t i = 0; i < b.models.size(); ++i ) b.models[i].comps[0].thread = i % 2;
    }
    b.run(c, END);
}
static void triples(Ctx& c)
{
    auto  P = ops(!c.thorough());
    int   w = c.choose(6);
    Op    o = c.pick(P);
    int   w1 = c.choose(6);
    Op    o1 = c.pick(P);
    Batch b;
    for ( int w2 = 0; w2 < 7; ++w2 )
        for ( auto& o2 : P ) add(b, { { w, o }, { w1, o1 }, { w2, o2 } });
    if ( b.models.empty() ) c.discard();
    b.run(c, END);
}
// several registrations by one handler for one time
static void same(Ctx& c)
{
    int   n = 2 + c.choose(3);
    Batch b;
    for ( int w = 0; w < 4; ++w )
        for ( int code = 0; code < (1 << (2 * n)); ++code ) {
            std::vector<std::pair<int, Op>> r;
            for ( int i = 0; i < n; ++i ) r.push_back({ w, std::vector<Op> { { 'o', 2, 80 }, { 'o', 1, 80 }, { 'z', 5, 80 }, { 'o', 2, 45 } }[(code >> (2 * i)) & 3] });
            add(b, r);
        }
    b.run(c, END);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "pairs", pairs, 60, 4 }, { "triples", triples, 60, 8 }, { "same", same, 60, 8 } });
}
