// P10: port modules see every event of their port and decide its fate.
//
// Two components exchange events over a link; scripted modules on the ports
// pass, drop, modify or replace the n-th event they see.  What every module and
// every handler saw is compared with the reference interpreter.
#include "batch.h"
#include "simlib.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

static const int END = 40;

static std::string word(int k, int n) { static const char A[] = ".dmr"; std::string s; for ( ; n; --n, k /= 4 ) s += A[k % 4]; return s; }
static int pw(int n) { int r = 1; while ( n-- ) r *= 4; return r; }

struct Shape { int ow0, ow1; char mode0, mode1; };
// c0 sends three events and answers what comes back; c1 answers everything it receives up to a value.
static Model base(const Shape& s, int primary_at = 0)
{
    Model m;
    CompM x, y;
    int   i = s.ow0 == 1 ? 10 : 0, j = s.ow1 == 1 ? 10 : 0;
    PortM p, q;
    p.idx = i; p.owner = s.ow0; p.mode = s.mode0;
    q.idx = j; q.owner = s.ow1; q.mode = s.mode1;
    x.ports = { p };
    y.ports = { q };
    x.script = fmt("S>s%d:0:1,s%d:2:2,s%d:2:3", i, i, i);
    if ( s.mode0 == 'p' ) { x.clocks = { { 3, 'n' } }; x.script += fmt(";C0>P;C0[2-3]>s%d:0:4;Q%d>s%d:0:+5000", i, i, i); }
    else x.script += fmt(";E%d[0-4000]>s%d:1:+5000", i, i);
    if ( s.mode1 == 'p' ) { y.clocks = { { 2, 'n' } }; y.script = fmt("C0>P;Q%d[0-9000]>s%d:1:+10", j, j); }
    else y.script = fmt("E%d[0-9000]>s%d:1:+10;E%d[1]>s%d:0:70", j, j, j, j);
    m.comps = { x, y };
    m.links = { { 0, i, 1, j, 2, 3 } };
    if ( primary_at ) {
        CompM z;
        z.primary = true;
        z.ports   = { { 0, 's' }, { 1, 'h' } };
        z.script  = fmt("S>s0:%d:1;E0[1]>O", primary_at);
        m.comps.push_back(z);
        m.comps[0].ports.push_back({ 5, 'h' });
        m.links.push_back({ 0, 5, 2, 1, 4, 4 });
    }
    return m;
}
// adds a module to the side; false when the port cannot take it
static bool add(Model& m, int side, int dir, const std::string& acts, int id)
{
    ModM d;
    d.id = side * 10 + id; d.port = m.comps[side].ports[0].idx; d.acts = acts;
    d.send = dir & 1; d.recv = dir & 2;
    if ( d.recv && m.comps[side].ports[0].mode == 'p' ) return false;
    m.comps[side].mods.push_back(d);
    return true;
}
static const std::vector<Shape> SH = { { 0, 0, 'h', 'h' }, { 1, 0, 'h', 'h' }, { 0, 1, 'h', 'h' }, { 2, 2, 'h', 'h' }, { 0, 0, 'h', 'p' }, { 0, 0, 'p', 'h' }, { 1, 2, 'p', 'p' } };

// one module, its first four events
static void one(Ctx& c)
{
    const Shape& s = c.pick(SH);
    int n = c.thorough() ? 5 : 4;
    Batch b;
    b.max_recs = 30000;
    for ( int side = 0; side < 2; ++side )
        for ( int dir = 1; dir < 4; ++dir )
            for ( int k = 0; k < pw(n); ++k ) { Model m = base(s); if ( add(m, side, dir, word(k, n), 1) ) b.add(m); }
    b.run(c, END);
}
// two modules anywhere, two events each
static void two(Ctx& c)
{
    const Shape& s = c.pick(SH);
    int s1 = c.choose(2), s2 = c.choose(2);
    if ( s2 < s1 ) c.discard();
    int n = c.thorough() ? 3 : 2;
    int d1 = 1 + c.choose(3), d2 = 1 + c.choose(3);
    Batch b;
    b.max_recs = 30000;
    for ( int k = 0; k < pw(n); ++k )
        for ( int l = 0; l < pw(n); ++l ) { Model m = base(s); if ( add(m, s1, d1, word(k, n), 1) && add(m, s2, d2, word(l, n), 2) ) b.add(m); }
    b.run(c, END);
}
// three modules on one port, one event each
static void three(Ctx& c)
{
    const Shape& s = c.pick(SH);
    int side = c.choose(2);
    Batch b;
    b.max_recs = 30000;
    for ( int d = 0; d < 27; ++d )
        for ( int k = 0; k < 64; ++k ) {
            if ( !c.thorough() && (d + k) % 2 ) continue;
            Model m = base(s);
            if ( add(m, side, 1 + d % 3, word(k % 4, 1), 1) && add(m, side, 1 + d / 3 % 3, word(k / 4 % 4, 1), 2) && add(m, side, 1 + d / 9, word(k / 16, 1), 3) ) b.add(m);
        }
    b.run(c, END);
}
// several threads and ranks
static void parts(Ctx& c)
{
    const Shape& s = c.pick(SH);
    int how = c.choose(3);
    int d1 = 1 + c.choose(3), d2 = 1 + c.choose(3);
    Batch b;
    b.max_recs = 30000;
    b.opts.ranks   = how == 1 ? 2 : 1;
    b.opts.threads = how == 1 ? 1 : 2;
    if ( how == 2 ) { if ( s.mode0 == 'p' || s.mode1 == 'p' ) c.discard(); b.opts.args = { "--interthread-links" }; }
    for ( int k = 0; k < 16; ++k )
        for ( int l = 0; l < 16; ++l ) {
            if ( !c.thorough() && (k + l) % 2 ) continue;
            Model m = base(s, END - 2);
            for ( auto& x : m.comps ) x.rank = x.thread = 0;
            (how == 1 ? m.comps[1].rank : m.comps[1].thread) = 1;
            if ( add(m, 0, d1, word(k, 2), 1) && add(m, 1, d2, word(l, 2), 2) ) b.add(m);
        }
    b.run(c, 0);
}
// the core's random drop module: what arrives, and what its statistics say
static void drop(Ctx& c)
{
    static const std::vector<double> PR = { 0, 0.01, 0.25, 0.5, 0.75, 1 };
    double p = c.pick(PR);
    static const Shape S[3] = { { 0, 0, 'h', 'h' }, { 1, 2, 'h', 'h' }, { 0, 0, 'h', 'h' } };
    const Shape& s = S[c.choose(3)];
    Batch b;
    b.max_recs = 30000;
    for ( uint32_t seed : { 1u, 7u, 12345u, 4294967295u } )
        for ( int dir = 1; dir < 3; ++dir )
            for ( int side = 0; side < 2; ++side )
                for ( int other = 0; other < 4; ++other ) {
                    Model m = base(s);
                    // a stream of twenty events on top
                    m.comps[0].script += fmt(";S>s%d:0:100", m.comps[0].ports[0].idx);
                    m.comps[0].clocks = { { 1, 'n' } };
                    m.comps[0].script += fmt(";C0[1-20]>s%d:0:11000", m.comps[0].ports[0].idx);
                    if ( other & 1 ) add(m, side, dir, ".m.d.r", 1);
                    ModM d;
                    d.id = side * 10 + 2; d.port = m.comps[side].ports[0].idx; d.prob = p; d.seed = seed; d.send = dir == 1; d.recv = dir == 2;
                    m.comps[side].mods.push_back(d);
                    if ( other & 2 ) add(m, side, dir, "m.d.r", 3);
                    b.add(m);
                }
    b.run(c, END);
    // counts
    Model& m = b.models[c.choose((int)b.models.size() / 8) * 8];
    m.extra_json = ",\n \"statistics_options\": {\"statisticLoadLevel\": 7, \"statisticOutput\": \"sst.statOutputCSV\", \"params\": {\"filepath\": \"stats.csv\", \"separator\": \",\"}}";
    m.options["stop-at"] = fmt("%dps", END);
    RefOpts ro; ro.stop = END; ro.horizon = 1000;
    Ref r = reference(m, ro);
    Run x = run_sim(m, {});
    c.check(!x.status && !x.timeout, "run", "simulation with statistics ended with %s: %s", x.why().c_str(), x.out.substr(0, 500).c_str());
    for ( auto& k : r.mods ) {
        if ( k.first % 10 != 2 ) continue;
        const char* names[2] = { "observed", "dropped" };
        for ( int i = 0; i < 2; ++i ) {
            long got = -1;
            for ( auto& f : x.files )
                if ( f.first.find("stats") == 0 ) {
                    auto& t = f.second;
                    for ( size_t at = 0; at < t.size(); ) {
                        size_t e = t.find('\n', at);
                        if ( e == std::string::npos ) e = t.size();
                        auto l = vs::split(t.substr(at, e - at), ',');
                        if ( l.size() > 6 && l[1].find(names[i]) != std::string::npos ) got = atol(l[6].c_str() + (l[6][0] == ' '));
                        at = e + 1;
                    }
                }
            long want = (long)(i ? k.second.second : k.second.first);
            if ( got == -1 && !want ) continue;
            c.check(got == want, "statistics", "%s: expected %ld got %ld: %s", names[i], want, got, x.files.empty() ? "" : x.files.begin()->second.c_str());
        }
    }
    c.validated();
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "one", one, 60 }, { "two", two, 60 }, { "three", three, 60 }, { "parts", parts, 60, 4 }, { "drop", drop, 60 } });
}
