// P06: the simulation ends when it should, and not before.
//
// Up to three primary components agree, withdraw and agree again at enumerated
// times (from events, clock ticks or setup); a further component keeps busy.
// One simulation per combination, under several partitionings.
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

struct Cfg { int r, t; std::vector<std::string> args; };
static const std::vector<Cfg> CFG = { { 1, 1, {} }, { 1, 2, {} }, { 2, 1, {} }, { 2, 2, {} }, { 1, 3, {} }, { 3, 1, {} }, { 1, 2, { "--interthread-links" } } };

// a history of one primary component: times at which it agrees, withdraws, agrees
struct Hist { int o1, d, o2; bool setup; };
static CompM prim(const Hist& h, char how)
{
    CompM c;
    c.primary = true;
    c.ports   = { { 0, 'h' } };
    if ( how == 'e' ) {
        c.ports.push_back({ 9, 's' });
        c.script = "S>";
        if ( h.setup ) c.script += "O,";
        if ( h.o1 ) c.script += fmt("s9:%d:1,", h.o1);
        if ( h.d ) c.script += fmt("s9:%d:2,", h.d);
        if ( h.o2 ) c.script += fmt("s9:%d:3,", h.o2);
        c.script += "s9:1:9;E9[1]>O;E9[2]>D;E9[3]>O;E9[9]>s9:4:9,s0:0:5";
    }
    else {
        c.clocks = { { 1, 'n' } };
        c.script = "S>";
        if ( h.setup ) c.script += "O,";
        c.script += "s0:0:1";
        if ( h.o1 ) c.script += fmt(";C0[%d]>O", h.o1);
        if ( h.d ) c.script += fmt(";C0[%d]>D", h.d);
        if ( h.o2 ) c.script += fmt(";C0[%d]>O", h.o2);
    }
    return c;
}

static const std::vector<Hist> HIST = { { 3, 0, 0, false }, { 7, 0, 0, false }, { 12, 0, 0, false }, { 3, 5, 9, false }, { 4, 4, 4, false }, { 5, 6, 7, false }, { 6, 6, 13, false }, { 0, 0, 0, true },
    { 0, 2, 8, true }, { 21, 0, 0, false }, { 2, 11, 12, false } };

static void ends(Ctx& c)
{
    const Cfg& k  = CFG[c.choose(c.thorough() ? 7 : 5)];
    int        n  = 1 + c.choose(3);
    char       how = "ec"[c.choose(2)];
    static const std::vector<std::pair<int, int>> L = { { 2, 3 }, { 9, 9 }, { 40, 40 } };
    auto l = L[c.choose(3)];
    std::vector<Hist> hs;
    for ( int i = 0; i < n; ++i ) hs.push_back(HIST[c.choose(n == 3 ? 5 : (int)HIST.size())]);
    int stop = c.pick({ 0, 10 });
    if ( n == 3 && !c.thorough() && (how == 'c' || l.first == 9) ) c.discard();
    if ( !c.thorough() && k.r * k.t > 1 && n == 2 && l.first == 9 ) c.discard();
    // a parallel run notices the agreement at a synchronisation; the stop time must not come first
    if ( stop && k.r * k.t > 1 && l.first != 2 ) c.discard();
    int  spread = c.choose(k.r * k.t > 1 ? 2 : 1);
    Model m;
    CompM hub;
    hub.clocks = { { 3, 'n' } };
    hub.script = "S>s0:1:0;E0[0-50]>s0:1:+1;E1>s1:0:7";
    for ( int i = 0; i < n; ++i ) hub.ports.push_back({ i, 'h' });
    if ( how == 'c' ) hub.script = "C0[1-20]>s0:2:1;E0>g";
    hub.script = how == 'c' ? "C0[1-20]>s0:2:1" : hub.script;
    for ( int i = 0; i < n; ++i ) {
        m.comps.push_back(prim(hs[i], how));
        m.links.push_back({ i, 0, n, i, l.first, l.second });
    }
    m.comps.push_back(hub);
    for ( size_t i = 0; i < m.comps.size(); ++i ) {
        int p             = spread ? (int)((m.comps.size() - 1 - i) % (k.r * k.t)) : (int)(i / 2 % (k.r * k.t));
        m.comps[i].rank   = p / k.t;
        m.comps[i].thread = p % k.t;
    }
    Batch b;
    b.opts.ranks   = k.r;
    b.opts.threads = k.t;
    b.opts.args    = k.args;
    b.check_time   = true;
    if ( stop ) m.options["stop-at"] = fmt("%dps", stop);
    b.stop         = stop;
    b.add(m);
    b.run(c, 0);
}

// models that are not connected to each other, each on a thread of its own: each ends by its own agreement and the simulation
// ends with the last one
static void apart(Ctx& c)
{
    static const std::vector<Cfg> K = { { 1, 2, {} }, { 2, 1, {} }, { 1, 3, {} }, { 2, 2, {} } };
    const Cfg& k   = K[c.choose(4)];
    char       how = "ec"[c.choose(2)];
    int        n   = k.r * k.t;
    std::vector<Model> ms;
    Model all;
    int64_t end = 0;
    std::vector<Ref> refs;
    for ( int i = 0; i < n; ++i ) {
        Hist h = HIST[c.choose(i < 2 ? (int)HIST.size() : 3)];
        Model m;
        m.comps.push_back(prim(h, how));
        CompM hub;
        hub.ports  = { { 0, 'h' } };
        hub.clocks = { { 3, 'n' } };
        hub.script = how == 'c' ? "C0[1-20]>s0:2:1" : "S>s0:1:0;E0[0-50]>s0:1:+1;E1>s1:0:7";
        m.comps.push_back(hub);
        m.links.push_back({ 0, 0, 1, 0, 2, 3 });
        RefOpts ro;
        ro.lag = 60;
        Ref r = reference(m, ro);
        if ( !r.ok ) c.discard();
        end = std::max<int64_t>(end, r.end);
        refs.push_back(r);
        for ( auto& x : m.comps ) { x.rank = i / k.t; x.thread = i % k.t; all.comps.push_back(x); }
        auto l = m.links[0];
        l.a += 2 * i; l.b += 2 * i;
        all.links.push_back(l);
    }
    Opts o;
    o.ranks   = k.r;
    o.threads = k.t;
    Run run   = run_sim(all, o);
    c.check(!run.status && !run.timeout, "run", "simulation ended with %s: %s", run.why().c_str(), run.out.substr(run.out.size() > 600 ? run.out.size() - 600 : 0).c_str());
    std::string t = end ? fmt("simulated time: %lld ps\n", (long long)end) : "simulated time: 0 s";
    size_t p = run.out.find("simulated time:");
    c.check(run.out.find(t) != std::string::npos, "end-time", "reported end of simulation: expected %s got %s", t.c_str(), p == std::string::npos ? "" : run.out.substr(p, 40).c_str());
    for ( int i = 0; i < n; ++i ) {
        std::vector<vs::Rec> mine;
        for ( auto r : run.recs ) if ( r.comp / 2 == i ) { r.comp -= 2 * i; mine.push_back(r); }
        // what happens after the end carries the end time of the whole simulation or of the thread
        auto late = [](const vs::Rec& r) { return r.kind == 'K' || r.kind == 'F'; };
        for ( auto v : { &mine, &refs[i].recs } ) v->erase(std::remove_if(v->begin(), v->end(), late), v->end());
        auto want = lines(refs[i].recs, refs[i].end), got = lines(mine, refs[i].end);
        std::string d = diff(want, got);
        c.check(d.empty(), "observed", "model %d: %s", i, d.c_str());
        c.step(refs[i].steps);
        for ( auto& w : want ) { std::string s; for ( auto& x : w.second ) s += x + "|"; c.state(mc::hash(s)); }
    }
    c.validated(1);
    c.nontrivial();
    c.note("%s", all.describe().c_str());
}

// The threads reach their agreement in either wall-clock order, whatever the simulated times: every order of the waits.
static void order(Ctx& c)
{
    static const std::vector<Cfg> K = { { 1, 2, {} }, { 1, 3, {} }, { 2, 2, {} }, { 1, 2, { "--interthread-links" } } };
    const Cfg& k  = K[c.choose(4)];
    int        n  = k.r * k.t;
    bool connected = c.flip();
    if ( !connected && !k.args.empty() ) c.discard();
    static const int T[] = { 3, 9, 6, 12 }, W[] = { 0, 4, 8, 12 };
    // each component: an agreement time and a place in the wall-clock order
    std::vector<int> pt(n), pw(n);
    for ( int i = 0; i < n; ++i ) { pt[i] = i; pw[i] = i; }
    int a = c.choose(n == 2 ? 2 : n == 3 ? 6 : 24), b = c.choose(n == 2 ? 2 : n == 3 ? 6 : 24);
    while ( a-- ) std::next_permutation(pt.begin(), pt.end());
    while ( b-- ) std::next_permutation(pw.begin(), pw.end());
    if ( n == 4 && !c.thorough() && (pt[0] + 2 * pt[1] + pw[0]) % 4 ) c.discard();
    Model m;
    int64_t end = 0;
    for ( int i = 0; i < n; ++i ) {
        CompM x;
        x.primary = true;
        if ( connected ) x.ports = { { 0, 'h' }, { 1, 'h' } };
        x.ports.push_back({ 9, 's' });
        x.script = fmt("S>s9:%d:1,s9:1:2;E9[1]>W%d,O;E9[2]>s9:2:2", T[pt[i]], W[pw[i]]);
        x.rank   = i / k.t;
        x.thread = i % k.t;
        end      = std::max<int64_t>(end, T[pt[i]]);
        if ( connected ) m.links.push_back({ i, 1, (i + 1) % n, 0, 20, 20 });
        m.comps.push_back(x);
    }
    RefOpts ro;
    ro.lag  = 30;
    Ref ref = reference(m, ro);
    if ( !ref.ok ) c.fail("harness", "reference: %s", ref.why.c_str());
    Opts o;
    o.ranks   = k.r;
    o.threads = k.t;
    o.args    = k.args;
    Run run   = run_sim(m, o);
    c.check(!run.status && !run.timeout, "run", "simulation ended with %s: %s", run.why().c_str(), run.out.substr(run.out.size() > 600 ? run.out.size() - 600 : 0).c_str());
    std::string t = fmt("simulated time: %lld ps\n", (long long)end);
    size_t p = run.out.find("simulated time:");
    c.check(run.out.find(t) != std::string::npos, "end-time", "reported end of simulation: expected %s got %s", t.c_str(), p == std::string::npos ? "" : run.out.substr(p, 40).c_str());
    if ( connected ) {
        std::string d = diff(lines(ref.recs, end), lines(run.recs, end));
        c.check(d.empty(), "observed", "%s", d.c_str());
    }
    c.step(ref.steps);
    c.state(mc::hash(m.describe()));
    c.validated(1);
    c.nontrivial();
    c.note("%s", m.describe().c_str());
}

// no primary component: the stop time alone ends the simulation
static void stopped(Ctx& c)
{
    const Cfg& k = CFG[c.choose(7)];
    static const std::vector<std::pair<int, int>> L = { { 2, 3 }, { 9, 9 }, { 40, 40 } };
    auto l    = L[c.choose(3)];
    int  stop = c.pick({ 1, 2, 9, 10, 17, 40, 41 });
    char how  = "ecb"[c.choose(3)];
    int  n    = 1 + c.choose(3);
    Model m;
    for ( int i = 0; i <= n; ++i ) {
        CompM x;
        x.ports = { { 0, 'h' }, { 1, 'h' }, { 9, 's' } };
        if ( how != 'c' ) x.script += fmt("S>s9:%d:1;E9[1-60]>s9:%d:+1", i + 1, i + 1);
        if ( how != 'e' ) x.clocks = { { i + 1, 'n' } };
        if ( how == 'c' ) x.script += "S>s9:1:1;C0[1-20]>s9:0:1,s0:0:2";
        else x.script += ";E9[4]>s0:1:5,s1:2:6";
        x.script += ";E0>g;E1>g";
        m.comps.push_back(x);
    }
    for ( int i = 0; i <= n; ++i ) m.links.push_back({ i, 1, (i + 1) % (n + 1), 0, l.first, l.second });
    for ( int i = 0; i <= n; ++i ) { int p = i % (k.r * k.t); m.comps[i].rank = p / k.t; m.comps[i].thread = p % k.t; }
    m.options["stop-at"] = fmt("%dps", stop);
    Batch b;
    b.opts.ranks   = k.r;
    b.opts.threads = k.t;
    b.opts.args    = k.args;
    b.check_time   = true;
    b.stop         = stop;
    b.add(m);
    b.run(c, 0);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "ends", ends, 60, 4 }, { "stopped", stopped, 60, 4 }, { "apart", apart, 60, 4 }, { "order", order, 60, 4 } });
}
