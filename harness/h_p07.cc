// P07: the untimed phases (init, setup, complete, finish).
//
// Two or three components exchange untimed data in enumerated patterns; what each component is called with and what
// it receives in which phase is compared with the reference, and the phases of all components must not overlap.
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

struct Cfg { int r, t; std::vector<std::string> args; };
static const std::vector<Cfg> CFG = { { 1, 1, {} }, { 1, 2, {} }, { 2, 1, {} }, { 2, 2, {} }, { 1, 2, { "--interthread-links" } }, { 1, 3, {} }, { 3, 1, {} }, { 2, 3, {} } };

// the phases of different components never overlap: rank of a record in the order of phases
static void phases(Ctx& c, const Run& run)
{
    int64_t last = -1;
    vs::Rec lr {};
    for ( auto& r : run.recs ) {
        int64_t k;
        switch ( r.kind ) {
        case 'I': case 'i': k = 0 + r.a; break;
        case 'U': case 'A': case 'B': case 'P': case '!': case 'g': continue;
        case 'S': case 'x': k = 1000; break;
        case 'K': case 'k': k = 3000 + r.a; break;
        case 'F': case 'f': k = 5000; break;
        default: k = 2000; break;
        }
        if ( r.kind == 'i' || r.kind == 'k' ) k = (r.kind == 'i' ? 0 : 3000) + r.a;
        if ( k < last ) c.fail("phases-overlap", "component %d: %c%ld at %lu after component %d: %c%ld at %lu", r.comp, r.kind, (long)r.a, (unsigned long)r.t, lr.comp, lr.kind, (long)lr.a, (unsigned long)lr.t);
        if ( k > last ) { last = k; lr = r; }
    }
}

static void compare(Ctx& c, const Model& m, const Cfg& k, bool times = true)
{
    RefOpts ro;
    ro.lag  = 60;
    Ref ref = reference(m, ro);
    if ( !ref.ok ) c.fail("harness", "reference: %s", ref.why.c_str());
    Opts o;
    o.ranks   = k.r;
    o.threads = k.t;
    o.args    = k.args;
    Run run   = run_sim(m, o);
    c.step(ref.steps);
    c.check(!run.status && !run.timeout, "run", "simulation ended with %s: %s", run.why().c_str(), run.out.substr(run.out.size() > 2500 ? run.out.size() - 2500 : 0).c_str());
    phases(c, run);
    auto want = lines(ref.recs), got = lines(run.recs, ref.end);
    std::string d = diff(want, got);
    c.check(d.empty(), "observed", "%s", d.c_str());
    for ( auto& w : want ) { std::string s; for ( auto& x : w.second ) s += x + "|"; c.state(mc::hash(s)); }
    c.validated();
    c.nontrivial();
    c.note("%s", m.describe().c_str());
}
static void place(Ctx&, Model& m, const Cfg& k, int how)
{
    int n = k.r * k.t;
    for ( size_t i = 0; i < m.comps.size(); ++i ) {
        int p = how == 0 ? (int)(i % n) : how == 1 ? (int)((m.comps.size() - 1 - i) % n) : (int)(i / 2 % n);
        m.comps[i].rank   = p / k.t;
        m.comps[i].thread = p % k.t;
    }
}
static CompM node(bool primary = false)
{
    CompM c;
    c.ports = { { 0, 'h' }, { 1, 'h' } };
    if ( primary ) { c.primary = true; c.ports.push_back({ 9, 's' }); c.script = "S>s9:5:1;E9>O"; }
    else c.script = "S>s0:1:900";
    return c;
}

// every pattern of sends in the first phases of init or complete
static void pattern(Ctx& c)
{
    const Cfg& k = CFG[c.choose(c.thorough() ? 8 : 5)];
    char ph = "IK"[c.choose(2)];
    int phases = 3, place_n = c.choose(k.r * k.t > 1 ? 2 : 1);
    Model m;
    m.comps = { node(true), node() };
    for ( auto& x : m.comps ) x.ports.erase(x.ports.begin() + 1);
    // component a sends sa[p] values on port 0 in phase p
    for ( int i = 0; i < 2; ++i ) {
        for ( int p = 0; p < phases; ++p ) {
            int n = c.choose(p == 2 && k.r * k.t > 1 && !c.thorough() ? 2 : 3);
            if ( !n ) continue;
            m.comps[i].script += fmt(";%c%d>", ph, p);
            for ( int q = 0; q < n; ++q ) m.comps[i].script += fmt("%su0:%d", q ? "," : "", 100 * i + 10 * p + q);
        }
    }
    m.links.push_back({ 0, 0, 1, 0, 3, 3 });
    place(c, m, k, place_n);
    compare(c, m, k);
}

// replies: what is received in a phase is answered in the same phase, along a ring or a pair of links, from components and subcomponents
static void replies(Ctx& c)
{
    const Cfg& k = CFG[c.choose(c.thorough() ? 8 : 7)];
    char ph = "IK"[c.choose(2)];
    int  shape = c.choose(5); // 0 ring of three, 1 two links between two, 2 subcomponent owns the port, 3 anonymous subcomponent, 4 polled port
    int  first = c.choose(3); // phase of the first send
    int  len   = c.choose(5); // number of hops
    bool both  = c.flip();    // the other component starts one as well
    int  pl    = c.choose(k.r * k.t > 1 ? 2 : 1);
    if ( !c.thorough() && k.r * k.t > 2 && both ) c.discard();
    Model m;
    int n = shape == 0 ? 3 : 2;
    for ( int i = 0; i < n; ++i ) {
        CompM x = node(i == 0);
        if ( shape == 2 && i == 1 ) { x.ports[0] = { 10, 'h', 1, 0, 0, 1 }; x.script = "S>s10:1:900"; }
        if ( shape == 3 && i == 1 ) x.ports[0].owner = 2;
        if ( shape == 4 && i == 1 ) x.ports[0].mode = 'p';
        m.comps.push_back(x);
    }
    if ( len ) for ( int i = 0; i < n; ++i ) {
        int in = shape == 0 ? 1 : shape == 2 && i == 1 ? 10 : 0, out = shape == 0 ? 0 : in;
        m.comps[i].script += fmt(";U%d[0-%d]>u%d:+1", in, len - 2, out);
        if ( shape == 1 ) m.comps[i].script += fmt(";U1[0-%d]>u0:+1,u1:+1", std::min(len - 2, 1));
        if ( len < 2 ) m.comps[i].script = m.comps[i].script.substr(0, m.comps[i].script.rfind(";U"));
    }
    if ( len ) m.comps[0].script += fmt(";%c%d>u0:0", ph, first);
    if ( len && shape == 1 ) m.comps[0].script += fmt(",u1:0");
    if ( both ) m.comps[1].script += fmt(";%c%d>u%d:50", ph, first ? first - 1 : 1, shape == 2 ? 10 : 0);
    // keep phases going until the first send
    for ( int p = 0; p < first; ++p ) m.comps[n - 1].script += fmt(";%c%d>u%d:70", ph, p, shape == 2 ? 10 : shape == 0 ? 1 : 0);
    if ( shape > 1 ) for ( auto& x : m.comps ) x.ports.erase(x.ports.begin() + 1);
    if ( shape == 0 ) { m.links = { { 0, 0, 1, 1, 2, 3 }, { 1, 0, 2, 1, 3, 2 }, { 2, 0, 0, 1, 4, 4 } }; }
    else if ( shape == 1 ) m.links = { { 0, 0, 1, 0, 2, 3 }, { 0, 1, 1, 1, 3, 2 } };
    else m.links = { { 0, 0, 1, shape == 2 ? 10 : 0, 2, 3 } };
    place(c, m, k, pl);
    compare(c, m, k);
}

// the same component sends in init, in the run and in complete; phases with different lengths; more than one component per thread
static void both(Ctx& c)
{
    const Cfg& k = CFG[c.choose(c.thorough() ? 8 : 6)];
    int ni = c.choose(4), nk = c.choose(4), pl = c.choose(k.r * k.t > 1 ? 3 : 1), extra = c.choose(2);
    Model m;
    for ( int i = 0; i < 4; ++i ) {
        CompM x = node(i == 0);
        if ( i ) x.script = "S>s0:1:5";
        x.script += ";E0[0-9]>s1:1:+1;E1>s1:2:20";
        for ( int p = 0; p < ni; ++p ) if ( (p + i) % 2 || p + 1 == ni ) x.script += fmt(";I%d>u0:%d,u1:%d", p, 10 * p + i, 10 * p + i + 5);
        for ( int p = 0; p < nk; ++p ) if ( (p + i) % 3 != 1 || p + 1 == nk ) x.script += fmt(";K%d>u1:%d", p, 10 * p + i);
        if ( extra ) x.clocks = { { 2, 'n' } };
        m.comps.push_back(x);
    }
    for ( int i = 0; i < 4; ++i ) m.links.push_back({ i, 0, (i + 1) % 4, 1, 1 + i % 2, 2 });
    place(c, m, k, pl);
    compare(c, m, k);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "pattern", pattern, 60, 5 }, { "replies", replies, 60, 5 }, { "both", both, 60, 5 } });
}
