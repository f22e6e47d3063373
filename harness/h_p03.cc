// P03: partitioning, threads and ranks do not change what a component observes.
//
// Every assignment of the components of the enumerated models to ranks and
// threads is run (ranks are processes over a shared-memory MPI stand-in) and
// compared, per component, with the reference interpreter.
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

struct Cfg { int r, t; std::vector<std::string> args; };
static const std::vector<Cfg> CFG = { { 1, 2, {} }, { 1, 2, { "--interthread-links" } }, { 2, 1, {} }, { 2, 2, {} }, { 3, 1, {} }, { 1, 3, {} }, { 2, 2, { "--interthread-links" } },
    { 1, 3, { "--interthread-links" } }, { 3, 2, {} } };

// latency profiles of up to four links, both directions
static const std::vector<std::vector<int64_t>> LAT = { { 2, 3, 2, 4, 5, 3, 7, 2 }, { 5, 5, 5, 5, 5, 5, 5, 5 }, { 7, 4, 9, 6, 4, 11, 5, 8 }, { 1, 1, 1, 1, 1, 1, 1, 1 }, { 12, 3, 3, 12, 6, 6, 10, 4 } };

// Connected models of three or four components.
static Model make(int kind, const std::vector<int64_t>& L)
{
    Model m;
    auto  add = [&](std::vector<PortM> p, const std::string& s, std::vector<ClockM> k = {}) {
        CompM c;
        c.ports  = p;
        c.script = s;
        c.clocks = k;
        m.comps.push_back(c);
    };
    auto lk = [&](int i, int a, int pa, int b, int pb) { m.links.push_back({ a, pa, b, pb, L[2 * i], L[2 * i + 1] }); };
    switch ( kind ) {
    case 0: // ring with bursts
        add({ { 0, 'h' }, { 1, 'h' } }, "S>s1:0:1,s1:0:2,s1:3:3;E0[0-60]>s1:0:+1,s0:1:+100");
        add({ { 0, 'h' }, { 1, 'h' } }, "E0[0-60]>s1:1:+1;E1[0-120]>s0:0:+200");
        add({ { 1, 'h' }, { 0, 'h' } }, "S>s1:2:40;E0[0-60]>s1:0:+1,s1:0:+1000");
        lk(0, 0, 1, 1, 0); lk(1, 1, 1, 2, 0); lk(2, 2, 1, 0, 0);
        break;
    case 1: // clocks on different periods exchange values, polled on one side
        add({ { 0, 'h' }, { 1, 'h' } }, "C0[1-15]>s0:0:7,s1:1:8;E0>s0:2:9;E1[50-60]>s1:0:3", { { 3, 'n' } });
        add({ { 0, 'h' }, { 2, 's' } }, "C0[1-9]>s0:0:50,s2:2:1;E2>s0:1:51;E0[7]>s2:0:5", { { 4, 'n' } });
        add({ { 0, 'p' } }, "C0>P;Q0[1-20]>s0:1:+50", { { 2, 'n' } });
        lk(0, 0, 0, 1, 0); lk(1, 0, 1, 2, 0);
        break;
    case 2: // star: three senders hit one receiver at the same instants
        add({ { 2, 'h' }, { 0, 'h' }, { 1, 'h' } }, "E0[0-20]>s0:0:+20;E1[0-20]>s1:0:+20,s2:0:5;E2[1-20]>s0:1:1");
        add({ { 0, 'h' } }, "S>s0:0:1,s0:4:2;E0[20-30]>s0:0:3;E0[31-99]>N0:0");
        add({ { 0, 'h' } }, "S>s0:1:1,s0:1:2;E0[20-40]>s0:2:4");
        add({ { 0, 'h' } }, "S>s0:0:1,s0:0:2;E0>s0:0:6;N0>s0:0:0");
        lk(0, 0, 0, 1, 0); lk(1, 0, 1, 2, 0); lk(2, 0, 2, 3, 0);
        break;
    case 3: // two links between the same pair, and a third component behind a subcomponent's port
        add({ { 0, 'h' }, { 1, 'h' } }, "S>s0:0:1,s1:0:2,s0:0:3;E0[0-30]>s1:0:+1;E1[0-30]>s0:0:+2");
        add({ { 0, 'h' }, { 1, 'h' }, { 12, 'h', 1, 0, 0, 1 } }, "E0[0-30]>s0:0:+1,s12:0:4;E1[0-30]>s1:0:+1,s12:3:5;E12>s0:0:40");
        add({ { 11, 'h', 1, 0, 0, 1 }, { 3, 's' } }, "E11>s3:2:+1;E3[0-20]>s11:0:60", { { 5, 'n' } });
        lk(0, 0, 0, 1, 0); lk(1, 0, 1, 1, 1); lk(2, 1, 12, 2, 11);
        break;
    case 4: // long silences: one event far in the future
        add({ { 0, 'h' } }, "S>s0:25:1,s0:0:2;E0>s0:13:3;E0[3]>s0:0:9");
        add({ { 0, 'h' }, { 1, 'h' } }, "E0[1-2]>s1:17:+1,s0:0:3;E1>s0:0:5");
        add({ { 0, 'h' } }, "E0>s0:9:+1,s0:10:7");
        lk(0, 0, 0, 1, 0); lk(1, 1, 1, 2, 0);
        break;
    }
    return m;
}

static void assign(Model& m, int code, const Cfg& k)
{
    for ( auto& c : m.comps ) {
        int p    = code % (k.r * k.t);
        c.rank   = p / k.t;
        c.thread = p % k.t;
        code /= k.r * k.t;
    }
}
static int power(int b, int e) { int r = 1; while ( e-- ) r *= b; return r; }

// All assignments of one model at once.
static void spread(Ctx& c)
{
    int kind = c.choose(5), lat = c.choose((int)LAT.size()), cf = c.choose(c.thorough() ? 9 : 7);
    const Cfg& k = CFG[cf];
    if ( kind == 1 && !k.args.empty() ) c.discard(); // polled links are not synchronised in the experimental direct mode (see DESIGN.md)
    Batch b;
    b.opts.ranks   = k.r;
    b.opts.threads = k.t;
    b.opts.args    = k.args;
    b.opts.limit   = 60;
    b.max_recs     = 40000;
    int n = power(k.r * k.t, (int)make(kind, LAT[lat]).comps.size());
    int step = n > 300 && !c.thorough() ? n / 100 | 1 : 1;
    for ( int code = 0; code < n; code += step ) {
        Model m = make(kind, LAT[lat]);
        assign(m, code, k);
        m.comps[0].primary = true; // never agrees: the stop time ends the run
        b.add(m);
    }
    b.run(c, 50);
}

// One assignment alone, ending by agreement: threads and ranks without components, and the sync interval of that cut.
static void single(Ctx& c)
{
    int cf = c.choose(c.thorough() ? 9 : 4), kind = c.choose(5), lat = c.choose(c.thorough() ? (int)LAT.size() : 2) * (c.thorough() ? 1 : 2);
    const Cfg& k = CFG[cf];
    if ( kind == 1 && !k.args.empty() ) c.discard();
    Model m = make(kind, LAT[lat]);
    int   code = c.choose(power(k.r * k.t, (int)m.comps.size()));
    if ( !c.thorough() && k.r * k.t >= 4 && (code * 7 + kind) % 3 ) c.discard();
    assign(m, code, k);
    // connected only if every partition in use is: the models are, so nothing to filter
    bool prim = c.flip();
    Batch b;
    b.opts.ranks   = k.r;
    b.opts.threads = k.t;
    b.opts.args    = k.args;
    m.comps[0].primary = true;
    if ( prim ) {
        // the first component agrees to end at its sixth event or tick, the last at its fourth
        m.comps[0].primary      = true;
        m.comps.back().primary  = true;
        m.comps[0].script      += ";G5>O";
        m.comps.back().script  += ";G3>O";
    }
    b.add(m);
    b.run(c, prim ? 0 : 41);
}

// How much is sent at once: messages around the size of the buffers between ranks, growing, shrinking and changing, in every phase.
static void sizes(Ctx& c)
{
    static const Cfg K[] = { { 2, 1, {} }, { 2, 2, {} }, { 3, 1, {} }, { 1, 2, {} } };
    const Cfg& k = K[c.choose(4)];
    int  phase = c.choose(3);              // run, init, complete
    int  step  = c.pick({ 1, 7, 16, 33, 3900 }), shape = c.choose(4), parts = 1 + c.choose(2), peer = c.choose(3);
    bool far   = k.t == 2 && c.flip();     // on different threads
    if ( !c.thorough() && parts == 2 && peer == 1 ) c.discard();
    std::vector<int> up;
    for ( int s = step == 3900 ? 60 : 3930; s < (step == 3900 ? 40000 : 4140); s += step ) up.push_back(s);
    auto seq = [&](int kind) {
        std::vector<int> v;
        for ( size_t i = 0; i < up.size(); ++i ) {
            if ( kind == 0 || kind == 2 || kind == 3 ) v.push_back(up[i]);
            if ( kind == 1 ) v.push_back(up[up.size() - 1 - i]);
            if ( kind == 2 ) v.push_back(0);
            if ( kind == 3 && i + 2 < up.size() ) v.push_back(up[i + 2]);
        }
        return v;
    };
    auto script = [&](const std::vector<int>& v, std::string s) {
        for ( size_t i = 0; i < v.size(); ++i ) {
            if ( phase == 0 ) s += fmt("%sC0[%zu]>", s.empty() ? "" : ";", i + 1);
            else s += fmt("%s%c%zu>", s.empty() ? "" : ";", phase == 1 ? 'I' : 'K', i);
            for ( int p = 0; p < parts; ++p ) {
                int64_t val = ((int64_t)(p ? v[i] - v[i] / parts : v[i] / parts) << 20) | (int64_t)(2 * i + p);
                s += phase == 0 ? fmt("%ss0:0:%ld", p ? "," : "", (long)val) : fmt("%su0:%ld", p ? "," : "", (long)val);
            }
        }
        return s;
    };
    Model m;
    CompM x, y;
    x.ports = y.ports = { { 0, 'h' } };
    x.primary = true;
    auto mine = seq(shape), other = seq(3 - shape);
    x.script = script(mine, "");
    if ( peer ) y.script = script(peer == 1 ? mine : other, "");
    if ( phase == 0 ) { x.clocks = { { 4, 'n' } }; if ( peer ) y.clocks = { { 4, 'n' } }; }
    y.rank = k.r - 1;
    y.thread = far || k.r == 1 ? 1 : 0;
    m.comps = { x, y };
    m.links = { { 0, 0, 1, 0, 3, 3 } };
    Batch b;
    b.opts.ranks   = k.r;
    b.opts.threads = k.t;
    b.opts.limit   = 60;
    b.add(m);
    b.run(c, phase == 0 ? (int)(4 * std::max(mine.size(), other.size()) + 12) : 10);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "spread", spread, 120, 3 }, { "single", single, 60 }, { "sizes", sizes, 90, 4 } });
}
