// P02: scripted models with ties run under each event queue and must behave as the reference says.
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

// models in which clocks, events over several links and self links, one-shots and polls fall on the same times
static void models(Ctx& c)
{
    int q = c.choose(3); // the default, both named
    int k = c.choose(6);
    static const std::vector<std::pair<int, int>> K = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    auto& p = c.pick(K);
    int direct = p.second > 1 ? c.choose(2) : 0;
    Batch b;
    for ( int la : { 1, 2, 3 } )
        for ( int lb : { 1, 2 } )
            for ( int d = 0; d < 3; ++d ) {
                Model m;
                CompM x, y;
                x.ports  = { { 0, 'h' }, { 1, 'h' }, { 2, 's' } };
                y.ports  = { { 1, 'h' }, { 0, 'h' }, { 3, 's' } };
                x.clocks = { { 1 + d, 'n' } };
                y.clocks = { { 2, 'n' } };
                switch ( k ) {
                case 0: x.script = fmt("S>s2:%d:0,s0:0:1,s1:0:2;E2[0-8]>s2:1:+1,s0:0:+10,s1:%d:+20", d, d); y.script = "E0>s1:0:+0;E1>s0:0:+0"; y.script = "E0[1-30]>s3:0:+1;E1[1-30]>s3:0:+2"; break;
                case 1: x.script = fmt("S>s0:%d:1,s1:0:2,s0:0:3,s1:%d:4;C0[1-4]>s1:0:5,s0:0:6,s2:0:7;E2>s0:0:8", d, d); y.script = "E0>o0:0:80;E1>o1:0:60;T0>s3:1:1;T1>s3:0:2"; break;
                case 2: x.script = "S>s1:2:1,s0:2:2,s1:1:3,s0:1:4,s2:0:5;E2[5-9]>s2:0:+1,s0:0:+0"; y.script = "C0[1-4]>s0:0:1,s1:0:2;E3>s0:0:3"; break;
                case 3: x.script = fmt("S>o0:2:80,o1:2:45,s2:2:1;C0[1-5]>o2:1:30,o3:0:90;T2>s0:0:1;T3>s1:%d:2", d); y.script = "E0>s3:1:1;E1>s3:1:2;E3[1]>s0:0:1;C0[3]>R"; break;
                case 4: x.script = "S>s0:0:1,s0:0:2,s0:0:3,s1:0:4,s1:0:5,s0:0:6;E0>s2:0:+1;E1>s2:0:+2"; y.script = "E0>s1:0:+10;E1>s0:0:+20"; break;
                default: x.script = "S>s2:3:1,s2:0:2,s2:3:3,s2:0:4;E2[1-20]>s2:3:+4,s0:0:+0,s2:0:+30"; y.script = "E0>g0"; y.script = "E0>s3:0:+0;C0[1-6]>s1:0:1"; break;
                }
                x.primary = true;
                x.ports.push_back({ 9, 's' });
                x.script += ";S>s9:14:1;E9>O";
                m.comps = { x, y };
                m.links = { { 0, 0, 1, 0, la, lb }, { 0, 1, 1, 1, la, lb } };
                if ( p.first * p.second > 1 ) { m.comps[1].rank = p.first - 1; m.comps[1].thread = p.second - 1; }
                b.add(m);
            }
    b.opts.ranks   = p.first;
    b.opts.threads = p.second;
    if ( q ) b.opts.args.push_back("--timeVortex=sst." + std::string(q == 1 ? "timevortex.priority_queue" : "timevortex.map.binned"));
    if ( direct ) b.opts.args.push_back("--interthread-links");
    b.run(c, 0);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "models", models, 60, 5 } });
}
