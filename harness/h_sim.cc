// One model from the command line:  h_sim --one <ranks> <threads>  (debugging aid)
#include "simlib.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <sys/time.h>
using namespace sl;
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
int main(int argc, char** argv)
{
    Model m;
    m.comps.resize(2);
    m.comps[0].ports = { { 0, 'h' }, { 1, 's' } };
    m.comps[0].clocks = { { 3, 'n' } };
    m.comps[0].primary = true;
    m.comps[0].script = "S>s0:1:5;E0[1-9]>s1:2:+1,s0:0:+1;E1>s0:2:+100;C0[3]>R;E0[7]>O;I0>u0:77";
    m.comps[1].ports = { { 0, 'h' } };
    m.comps[1].script = "E0>s0:0:+0;K0>u0:5";
    m.links = { { 0, 0, 1, 0, 2, 3 } };
    int R = argc > 1 ? atoi(argv[1]) : 1, T = argc > 2 ? atoi(argv[2]) : 1;
    if ( R * T > 1 ) { m.comps[1].rank = R > 1 ? 1 : 0; m.comps[1].thread = R > 1 ? 0 : 1; }
    if ( getenv("VT_KIND") ) {
        m = Model();
        CompM a; a.ports = { { 0, 'h' } }; a.script = "S>s0:0:1,s0:4:2;E0[0-9]>s0:1:+1";
        m.comps = { a, a };
        m.links = { { 0, 0, 1, 0, 2, 3 } };
        m.options = { { "stop-at", "41ps" } };
        m.comps[1].thread = 1;
    }
    Opts o;
    o.ranks = R; o.threads = T;
    for ( int i = 3; i < argc; ++i ) o.args.push_back(argv[i]);
    double t = now();
    Run r = run_sim(m, o);
    printf("%s %s %f s\n%s\n", m.describe().c_str(), r.why().c_str(), now() - t, r.out.c_str());
    auto g = lines(r.recs);
    for ( auto& k : g ) for ( auto& l : k.second ) printf("c%d: %s\n", k.first, l.c_str());
    Ref ref = reference(m, RefOpts());
    printf("reference end %lu ok %d %s\n%s\n", (unsigned long)ref.end, ref.ok, ref.why.c_str(), diff(lines(ref.recs), lines(r.recs, ref.end)).c_str());
    t = now();
    for ( int i = 0; i < 20; ++i ) run_sim(m, o);
    printf("per run %f\n", (now() - t) / 20);
}
