// P01: every sent event arrives once, on time, in order, at the right handler.
//
// Many small models (one history each) share one simulation; every component's
// record of what reached its handlers, and when, is compared with a reference
// interpreter of the same scripts.
#include "simlib.h"
#include "batch.h"
using namespace sl;
using mc::Ctx;
using mc::fmt;

static const int END = 60;

// Two components and a link: owner of each end, delivery mode, latencies, latencies added by the ends and time bases.
static void pair(Ctx& c)
{
    int  so = c.choose(3), ro = c.choose(3);
    char mode = "hp"[c.choose(2)];
    bool dflt = c.flip();
    Batch b;
    for ( int64_t la : { 1, 3 } )
        for ( int64_t lb : { 1, 2, 5 } )
            for ( int64_t sl : { 0, 2 } )
                for ( int64_t rl : { 0, 1 } )
                    for ( int64_t ts : { 1, 2 } )
                        for ( int64_t tr : { 1, 3 } )
                            for ( int sc = 0; sc < 4; ++sc ) {
                                Model m;
                                CompM x, y;
                                PortM p;
                                p.idx = so == 1 ? 10 : 0; p.owner = so; p.sendlat = sl; p.tb = ts; p.recvlat = rl; p.dflt = false;
                                PortM q;
                                q.idx = ro == 1 ? 11 : 1; q.owner = ro; q.mode = mode; q.recvlat = rl; q.sendlat = sl; q.tb = tr; q.dflt = false;
                                if ( dflt ) { p.tb = q.tb = 1; p.recvlat = 0; q.sendlat = 0; if ( ts != 1 || tr != 1 ) continue; }
                                x.ports = { p };
                                y.ports = { q };
                                static const char* S[] = { "S>s%d:0:1,s%d:1:2,s%d:0:3,N%d:2,s%d:2:4", "S>s%d:3:1,s%d:0:2,s%d:3:3,s%d:1:4,s%d:0:5", "S>c%d:3:1:1,c%d:1:2:2,s%d:1:3,c%d:0:4:4,s%d:0:5",
                                    "S>s%d:0:1;E%d[1-4]>s%d:2:+1,s%d:0:+10,N%d:0" };
                                int a = p.idx;
                                x.script = fmt(S[sc], a, a, a, a, a);
                                int bq   = q.idx;
                                if ( mode == 'h' )
                                    y.script = sc == 3 ? fmt("E%d[1-3]>s%d:1:+1,s%d:0:+20", bq, bq, bq) : fmt("E%d[1-5]>s%d:0:+10,s%d:1:+20;N%d>s%d:1:99", bq, bq, bq, bq, bq);
                                else {
                                    x.script = fmt("S>s%d:0:1,s%d:1:2,s%d:0:3,s%d:2:4,c%d:1:3:5", a, a, a, a, a);
                                    y.clocks = { { sc + 1, 'n' } };
                                    y.script = fmt("C0>P;Q%d[1-3]>s%d:0:+10", bq, bq);
                                }
                                m.comps  = { x, y };
                                m.links  = { { 0, p.idx, 1, q.idx, la, lb } };
                                b.add(m);
                            }
    b.run(c, END);
}

// Self links in their own time base, with latencies added by the component.
static void self(Ctx& c)
{
    int  ow = c.choose(3);
    char mode = "sP"[c.choose(2)];
    Batch b;
    for ( int64_t sl : { 0, 1, 4 } )
        for ( int64_t rl : { 0, 2 } )
            for ( int64_t tb : { 1, 3 } )
                for ( int64_t d1 : { 0, 1, 2 } )
                    for ( int64_t d2 : { 0, 1, 5 } )
                        for ( int ping = 0; ping < 2; ++ping ) {
                            Model m;
                            CompM x;
                            PortM p;
                            p.idx = 2; p.owner = ow; p.mode = mode; p.sendlat = sl; p.recvlat = rl; p.tb = tb;
                            x.ports = { p };
                            if ( d1 == 0 && d2 == 0 && sl + rl == 0 && ping ) continue;
                            x.script = fmt("S>s2:%ld:1,s2:%ld:2,s2:%ld:3", (long)d1, (long)d2, (long)d1);
                            if ( mode == 'P' ) { x.clocks = { { 2, 'n' } }; x.script += fmt(";C0>P;C0[1-6]>s2:%ld:7;Q2[1-2]>s2:%ld:+10", (long)d1, (long)d2); }
                            else if ( ping ) x.script += fmt(";E2[1-4]>s2:%ld:+1,s2:%ld:+10", (long)std::max<int64_t>(d1, 1), (long)d2);
                            m.comps = { x };
                            b.add(m);
                        }
    b.run(c, END);
}

// One receiver with three ports: what arrives at one instant is ordered by link, then by the order of the sends.
static void fanin(Ctx& c)
{
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    int order = c.choose(6), src = c.choose(3);
    Batch b;
    for ( int l0 : { 1, 2 } )
        for ( int l1 : { 1, 2 } )
            for ( int l2 : { 1, 3 } )
                for ( int d = 0; d < 27; ++d ) {
                    if ( !c.thorough() && (d % 2) ) continue;
                    Model m;
                    CompM r;
                    for ( int i = 0; i < 3; ++i ) { PortM p; p.idx = perm[order][i]; r.ports.push_back(p); }
                    r.ports.push_back({ 5, 's' });
                    int64_t l[3] = { l0, l1, l2 };
                    int dd[3] = { d % 3, d / 3 % 3, d / 9 };
                    r.script = "E0[1-3]>s0:1:+10,s5:1:70;E1[1-3]>s5:0:71,s5:1:72;E2[1]>s2:0:9";
                    m.comps.push_back(r);
                    if ( src == 0 ) { // three senders
                        for ( int i = 0; i < 3; ++i ) {
                            CompM s;
                            s.ports  = { { 0, 'h' } };
                            s.script = fmt("S>s0:%d:1,s0:%d:2,s0:%d:3,s0:1:4;E0>s0:0:50", dd[i], dd[(i + 1) % 3], dd[i]);
                            m.comps.push_back(s);
                            m.links.push_back({ i + 1, 0, 0, i, l[i], 2 });
                        }
                    }
                    else { // one sender with three links
                        CompM s;
                        for ( int i = 0; i < 3; ++i ) s.ports.push_back({ i, 'h' });
                        s.script = fmt("S>s2:%d:1,s0:%d:2,s1:%d:3,s0:1:4,s2:1:5,s1:1:6;E0>s1:0:50", dd[2], dd[0], dd[1]);
                        if ( src == 2 ) { s.clocks = { { 2, 'n' } }; s.script = fmt("C0[1-5]>s2:%d:1,s0:%d:2,s1:%d:3;E1>s0:0:3;E0[1-9]>s2:0:51", dd[2], dd[0], dd[1]); }
                        m.comps.push_back(s);
                        for ( int i = 0; i < 3; ++i ) m.links.push_back({ 1, i, 0, i, l[i], 1 });
                    }
                    b.add(m);
                }
    b.run(c, END);
}

// Short programs: all combinations of a few forwarding rules on a ring of three components with a chord.
static void programs(Ctx& c)
{
    static const std::vector<std::string> R = { "E0>s1:0:+1", "E0>s1:1:+1,s0:0:+3", "E0[0-4]>s0:0:+2,s1:0:+1", "E0>s1:2:+1,s1:1:+2", "E0[1-3]>s1:0:+1,s1:0:+2;E1[0-6]>s0:1:+1", "E0>N1:0;N0>s1:1:1" };
    int a = c.choose((int)R.size());
    Batch b;
    for ( size_t x = 0; x < R.size(); ++x )
        for ( size_t y = 0; y < R.size(); ++y )
            for ( int l = 0; l < 4; ++l ) {
                if ( (x == 2) + (y == 2) + (a == 2) > 1 ) continue; // would not end
                Model m;
                const std::string* rs[3] = { &R[a], &R[x], &R[y] };
                for ( int i = 0; i < 3; ++i ) {
                    CompM k;
                    k.ports  = { { 0, 'h' }, { 1, 'h' } };
                    k.script = *rs[i];
                    m.comps.push_back(k);
                }
                m.comps[0].script += ";S>s1:0:0,s1:1:1";
                m.comps[1].script += ";S>s1:0:0";
                // c_i.p1 -> c_{i+1}.p0
                static const int L[4][6] = { { 4, 4, 4, 4, 4, 4 }, { 3, 5, 4, 7, 5, 3 }, { 6, 6, 3, 3, 9, 9 }, { 5, 3, 5, 3, 5, 3 } };
                for ( int i = 0; i < 3; ++i ) m.links.push_back({ i, 1, (i + 1) % 3, 0, L[l][2 * i], L[l][2 * i + 1] });
                RefOpts ro; ro.stop = 40; ro.horizon = 200;
                Ref     r = reference(m, ro);
                if ( !r.ok || r.recs.size() > 900 ) continue;
                b.add(m);
            }
    b.run(c, 40);
}

// The same programs in other units: core time base and model unit.
static void units(Ctx& c)
{
    static const std::vector<std::pair<std::string, int64_t>> U = { { "1ps", 1 }, { "1ps", 1000 }, { "10ps", 20 }, { "100ps", 300 }, { "1ns", 2000 } };
    auto u = c.pick(U);
    Batch b;
    b.unit     = u.second;
    b.timebase = u.first;
    for ( int64_t la : { 1, 3 } )
        for ( int64_t sl : { 0, 2 } )
            for ( int64_t ts : { 1, 2 } )
                for ( int k = 0; k < 3; ++k ) {
                    Model m;
                    CompM x, y;
                    x.ports = { { 0, 'h', ts, sl, 0, 0 } };
                    y.ports = { { 0, 'h', 3, 0, sl, 0 } };
                    x.clocks = { { 2 + k, 'n' } };
                    x.script = fmt("S>s0:0:1,s0:1:2;C0[1-3]>s0:%d:5;E0[0-30]>s0:1:+1", k);
                    y.script = "E0[0-20]>s0:1:+10,s0:0:99";
                    m.comps  = { x, y };
                    m.links  = { { 0, 0, 1, 0, la, 2 } };
                    b.add(m);
                }
    b.run(c, END);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "pair", pair, 60 }, { "self", self, 60 }, { "fanin", fanin, 60 }, { "programs", programs, 60 }, { "units", units, 60 } });
}
