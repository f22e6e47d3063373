// P08: checkpoints and restarts.
//
// Every model runs without checkpoints, and then with a checkpoint period; the two must observe the same. Every
// checkpoint that was written is restarted (alike, or on another number of threads or ranks) and must yield the
// remainder of what the original observed.
#include "batch.h"
#include <algorithm>
#include <dirent.h>
using namespace sl;
using mc::Ctx;
using mc::fmt;

struct Cfg { int r, t; };

// a small zoo of models; each exercises something that has to survive
static std::vector<CompM> zoo(int which, std::vector<LinkM>& links, int lat)
{
    std::vector<CompM> v;
    auto prim = [](int at) {
        CompM c;
        c.primary = true;
        c.ports   = { { 9, 's' } };
        c.script  = fmt("S>s9:%d:1;E9[1]>O", at);
        return c;
    };
    CompM a, b, d;
    switch ( which ) {
    case 0: // ping-pong with several events in flight, different latencies both ways
        a.ports  = { { 0, 'h' } };
        b.ports  = { { 0, 'h' } };
        a.script = "S>s0:0:1,s0:0:2,s0:3:3;E0[0-40]>s0:1:+2;G7>s0:0:100";
        b.script = "E0[0-200]>s0:0:+1";
        links.push_back({ 0, 0, 1, 0, lat, lat + 2 });
        v = { a, b, prim(21) };
        break;
    case 1: // self links, extra latencies, ties
        a.ports  = { { 0, 's' }, { 1, 's', 2 }, { 2, 'h', 1, 1, 2 } };
        b.ports  = { { 0, 'h', 2, 0, 1 }, { 1, 's' } };
        a.script = "S>s0:5:1,s1:3:2,s2:1:3;E0[0-30]>s0:5:+1,s2:0:+1;E1[0-20]>s1:2:+1;E2>s0:1:50";
        b.script = "E0[0-60]>s0:1:+1,s1:7:+1;E1>g1";
        links.push_back({ 0, 2, 1, 0, lat, lat });
        v = { a, b, prim(23) };
        break;
    case 2: // clocks: same period, other period, ordered, one that stops and is activated again, one registered later
        a.clocks = { { 2, 'n' }, { 2, 'n' }, { 3, 'n' }, { 2, 'o' }, { 3, 'L' }, { 5, 'l' } };
        a.ports  = { { 0, 's' } };
        a.script = "S>s0:5:1,s0:11:2,s0:14:3,s0:8:4;C0[3]>R;E0[1]>r0;C2[2]>R;E0[2]>r2,q2;C3[4]>R;E0[3]>a3,q3;E0[4]>n4,n5;C1>g0;C4[4]>d4;C5[3]>R";
        b.clocks = { { 4, 'n' }, { 4, 'o' } };
        b.ports  = { { 0, 's' } };
        b.script = "S>s0:6:1,s0:13:2;E0[1]>x0,q0;E0[2]>r0,q0;C1[3]>d1";
        v = { a, b, prim(24) };
        break;
    case 3: // polled links with events waiting
        a.ports  = { { 0, 'h' }, { 1, 's' } };
        a.script = "S>s1:1:0;E1[0-15]>s1:1:+1,s0:2:+1;E0>g2";
        b.ports  = { { 0, 'p' }, { 1, 'P' }, { 2, 's' } };
        b.script = "S>s2:4:0,s1:3:70,s1:9:71,s1:16:72;E2[0-6]>P0,s2:4:+1;Q0>s0:0:+50;Q1>s1:2:+1";
        links.push_back({ 0, 0, 1, 0, lat, lat });
        v = { a, b, prim(22) };
        break;
    case 4: { // exit agreements given, withdrawn and still to come
        CompM p, q, r;
        p.primary = q.primary = r.primary = true;
        p.ports = q.ports = r.ports = { { 9, 's' }, { 0, 'h' } };
        p.script = "S>s9:3:1,s9:7:2,s9:12:1;E9[1]>O;E9[2]>D;E0[0-30]>s0:1:+1";
        q.script = "S>O,s9:5:2,s9:20:1,s0:0:1;E9[1]>O;E9[2]>D;E0[0-30]>s0:1:+1";
        r.script = "S>s9:16:1,s0:0:1;E9[1]>O";
        links.push_back({ 0, 0, 1, 0, lat, lat });
        v = { p, q, r };
        CompM s;
        s.ports  = { { 0, 'h' } };
        s.script = "E0[0-12]>s0:1:+1";
        links.push_back({ 2, 0, 3, 0, lat, 1 });
        v.push_back(s);
        v[2].script += ";E0[0-12]>s0:0:+1";
        break;
    }
    case 5: // subcomponents own the links, random generators, null events
        a.ports  = { { 10, 'h', 1, 0, 0, 1 }, { 11, 's', 1, 0, 0, 1 }, { 0, 'h' } };
        a.script = "S>s10:1:1,s11:2:1,s0:0:1;E10[0-30]>s10:1:+1,g0;E11[0-20]>s11:3:+1,g1;E0>g2,N0:2;N0>s11:1:60";
        b.ports  = { { 0, 'h', 1, 0, 0, 2 }, { 1, 'h' }, { 2, 's', 1, 0, 0, 2 } };
        b.script = "S>s2:4:1;E0>s0:0:+1;E1>N1:1;N1>s1:2:7;E2[0-20]>s2:4:+1,N1:0";
        links.push_back({ 0, 10, 1, 0, lat, lat });
        links.push_back({ 0, 0, 1, 1, lat + 1, lat });
        v = { a, b, prim(22) };
        break;
    case 6: // port modules with state
        a.ports  = { { 0, 'h' } };
        b.ports  = { { 0, 'h' }, { 1, 's' } };
        a.script = "S>s0:0:1,s0:1:2,s0:3:3;E0[0-400]>s0:1:+2";
        b.script = "E0>s0:0:+1;G9>s0:0:5;G15>s0:0:6";
        a.mods   = { { 1, 0, "..m.r.d", true, false }, { 2, 0, "...m..r..m", false, true } };
        b.mods   = { { 11, 0, ".m...d..m", false, true }, { 12, 0, "..r....m", true, false } };
        links.push_back({ 0, 0, 1, 0, lat, lat });
        v = { a, b, prim(21) };
        break;
    case 7: // statistics
        a.ports  = { { 0, 's' } };
        a.stats  = 3;
        a.script = "S>s0:1:1;E0[0-14]>s0:1:+1,t0:+3,t1:+0;E0[5-9]>t2:7;C0[0-5]>t2:+1";
        a.clocks = { { 3, 'n' } };
        b.ports  = { { 0, 's' } };
        b.stats  = 2;
        b.script = "S>s0:2:1;E0[0-7]>s0:2:+1,t1:+1,t0:4";
        v = { a, b, prim(22) };
        break;
    default: // ring of three across the partitions, clocks on each
        for ( int i = 0; i < 3; ++i ) {
            CompM x;
            x.ports  = { { 0, 'h' }, { 1, 'h' } };
            x.clocks = { { 2 + i, 'n' } };
            x.script = fmt("S>s0:%d:1;E1[0-25]>s0:1:+1;C0[2-3]>s1:0:100;E0>g0", i);
            v.push_back(x);
        }
        v.push_back(prim(22));
        links = { { 0, 0, 1, 1, lat, lat }, { 1, 0, 2, 1, lat + 1, lat }, { 2, 0, 0, 1, lat, lat + 2 } };
    }
    // every component is connected, so that all partitions take part in the synchronisations
    for ( size_t i = 0; i < v.size(); ++i ) {
        v[i].ports.push_back({ 20, 'h' });
        v[i].ports.push_back({ 21, 'h' });
        links.push_back({ (int)i, 20, (int)((i + 1) % v.size()), 21, 5, 5 });
    }
    return v;
}
static const int NZOO = 9;

static std::vector<std::string> checkpoints(const std::string& dir)
{
    std::vector<std::string> out;
    std::string base = dir + "/checkpoint";
    if ( DIR* p = opendir(base.c_str()) ) {
        while ( auto* e = readdir(p) ) {
            std::string n = e->d_name;
            if ( n[0] == '.' || n.find("config_graph") != std::string::npos ) continue;
            out.push_back(n);
        }
        closedir(p);
    }
    // checkpoint_<n>_<time>
    auto num = [](const std::string& s) { return atoi(s.c_str() + s.find('_') + 1); };
    std::sort(out.begin(), out.end(), [&](auto& a, auto& b) { return num(a) < num(b); });
    return out;
}
static std::string tail(const Run& r)
{
    size_t p = r.out.find("FATAL");
    if ( p != std::string::npos ) return r.out.substr(p, 500);
    return r.out.substr(r.out.size() > 1200 ? r.out.size() - 1200 : 0);
}
static std::string endtime(const Run& r)
{
    size_t p = r.out.find("simulated time:");
    return p == std::string::npos ? "" : r.out.substr(p, r.out.find('\n', p) - p);
}
// rows of the statistics file, without the columns that name ranks
static std::vector<std::string> stat_rows(const std::map<std::string, std::string>& files)
{
    std::vector<std::string> rows;
    for ( auto& f : files ) {
        if ( f.first.find("stats") != 0 ) continue;
        size_t at = 0;
        auto&  s  = f.second;
        while ( at < s.size() ) {
            size_t e = s.find('\n', at);
            if ( e == std::string::npos ) e = s.size();
            std::string l = s.substr(at, e - at);
            if ( l.find("ComponentName") == std::string::npos && !l.empty() ) {
                auto        f = vs::split(l, ',');
                std::string row;
                for ( size_t i = 0; i < f.size(); ++i ) if ( i != 5 ) row += f[i] + ",";
                rows.push_back(row);
            }
            at = e + 1;
        }
    }
    std::sort(rows.begin(), rows.end());
    return rows;
}
struct Restart { int r, t; bool repart; std::vector<std::string> args; };

static void roundtrip(Ctx& c, Model m, Cfg k, int period, const Restart& rs, int only, bool stats = false)
{
    RefOpts ro;
    ro.lag  = 60;
    Opts o;
    o.ranks = k.r;
    o.threads = k.t;
    o.limit = 8;
    o.args  = rs.args;
    Run a = run_sim(m, o);
    c.check(!a.status && !a.timeout, "run", "simulation ended with %s: %s", a.why().c_str(), tail(a).c_str());
    std::string dir = scratch_dir();
    struct Clean { std::string d; ~Clean() { remove_dir(d); } } clean { dir };
    Opts ob = o;
    ob.dir  = dir;
    ob.args.push_back(fmt("--checkpoint-sim-period=%dps", period));
    Run b = run_sim(m, ob);
    c.check(!b.status && !b.timeout, "run-checkpointed", "simulation with checkpoints ended with %s: %s", b.why().c_str(), tail(b).c_str());
    canon_clocks(m, a.recs);
    canon_clocks(m, b.recs);
    int64_t end = 0;
    for ( auto& r : a.recs ) if ( r.kind == 'F' ) end = std::max<int64_t>(end, r.a);
    // parallel runs go on until the next synchronisation; what runs past the end is not compared
    auto cut = [&](std::vector<vs::Rec>& v) {
        v.erase(std::remove_if(v.begin(), v.end(), [&](const vs::Rec& r) { return r.t > (uint64_t)end || r.kind == '!' || r.kind == 'P'; }), v.end());
    };
    cut(a.recs);
    cut(b.recs);
    auto la = lines(a.recs), lb = lines(b.recs);
    std::string d = diff(la, lb);
    c.check(d.empty(), "perturbs", "the run with checkpoints differs from the one without: %s", d.c_str());
    c.check(endtime(a) == endtime(b), "end-time", "with checkpoints: '%s', without: '%s'", endtime(b).c_str(), endtime(a).c_str());
    auto sa = stat_rows(a.files);
    // checkpoints and their times
    auto cps = checkpoints(dir);
    // one at every multiple of the period; one at the end itself or later may be missing or not
    size_t want_cp = (size_t)((end - 1) / period);
    c.check(cps.size() >= want_cp, "count", "%zu checkpoints of period %d until %ld: %s", cps.size(), period, (long)end, tail(b).c_str());
    int n = 0;
    for ( auto& name : cps ) {
        ++n;
        int64_t t = atoll(name.c_str() + name.rfind('_') + 1);
        c.check(t == (int64_t)n * period, "time", "checkpoint %d at %ld", n, (long)t);
        if ( t > end ) continue; // a parallel run goes on until the next synchronisation
        if ( only && n != only ) continue;
        Opts oc;
        oc.limit = 8;
        oc.ranks = rs.r;
        oc.threads = rs.t;
        oc.load  = dir + "/checkpoint/" + name + "/" + name + ".sstcpt";
        if ( rs.repart ) oc.args.push_back("--partitioner=sst.linear");
        Run x = run_sim(m, oc);
        c.check(!x.status && !x.timeout, "restart", "restart of the checkpoint at %ld ended with %s: %s", (long)t, x.why().c_str(), tail(x).c_str());
        std::vector<vs::Rec> rest;
        for ( auto& r : a.recs )
            if ( r.kind != 'P' && r.kind != '!' && r.kind != 'I' && r.kind != 'i' && r.kind != 'S' && r.kind != 'x' && (r.t >= (uint64_t)t || r.kind == 'F' || r.kind == 'f' || r.kind == 'K' || r.kind == 'k') ) rest.push_back(r);
        cut(x.recs);
        canon_clocks(m, x.recs);
        std::string d = diff(lines(rest), lines(x.recs));
        c.check(d.empty(), "continues", "restart of the checkpoint at %ld: %s", (long)t, d.c_str());
        c.check(endtime(a) == endtime(x), "end-time", "restart at %ld: '%s', original: '%s'", (long)t, endtime(x).c_str(), endtime(a).c_str());
        if ( stats ) {
            auto sx = stat_rows(x.files);
            std::vector<std::string> missing;
            for ( auto& r : sa ) {
                auto f = vs::split(r, ',');
                int64_t st = atoll(f[4].c_str());
                if ( st >= t && st <= end && !std::binary_search(sx.begin(), sx.end(), r) ) missing.push_back(r);
            }
            c.check(missing.empty(), "statistics", "restart at %ld lacks '%s'; it has %zu rows, first '%s'", (long)t, missing.empty() ? "" : missing[0].c_str(), sx.size(), sx.empty() ? "" : sx[0].c_str());
            for ( auto& r : sx ) {
                auto f = vs::split(r, ',');
                if ( atoll(f[4].c_str()) > end ) continue; // past the end, see above
                if ( !std::binary_search(sa.begin(), sa.end(), r) ) c.fail("statistics", "restart at %ld has '%s' which the original has not", (long)t, r.c_str());
            }
        }
        c.validated();
        std::string s;
        for ( auto& w : lines(x.recs) ) for ( auto& q : w.second ) s += q + "|";
        c.state(mc::hash(s));
        c.step(x.recs.size());
    }
    c.nontrivial();
    c.note("%s", m.describe().c_str());
}
static void place(Model& m, const Cfg& k, int how)
{
    int n = k.r * k.t;
    for ( size_t i = 0; i < m.comps.size(); ++i ) {
        int p = (int)((how ? m.comps.size() - 1 - i : i) % n);
        m.comps[i].rank   = p / k.t;
        m.comps[i].thread = p % k.t;
    }
}
static void add_stats(Model& m, int how)
{
    m.extra_json = ",\n \"statistics_options\": {\"statisticLoadLevel\": 7, \"statisticOutput\": \"sst.statOutputCSV\", \"params\": {\"filepath\": \"stats.csv\", \"separator\": \",\"}}";
    for ( auto& c : m.comps ) {
        if ( !c.stats ) continue;
        c.extra_json = ", \"statistics\": [";
        for ( int i = 0; i < c.stats; ++i ) {
            const char* type = how == 0 ? "sst.AccumulatorStatistic" : how == 1 ? "sst.HistogramStatistic" : "sst.UniqueCountStatistic";
            std::string par = how == 1 ? "\"minvalue\": \"0\", \"binwidth\": \"5\", \"numbins\": \"4\", \"dumpbinsonoutput\": \"1\", \"includeoutofbounds\": \"1\", " : "";
            const char* rate = i == 0 ? "0ns" : i == 1 ? "4ps" : "5ps";
            par += fmt("\"rate\": \"%s\"%s", rate, i == 2 ? ", \"resetOnOutput\": \"true\"" : "");
            c.extra_json += fmt("%s{\"name\": \"st%d\", \"params\": {\"type\": \"%s\", %s}}", i ? ", " : "", i, type, par.c_str());
        }
        c.extra_json += "]";
    }
}

// every model, every period, every checkpoint; restarted as it was
static void alike(Ctx& c)
{
    static const std::vector<Cfg> K = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 1, 3 } };
    const Cfg& k = K[c.choose(c.thorough() ? 5 : 4)];
    int z   = c.choose(NZOO);
    int lat = c.pick({ 1, 4 });
    int per = c.thorough() ? 1 + c.choose(12) : c.pick({ 1, 4, 7 });
    if ( !c.thorough() && k.r * k.t > 1 && per == 1 && lat == 4 ) c.discard();
    Model m;
    m.comps = zoo(z, m.links, lat);
    place(m, k, 0);
    if ( z == 7 ) add_stats(m, lat == 1 ? 0 : 1);
    roundtrip(c, m, k, per, { k.r, k.t, false }, 0, z == 7);
}
// restarted on another number of threads or ranks
static void other(Ctx& c)
{
    static const std::vector<Cfg> K = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 } };
    const Cfg& k = K[c.choose(4)];
    const Cfg& x = K[c.choose(4)];
    if ( k.r == x.r && k.t == x.t ) c.discard();
    int z   = c.choose(NZOO);
    int lat = c.thorough() ? c.pick({ 3, 1 }) : 3;
    int per = c.thorough() ? c.pick({ 2, 3, 5 }) : 5;
    Model m;
    m.comps = zoo(z, m.links, lat);
    place(m, k, 1);
    if ( z == 7 ) add_stats(m, 2);
    roundtrip(c, m, k, per, { x.r, x.t, x.r * x.t > 1 && x.r * x.t != k.r * k.t }, 0, z == 7);
}

// other event queues and link modes
static void queues(Ctx& c)
{
    static const std::vector<Cfg> K = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    const Cfg& k = K[c.choose(3)];
    int how = c.choose(2);
    int z   = c.choose(NZOO);
    if ( how == 1 && (k.t == 1 || z == 3) ) c.discard(); // polled links are not supported in the direct mode
    int per = c.thorough() ? c.pick({ 4, 1, 3, 5 }) : 4;
    Model m;
    m.comps = zoo(z, m.links, 2);
    place(m, k, 0);
    if ( z == 7 ) add_stats(m, 0);
    roundtrip(c, m, k, per, { k.r, k.t, false, { how ? "--interthread-links" : "--timeVortex=sst.timevortex.map.binned" } }, 0, z == 7);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "alike", alike, 120, 6 }, { "other", other, 120, 5 }, { "queues", queues, 120, 6 } });
}
