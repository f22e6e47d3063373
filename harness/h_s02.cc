// S02: statistics are written at the configured times, once, for the enabled ones.
//
// The components log every addition and every change of a statistic; from these logs and the configuration the expected
// rows follow by a small interpreter, and they are compared with the rows of the CSV files of the run.
#include "batch.h"
#include <algorithm>
#include <cinttypes>
#include <set>
using namespace sl;
using mc::Ctx;
using mc::fmt;

struct Part { int r, t; };
struct Row
{
    int64_t  t = 0;
    uint64_t sum = 0, sq = 0, n = 0, mn = 0, mx = 0;
    bool operator==(const Row& o) const { return t == o.t && sum == o.sum && sq == o.sq && n == o.n && mn == o.mn && mx == o.mx; }
    std::string str() const { return fmt("t=%ld sum=%lu sumsq=%lu n=%lu min=%lu max=%lu", (long)t, (unsigned long)sum, (unsigned long)sq, (unsigned long)n, (unsigned long)mn, (unsigned long)mx); }
};
// one statistic object and the (component, index) pairs that feed it
struct Stat
{
    std::string comp, name;                       // as they appear in the rows
    std::string alt;                              // another component name they may appear under
    std::vector<std::pair<int, int>> feeds;
    int64_t     period = 0, limit = 0;            // output period / number of additions; 0 only at the end
    int64_t     start = 0, stop = 0;
    bool        reset = false;
    std::string file = "stats.csv";
    std::string desc;
};
using Key = std::pair<std::string, std::string>;

// what follows for one statistic from the logs; rows at the times of all[] are asked for by another component
static std::vector<Row> expect(const Stat& s, const std::vector<vs::Rec>& recs, int64_t end, bool at_end)
{
    std::vector<const vs::Rec*> in;
    for ( auto& r : recs )
        if ( r.kind == 't' || r.kind == 'y' || (r.comp >= 1000 && (r.kind == 'A' || r.kind == 'B')) )
            for ( auto& f : s.feeds ) if ( f.first == r.comp && f.second == r.i ) { in.push_back(&r); break; }
    std::stable_sort(in.begin(), in.end(), [](auto* a, auto* b) { return a->t < b->t; });
    std::vector<Row> out;
    uint64_t sum = 0, sq = 0, n = 0, mn = UINT64_MAX, mx = 0, since = 0;
    bool     on = s.start == 0, final = true;
    auto row = [&](int64_t t, bool last) {
        out.push_back(Row { t, sum, sq, n, n ? mn : 0, n ? mx : 0 });
        if ( last ) return;
        if ( s.limit || !s.period ) since = 0;
        if ( s.reset ) { sum = sq = n = since = mx = 0; mn = UINT64_MAX; }
    };
    auto add = [&](uint64_t v, uint64_t k, int64_t t) {
        if ( !on ) return;
        sum += v * k; sq += v * v * k; n += k; since += k;
        mn = std::min(mn, v); mx = std::max(mx, v);
        if ( s.limit && since >= (uint64_t)s.limit ) row(t, false);
    };
    size_t  at   = 0;
    auto take = [&](const vs::Rec& r) {
        int64_t t = (int64_t)r.t;
        if ( r.kind != 'y' ) { add((uint64_t)r.a, 1, t); return; }
        switch ( r.a ) {
        case 0: on = false; break;
        case 1: on = true; break;
        case 2: final = false; break;
        case 4: final = true; break;
        case 3: sum = sq = n = since = mx = 0; mn = UINT64_MAX; break;
        case 5: row(t, false); break;
        default: add(3, (uint64_t)r.a - 100, t); break;
        }
    };
    size_t fin = in.size();                       // what happens in finish() comes last
    for ( int64_t t = 0; t <= end; ++t ) {
        for ( ; at < fin && (int64_t)in[at]->t <= t && in[at]->rank != 0xffffffffu; ++at ) take(*in[at]);
        if ( t == 0 || (t == end && !at_end) ) continue;
        if ( s.start == t ) on = true;
        if ( s.stop == t ) on = false;
        if ( s.period && t % s.period == 0 ) row(t, false);
    }
    for ( ; at < in.size(); ++at ) take(*in[at]);
    if ( final ) row(end, true);
    return out;
}

// the rows of a CSV file
static std::map<Key, std::vector<Row>> parse(Ctx& c, const std::map<std::string, std::string>& files, const std::string& name, int ranks)
{
    std::map<Key, std::vector<Row>> out;
    for ( int r = 0; r < ranks; ++r ) {
        std::string f = name;
        if ( ranks > 1 ) f.insert(f.find('.'), fmt("_%d", r));
        auto it = files.find(f);
        c.check(it != files.end(), "file", "no file %s", f.c_str());
        std::vector<std::string> head;
        for ( auto& l : vs::split(it->second, '\n') ) {
            if ( l.empty() ) continue;
            auto v = vs::split(l, ',');
            if ( head.empty() ) {
                head = v;
                c.check(head.size() >= 6 && head[0] == "ComponentName" && head[4] == "SimTime", "header", "header '%s'", l.c_str());
                continue;
            }
            c.check(v.size() == head.size(), "columns", "%s: row '%s' has %zu columns, the header %zu", f.c_str(), l.c_str(), v.size(), head.size());
            Row  x;
            x.t = atoll(v[4].c_str());
            auto get = [&](const char* n) { for ( size_t i = 6; i < head.size(); ++i ) if ( head[i].find(n) == 0 ) return (uint64_t)strtoull(v[i].c_str(), nullptr, 10); return (uint64_t)0; };
            x.sum = get("Sum."); x.sq = get("SumSQ."); x.n = get("Count."); x.mn = get("Min."); x.mx = get("Max.");
            c.check(atoi(v[5].c_str()) == r, "rank-column", "%s: row '%s'", f.c_str(), l.c_str());
            out[{ v[0], v[1] }].push_back(x);
        }
    }
    return out;
}
static std::string show(const std::vector<Row>& v) { std::string s; for ( auto& r : v ) s += "[" + r.str() + "] "; return s.empty() ? "none" : s; }

// marks the records of finish(), which come after everything else
static void mark_finish(std::vector<vs::Rec>& r)
{
    std::map<int, bool> fin;
    for ( auto& x : r ) {
        if ( x.kind == 'F' ) fin[x.comp] = true;
        if ( fin[x.comp] && (x.kind == 't' || x.kind == 'y') ) x.rank = 0xffffffffu;
    }
}
static std::string tail(const Run& r) { size_t p = r.out.find("FATAL"); return r.out.substr(p != std::string::npos ? p : r.out.size() > 600 ? r.out.size() - 600 : 0).substr(0, 600); }

// runs the model and compares every file; end_at: stop-at time, or -1 (the end is the time of finish(), serial runs)
static void judge(Ctx& c, const Model& m, const Part& k, const std::vector<Stat>& stats, std::vector<std::string> outs = { "stats.csv" }, std::vector<std::string> args = {})
{
    Opts o;
    o.ranks   = k.r;
    o.threads = k.t;
    o.limit   = 15;
    o.args    = args;
    Run r = run_sim(m, o);
    c.check(!r.status && !r.timeout, "run", "simulation ended with %s: %s", r.why().c_str(), tail(r).c_str());
    int64_t end = -1;
    for ( auto& x : r.recs ) if ( x.kind == 'F' ) end = std::max<int64_t>(end, x.a);
    bool at_end = m.options.count("stop-at") == 0; // rows at the end time itself are written before an agreed end only
    mark_finish(r.recs);
    size_t rows = 0;
    for ( auto& f : outs ) {
        auto got = parse(c, r.files, f, k.r);
        std::set<Key> known;
        for ( auto& s : stats ) {
            if ( s.file != f ) continue;
            Key key { s.comp, s.name };
            known.insert(key);
            auto want = expect(s, r.recs, end, at_end);
            auto it   = got.find(key);
            if ( it == got.end() && !s.alt.empty() ) {
                known.insert({ s.alt, s.name });
                it = got.find({ s.alt, s.name });
            }
            static const std::vector<Row> none;
            auto g = it == got.end() ? none : it->second;
            rows += g.size();
            if ( at_end ) {
                // the agreement is acted upon after the next activity: periodic rows past the end are left open
                auto past = [&](std::vector<Row>& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const Row& x) { return x.t > end; }), v.end()); };
                past(g);
                past(want);
                if ( s.reset && !g.empty() && !want.empty() ) { g.pop_back(); want.pop_back(); }
            }
            if ( want == g ) continue;
            // tell apart what differs
            size_t i = 0;
            while ( i < want.size() && i < g.size() && want[i] == g[i] ) ++i;
            const char* sig = g.size() == want.size() && g[i].t == want[i].t ? "values" : "rows";
            std::string feed;
            for ( auto& x : r.recs )
                if ( x.kind != 'E' ) for ( auto& q : s.feeds ) if ( q.first == x.comp && q.second == x.i ) feed += fmt("%lu:%c%ld ", (unsigned long)x.t, x.kind, (long)x.a);
            c.fail(sig, "%s %s in %s (%s), %d ranks %d threads, end %ld, fed %s: wrote %s, expected %s", s.comp.c_str(), s.name.c_str(), f.c_str(), s.desc.c_str(), k.r, k.t, (long)end, feed.c_str(),
                show(g).c_str(), show(want).c_str());
        }
        for ( auto& g : got ) c.check(known.count(g.first), "not-enabled", "%s has rows for %s %s, which is not enabled there: %s", f.c_str(), g.first.first.c_str(), g.first.second.c_str(), show(g.second).c_str());
    }
    c.validated(stats.size());
    c.step(rows);
    c.nontrivial();
}

static std::string csv(const char* file) { return fmt("\"statistic_output\": \"sst.statOutputCSV\", \"params\": {\"filepath\": \"%s\", \"separator\": \",\"}", file); }
static void top(Model& m, int level, const std::string& more = "") { m.extra_json = fmt(",\n \"statistics_options\": {\"statistic_load_level\": %d, %s}", level, csv("stats.csv").c_str()) + more; }
static void place(Model& m, const Part& k)
{
    for ( size_t i = 0; i < m.comps.size(); ++i ) {
        int p = (int)(i % (size_t)(k.r * k.t));
        m.comps[i].rank   = p / k.t;
        m.comps[i].thread = p % k.t;
    }
}
// a ring, so that every partition takes part in the synchronisations
static void ring(Model& m)
{
    size_t n = m.comps.size();
    if ( n < 2 ) return;
    for ( size_t i = 0; i < n; ++i ) {
        m.comps[i].ports.push_back({ 20, 'h' });
        m.comps[i].ports.push_back({ 21, 'h' });
        m.links.push_back({ (int)i, 20, (int)((i + 1) % n), 21, 3, 3 });
    }
}
struct Rate { const char* text; int64_t period, limit; };
static const std::vector<Rate> RATES = { { "0ns", 0, 0 }, { nullptr, 0, 0 }, { "1ps", 1, 0 }, { "2ps", 2, 0 }, { "3ps", 3, 0 }, { "250GHz", 4, 0 }, { "20ps", 20, 0 }, { "1event", 0, 1 }, { "2event", 0, 2 },
    { "3event", 0, 3 }, { "0event", 0, 0 } };

static std::string stat_json(Stat& s, const char* name, const Rate& r, int64_t start, int64_t stop, bool reset)
{
    s.period = r.period; s.limit = r.limit; s.start = start; s.stop = stop; s.reset = reset;
    s.desc   = fmt("rate %s startat %ld stopat %ld reset %d", r.text ? r.text : "-", (long)start, (long)stop, (int)reset);
    std::string p;
    auto put = [&](const std::string& k, const std::string& v) { p += (p.empty() ? "" : ", ") + ("\"" + k) + "\": \"" + v + "\""; };
    if ( r.text ) put("rate", r.text);
    if ( start ) put("startat", fmt("%ldps", (long)start));
    if ( stop ) put("stopat", fmt("%ldps", (long)stop));
    if ( reset ) put("resetOnOutput", "true");
    if ( p.empty() ) return fmt("{\"name\": \"%s\"}", name);
    return fmt("{\"name\": \"%s\", \"params\": {%s}}", name, p.c_str());
}
static void end_kind(Model& m, int how, int at)
{
    if ( how == 0 ) { m.options["stop-at"] = fmt("%dps", at); return; }
    CompM p;
    p.primary = true;
    p.ports   = { { 9, 's' } };
    p.script  = fmt("S>s9:%d:1;E9[1]>O", at);
    m.comps.push_back(p);
}

// every rate with every start and stop time, with and without reset, under every pattern of additions
static void times(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 } };
    const Part& k = K[c.choose(4)];
    int  mask = c.thorough() ? c.choose(256) : c.pick({ 0, 1, 2, 9, 36, 85, 170, 129, 255 });
    int  how  = k.r * k.t == 1 ? c.choose(2) : 0;
    int  end  = c.pick({ 9, 8 });
    int  more = c.choose(3);                      // 1: also additions from a clock, 2: also in setup() and finish()
    if ( !c.thorough() && k.r * k.t > 1 && (mask == 1 || mask == 2 || end == 8) ) c.discard();
    Model m;
    std::vector<Stat> st;
    std::string script;
    for ( int t = 1; t <= 8; ++t ) if ( mask >> (t - 1) & 1 ) script += fmt("S>s0:%d:%d;", t, 1 << t);
    auto adds = [&](const char* trig, const char* v) { return fmt("%s>t0:%s,t1:%s,t2:%s,t3:%s;", trig, v, v, v, v); };
    script += adds("E0", "+0");
    if ( more == 1 ) script += adds("C0", "+1000") + adds("C0[3]", "7");
    std::vector<Stat> row;
    CompM proto;
    int   idx = 0;
    auto flush = [&](std::string& js) {
        if ( !idx ) return;
        proto.extra_json = ", \"statistics\": [" + js + "]";
        m.comps.push_back(proto);
        js.clear();
        idx = 0;
    };
    std::string js;
    for ( auto& r : RATES )
        for ( int64_t start : { 0, 3, 4 } )
            for ( int64_t stop : { 0, 2, 6 } )
                for ( int reset = 0; reset < 2; ++reset ) {
                    if ( more == 2 && r.limit ) continue; // additions before the start of the simulation: left open
                    if ( !idx ) {
                        proto = CompM();
                        proto.ports = { { 0, 's' } };
                        proto.script = script + (more == 2 ? adds("S", "5") + adds("F", "9") : "");
                        if ( more == 1 ) proto.clocks = { { 2, 'n' } };
                        proto.stats = 4;
                    }
                    Stat s;
                    s.comp  = fmt("c%zu", m.comps.size());
                    s.name  = fmt("st%d", idx);
                    s.feeds = { { (int)m.comps.size(), idx } };
                    js += (js.empty() ? "" : ", ") + stat_json(s, s.name.c_str(), r, start, stop, reset);
                    st.push_back(s);
                    if ( ++idx == 4 ) flush(js);
                }
    flush(js);
    end_kind(m, how, end);
    top(m, 0);
    ring(m);
    place(m, k);
    judge(c, m, k, st);
    c.note("mask %d end %d/%d more %d %d ranks %d threads", mask, how, end, more, k.r, k.t);
}
// one statistic, or two with related rates, alone in the simulation
static void alone(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 } };
    const Part& k = K[c.choose(c.thorough() ? 2 : 1)];
    const Rate& r = RATES[c.choose((int)RATES.size())];
    const Rate& q = RATES[c.choose((int)RATES.size())];
    int64_t start = c.pick({ 0, 4 }), stop = c.pick({ 0, 6, 4 });
    if ( start && start == stop ) c.discard();    // which comes first is not specified
    bool    reset = c.flip();
    Model m;
    CompM a;
    a.ports  = { { 0, 's' } };
    a.stats  = 2;
    a.script = "S>s0:1:1;E0[0-11]>t0:+0,t1:+20,s0:1:+1;E0[4]>t0:2;E0[7]>t1:3";
    Stat s, u;
    s.comp = u.comp = "c0"; s.name = "st0"; u.name = "st1";
    s.feeds = { { 0, 0 } }; u.feeds = { { 0, 1 } };
    a.extra_json = ", \"statistics\": [" + stat_json(s, "st0", r, start, stop, reset) + ", " + stat_json(u, "st1", q, stop, start, !reset) + "]";
    m.comps = { a };
    if ( k.t > 1 ) { CompM b; b.ports = { { 0, 's' } }; m.comps.push_back(b); ring(m); }
    end_kind(m, 0, c.pick({ 10, 7 }));
    top(m, 0);
    place(m, k);
    judge(c, m, k, { s, u });
    c.note("%s / %s", s.desc.c_str(), u.desc.c_str());
}

// the component disables, enables, clears, reports and turns the final report off, in every order
static void control(Ctx& c)
{
    // one action per time 1..n; the simulation holds one component for every choice of the other actions
    static const std::vector<std::string> A = { "t%d:%v", "y%d:0", "y%d:1", "y%d:2", "y%d:3", "y%d:5", "y%d:105", "y%d:4" };
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    const Part& k = K[c.choose(c.thorough() ? 3 : 2)];
    int n  = 4;
    int a0 = c.choose((int)A.size());
    int a1 = c.thorough() || k.t == 1 ? c.choose((int)A.size()) : c.pick({ 0, 1 });
    Model m;
    std::vector<Stat> st;
    struct V { Rate r; bool reset; int64_t start; };
    static const V VS[] = { { RATES[0], false, 0 }, { RATES[3], true, 0 }, { RATES[8], false, 0 }, { RATES[8], true, 3 } };
    for ( int a2 = 0; a2 < (int)A.size(); ++a2 )
        for ( int a3 = 0; a3 < (int)A.size(); ++a3 ) {
            int   seq[] = { a0, a1, a2, a3 };
            CompM p;
            p.ports  = { { 0, 's' } };
            p.stats  = 4;
            p.script = "S>s0:1:1,s0:2:2,s0:3:3,s0:4:4,s0:5:9";
            for ( int t = 1; t <= n; ++t ) {
                p.script += fmt(";E0[%d]>", t);
                for ( int i = 0; i < 4; ++i ) {
                    std::string x = A[seq[t - 1]];
                    size_t q;
                    if ( (q = x.find("%d")) != std::string::npos ) x.replace(q, 2, fmt("%d", i));
                    if ( (q = x.find("%v")) != std::string::npos ) x.replace(q, 2, fmt("%d", 1 << (2 * t)));
                    p.script += (i ? "," : "") + x;
                }
            }
            p.script += ";E0[9]>t0:7,t1:7,t2:7,t3:7";
            std::string js;
            for ( int i = 0; i < 4; ++i ) {
                Stat s;
                s.comp  = fmt("c%zu", m.comps.size());
                s.name  = fmt("st%d", i);
                s.feeds = { { (int)m.comps.size(), i } };
                js += (i ? ", " : "") + stat_json(s, s.name.c_str(), VS[i].r, VS[i].start, 0, VS[i].reset);
                st.push_back(s);
            }
            p.extra_json = ", \"statistics\": [" + js + "]";
            m.comps.push_back(p);
        }
    end_kind(m, 0, 7);
    top(m, 0);
    ring(m);
    place(m, k);
    judge(c, m, k, st);
    c.note("first %s, %s", A[a0].c_str(), A[a1].c_str());
}

// which statistics are enabled: by name, all of them up to a level, for components, subcomponents and port modules
static void levels(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    const Part& k = K[c.choose(3)];
    int global = c.choose(8);
    Model m;
    std::vector<Stat> st;
    static const int LV[] = { 1, 2, 3, 5 };
    // masks of the statistics enabled by name, of the component and of its subcomponent; enable-all and its level (-1 none given)
    for ( int mask : { 0, 1, 4, 10, 15 } )
        for ( int all = 0; all < 2; ++all )
            for ( int lv : { -1, 0, 1, 2, 4, 5, 7 } )
                for ( int sub = 0; sub < 2; ++sub ) {
                    size_t id = m.comps.size();
                    CompM  p;
                    p.ports  = { { 0, 's' } };
                    p.script = "S>s0:1:3,s0:2:4,s0:5:6;E0>t0:+0,t1:+1,t2:+2,t3:+3,t10:+4,t11:+5,t12:+6,t13:+7";
                    p.stats  = 4;
                    p.sub_params["stats"] = "4";
                    std::string js;
                    auto owner = [&](bool is_sub) {
                        std::string j;
                        std::string comp = fmt("c%zu%s", id, is_sub ? ":s" : "");
                        if ( all || lv >= 0 ) {
                            j += ", \"statistics_options\": {";
                            std::string sep;
                            if ( all ) { j += "\"enable_all_statistics\": true, \"params\": {\"rate\": \"4ps\"}"; sep = ", "; }
                            if ( lv >= 0 ) j += sep + fmt("\"statistic_load_level\": %d", lv);
                            j += "}";
                        }
                        std::string list;
                        for ( int i = 0; i < 4; ++i ) {
                            Stat s;
                            s.comp = comp; s.name = fmt("st%d", i);
                            s.feeds = { { (int)id, i + (is_sub ? 10 : 0) } };
                            s.desc  = fmt("level %d, global %d, own %d, all %d, by name %d", LV[i], global, lv, all, mask >> i & 1);
                            if ( mask >> i & 1 ) {
                                s.period = 3;
                                if ( is_sub ) s.alt = fmt("c%zu", id);
                                list += (list.empty() ? "" : ", ") + fmt("{\"name\": \"st%d\", \"params\": {\"rate\": \"3ps\"}}", i);
                                st.push_back(s);
                            }
                            else if ( all && LV[i] <= (lv >= 0 ? lv : global) ) {
                                s.period = 4;
                                st.push_back(s);
                            }
                        }
                        if ( !list.empty() ) j += ", \"statistics\": [" + list + "]";
                        return j;
                    };
                    // the one that is not configured has none enabled
                    if ( sub ) p.sub_json = owner(true); else p.extra_json = owner(false);
                    m.comps.push_back(p);
                }
    end_kind(m, 0, 7);
    top(m, global);
    ring(m);
    place(m, k);
    judge(c, m, k, st);
    c.note("global level %d", global);
}

// statistics of port modules
static void modules(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    const Part& k = K[c.choose(3)];
    int how  = c.choose(4);                       // none / by name with parameters / by name / all
    int next = c.choose(4);                       // of the second module and of the component after it
    int rate = c.choose(4);
    static const Rate* R[] = { &RATES[0], &RATES[3], &RATES[8], &RATES[4] };
    Model m;
    std::vector<Stat> st;
    CompM a, b;
    a.ports  = { { 0, 'h' } };
    b.ports  = { { 0, 'h' }, { 1, 's' } };
    a.script = "S>s0:0:1,s0:1:2,s0:3:3,s0:5:4;G0>s0:0:9";
    b.script = "S>s1:1:1;E0>t0:+0;E1>t1:2";
    b.stats  = 2;
    auto mod = [&](ModM d, int kind, int comp, int slot) {
        Stat s;
        s.comp  = fmt("c%d.p0.%d", comp, slot);
        s.name  = "st0";
        s.feeds = { { 1000 + d.id, 0 } };
        Rate none { nullptr, 0, 0 };
        if ( kind == 0 ) d.extra_json = ", \"statistics\": []";
        if ( kind == 1 ) d.extra_json = ", \"statistics\": [" + stat_json(s, "st0", *R[rate], 2, 0, true) + "]";
        if ( kind == 2 ) d.extra_json = ", \"statistics\": [" + stat_json(s, "st0", none, 0, 0, false) + "]";
        if ( kind == 3 ) { stat_json(s, "st0", RATES[3], 0, 0, false); d.extra_json = ", \"statistics_options\": {\"enable_all_statistics\": true, \"statistic_load_level\": 3, \"params\": {\"rate\": \"2ps\"}}"; }
        if ( kind ) st.push_back(s);
        return d;
    };
    a.mods = { mod({ 1, 0, "", true, false }, how, 0, 0), mod({ 2, 0, "", true, false }, next, 0, 1) };
    b.mods = { mod({ 3, 0, "", false, true }, next, 1, 0) };
    // nothing of a module's configuration may show in the component's statistics
    Stat s;
    s.comp = "c1"; s.name = "st0"; s.feeds = { { 1, 0 } }; s.desc = "by name, no parameters";
    st.push_back(s);
    b.extra_json = ", \"statistics\": [{\"name\": \"st0\"}]";
    m.comps = { a, b };
    m.links = { { 0, 0, 1, 0, 1, 1 } };
    end_kind(m, 0, 9);
    top(m, 0);
    place(m, k);
    // the modules log arrivals as A and B
    Opts o;
    c.note("how %d/%d rate %d", how, next, rate);
    judge(c, m, k, st);
}

// groups: their own output and rate
static void groups(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 3 } };
    const Part& k = K[c.choose(4)];
    int  members = c.choose(8);                   // which of the three components are in the group
    int  which   = c.pick({ 1, 2, 3 });           // which of the two statistics
    int  freq    = c.pick({ 0, 2, 3, 5 });
    bool reset   = c.flip();
    int  own     = c.choose(3);                   // also enabled: nothing / st0 of every component / all, each with another rate
    int  order   = c.choose(2);                   // "statistics" or "components" first
    if ( !members ) c.discard();
    Model m;
    std::vector<Stat> st;
    std::string comps, list;
    for ( int i = 0; i < 2; ++i )
        if ( which >> i & 1 ) list += (list.empty() ? "" : ", ") + fmt("{\"name\": \"st%d\"%s}", i, i == 0 && reset ? ", \"params\": {\"resetOnOutput\": \"true\"}" : "");
    for ( int j = 0; j < 3; ++j ) {
        CompM p;
        p.ports  = { { 0, 's' } };
        p.stats  = 3;
        p.script = fmt("S>s0:1:%d;E0[0-60]>s0:1:+1,t0:+0,t1:+5;E0[3-70]>t2:+0", j + 1);
        bool in = members >> j & 1;
        if ( in ) comps += (comps.empty() ? "" : ", ") + fmt("\"c%d\"", j);
        if ( own == 1 ) p.extra_json = ", \"statistics\": [{\"name\": \"st0\"}, {\"name\": \"st2\", \"params\": {\"rate\": \"4ps\"}}]";
        if ( own == 2 ) p.extra_json = ", \"statistics_options\": {\"enable_all_statistics\": true, \"params\": {\"rate\": \"4ps\"}}";
        for ( int i = 0; i < 3; ++i ) {
            Stat s;
            s.comp  = fmt("c%d", j);
            s.name  = fmt("st%d", i);
            s.feeds = { { j, i } };
            bool grp = in && i < 2 && (which >> i & 1);
            bool self = own == 2 || (own == 1 && i != 1);
            if ( grp ) { s.file = "group.csv"; s.period = freq; s.reset = reset && i == 0; s.desc = fmt("group rate %d", freq); }
            else if ( self ) { s.period = own == 2 || i == 2 ? 4 : 0; s.desc = "not in the group"; }
            else continue;
            st.push_back(s);
        }
        m.comps.push_back(p);
    }
    end_kind(m, 0, 8);
    std::string g = ",\n \"statistics_group\": [{\"name\": \"g\"" + (freq ? fmt(", \"frequency\": \"%dps\"", freq) : std::string()) + ", \"output\": {\"type\": \"sst.statOutputCSV\", \"params\": {\"filepath\": \"group.csv\", \"separator\": \",\"}}";
    std::string x = ", \"statistics\": [" + list + "]", y = ", \"components\": [" + comps + "]";
    g += order ? y + x : x + y;
    g += "}]";
    ring(m);
    place(m, k);
    m.extra_json = fmt(",\n \"statistics_options\": {\"statistic_load_level\": 7, %s}", csv("stats.csv").c_str());
    // groups refer to components, which come first
    m.extra_json += g;
    c.note("members %d stats %d freq %d reset %d own %d order %d", members, which, freq, reset, own, order);
    judge(c, m, k, st, { "stats.csv", "group.csv" });
}

// several names share one statistic
static void shared(Ctx& c)
{
    const Part K[] = { { 1, 1 }, { 1, 2 }, { 2, 1 } };
    const Part& k = K[c.choose(3)];
    int  map[4];                                  // 0 not enabled, 1 own, 2 shared "x", 3 shared "y"
    for ( auto& v : map ) v = c.choose(4);
    // a statistic enabled by name on a subcomponent is kept, and named, by the component: two of one name look alike
    if ( map[0] == 1 && map[3] == 1 ) c.discard();
    const Rate& r = *std::vector<const Rate*> { &RATES[0], &RATES[3], &RATES[8] }[c.choose(3)];
    bool reset = c.flip();
    Model m;
    std::vector<Stat> st;
    CompM a;
    a.ports  = { { 0, 's' } };
    a.stats  = 3;
    a.sub_params["stats"] = "1";
    a.script = "S>s0:1:1;E0[0-9]>s0:1:+1,t0:+0;E0[0-4]>t1:+10;E0[3-7]>t2:+20;E0[2-8]>t10:+40";
    Stat x, y;
    x.comp = y.comp = "c0"; x.name = "x"; y.name = "y";
    std::string list, sub;
    for ( int i = 0; i < 4; ++i ) {
        if ( !map[i] ) continue;
        Stat s;
        std::string par = fmt("\"rate\": \"%s\"%s", r.text, reset ? ", \"resetOnOutput\": \"true\"" : "");
        std::string name = i < 3 ? fmt("st%d", i) : "st0";
        std::string& to  = i < 3 ? list : sub;
        to += to.empty() ? "" : ", ";
        std::string sh = map[i] < 2 ? "" : fmt(", \"shared\": true, \"shared_name\": \"%c\"", map[i] == 2 ? 'x' : 'y');
        to += fmt("{\"name\": \"%s\"%s, \"params\": {%s}}", name.c_str(), sh.c_str(), par.c_str());
        Stat& d = map[i] == 1 ? s : map[i] == 2 ? x : y;
        d.feeds.push_back({ 0, i < 3 ? i : 10 });
        d.period = r.period; d.limit = r.limit; d.reset = reset; d.desc = fmt("rate %s reset %d", r.text, reset);
        if ( map[i] == 1 ) { s.comp = i < 3 ? "c0" : "c0:s"; if ( i == 3 ) s.alt = "c0"; s.name = name; st.push_back(s); }
    }
    if ( !x.feeds.empty() ) st.push_back(x);
    if ( !y.feeds.empty() ) st.push_back(y);
    if ( !list.empty() ) a.extra_json = ", \"statistics\": [" + list + "]";
    if ( !sub.empty() ) a.sub_json = ", \"statistics\": [" + sub + "]";
    CompM b;
    b.ports = { { 0, 's' } };
    m.comps = { a, b };
    end_kind(m, 0, 9);
    top(m, 0);
    ring(m);
    place(m, k);
    c.note("map %d%d%d%d rate %s", map[0], map[1], map[2], map[3], r.text);
    judge(c, m, k, st);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "times", times, 120, 4 }, { "alone", alone, 120, 6 }, { "control", control, 120, 4 }, { "levels", levels, 60, 4 }, { "modules", modules, 60, 4 }, { "groups", groups, 120, 6 },
        { "shared", shared, 120, 6 } });
}
