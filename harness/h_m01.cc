// M01: the JSON description written for a model builds the same model again; so does the packed form sent to other ranks.
//
// The simulator (the whole of sst_main) reads a description made from enumerated features with --output-json.  Where it writes the
// description the graph it has built is dumped and compared with what the features say; the graph is packed, unpacked and dumped, and
// the written description is read and written by a second run, which has to end with the same graph.
#include "sst_config.h"
#include "simlib.h"
#include "sst/core/config.h"
#include "sst/core/factory.h"
#include "sst/core/model/cfgoutput/jsonConfigOutput.h"
#include "sst/core/model/configGraph.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/simulation.h"
#include "sst/core/timeLord.h"
#include <algorithm>
#include <dlfcn.h>
#include <memory>
#include <unistd.h>
using mc::Ctx;
using mc::fmt;
using SST::ConfigComponent;
using SST::ConfigGraph;
using SST::ConfigLink;
using SST::ConfigStatistic;
using SST::Params;
using SST::Core::Serialization::serializer;

static bool graph_only = true;

// ---- what the description says ---------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> KV;
struct PS { KV kv; std::vector<std::string> sets; };
struct St { std::string name; KV kv; std::string shared; };
struct PM { std::string port, type; PS p; int level = -1; bool all = false; KV allp; std::vector<St> stats; };
struct El
{
    std::string name, type; int num = 0; PS p; int level = -1; bool all = false; KV allp;
    std::vector<St> stats; std::vector<PM> pms; std::vector<El> subs; int rank = -1, thread = -1;
};
struct Ln { std::string name; bool nocut; std::string a, pa; int64_t la; std::string b, pb; int64_t lb; };
struct Gr { std::string name; int64_t freq = 0; bool hertz = false; std::string out; KV outp; std::vector<St> stats; std::vector<std::string> comps; };
struct Cf
{
    KV opt; std::map<std::string, KV> shared; std::string so; KV sop; int level = -1;
    std::vector<El> comps; std::vector<Ln> links; std::vector<Gr> groups;
    int  spell = 0;                       // 1: the other spelling of the keys and the other order where the reader takes both
};

static std::string q(const std::string& s)
{
    std::string o = "\"";
    for ( unsigned char ch : s ) {
        if ( ch == '"' || ch == '\\' ) { o += '\\'; o += (char)ch; }
        else if ( ch < 0x20 ) o += fmt("\\u%04x", ch);
        else o += (char)ch;
    }
    return o + "\"";
}
static std::string lat(int64_t ps)
{
    if ( ps % 1000000 == 0 && ps ) return fmt("%ldus", (long)(ps / 1000000));
    if ( ps % 500 == 0 && ps % 1000 ) return fmt("%ld.5ns", (long)(ps / 1000));
    if ( ps % 1000 == 0 && ps ) return fmt("%ldns", (long)(ps / 1000));
    return fmt("%ldps", (long)ps);
}
static std::string obj(const KV& kv)
{
    std::string o = "{";
    for ( auto& k : kv ) o += (o.size() > 1 ? "," : "") + q(k.first) + ":" + q(k.second);
    return o + "}";
}
static std::string names(const std::vector<std::string>& v)
{
    std::string o = "[";
    for ( auto& s : v ) o += (o.size() > 1 ? "," : "") + q(s);
    return o + "]";
}
static std::string stats_json(const std::vector<St>& v)
{
    std::string o = "[";
    for ( auto& s : v ) {
        o += (o.size() > 1 ? "," : "") + std::string("{\"name\":") + q(s.name);
        if ( !s.kv.empty() ) o += ",\"params\":" + obj(s.kv);
        if ( !s.shared.empty() ) o += ",\"shared\":true,\"shared_name\":" + q(s.shared);
        o += "}";
    }
    return o + "]";
}
static std::string options_json(int level, bool all, const KV& allp, int spell)
{
    std::string o = "{";
    auto add = [&](const std::string& s) { o += (o.size() > 1 ? "," : "") + s; };
    if ( spell && level >= 0 ) add(fmt("\"statistic_load_level\":%d", level));
    if ( all ) add(spell ? "\"enable_all_stats\":true" : "\"enable_all_statistics\":true");
    if ( !spell && level >= 0 ) add(fmt("\"statistic_load_level\":%d", level));
    if ( !allp.empty() ) add("\"params\":" + obj(allp));
    return o + "}";
}
static std::string pm_json(const PM& p, int spell)
{
    std::string o = "{\"port\":" + q(p.port) + ",\"type\":" + q(p.type);
    if ( spell && !p.p.sets.empty() ) o += ",\"params_shared_sets\":" + names(p.p.sets);
    if ( !p.p.kv.empty() ) o += ",\"params\":" + obj(p.p.kv);
    if ( !spell && !p.p.sets.empty() ) o += ",\"params_shared_sets\":" + names(p.p.sets);
    if ( p.level >= 0 || p.all ) o += ",\"statistics_options\":" + options_json(p.level, p.all, p.allp, spell);
    if ( !p.stats.empty() ) o += ",\"statistics\":" + stats_json(p.stats);
    return o + "}";
}
static std::string el_json(const El& e, bool sub, int spell)
{
    std::string o = "{";
    if ( sub ) o += "\"slot_name\":" + q(e.name) + ",\"type\":" + q(e.type) + fmt(",\"slot_number\":%d", e.num);
    else if ( spell ) o += "\"type\":" + q(e.type) + ",\"name\":" + q(e.name);
    else o += "\"name\":" + q(e.name) + ",\"type\":" + q(e.type);
    std::string pms;
    if ( !e.pms.empty() ) {
        for ( auto& p : e.pms ) pms += (pms.empty() ? "" : ",") + pm_json(p, spell);
        pms = ",\"port_modules\":[" + pms + "]";
    }
    if ( spell ) o += pms;
    if ( !e.p.kv.empty() ) o += ",\"params\":" + obj(e.p.kv);
    if ( !e.p.sets.empty() ) o += ",\"params_shared_sets\":" + names(e.p.sets);
    if ( e.level >= 0 || e.all ) o += ",\"statistics_options\":" + options_json(e.level, e.all, e.allp, spell);
    if ( !e.stats.empty() ) o += ",\"statistics\":" + stats_json(e.stats);
    if ( !e.subs.empty() ) {
        std::string s;
        for ( auto& x : e.subs ) s += (s.empty() ? "" : ",") + el_json(x, true, spell);
        o += ",\"subcomponents\":[" + s + "]";
    }
    if ( !spell ) o += pms;
    if ( e.rank >= 0 ) o += fmt(",\"partition\":{\"rank\":%d,\"thread\":%d}", e.rank, e.thread);
    return o + "}";
}
static std::string to_json(const Cf& c)
{
    std::string o = "{";
    auto add = [&](const std::string& s) { o += (o.size() > 1 ? ",\n" : "") + s; };
    if ( !c.opt.empty() ) add("\"program_options\":" + obj(c.opt));
    if ( !c.shared.empty() ) {
        std::string s;
        for ( auto& x : c.shared ) s += (s.empty() ? "" : ",") + q(x.first) + ":" + obj(x.second);
        add("\"shared_params\":{" + s + "}");
    }
    if ( c.level >= 0 || !c.so.empty() || !c.sop.empty() ) {
        std::string s;
        if ( c.level >= 0 ) s += fmt("%s:%d", c.spell ? "\"statistic_load_level\"" : "\"statisticLoadLevel\"", c.level);
        if ( !c.so.empty() ) s += (s.empty() ? "" : ",") + std::string(c.spell ? "\"statistic_output\":" : "\"statisticOutput\":") + q(c.so);
        if ( !c.sop.empty() ) s += (s.empty() ? "" : ",") + std::string("\"params\":") + obj(c.sop);
        add("\"statistics_options\":{" + s + "}");
    }
    std::string s;
    for ( auto& e : c.comps ) s += (s.empty() ? "" : ",\n") + el_json(e, false, c.spell);
    add("\"components\":[" + s + "]");
    auto groups = [&] {
        std::string g;
        for ( auto& x : c.groups ) {
            g += (g.empty() ? "" : ",") + std::string("{\"name\":") + q(x.name);
            if ( x.freq ) g += ",\"frequency\":" + q(x.hertz ? fmt("%ldMHz", (long)x.freq) : lat(x.freq));
            if ( !x.out.empty() ) g += ",\"output\":{\"type\":" + q(x.out) + (x.outp.empty() ? "" : ",\"params\":" + obj(x.outp)) + "}";
            if ( c.spell ) g += ",\"components\":" + names(x.comps);
            g += ",\"statistics\":" + stats_json(x.stats);
            if ( !c.spell ) g += ",\"components\":" + names(x.comps);
            g += "}";
        }
        if ( !c.groups.empty() ) add("\"statistics_group\":[" + g + "]");
    };
    if ( !c.spell ) groups();
    s.clear();
    for ( auto& l : c.links ) {
        s += (s.empty() ? "" : ",\n") + std::string("{\"name\":") + q(l.name);
        if ( l.nocut ) s += c.spell ? ",\"no_cut\":true" : ",\"noCut\":true";
        s += ",\"left\":{\"component\":" + q(l.a) + ",\"port\":" + q(l.pa) + ",\"latency\":" + q(lat(l.la)) + "}";
        s += ",\"right\":{\"component\":" + q(l.b) + ",\"port\":" + q(l.pb) + ",\"latency\":" + q(lat(l.lb)) + "}}";
    }
    if ( !c.links.empty() ) add("\"links\":[" + s + "]");
    if ( c.spell ) groups();
    return o + "\n}\n";
}

// ---- canonical text, from the description and from the graph -----------------
struct Text { std::string s; void line(int d, const std::string& x) { s += std::string(2 * d, ' ') + x + "\n"; } };
static std::string map_text(const std::map<std::string, std::string>& m)
{
    std::string o = "{";
    for ( auto& k : m ) o += (o.size() > 1 ? ", " : "") + q(k.first) + "=" + q(k.second);
    return o + "}";
}
static std::map<std::string, std::string> to_map(const KV& kv) { std::map<std::string, std::string> m; for ( auto& k : kv ) m[k.first] = k.second; return m; }
static std::map<std::string, std::string> all_of(const PS& p, const Cf& c)
{
    auto m = to_map(p.kv);
    for ( auto& s : p.sets ) { auto it = c.shared.find(s); if ( it != c.shared.end() ) for ( auto& k : it->second ) m.insert(k); }
    return m;
}
static std::map<std::string, std::string> all_of(const Params& p)
{
    std::map<std::string, std::string> m;
    for ( auto& k : p.getKeys() ) { bool f = false; m[k] = p.getString(k, f); if ( !f ) m[k] = "<not found>"; }
    return m;
}
// the first one to name a shared statistic gives its parameters
static void shared_of(const El& e, std::map<std::string, KV>& sh)
{
    for ( auto& s : e.stats ) if ( !s.shared.empty() ) sh.insert({ s.shared, s.kv });
    for ( auto& s : e.subs ) shared_of(s, sh);
}
static void el_text(Text& t, const El& e, const Cf& c, int d, const std::string& path, const std::vector<const Gr*>& groups_of, std::map<std::string, KV>& sh)
{
    t.line(d, q(e.name) + fmt("[%d] ", d ? e.num : 0) + q(e.type) + (d ? "" : fmt(" at %d.%d", e.rank < 0 ? 0 : e.rank, e.thread < 0 ? 0 : e.thread)));
    t.line(d, "| own " + map_text(to_map(e.p.kv)) + " sets " + names(e.p.sets) + " all " + map_text(all_of(e.p, c)));
    t.line(d, fmt("| level %d all %d ", e.level, (int)e.all) + map_text(to_map(e.allp)));
    std::map<std::string, std::string> st;
    auto v = e.stats;
    for ( auto* g : groups_of )
        if ( std::count(g->comps.begin(), g->comps.end(), path) ) for ( auto& s : g->stats ) v.push_back(s);
    std::map<std::string, const St*> by;
    for ( auto& s : v ) by[s.name] = &s;
    for ( auto& b : by ) {
        auto& s = *b.second;
        t.line(d, "| stat " + q(s.name) + (s.shared.empty() ? "" : " shared " + q(s.shared)) + " " + map_text(to_map(s.shared.empty() ? s.kv : sh[s.shared])));
    }
    std::map<std::string, std::vector<const PM*>> pms;
    for ( auto& p : e.pms ) pms[p.port].push_back(&p);
    for ( auto& x : pms )
        for ( auto* p : x.second ) {
            t.line(d, "| module on " + q(p->port) + " " + q(p->type) + " " + map_text(all_of(p->p, c)) + fmt(" level %d ", p->level) + map_text(to_map(p->allp)));
            std::map<std::string, std::string> ms;
            for ( auto& s : p->stats ) ms[s.name] = map_text(to_map(s.kv));
            for ( auto& s : ms ) t.line(d, "|   stat " + q(s.first) + " " + s.second);
        }
    for ( auto& s : e.subs ) el_text(t, s, c, d + 1, path + ":" + s.name + fmt("[%d]", s.num), groups_of, sh);
}
static const char* OPTS[] = { "verbose", "stop-at", "timing-info", "heartbeat-sim-period", "heartbeat-wall-period", "timebase", "partitioner", "timeVortex", "interthread-links", "output-prefix-core", "checkpoint-sim-period", "checkpoint-wall-period" };
static std::string cf_text(const Cf& c, const std::map<std::string, std::string>& forced)
{
    Text t;
    std::map<std::string, std::string> o;
    for ( auto& k : c.opt ) o[k.first] = k.second;
    for ( auto& k : forced ) o[k.first] = k.second;
    for ( auto& k : o ) { // what the configuration holds for these
        if ( k.second == "1h" ) k.second = "3600";
        if ( k.second == "2:30" ) k.second = "150";
    }
    for ( auto* k : OPTS ) if ( o.count(k) ) t.line(0, std::string("option ") + k + " " + q(o[k]));
    for ( auto& s : c.shared ) if ( !s.second.empty() ) t.line(0, "set " + q(s.first) + " " + map_text(to_map(s.second)));
    t.line(0, fmt("load level %d output ", c.level < 0 ? 0 : c.level) + q(c.so.empty() ? "sst.statOutputConsole" : c.so) + " " + map_text(to_map(c.sop)));
    std::vector<const Gr*> gs;
    for ( auto& g : c.groups ) gs.push_back(&g);
    for ( auto& e : c.comps ) { std::map<std::string, KV> sh; shared_of(e, sh); el_text(t, e, c, 0, e.name, gs, sh); }
    std::map<std::string, const Gr*> by;
    for ( auto& g : c.groups ) by[g.name] = &g;
    for ( auto& b : by ) {
        auto  g = *b.second;
        if ( !g.freq ) for ( auto& s : g.stats ) for ( auto& k : s.kv ) if ( k.first == "rate" && !g.freq ) g.freq = 1000 * atoll(k.second.c_str()); // in ns
        t.line(0, "group " + q(g.name) + (g.freq ? fmt(" every %ld%s", (long)g.freq, g.hertz ? "MHz" : "ps") : "") + (g.out.empty() ? "" : " output " + q(g.out) + " " + map_text(to_map(g.outp))));
        std::map<std::string, std::string> st;
        for ( auto& s : g.stats ) st[s.name] = map_text(to_map(s.kv));
        for ( auto& s : st ) t.line(1, "stat " + q(s.first) + " " + s.second);
        for ( auto& m : g.comps ) t.line(1, "member " + q(m));
    }
    std::vector<std::string> ls;
    for ( auto& l : c.links ) t.line(0, "link " + q(l.name) + (l.nocut ? " nocut " : " ") + q(l.a) + "." + q(l.pa) + fmt(" %ldps, ", (long)l.la) + q(l.b) + "." + q(l.pb) + fmt(" %ldps", (long)l.lb));
    return t.s;
}

static void el_text(Text& t, ConfigComponent& e, int d, std::map<std::string, uint64_t>& sh)
{
    t.line(d, q(e.name) + fmt("[%d] ", e.slot_num) + q(e.type) + (d ? "" : fmt(" at %d.%d", (int)e.rank.rank, (int)e.rank.thread)));
    std::map<std::string, std::string> own;
    for ( auto& k : e.params.getLocalKeys() ) own[k] = e.params.find<std::string>(k, std::string("<not found>"));
    t.line(d, "| own " + map_text(own) + " sets " + names(e.params.getSubscribedSharedParamSets()) + " all " + map_text(all_of(e.params)));
    t.line(d, fmt("| level %d all %d ", e.statLoadLevel == STATISTICLOADLEVELUNINITIALIZED ? -1 : (int)e.statLoadLevel, (int)e.enabledAllStats) + map_text(all_of(e.allStatConfig.params)));
    for ( auto& s : e.enabledStatNames ) {
        auto* st = e.findStatistic(s.second);
        if ( !st ) { t.line(d, "| stat " + q(s.first) + " without configuration"); continue; }
        t.line(d, "| stat " + q(s.first) + (st->shared ? " shared " + q(st->name) + (sh.insert({ st->name, s.second }).first->second == s.second ? "" : " in two pieces") : "") + " " + map_text(all_of(st->params)));
    }
    for ( auto& x : e.port_modules )
        for ( auto& p : x.second ) {
            t.line(d, "| module on " + q(x.first) + " " + q(p.type) + " " + map_text(all_of(p.params)) + fmt(" level %d ", p.stat_load_level == STATISTICLOADLEVELUNINITIALIZED ? -1 : (int)p.stat_load_level) + map_text(all_of(p.all_stat_config)));
            for ( auto& s : p.per_stat_configs ) t.line(d, "|   stat " + q(s.first) + " " + map_text(all_of(s.second)));
        }
    for ( auto* s : e.subComponents ) el_text(t, *s, d + 1, sh);
}
static std::string graph_text(const SST::Config* cfg, ConfigGraph& g)
{
    Text t;
    if ( cfg ) {
        std::map<std::string, std::string> o = { { "verbose", fmt("%d", (int)cfg->verbose()) }, { "stop-at", cfg->stop_at() }, { "timing-info", fmt("%d", (int)cfg->print_timing()) },
            { "heartbeat-sim-period", cfg->heartbeat_sim_period() }, { "heartbeat-wall-period", fmt("%d", (int)cfg->heartbeat_wall_period()) }, { "timebase", cfg->timeBase() },
            { "partitioner", cfg->partitioner() }, { "timeVortex", cfg->timeVortex() }, { "interthread-links", cfg->interthread_links() ? "true" : "false" },
            { "output-prefix-core", cfg->output_core_prefix() }, { "checkpoint-sim-period", cfg->checkpoint_sim_period() }, { "checkpoint-wall-period", fmt("%d", (int)cfg->checkpoint_wall_period()) } };
        for ( auto* k : OPTS ) t.line(0, std::string("option ") + k + " " + q(o[k]));
    }
    for ( auto& s : Params::getSharedParamSetNames() ) {
        std::map<std::string, std::string> m;
        for ( auto& k : Params::shared_params[s] ) if ( k.first ) m[Params::getParamName(k.first)] = k.second;
        if ( !m.empty() ) t.line(0, "set " + q(s) + " " + map_text(m));
    }
    auto* sc = g.getStatsConfig();
    t.line(0, fmt("load level %d output ", (int)sc->load_level) + q(sc->outputs[0].type) + " " + map_text(all_of(sc->outputs[0].params)));
    std::map<uint64_t, ConfigComponent*> cs;
    for ( auto* c : g.getComponentMap() ) cs[c->id] = c;
    for ( auto& c : cs ) { std::map<std::string, uint64_t> sh; el_text(t, *c.second, 0, sh); }
    SST::UnitAlgebra ps("1ps"), mhz("1MHz");
    for ( auto& x : sc->groups ) {
        auto& s = x.second;
        std::string f;
        if ( s.outputFrequency.getValue() != 0 ) f = s.outputFrequency.hasUnits("s") ? fmt(" every %ldps", (long)(s.outputFrequency / ps).getRoundedValue()) : fmt(" every %ldMHz", (long)(s.outputFrequency / mhz).getRoundedValue());
        std::string o;
        if ( s.outputID ) o = s.outputID < sc->outputs.size() ? " output " + q(sc->outputs[s.outputID].type) + " " + map_text(all_of(sc->outputs[s.outputID].params)) : " output of no configuration";
        t.line(0, "group " + q(s.name) + f + o);
        for ( auto& m : s.statMap ) t.line(1, "stat " + q(m.first) + " " + map_text(all_of(m.second)));
        for ( auto id : s.components ) { auto* c = g.findComponent(id); t.line(1, "member " + (c ? q(c->getFullName()) : fmt("%lx", (long)id))); }
    }
    auto& tb = *SST::Simulation::getTimeLord();
    int64_t unit = (int64_t)(tb.getTimeBase() / SST::UnitAlgebra("1ps")).getRoundedValue();
    std::map<uint64_t, ConfigLink*> ls;
    for ( auto* l : g.getLinkMap() ) ls[l->id_] = l;
    for ( auto& x : ls ) {
        auto* l = x.second;
        auto end = [&](int i) { auto* c = g.findComponent(l->component_[i]); return (c ? q(c->getFullName()) : std::string("nothing")) + "." + q(l->port_[i]) + fmt(" %ldps", (long)(l->latency_[i] * unit)); };
        t.line(0, "link " + q(l->name_) + (l->no_cut_ ? " nocut " : " ") + end(0) + ", " + end(1));
    }
    return t.s;
}

// ---- where the simulator writes the description -------------------------------
static void put(const char* f, const std::string& s)
{
    FILE* p = fopen(f, "w");
    if ( !p ) _exit(91);
    fwrite(s.data(), 1, s.size(), p);
    fclose(p);
}
void SST::Core::JSONConfigGraphOutput::generate(const SST::Config* cfg, SST::ConfigGraph* g)
{
    using Fn = void (*)(JSONConfigGraphOutput*, const SST::Config*, SST::ConfigGraph*);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "_ZN3SST4Core21JSONConfigGraphOutput8generateEPKNS_6ConfigEPNS_11ConfigGraphE");
    if ( !real ) { fprintf(stderr, "FATAL: no generate\n"); _exit(92); }
    std::string a = graph_text(cfg, *g);
    put("dump.graph", a);
    real(this, cfg, g);
    put("dump.after", graph_text(cfg, *g));
    {
        serializer ser;
        ser.start_sizing();
        SST_SER(*g);
        std::vector<char> buf(ser.size());
        ser.start_packing(buf.data(), buf.size());
        SST_SER(*g);
        auto       r = std::make_unique<ConfigGraph>();
        serializer de;
        de.start_unpacking(buf.data(), buf.size());
        auto un = [](serializer& ser, ConfigGraph& h) { SST_SER(h); };
        un(de, *r);
        put("dump.packed", graph_text(cfg, *r));
        r.release();
    }
    if ( graph_only ) { fflush(nullptr); _exit(0); }
}

static std::string first_diff(const std::string& a, const std::string& b)
{
    std::vector<std::string> x, y;
    auto split = [](const std::string& s, std::vector<std::string>& v) { size_t i = 0; while ( i < s.size() ) { size_t e = s.find('\n', i); v.push_back(s.substr(i, e - i)); i = e + 1; } };
    split(a, x);
    split(b, y);
    for ( size_t i = 0; i < std::max(x.size(), y.size()); ++i ) {
        std::string l = i < x.size() ? x[i] : "(nothing)", r = i < y.size() ? y[i] : "(nothing)";
        if ( l != r ) return fmt("line %zu: expected <%.700s> got <%.700s>", i, l.c_str(), r.c_str());
    }
    return "";
}
struct Dir { std::string d = sl::scratch_dir(); ~Dir() { sl::remove_dir(d); } };

// reads, compares with the description, reads what was written, compares again
static void round_trip(Ctx& c, const Cf& cf, int threads = 1)
{
    graph_only = true;
    Dir         d1, d2;
    std::string json = to_json(cf);
    sl::Model   none;
    sl::Opts    o;
    o.json     = json;
    o.dir      = d1.d;
    o.threads  = threads;
    o.selfpart = threads > 1;
    o.args     = { "--output-json=" + d1.d + "/o.json" };
    if ( threads > 1 ) o.args.push_back("--output-partition");
    auto tail = [](const std::string& s) { return s.substr(s.size() > 500 ? s.size() - 500 : 0); };
    std::string shown = json.size() > 1500 ? json.substr(0, 1500) + "..." : json;
    std::map<std::string, std::string> forced;
    forced["partitioner"] = threads > 1 ? "sst.self" : "sst.single";
    sl::Run r = sl::run_sim(none, o);
    c.check(!r.status && !r.timeout, "read", "reading ended with %s: %s | %s", r.why().c_str(), tail(r.out).c_str(), shown.c_str());
    std::string want = cf_text(cf, forced), got = sl::read_file(d1.d + "/dump.graph");
    std::string judged; // what the description says nothing about is free
    for ( size_t i = 0, e; i < got.size(); i = e + 1 ) {
        e = got.find('\n', i);
        std::string l = got.substr(i, e - i), k = l.substr(0, l.find('"'));
        if ( l.compare(0, 7, "option ") || ("\n" + want).find("\n" + k) != std::string::npos ) judged += l + "\n";
    }
    c.check(want == judged, "graph", "the graph is not what the description says: %s | %s", first_diff(want, judged).c_str(), shown.c_str());
    std::string after = sl::read_file(d1.d + "/dump.after"), packed = sl::read_file(d1.d + "/dump.packed");
    c.check(got == after, "changed", "writing the description changed the graph: %s | %s", first_diff(got, after).c_str(), shown.c_str());
    c.check(got == packed, "packed", "packing and unpacking changed the graph: %s | %s", first_diff(got, packed).c_str(), shown.c_str());
    sl::Opts p = o;
    p.json.clear();
    p.dir      = d2.d;
    p.load     = d1.d + "/o.json";
    p.selfpart = false;
    p.args     = { "--output-json=" + d2.d + "/o.json" };
    if ( threads > 1 ) p.args.push_back("--output-partition");
    sl::Run s = sl::run_sim(none, p);
    std::string wrote = sl::read_file(d1.d + "/o.json");
    c.check(!s.status && !s.timeout, "reread", "reading the written description ended with %s: %s | from %s", s.why().c_str(), tail(s.out).c_str(), shown.c_str());
    std::string again = sl::read_file(d2.d + "/dump.graph");
    c.check(got == again, "round-trip", "the written description builds another graph: %s | from %s", first_diff(got, again).c_str(), shown.c_str());
    c.check(wrote == sl::read_file(d2.d + "/o.json"), "rewritten", "the second description differs from the first | from %s", shown.c_str());
    c.step(4);
    c.validated(2);
    c.nontrivial();
    c.state(mc::hash(got));
    c.note("%s", shown.c_str());
}

static El comp(const std::string& n) { El e; e.name = n; e.type = "vtest.Node"; e.p.kv = { { "id", "0" } }; return e; }
static El sub(const std::string& slot, int num) { El e; e.name = slot; e.num = num; e.type = "vtest.Sub"; return e; }

static const char* KEYS[] = { "k", "a.b", "", "with \"quotes\"", "back\\slash", "tab\tnl\n", "\xc3\xa9\xe2\x82\xac", "12", "key:with=punct,", "%s%d", "/* c */" };
static const char* VALUES[] = { "v", "", "true", "0", "-12.5e3", "null", "with \"quotes\"", "back\\slash\\", "tab\tnl\ncr\r", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", " lead and trail ", "[1,2]", "{\"a\":1}", "1GHz", "'single'", "\x01\x1f\x7f", "%s%n", "\\u0041" };

// every place for a parameter x every kind of key and value
static void params(Ctx& c)
{
    int place = c.choose(18), k = c.choose(sizeof KEYS / sizeof *KEYS), v = c.choose(c.thorough() ? sizeof VALUES / sizeof *VALUES : 9);
    Cf  f;
    if ( !c.thorough() ) v = v < 8 && (k & 1) ? v + 10 : v; // quick: half of the values with each key
    f.spell = c.thorough() ? c.choose(2) : (place + k + v) & 1;
    KV  kv = { { KEYS[k], VALUES[v] }, { "second", "2" } };
    El  e  = comp("c0");
    El  s  = sub("s", 0), t = sub("t", 1);
    PM  pm;
    pm.port = "p0";
    pm.type = "vtest.pm";
    St  st { "st0", {}, "" };
    auto put_el = [&](El& x, int what) {
        if ( what == 0 ) x.p.kv = kv;
        if ( what == 1 ) { st.kv = kv; x.stats.push_back(st); }
        if ( what == 2 ) { x.all = true; x.allp = kv; }
        if ( what == 3 ) { pm.p.kv = kv; x.pms.push_back(pm); }
        if ( what == 4 ) { st.kv = kv; pm.stats.push_back(st); x.pms.push_back(pm); }
        if ( what == 5 ) { pm.all = true; pm.allp = kv; if ( k & 1 ) pm.level = 3; x.pms.push_back(pm); }
    };
    if ( place < 6 ) put_el(e, place);
    else if ( place < 12 ) put_el(s, place - 6);
    else if ( place == 12 ) t.p.kv = kv;
    else if ( place == 13 ) { st.kv = kv; t.stats.push_back(st); }
    else if ( place == 14 ) { f.shared["set"] = kv; e.p.sets = { "set" }; }
    else if ( place == 15 ) { f.so = "sst.statOutputCSV"; f.sop = kv; }
    else {
        Gr g;
        g.name  = "g";
        g.stats = { St { "st1", {}, "" } };
        g.comps = { "c0" };
        if ( place == 16 ) { g.out = "sst.statOutputTXT"; g.outp = kv; } else g.stats[0].kv = kv;
        f.groups.push_back(g);
    }
    s.subs.push_back(t);
    e.subs.push_back(s);
    f.comps.push_back(e);
    round_trip(c, f);
}

// layouts of subcomponents, ways of giving parameters, of enabling statistics and port modules
static void parts(Ctx& c)
{
    int layout = c.choose(7), par = c.choose(6), stat = c.choose(11), mod = c.choose(10);
    if ( !c.thorough() && (layout * 5 + par * 7 + stat * 3 + mod) % 4 ) c.discard();
    Cf f;
    f.spell = (layout + par + stat + mod) & 1;
    f.shared["A"] = { { "x", "A" }, { "y", "A" } };
    f.shared["B"] = { { "y", "B" }, { "z", "B" } };
    El e = comp("c0");
    auto par_of = [&](PS& p, int w) {
        if ( w == 0 ) p.kv = { { "id", "0" } };
        if ( w == 1 ) p.sets = { "A" };
        if ( w == 2 ) { p.kv = { { "id", "0" } }; p.sets = { "A", "B" }; }
        if ( w == 3 ) p.sets = { "B", "A" };
        if ( w == 4 ) { p.kv = { { "y", "own" } }; p.sets = { "B", "A" }; }
        if ( w == 5 ) { p.kv = { { "z", "" } }; p.sets = { "B", "unknown" }; }
    };
    auto stat_of = [&](El& x, int w) {
        if ( w == 1 ) x.stats = { { "st0", {}, "" } };
        if ( w == 2 ) x.stats = { { "st1", { { "type", "sst.AccumulatorStatistic" } }, "" }, { "st0", { { "rate", "5ns" } }, "" } };
        if ( w == 3 ) x.all = true;
        if ( w == 4 ) { x.all = true; x.allp = { { "rate", "2ns" } }; x.stats = { { "st2", { { "rate", "3ns" } }, "" } }; }
        if ( w == 5 ) x.level = 3;
        if ( w == 6 ) { x.level = 0; x.all = true; x.stats = { { "st3", {}, "" } }; }
        if ( w == 7 ) x.stats = { { "st0", { { "rate", "1ns" } }, "sh" }, { "st2", { { "rate", "1ns" } }, "sh" } };
        if ( w == 8 ) x.stats = { { "st0", {}, "sh" }, { "st1", {}, "other" }, { "st3", {}, "" } };
    };
    auto mod_of = [&](El& x, int w, const std::string& p) {
        auto pm = [&](const std::string& port) { PM m; m.port = p + port; m.type = "vtest.pm"; return m; };
        if ( w == 1 ) x.pms = { pm("0") };
        if ( w == 2 ) { x.pms = { pm("0"), pm("0") }; x.pms[0].p.kv = { { "id", "1" } }; x.pms[1].p.kv = { { "id", "2" } }; x.pms[1].type = "sst.portmodules.random_drop"; }
        if ( w == 3 ) { x.pms = { pm("1"), pm("0"), pm("1") }; x.pms[0].p.kv = { { "id", "1" } }; x.pms[2].p.kv = { { "id", "3" } }; }
        if ( w == 4 ) { x.pms = { pm("0") }; x.pms[0].level = 2; }
        if ( w == 5 ) { x.pms = { pm("0") }; x.pms[0].stats = { { "st0", { { "rate", "4ns" } }, "" } }; }
        if ( w == 6 ) { x.pms = { pm("0") }; x.pms[0].all = true; x.pms[0].level = 5; x.pms[0].allp = { { "rate", "4ns" } }; }
        if ( w == 7 ) { x.pms = { pm("0") }; x.pms[0].p.sets = { "A" }; }
        if ( w == 8 ) { x.pms = { pm("0"), pm("0") }; x.pms[0].p.sets = { "B", "A" }; x.pms[0].p.kv = { { "x", "own" } }; x.pms[1].level = 0; x.pms[1].stats = { { "st0", {}, "" } }; }
    };
    par_of(e.p, par);
    if ( par == 5 ) e.p.kv.push_back({ "id", "0" });
    El a = sub("s", 0), b = sub("s", 1), d = sub("anon", 0);
    par_of(a.p, (par + 1) % 6);
    par_of(b.p, (par + 2) % 6);
    if ( stat < 9 ) { stat_of(e, stat); stat_of(b, (stat + 1) % 9); }
    if ( stat == 9 ) { stat_of(e, 7); a.stats = { { "st1", { { "rate", "1ns" } }, "sh" } }; d.stats = { { "st1", {}, "sh2" }, { "st2", {}, "sh2" } }; }
    if ( stat == 10 ) { a.stats = { { "st1", { { "rate", "1ns" } }, "sh" }, { "st0", {}, "" } }; b.stats = { { "st3", { { "rate", "1ns" } }, "sh" } }; }
    if ( mod < 9 ) { mod_of(e, mod, "p"); mod_of(a, (mod + 4) % 9, "q1"); }
    if ( mod == 9 ) { mod_of(d, 2, "q1"); mod_of(e, 8, "p"); }
    if ( layout == 1 ) e.subs = { a };
    if ( layout == 2 ) e.subs = { a, b };
    if ( layout == 3 ) { a.num = 7; e.subs = { a, b, d }; }
    if ( layout == 4 ) { a.subs = { b }; e.subs = { a, d }; }
    if ( layout == 5 ) { b.subs = { d }; a.subs = { b }; e.subs = { a }; }
    if ( layout == 6 ) { b.subs = { d, a }; e.subs = { d, b }; }
    f.comps = { e, comp("c1") };
    stat_of(f.comps[1], (stat * 2 + 1) % 9);
    mod_of(f.comps[1], (mod * 2 + 1) % 9, "p");
    f.level = par - 1;
    round_trip(c, f);
}

// links: names, latencies, ends, order
static void links(Ctx& c)
{
    static const char* CN[] = { "c0", "a.b", "with_underscore", "x1.y2.z3" };
    static const char* LN[] = { "l", "a.b", "zz", "L0" };
    static const int64_t LAT[] = { 1, 999, 1000, 1500, 2000000, 123457, 1000001 };
    int n = 1 + c.choose(c.thorough() ? 3 : 2), where = c.choose(5), nm = c.choose(4), order = c.choose(2), cut = c.choose(2);
    int la = c.choose(7), lb = c.thorough() ? c.choose(7) : (la * 3 + where) % 7;
    Cf  f;
    f.spell = order ^ cut;
    for ( int i = 0; i < 3; ++i ) {
        El e = comp(i ? fmt("c%d", i + 4) : CN[nm]);
        El s = sub("s", i), t = sub("t", 2);
        s.subs.push_back(t);
        e.subs.push_back(s);
        if ( i == 1 ) e.subs.push_back(sub("s", 5));
        f.comps.push_back(e);
    }
    if ( order ) std::reverse(f.comps.begin(), f.comps.end());
    auto path = [&](int i, int w) { auto& e = f.comps[i]; return w == 0 ? e.name : w == 1 ? e.name + ":s" + fmt("[%d]", e.subs[0].num) : e.name + ":s" + fmt("[%d]:t[2]", e.subs[0].num); };
    for ( int i = 0; i < n; ++i ) {
        Ln l;
        l.name  = n == 1 ? LN[nm] : fmt("%s%d", LN[nm], order ? 9 - i : i);
        l.nocut = cut && i % 2 == 0;
        int a = i % 3, b = where == 4 ? i % 3 : (i + 1) % 3;
        int wa = where == 1 || where == 3 ? 1 : 0, wb = where == 2 ? 1 : where == 3 ? 2 : 0;
        l.a = path(a, wa); l.b = path(b, wb);
        l.pa = (wa ? "q1" : "p") + fmt("%d", 2 * i); l.pb = (wb ? "q1" : "p") + fmt("%d", 2 * i + 1);
        if ( where == 4 && i ) l.pb = l.pa;
        l.la = LAT[(la + i) % 7]; l.lb = LAT[(lb + 2 * i) % 7];
        f.links.push_back(l);
    }
    round_trip(c, f);
}

// groups of statistics and outputs
static void groups(Ctx& c)
{
    int n = 1 + c.choose(2);
    Cf  f;
    f.spell = c.choose(2);
    for ( int i = 0; i < 3; ++i ) { El e = comp(fmt("c%d", i)); e.subs.push_back(sub("s", i)); f.comps.push_back(e); }
    int own = c.choose(2);
    if ( own ) { f.so = "sst.statOutputCSV"; f.sop = { { "filepath", "a b.csv" }, { "separator", "," } }; f.level = 4; }
    for ( int i = 0; i < n; ++i ) {
        Gr g;
        g.name = i ? "A group" : "g";
        bool few = i && !c.thorough();
        int fr = i ? 2 : c.choose(5), out = few ? f.groups[0].freq / 500 % 3 : i ? c.choose(3) : c.choose(4), st = few ? (int)f.groups[0].stats.size() + 1 : c.choose(5), mem = few ? c.choose(2) * 2 : c.choose(5);
        g.freq   = fr == 0 ? 0 : fr == 1 ? 5000 : fr == 2 ? 1500 : fr == 3 ? 3 : 2000000;
        g.hertz = fr == 3;
        if ( out == 1 ) g.out = "sst.statOutputConsole";
        if ( out == 2 ) { g.out = "sst.statOutputCSV"; g.outp = { { "filepath", fmt("g%d.csv", i) } }; }
        if ( out == 3 ) { g.out = "sst.statOutputTXT"; g.outp = { { "filepath", "t.txt" }, { "outputtopheader", "1" } }; }
        int k = 2 * i;
        if ( st == 0 ) g.stats = { { fmt("st%d", k), {}, "" } };
        if ( st == 1 ) g.stats = { { fmt("st%d", k), { { "rate", "5ns" } }, "" } };
        if ( st == 2 ) g.stats = { { fmt("st%d", k + 1), { { "type", "sst.AccumulatorStatistic" }, { "rate", "1ns" } }, "" }, { fmt("st%d", k), {}, "" } };
        if ( st == 3 ) g.stats = { { fmt("st%d", k), {}, "" }, { fmt("st%d", k + 1), {}, "" } };
        if ( mem == 0 ) g.comps = { "c0" };
        if ( mem == 1 ) g.comps = { "c2", "c0" };
        if ( mem == 2 ) g.comps = { "c0", "c1", "c2" };
        if ( mem == 3 ) g.comps = { "c1:s[1]" };
        if ( mem == 4 ) g.comps = { "c1", "c2:s[2]" };
        f.groups.push_back(g);
    }
    round_trip(c, f);
}

// program options, alone and in pairs
static void options(Ctx& c)
{
    static const struct { const char *k, *v; } O[] = { { "verbose", "0" }, { "verbose", "1" }, { "stop-at", "5us" }, { "stop-at", "1.5 ns" }, { "timing-info", "1" }, { "timing-info", "2" }, { "heartbeat-sim-period", "3us" },
        { "heartbeat-wall-period", "7" }, { "heartbeat-wall-period", "1h" }, { "timebase", "1ns" }, { "timebase", "10 fs" }, { "timeVortex", "sst.timevortex.map.binned" }, { "interthread-links", "true" }, { "interthread-links", "false" },
        { "output-prefix-core", "@R \"x\" \\ " }, { "output-prefix-core", "" }, { "checkpoint-sim-period", "2us" }, { "checkpoint-wall-period", "2:30" } };
    const int N = sizeof O / sizeof *O;
    int a = c.choose(N), b = c.choose(N);
    if ( b < a || (b > a && !strcmp(O[a].k, O[b].k)) ) c.discard();
    Cf f;
    f.comps = { comp("c0") };
    f.opt.push_back({ O[a].k, O[a].v });
    if ( b != a ) f.opt.push_back({ O[b].k, O[b].v });
    round_trip(c, f);
}

// placement: all placements of three components on the threads
static void placed(Ctx& c)
{
    int th = 2 + c.choose(2);
    Cf  f;
    f.spell = c.choose(2);
    for ( int i = 0; i < 3; ++i ) {
        El e = comp(fmt("c%d", 2 - i));
        if ( c.choose(2) ) { El s = sub("s", i); s.subs.push_back(sub("t", 0)); e.subs.push_back(s); }
        e.rank = 0;
        e.thread = c.choose(th);
        f.comps.push_back(e);
    }
    f.links.push_back({ "l0", false, "c2", "p0", 1000, "c1", "p0", 2000 });
    f.links.push_back({ "l1", f.comps[1].thread == f.comps[2].thread, "c1", "p1", 1, "c0", "p0", 5 });
    f.opt = { { "partitioner", "sst.self" } };
    round_trip(c, f, th);
}

// whole simulations: the written description behaves like the one read
static void flow(Ctx& c)
{
    int ranks = 1 + c.choose(2), threads = 1 + c.choose(2);
    int subs = c.choose(2), mods = c.choose(3), stats = c.choose(4), glue = c.choose(2), clk = c.choose(2);
    sl::Model m;
    int n = 3;
    for ( int i = 0; i < n; ++i ) {
        sl::CompM x;
        x.primary = true;
        x.rank    = i % ranks;
        x.thread  = (i / ranks) % threads;
        x.script  = subs ? "S>s9:20:1,s10:1:1,s1:2:2;E10[1-5]>s1:1:+1;E1[1-5]>s10:0:+2;E9>O" : "S>s9:20:1,s0:1:1,s1:2:2;E0[1-5]>s1:1:+1;E1[1-5]>s0:0:+2;E9>O";
        x.ports.push_back({ 9, 's' });
        if ( clk ) x.clocks.push_back({ 3 + i, 'n' });
        if ( stats ) {
            x.stats = 2;
            if ( stats == 1 ) x.extra_json = ",\"statistics\":[{\"name\":\"st0\"},{\"name\":\"st1\",\"params\":{\"rate\":\"4ps\"}}]";
            if ( stats == 2 ) x.extra_json = ",\"statistics_options\":{\"enable_all_statistics\":true,\"params\":{\"rate\":\"3ps\"}}";
            if ( stats == 3 ) x.extra_json = fmt(",\"statistics_options\":{\"statistic_load_level\":%d}", i);
        }
        m.comps.push_back(x);
    }
    for ( int i = 0; i < n; ++i ) {
        int  j = (i + 1) % n;
        auto add = [&](int k, int idx) { sl::PortM p; p.idx = idx; p.mode = 'h'; p.owner = idx == 10 ? 1 : 0; m.comps[k].ports.push_back(p); return idx; };
        int a = add(i, subs ? 10 : 0), b = add(j, 1);
        m.links.push_back({ i, a, j, b, 2 + i, 3, glue && m.comps[i].rank == m.comps[j].rank && m.comps[i].thread == m.comps[j].thread });
    }
    if ( mods ) for ( int i = 0; i < n; ++i ) { sl::ModM d; d.id = 1000 + i; d.port = 1; d.acts = "kdmk"; d.recv = true; d.send = mods == 2; m.comps[i].mods.push_back(d); }
    if ( stats ) m.extra_json = ",\"statistics_options\":{\"statisticLoadLevel\":2,\"statisticOutput\":\"sst.statOutputCSV\",\"params\":{\"filepath\":\"stats.csv\"}}";
    m.options["stop-at"] = "60ps";
    graph_only           = false;
    Dir      d1, d2;
    sl::Opts o;
    o.ranks   = ranks;
    o.threads = threads;
    o.dir     = d1.d;
    o.args    = { "--output-json=" + d1.d + "/o.json", "--output-partition" };
    sl::Run a = sl::run_sim(m, o);
    c.check(!a.status && !a.timeout, "run", "simulation ended with %s: %s | %s", a.why().c_str(), a.out.substr(a.out.size() > 500 ? a.out.size() - 500 : 0).c_str(), m.describe().c_str());
    o.dir  = d2.d;
    o.load = d1.d + "/o.json";
    o.args = { "--output-json=" + d2.d + "/o.json", "--output-partition" };
    sl::Run b = sl::run_sim(m, o);
    c.check(!b.status && !b.timeout, "rerun", "the written description ended with %s: %s | %s", b.why().c_str(), b.out.substr(b.out.size() > 500 ? b.out.size() - 500 : 0).c_str(), m.describe().c_str());
    std::string d = sl::diff(sl::lines(a.recs, UINT64_MAX, true), sl::lines(b.recs, UINT64_MAX, true));
    c.check(!a.recs.empty() && d.empty(), "observed", "the written description behaves differently: %s | %s", d.c_str(), m.describe().c_str());
    c.check(sl::read_file(d1.d + "/dump.graph") == sl::read_file(d2.d + "/dump.graph"), "round-trip", "another graph: %s | %s", first_diff(sl::read_file(d1.d + "/dump.graph"), sl::read_file(d2.d + "/dump.graph")).c_str(), m.describe().c_str());
    for ( int r = -1; r < ranks; ++r ) {
        std::string n1 = r < 0 ? "/stats.csv" : fmt("/stats_%d.csv", r);
        std::string x = sl::read_file(d1.d + n1), y = sl::read_file(d2.d + n1);
        auto sorted = [](const std::string& s) { std::vector<std::string> v; size_t i = 0; while ( i < s.size() ) { size_t e = s.find('\n', i); if ( e == std::string::npos ) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } std::sort(v.begin(), v.end()); std::string o; for ( auto& l : v ) o += l + "\n"; return o; };
        x = sorted(x); y = sorted(y);
        c.check(x == y, "statistics", "%s differs: %s | %s", n1.c_str(), first_diff(x, y).c_str(), m.describe().c_str());
    }
    c.step(a.recs.size() + b.recs.size());
    c.validated(2);
    c.nontrivial();
    c.state(mc::hash(sl::read_file(d1.d + "/dump.graph")));
    c.note("%dx%d: %s", ranks, threads, m.describe().c_str());
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "params", params, 60, 8 }, { "parts", parts, 60, 8 }, { "links", links, 60, 8 }, { "groups", groups, 60, 8 }, { "options", options, 60, 8 }, { "placed", placed, 60, 6 }, { "flow", flow, 60, 4 } });
}
