// M02: every partitioner assigns each component once and keeps glued ones together.
//
// assign: every small graph of components and links (cut or not, ends on components, subcomponents or their subcomponents) under every
//         built-in partitioner and rank x thread grid; afterwards the graph is split the way the simulator distributes it (halving the
//         ranks, serialized between them) and each rank's share is compared with what follows from the assignment.
// user:   the same with every placement by the user, also outside the grid.
// flow:   whole simulations with the built-in partitioners: where the components are, and that they observe what the reference says.
#include "sst_config.h"
#include "batch.h"
#include "sst/core/impl/partitioners/linpart.h"
#include "sst/core/impl/partitioners/rrobin.h"
#include "sst/core/impl/partitioners/selfpart.h"
#include "sst/core/impl/partitioners/simplepart.h"
#include "sst/core/impl/partitioners/singlepart.h"
#include "sst/core/model/configGraph.h"
#include "sst/core/serialization/serialize.h"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
using mc::Ctx;
using mc::fmt;
using SST::ConfigComponent;
using SST::ConfigGraph;
using SST::ConfigLink;
using SST::RankInfo;
using SST::Core::Serialization::serializer;

struct Edge { int a, b; bool nocut; uint64_t la, lb; };
struct Shape { int n; std::vector<Edge> e; int owner; };
static std::string show(const Shape& s)
{
    std::string o = fmt("%d components, owner %d,", s.n, s.owner);
    for ( auto& e : s.e ) o += fmt(" %d-%d:%lu/%lu%s", e.a, e.b, (unsigned long)e.la, (unsigned long)e.lb, e.nocut ? " nocut" : "");
    return o;
}
static std::string show(const RankInfo& r) { return fmt("%d.%d", (int)r.rank, (int)r.thread); }

// the built graph, and what to find a link end by
struct End { uint64_t id; std::string port; uint64_t lat; int comp; };
struct Built
{
    std::unique_ptr<ConfigGraph>  g;
    std::vector<std::array<End, 2>> ends;
    std::vector<std::vector<int>> on;               // links of a component
    std::vector<std::vector<int>> groups;           // members of the statistic groups
};
static Built build(const Shape& s, const std::vector<RankInfo>& at, int groups)
{
    Built b;
    b.g = std::make_unique<ConfigGraph>();
    auto& g = *b.g;
    std::vector<std::array<ConfigComponent*, 3>> cs;
    for ( int i = 0; i < s.n; ++i ) {
        auto id = g.addComponent(fmt("c%d", i), "m.C");
        auto* c = g.findComponent(id);
        c->setWeight(1 + i);
        if ( !at.empty() && i % 2 == 0 ) c->setRank(at[i]); // before and after its subcomponents exist
        auto* u = c->addSubComponent("s", "m.S", 0);
        auto* v = u->addSubComponent("t", "m.T", 1);
        if ( !at.empty() && i % 2 ) c->setRank(at[i]);
        cs.push_back({ c, u, v });
    }
    b.on.resize(s.n);
    for ( size_t i = 0; i < s.e.size(); ++i ) {
        auto& e = s.e[i];
        auto  l = g.createLink(fmt("l%zu", s.e.size() - i).c_str(), nullptr);
        if ( e.nocut ) g.setLinkNoCut(l);
        auto* x = cs[e.a][s.owner == 1 || s.owner == 3 ? 1 : 0];
        auto* y = cs[e.b][s.owner == 2 ? 1 : s.owner == 3 ? 2 : 0];
        std::string p = fmt("p%zu", i), q = fmt("q%zu", i);
        g.addLink(x->id, l, p.c_str(), "1ps");
        g.addLink(y->id, l, q.c_str(), "1ps");
        auto* cl        = g.links_[l];
        cl->latency_[0] = e.la;
        cl->latency_[1] = e.lb;
        b.ends.push_back({ End { x->id, p, e.la, e.a }, End { y->id, q, e.lb, e.b } });
        b.on[e.a].push_back((int)i);
        if ( e.b != e.a ) b.on[e.b].push_back((int)i);
    }
    if ( groups ) {
        // one group per component, one of all, one of every second
        for ( int i = 0; i < s.n; ++i ) b.groups.push_back({ i });
        b.groups.push_back({});
        b.groups.push_back({});
        for ( int i = 0; i < s.n; ++i ) { b.groups[s.n].push_back(i); if ( i % 2 ) b.groups[s.n + 1].push_back(i); }
        if ( b.groups[s.n + 1].empty() ) b.groups.pop_back();
        for ( size_t k = 0; k < b.groups.size(); ++k ) {
            auto& sg = g.stats_config_->groups[fmt("g%zu", k)];
            sg.name  = fmt("g%zu", k);
            for ( int i : b.groups[k] ) sg.addComponent(cs[i][0]->id);
        }
        g.setStatisticLoadLevel(5);
    }
    return b;
}

static std::vector<char> pack(ConfigGraph& g)
{
    serializer ser;
    ser.start_sizing();
    SST_SER(g);
    std::vector<char> buf(ser.size());
    ser.start_packing(buf.data(), buf.size());
    SST_SER(g);
    return buf;
}
static std::unique_ptr<ConfigGraph> unpack(std::vector<char>& buf)
{
    auto       r = std::make_unique<ConfigGraph>();
    serializer ser;
    ser.start_unpacking(buf.data(), buf.size());
    ConfigGraph& g = *r;
    SST_SER(g);
    return r;
}
// the way the simulator hands the graph on: the lower half stays, the upper half goes to its first rank
static void distribute(std::unique_ptr<ConfigGraph> g, std::set<uint32_t> ranks, std::vector<std::unique_ptr<ConfigGraph>>& out)
{
    while ( ranks.size() > 1 ) {
        auto mid = ranks.begin();
        std::advance(mid, ranks.size() / 2);
        std::set<uint32_t> yours(mid, ranks.end());
        ranks.erase(mid, ranks.end());
        std::unique_ptr<ConfigGraph> part(g->splitGraph(ranks, yours));
        auto buf = pack(*part);
        part.reset();
        distribute(unpack(buf), yours, out);
    }
    out[*ranks.begin()] = std::move(g);
}

static void compare_rank(Ctx& c, const Shape& s, const Built& b, const std::vector<RankInfo>& at, uint32_t r, ConfigGraph& g, const std::string& what)
{
    size_t n = 0;
    for ( int i = 0; i < s.n; ++i ) {
        bool here = at[i].rank == r;
        c.check(g.containsComponent(i) == here, here ? "component-lost" : "component-left", "%s: c%d is on %s; rank %u %s it", what.c_str(), i, show(at[i]).c_str(), r, here ? "lacks" : "has");
        if ( !here ) continue;
        ++n;
        auto* x = g.findComponent(i);
        c.check(x->name == fmt("c%d", i) && x->type == "m.C" && x->rank == at[i] && x->weight == 1 + i, "component", "%s: c%d on rank %u: %s %s at %s", what.c_str(), i, r, x->name.c_str(), x->type.c_str(), show(x->rank).c_str());
        c.check(x->subComponents.size() == 1 && x->subComponents[0]->name == "s" && x->subComponents[0]->rank == at[i] && x->subComponents[0]->subComponents.size() == 1 &&
                    x->subComponents[0]->subComponents[0]->name == "t" && x->subComponents[0]->subComponents[0]->rank == at[i],
            "subcomponent", "%s: the subcomponents of c%d on rank %u", what.c_str(), i, r);
        auto ls = x->allLinks();
        c.check(ls.size() >= b.on[i].size(), "link-list", "%s: c%d on rank %u has %zu links, not %zu", what.c_str(), i, r, ls.size(), b.on[i].size());
        for ( auto id : ls ) c.check(g.links_.contains(id), "link-list", "%s: c%d on rank %u refers to link %lu, which is not there", what.c_str(), i, r, (unsigned long)id);
    }
    c.check(g.getNumComponents() == n, "component-extra", "%s: rank %u has %zu components, not %zu", what.c_str(), r, g.getNumComponents(), n);
    std::map<std::string, ConfigLink*> got;
    for ( auto* l : g.links_ ) got[l->name_] = l;
    size_t nl = 0;
    for ( size_t i = 0; i < s.e.size(); ++i ) {
        std::string name = fmt("l%zu", s.e.size() - i);
        RankInfo ra = at[s.e[i].a], rb = at[s.e[i].b];
        bool     ha = ra.rank == r, hb = rb.rank == r;
        auto     it = got.find(name);
        c.check((it != got.end()) == (ha || hb), "link-place", "%s: link %s joins %s and %s; rank %u %s it", what.c_str(), name.c_str(), show(ra).c_str(), show(rb).c_str(), r, it == got.end() ? "lacks" : "has");
        if ( !ha && !hb ) continue;
        ++nl;
        auto* l = it->second;
        auto  w = [&](int k, const End& e) { return l->component_[k] == e.id && l->port_[k] == e.port && l->latency_[k] == e.lat; };
        std::string is = fmt("%s: link %s (%s to %s) on rank %u: ends %lx %s %lu, %lx %s %lu nonlocal %d nocut %d cross %d %d", what.c_str(), name.c_str(), show(ra).c_str(), show(rb).c_str(), r, (unsigned long)l->component_[0],
            l->port_[0].c_str(), (unsigned long)l->latency_[0], (unsigned long)l->component_[1], l->port_[1].c_str(), (unsigned long)l->latency_[1], (int)l->nonlocal_, (int)l->no_cut_, (int)l->cross_rank_, (int)l->cross_thread_);
        if ( ha && hb ) c.check(w(0, b.ends[i][0]) && w(1, b.ends[i][1]) && !l->nonlocal_, "local-link", "%s", is.c_str());
        else {
            const RankInfo& far = ha ? rb : ra;
            c.check(w(0, b.ends[i][ha ? 0 : 1]) && l->nonlocal_ && l->component_[1] == far.rank && l->latency_[1] == far.thread, "remote-link", "%s", is.c_str());
        }
        c.check(l->no_cut_ == s.e[i].nocut && l->cross_rank_ == (ra.rank != rb.rank) && l->cross_thread_ == (ra.rank == rb.rank && ra.thread != rb.thread), "link-flags", "%s", is.c_str());
    }
    c.check(got.size() == nl && g.links_.size() == nl, "link-extra", "%s: rank %u has %zu links, not %zu", what.c_str(), r, (size_t)g.links_.size(), nl);
    for ( size_t k = 0; k < b.groups.size(); ++k ) {
        bool want = r == 0;
        for ( int i : b.groups[k] ) want |= at[i].rank == r;
        auto it = g.stats_config_->groups.find(fmt("g%zu", k));
        c.check((it != g.stats_config_->groups.end()) == want, "group", "%s: rank %u %s statistic group %zu", what.c_str(), r, want ? "lacks" : "has", k);
        if ( want ) c.check(it->second.components.size() == b.groups[k].size() && it->second.name == fmt("g%zu", k), "group-members", "%s: group %zu has %zu members on rank %u", what.c_str(), k, it->second.components.size(), r);
    }
    if ( !b.groups.empty() ) c.check(g.getStatLoadLevel() == 5 && g.stats_config_->outputs.size() == 1, "statistics", "%s: load level %d on rank %u", what.c_str(), (int)g.getStatLoadLevel(), r);
    c.step(nl + n);
}

// what holds after the assignment, whoever made it; returns where the components are
static void after(Ctx& c, const Shape& s, Built& b, const RankInfo& grid, const std::string& what, bool glued)
{
    std::vector<RankInfo> at;
    for ( int i = 0; i < s.n; ++i ) {
        auto* x = b.g->findComponent((uint64_t)i);
        c.check(x->rank.rank < grid.rank && x->rank.thread < grid.thread, "range", "%s: c%d is assigned to %s", what.c_str(), i, show(x->rank).c_str());
        at.push_back(x->rank);
    }
    if ( glued )
        for ( auto& e : s.e )
            if ( e.nocut ) c.check(at[e.a] == at[e.b], "glue", "%s: c%d is on %s and c%d on %s", what.c_str(), e.a, show(at[e.a]).c_str(), e.b, show(at[e.b]).c_str());
    c.check(b.g->checkRanks(grid), "check-ranks", "%s: checkRanks refuses the assignment", what.c_str());
    uint64_t want = UINT64_MAX;
    for ( auto& e : s.e ) if ( at[e.a].rank != at[e.b].rank ) want = std::min({ want, e.la, e.lb });
    c.check(b.g->getMinimumPartitionLatency() == want, "lookahead", "%s: lookahead %lu, the smallest latency across ranks is %lu", what.c_str(), (unsigned long)b.g->getMinimumPartitionLatency(), (unsigned long)want);
    if ( grid.rank > 1 ) {
        std::vector<std::unique_ptr<ConfigGraph>> parts(grid.rank);
        std::set<uint32_t> ranks;
        for ( uint32_t r = 0; r < grid.rank; ++r ) ranks.insert(r);
        distribute(std::move(b.g), ranks, parts);
        for ( uint32_t r = 0; r < grid.rank; ++r ) compare_rank(c, s, b, at, r, *parts[r], what);
    }
    else compare_rank(c, s, b, at, 0, *b.g, what);
    std::string h;
    for ( auto& a : at ) h += show(a) + " ";
    c.state(mc::hash(h));
}

static const uint64_t LAT[][2] = { { 4, 4 }, { 2, 5 }, { 7, 1 }, { 3, 3 } };
// all multisets of links, in canonical order
static Shape shape(Ctx& c, int maxn, int maxe)
{
    Shape s;
    s.n     = 1 + c.choose(maxn);
    s.owner = c.choose(4);
    std::vector<std::pair<int, int>> pairs;
    for ( int i = 0; i < s.n; ++i ) for ( int j = 0; j < s.n; ++j ) if ( i <= j || (s.n < 4 && s.owner != 3) ) pairs.push_back({ i, j });
    int lo  = 0, rot = c.choose(3);
    int cnt = c.choose(maxe + 1);
    for ( int k = 0; k < cnt; ++k ) {
        lo += c.choose((int)pairs.size() * 2 - lo);
        auto p = pairs[lo / 2];
        auto& l = LAT[(k + rot) % 4];
        s.e.push_back({ p.first, p.second, lo % 2 == 1, l[0], l[1] });
    }
    return s;
}

static int ceil_pow2(int v) { int p = 1; while ( p < v ) p *= 2; return p; }
static void assign(Ctx& c)
{
    Shape s = shape(c, c.thorough() ? 5 : 4, c.thorough() ? 4 : 3);
    if ( s.n >= 4 && s.e.size() >= 3 && s.owner && !c.thorough() ) c.discard();
    if ( s.n == 5 && s.e.size() == 4 && s.owner ) c.discard();
    static const RankInfo GRID[] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 1 }, { 1, 3 }, { 3, 2 }, { 4, 1 }, { 5, 1 } };
    const RankInfo& grid = GRID[c.choose(9)];
    static const char* NAME[] = { "linear", "roundrobin", "simple", "single" };
    // the glued groups, by smallest member
    std::vector<int> grp(s.n);
    for ( int i = 0; i < s.n; ++i ) grp[i] = i;
    for ( int k = 0; k < s.n; ++k ) for ( auto& e : s.e ) if ( e.nocut ) grp[e.a] = grp[e.b] = std::min(grp[e.a], grp[e.b]);
    std::vector<int> heads;
    for ( int i = 0; i < s.n; ++i ) if ( grp[i] == i ) heads.push_back(i);
    int total = (int)(grid.rank * grid.thread), G = (int)heads.size();
    for ( int p = 0; p < 4; ++p ) {
        Built b = build(s, {}, s.owner < 2);
        std::unique_ptr<SST::Partition::SSTPartitioner> part;
        using namespace SST::IMPL::Partition;
        RankInfo me(0, 0);
        if ( p == 0 ) part = std::make_unique<SSTLinearPartition>(grid, me, 0);
        else if ( p == 1 ) part = std::make_unique<SSTRoundRobinPartition>(grid, me, 0);
        else if ( p == 2 ) part = std::make_unique<SimplePartitioner>(grid, me, 0);
        else part = std::make_unique<SSTSinglePartition>(grid, me, 0);
        if ( part->requiresConfigGraph() ) part->performPartition(b.g.get());
        else {
            std::unique_ptr<SST::PartitionGraph> pg(b.g->getCollapsedPartitionGraph());
            c.check((int)pg->getNumComponents() == G, "groups", "%s: %zu groups of glued components, not %d", show(s).c_str(), pg->getNumComponents(), G);
            size_t cross = 0;
            for ( auto& e : s.e ) cross += grp[e.a] != grp[e.b];
            c.check(pg->getLinkMap().size() == cross, "group-links", "%s: %zu links between the groups, not %zu", show(s).c_str(), (size_t)pg->getLinkMap().size(), cross);
            float w = 0, total_w = 0;
            for ( auto* x : pg->getComponentMap() ) w += x->weight;
            for ( int i = 0; i < s.n; ++i ) total_w += 1 + i;
            c.check(w == total_w, "weight", "%s: the groups weigh %g, not %g", show(s).c_str(), w, total_w);
            part->performPartition(pg.get());
            b.g->annotateRanks(pg.get());
        }
        std::string what = fmt("%s on %ux%u: %s", NAME[p], grid.rank, grid.thread, show(s).c_str());
        // what the partitioner says of itself
        std::vector<int> count(total, 0), where;
        bool in = true;
        for ( int h : heads ) {
            RankInfo r = b.g->findComponent((uint64_t)h)->rank;
            in &= r.rank < grid.rank && r.thread < grid.thread;
            int k = in ? (int)(r.rank * grid.thread + r.thread) : 0;
            where.push_back(k);
            ++count[k];
        }
        int lo = *std::min_element(count.begin(), count.end()), hi = *std::max_element(count.begin(), count.end());
        if ( in && p == 0 ) c.check(std::is_sorted(where.begin(), where.end()) && hi - lo <= 1, "linear", "%s: the groups are not divided evenly in order", what.c_str());
        if ( in && p == 1 ) {
            c.check(hi - lo <= 1, "roundrobin", "%s: the groups are not dealt out evenly", what.c_str());
            for ( int i = 1; i < G; ++i )
                c.check(grid.rank == 1 || where[i] / (int)grid.thread != where[i - 1] / (int)grid.thread, "roundrobin", "%s: c%d and c%d are on one rank", what.c_str(), heads[i - 1], heads[i]);
        }
        if ( in && p == 2 && G >= ceil_pow2(total) ) c.check(lo > 0, "simple", "%s: a rank or thread has no component", what.c_str());
        if ( in && p == 3 ) c.check(hi == G && where[0] == 0, "single", "%s: not all components are on the first rank and thread", what.c_str());
        after(c, s, b, grid, what, true);
    }
    c.validated(4);
    c.nontrivial(G > 1);
    c.note("%s on %ux%u", show(s).c_str(), grid.rank, grid.thread);
}

static void user(Ctx& c)
{
    Shape s = shape(c, 3, c.thorough() ? 3 : 2);
    static const RankInfo GRID[] = { { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 1 }, { 3, 2 } };
    const RankInfo& grid = GRID[c.choose(5)];
    std::vector<RankInfo> at;
    bool fits = true;
    std::string h;
    for ( int i = 0; i < s.n; ++i ) {
        int v = c.choose((int)(grid.rank * grid.thread) + 3);
        RankInfo r = v < (int)(grid.rank * grid.thread) ? RankInfo(v / grid.thread, v % grid.thread) : v == (int)(grid.rank * grid.thread) ? RankInfo(grid.rank, 0) : v == (int)(grid.rank * grid.thread) + 1 ? RankInfo(0, grid.thread) : RankInfo();
        fits &= r.rank < grid.rank && r.thread < grid.thread;
        at.push_back(r);
        h += show(r) + " ";
    }
    if ( !fits && s.e.size() > 1 ) c.discard();
    Built b = build(s, at, s.owner % 2);
    SST::IMPL::Partition::SSTSelfPartition part(grid, RankInfo(0, 0), 0);
    c.check(part.requiresConfigGraph(), "self", "the self partitioner does not work on the graph of the user");
    part.performPartition(b.g.get());
    std::string what = fmt("placed at %son %ux%u: %s", h.c_str(), grid.rank, grid.thread, show(s).c_str());
    if ( !fits ) {
        fflush(stderr); // the message about the bad rank is not wanted here
        static int null = open("/dev/null", O_WRONLY);
        int        keep = dup(2);
        dup2(null, 2);
        bool good = b.g->checkRanks(grid);
        fflush(stderr);
        dup2(keep, 2);
        close(keep);
        c.check(!good, "range", "%s is accepted", what.c_str());
    }
    else {
        after(c, s, b, grid, what, false);
    }
    c.validated(1);
    c.nontrivial(fits);
    c.note("%s", what.c_str());
}

// whole simulations
static void flow(Ctx& c)
{
    static const RankInfo GRID[] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 1 }, { 1, 3 } };
    const RankInfo& grid = GRID[c.choose(6)];
    static const char* NAME[] = { "sst.linear", "sst.roundrobin", "sst.simple", "sst.single" };
    const char* name = NAME[c.choose(4)];
    int  n = 2 + c.choose(4), topo = c.choose(3), glue = c.choose(4), sub = c.choose(2);
    sl::Model m;
    for ( int i = 0; i < n; ++i ) {
        sl::CompM x;
        x.primary = true;
        x.script  = sub ? "S>s9:20:1,s10:1:1,s1:2:2;E10[1-5]>s1:1:+1;E1[1-5]>s10:0:+2;E9>O" : "S>s9:20:1,s0:1:1,s1:2:2;E0[1-5]>s1:1:+1;E1[1-5]>s0:0:+2;E9>O";
        x.ports.push_back({ 9, 's' });
        m.comps.push_back(x);
    }
    auto join = [&](int a, int b, int64_t la, int64_t lb, bool nc) {
        int pa = -1, pb = -1;
        auto add = [&](int i) {
            int k = (int)m.comps[i].ports.size() - 1;
            sl::PortM p;
            p.idx   = sub && !k ? 10 : k < 9 ? k : k + 10;
            p.mode  = 'h';
            p.owner = p.idx == 10 ? 1 : 0;
            m.comps[i].ports.push_back(p);
            return p.idx;
        };
        pa = add(a); pb = add(b);
        m.links.push_back({ a, pa, b, pb, la, lb, nc });
    };
    for ( int i = 0; i + 1 < n; ++i ) join(topo == 1 ? 0 : i, i + 1, 2 + i, 3, glue == 1 ? i == 0 : glue == 2 ? i % 2 == 1 : glue == 3);
    if ( topo == 2 ) join(n - 1, 0, 4, 5, false);
    for ( auto& x : m.comps ) { // one port may be missing at the ends of a line
        if ( x.ports.size() < 3 ) x.ports.push_back({ 1, 's' });
    }
    sl::RefOpts ro;
    ro.lag = 60;
    sl::Ref ref = sl::reference(m, ro);
    if ( !ref.ok ) c.fail("harness", "reference: %s", ref.why.c_str());
    sl::Opts o;
    o.ranks    = (int)grid.rank;
    o.threads  = (int)grid.thread;
    o.selfpart = false;
    o.args     = { std::string("--partitioner=") + name };
    sl::Run run = sl::run_sim(m, o);
    c.check(!run.status && !run.timeout, "run", "%s on %ux%u: simulation ended with %s: %s", name, grid.rank, grid.thread, run.why().c_str(), run.out.substr(run.out.size() > 600 ? run.out.size() - 600 : 0).c_str());
    std::string d = sl::diff(sl::lines(ref.recs, ref.end), sl::lines(run.recs, ref.end));
    c.check(d.empty(), "observed", "%s on %ux%u: %s", name, grid.rank, grid.thread, d.c_str());
    std::map<int, std::set<std::pair<unsigned, unsigned>>> at;
    for ( auto& r : run.recs ) at[r.comp].insert({ r.rank, r.thread });
    for ( int i = 0; i < n; ++i ) {
        c.check(at[i].size() == 1 && at[i].begin()->first < grid.rank && at[i].begin()->second < grid.thread, "placed", "%s on %ux%u: c%d is in %zu places", name, grid.rank, grid.thread, i, at[i].size());
        for ( auto& l : m.links )
            if ( l.nocut && (l.a == i || l.b == i) ) c.check(at[l.a] == at[l.b], "glue", "%s on %ux%u: c%d and c%d are apart", name, grid.rank, grid.thread, l.a, l.b);
    }
    c.step(ref.steps);
    c.validated(1);
    c.nontrivial();
    c.note("%s on %ux%u: %s", name, grid.rank, grid.thread, m.describe().c_str());
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "assign", assign, 60, 8 }, { "user", user, 60, 8 }, { "flow", flow, 60, 4 } });
}
