// P02: activities run in time, priority and insertion order under every queue.
//
// "queue": every sequence of inserts and pops on each of the built-in time vortex implementations, against a sorted list.
// "compare": the comparison functions of activities on all pairs of boundary keys.
#include "mc.h"
#include <algorithm>
#include <set>
#include "sst/core/action.h"
#include "sst/core/params.h"
#include "sst/core/timeVortex.h"
using mc::Ctx;
using mc::fmt;

namespace {
int live = 0;
class Act : public SST::Action
{
public:
    int id;
    Act(uint64_t t, int prio, uint32_t tag, int id) : id(id)
    {
        ++live;
        setDeliveryTime(t);
        // both orders must give the same key
        if ( id & 1 ) { setPriority(prio); setOrderTag(tag); }
        else { setOrderTag(tag); setPriority(prio); }
    }
    ~Act() { --live; }
    void execute() override {}
    NotSerializable(Act)
};
struct Key { uint64_t dt; int prio; uint32_t tag; };
struct Ent { uint64_t t; int prio; uint32_t tag; int seq; Act* a; };
bool before(const Ent& x, const Ent& y) { return std::tie(x.t, x.prio, x.tag, x.seq) < std::tie(y.t, y.prio, y.tag, y.seq); }
} // namespace

static const std::vector<std::string> QUEUES = { "timevortex.priority_queue", "timevortex.priority_queue.ts", "timevortex.map.binned", "timevortex.map.binned.ts" };
static SST::TimeVortex* make(const std::string& name)
{
    SST::Params p;
    auto* lib = SST::TimeVortex::getBuilderLibrary("sst");
    auto* b   = lib ? lib->getBuilder(name) : nullptr;
    return b ? b->create(p) : nullptr;
}
static void run_queue(Ctx& c, const std::vector<Key>& alpha, int depth, const char* qname)
{
    live = 0;
    SST::TimeVortex* q = make(qname);
    c.check(q, "create", "no queue %s", qname);
    std::vector<Ent>  ref;
    std::vector<Act*> popped;
    uint64_t          now = 0;
    int               n   = 0;
    size_t            maxd = 0;
    std::string       hist;
    auto min = [&]() { return std::min_element(ref.begin(), ref.end(), before); };
    for ( int i = 0; i < depth; ++i ) {
        int k = c.choose((int)alpha.size() + 1);
        c.step();
        if ( k == 0 ) {
            hist += "pop ";
            if ( ref.empty() ) {
                c.check(q->empty(), "empty", "%s: %s: not empty", qname, hist.c_str());
                c.check(q->pop() == nullptr, "pop-empty", "%s: %s: an empty queue yields an activity", qname, hist.c_str());
                // and still works afterwards
                continue;
            }
            auto             it = min();
            SST::Activity*   f  = q->front();
            c.check(f == it->a, "front", "%s: %s: front is %d instead of %d", qname, hist.c_str(), f ? ((Act*)f)->id : -1, it->a->id);
            SST::Activity* a = q->pop();
            c.check(a == it->a, "order", "%s: %s: popped %d instead of %d", qname, hist.c_str(), a ? ((Act*)a)->id : -1, it->a->id);
            now = it->t;
            popped.push_back(it->a);
            ref.erase(it);
        }
        else {
            auto& key = alpha[k - 1];
            // times are not before that of the last activity popped
            uint64_t t = now + key.dt;
            auto*    a = new Act(t, key.prio, key.tag, n);
            c.check(a->getPriority() == key.prio && a->getOrderTag() == key.tag && a->getDeliveryTime() == t, "key", "key of an activity");
            hist += fmt("insert(%d:%lu,%d,%u) ", n, (unsigned long)t, key.prio, key.tag);
            ref.push_back({ t, key.prio, key.tag, n++, a });
            q->insert(a);
        }
        maxd = std::max(maxd, ref.size());
        c.check(q->size() == (int)ref.size() && q->getCurrentDepth() == ref.size(), "size", "%s: %s: size %d depth %lu instead of %zu", qname, hist.c_str(), q->size(), (unsigned long)q->getCurrentDepth(), ref.size());
        c.check(q->empty() == ref.empty(), "empty", "%s: %s", qname, hist.c_str());
        c.check(q->getMaxDepth() == maxd, "max-depth", "%s: %s: max depth %lu instead of %zu", qname, hist.c_str(), (unsigned long)q->getMaxDepth(), maxd);
        if ( !ref.empty() ) {
            SST::Activity* f = q->front();
            c.check(f == min()->a, "front", "%s: %s: front is %d instead of %d", qname, hist.c_str(), f ? ((Act*)f)->id : -1, min()->a->id);
        }
        std::string s;
        std::sort(ref.begin(), ref.end(), before);
        for ( auto& e : ref ) s += fmt("%lu,%d,%u;", (unsigned long)(e.t - now), e.prio, e.tag);
        c.state(mc::hash(s));
    }
    std::vector<SST::Activity*> cont;
    q->getContents(cont);
    std::multiset<SST::Activity*> want, got(cont.begin(), cont.end());
    for ( auto& e : ref ) want.insert(e.a);
    c.check(want == got, "contents", "%s: %s: contents has %zu activities instead of %zu", qname, hist.c_str(), got.size(), want.size());
    // drain
    while ( !ref.empty() ) {
        auto it = min();
        SST::Activity* a = q->pop();
        c.check(a == it->a, "order", "%s: %s: then popped %d instead of %d", qname, hist.c_str(), a ? ((Act*)a)->id : -1, it->a->id);
        popped.push_back(it->a);
        ref.erase(it);
    }
    c.check(q->empty() && q->size() == 0, "empty", "%s: %s: not empty after draining", qname, hist.c_str());
    for ( auto* a : popped ) delete a;
    delete q;
    c.check(live == 0, "ownership", "%s: %s: %d activities alive", qname, hist.c_str(), live);
    c.nontrivial(n > 1);
    c.validated();
    c.note("%s %s", qname, hist.c_str());
}
static void queue(Ctx& c)
{
    auto& q = c.pick(QUEUES);
    // 0, 1: different times; priorities and tags that tie in every combination
    static const std::vector<Key> A = { { 0, 40, 0 }, { 0, 50, 1 }, { 0, 50, 2 }, { 1, 50, 1 }, { 1, 40, 0 }, { 2, 50, 2 } };
    run_queue(c, A, c.thorough() ? 8 : 6, q.c_str());
}
static void extremes(Ctx& c)
{
    auto& q = c.pick(QUEUES);
    static const std::vector<Key> A = { { 0, 0, 0 }, { 0, 99, 0xffffffffu }, { 0, 50, 0x80000000u }, { 0, 50, 0x7fffffffu }, { 1ull << 32, 25, 1 }, { 1ull << 33, 25, 0 }, { (1ull << 62), 99, 7 }, { (1ull << 62), 30, 7 } };
    run_queue(c, A, c.thorough() ? 6 : 5, q.c_str());
}
// many activities at one time: the order of insertion survives
static void bulk(Ctx& c)
{
    auto& qn = c.pick(QUEUES);
    int   n  = 3 + c.choose(60);
    int   pat = c.choose(6);
    auto* q  = make(qn);
    std::vector<Ent> ref;
    for ( int i = 0; i < n; ++i ) {
        uint64_t t = pat == 0 ? 5 : pat == 1 ? i % 3 : pat == 2 ? (n - i) / 4 : pat == 3 ? 5 : (i * 7) % 5;
        int      p = pat == 3 ? (i % 2 ? 40 : 50) : pat == 5 ? 50 - (i * 5) % 3 : 50;
        uint32_t g = pat == 4 ? i % 4 : pat == 0 ? 3 : (i / 5) % 2;
        auto*    a = new Act(t, p, g, i);
        ref.push_back({ t, p, g, i, a });
        q->insert(a);
    }
    c.check((int)q->getMaxDepth() == n, "max-depth", "%s", qn.c_str());
    std::sort(ref.begin(), ref.end(), before);
    int got = 0;
    for ( auto& e : ref ) {
        auto* a = q->pop();
        c.check(a == e.a, "order", "%s: %d activities, pattern %d: number %d is %d instead of %d", qn.c_str(), n, pat, got, a ? ((Act*)a)->id : -1, e.a->id);
        ++got;
        delete a;
    }
    c.check(q->pop() == nullptr && q->empty(), "empty", "%s", qn.c_str());
    delete q;
    c.step(n);
    c.validated();
    c.nontrivial();
    c.note("%s n=%d pattern %d", qn.c_str(), n, pat);
}
template <bool T, bool P, bool Q>
static void cmp3(Ctx& c, const Ent& x, const Ent& y)
{
    auto kx = std::make_tuple(T ? x.t : 0, P ? x.prio : 0, P ? x.tag : 0, Q ? x.seq : 0);
    auto ky = std::make_tuple(T ? y.t : 0, P ? y.prio : 0, P ? y.tag : 0, Q ? y.seq : 0);
    bool l = SST::Activity::less<T, P, Q>()(x.a, y.a), g = SST::Activity::greater<T, P, Q>()(x.a, y.a);
    c.check(l == (kx < ky) && g == (kx > ky), "compare", "less/greater<%d,%d,%d> of (%lu,%d,%u,%d) and (%lu,%d,%u,%d): %d %d", T, P, Q, (unsigned long)x.t, x.prio, x.tag, x.seq, (unsigned long)y.t, y.prio, y.tag, y.seq, l, g);
}
static void compare(Ctx& c)
{
    static const std::vector<uint64_t> TS = { 0, 1, 2, (1ull << 32) - 1, 1ull << 32, (1ull << 63), UINT64_MAX };
    static const std::vector<int>      PS = { 0, 20, 25, 40, 50, 99 };
    static const std::vector<uint32_t> GS = { 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu };
    Ent x { c.pick(TS), c.pick(PS), 0, 0, nullptr };
    uint32_t xg = c.pick(GS);
    std::vector<Ent> all;
    for ( auto t : TS ) for ( auto p : PS ) for ( auto g : GS ) for ( int s : { 0, 1 } ) all.push_back({ t, p, g, s, nullptr });
    x.tag = xg;
    for ( int s : { 0, 1 } ) {
        x.seq = s;
        x.a   = new Act(x.t, x.prio, x.tag, 0);
        x.a->setQueueOrder(s);
        for ( auto e : all ) {
            e.a = new Act(e.t, e.prio, e.tag, 1);
            e.a->setQueueOrder(e.seq);
            cmp3<true, true, true>(c, x, e);
            cmp3<true, true, false>(c, x, e);
            cmp3<true, false, true>(c, x, e);
            cmp3<true, false, false>(c, x, e);
            cmp3<false, true, true>(c, x, e);
            cmp3<false, true, false>(c, x, e);
            cmp3<false, false, true>(c, x, e);
            c.step(14);
            delete e.a;
        }
        delete x.a;
    }
    c.validated();
    c.nontrivial();
    c.note("%lu %d %u", (unsigned long)x.t, x.prio, x.tag);
}
#include "sst/core/mempoolAccessor.h"
int main(int argc, char** argv)
{
    SST::Core::MemPoolAccessor::initializeGlobalData(1, false);
    SST::Core::MemPoolAccessor::initializeLocalData(0);
    return mc::run(argc, argv, { { "queue", queue, 20 }, { "extremes", extremes, 20 }, { "bulk", bulk, 20 }, { "compare", compare, 20 } });
}
