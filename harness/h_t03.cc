// T03: queues that several threads fill.
#include "sst_config.h"
#include "sst/core/event.h"
#include "sst/core/exit.h"
#include "sst/core/initQueue.h"
#include "sst/core/mempoolAccessor.h"
#include "sst/core/params.h"
#include "sst/core/simulation.h"
#include "sst/core/sync/syncQueue.h"
#include "sst/core/timeVortex.h"
#include "tmc.h"
#include <algorithm>
#include <cstring>
#include <map>
using mc::Ctx;
using mc::fmt;
using namespace SST;

namespace {
int live = 0; // changed between two synchronisation operations only
class Act : public Action
{
public:
    int id;
    __attribute__((no_sanitize_thread)) Act(uint64_t t, int prio, uint32_t tag, int id) : id(id)
    {
        ++live;
        setPriority(prio);
        setOrderTag(tag);
        setDeliveryTime(t);
    }
    __attribute__((no_sanitize_thread)) ~Act() { --live; }
    void execute() override {}
    NotSerializable(Act)
};
class Ev : public Event
{
public:
    int id = 0, extra = 0;
    Ev() {}
    Ev(uint64_t t, int id) : id(id), extra(~id) { setDeliveryTime(t); }
    void serialize_order(Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(id); SST_SER(extra); }
    ImplementSerializable(Ev)
};
struct Key { uint64_t t; int prio; uint32_t tag; };
struct Ins { int thread, id; Key k; uint64_t in, out; };
struct Pop { int id; uint64_t in, out; };
bool same(const Key& a, const Key& b) { return std::tie(a.t, a.prio, a.tag) == std::tie(b.t, b.prio, b.tag); }
bool less(const Key& a, const Key& b) { return std::tie(a.t, a.prio, a.tag) < std::tie(b.t, b.prio, b.tag); }
void locals(int t) { Core::MemPoolAccessor::initializeLocalData(t); }
void globals()
{
    static bool done = false;
    if ( done ) return;
    done = true;
    Core::MemPoolAccessor::initializeGlobalData(8);
    locals(7);
}
} // namespace

static const std::vector<std::string> QUEUES = { "timevortex.priority_queue.ts", "timevortex.map.binned.ts" };
static TimeVortex* make(const std::string& name)
{
    Params p;
    auto*  lib = TimeVortex::getBuilderLibrary("sst");
    auto*  b   = lib ? lib->getBuilder(name) : nullptr;
    return b ? b->create(p) : nullptr;
}

// Thread 0 owns the queue and pops what is due before the sync and the sync itself (and inserts for itself); the other threads insert at
// the time of the sync and later.  Afterwards the queue is drained.
static void vortex_case(Ctx& c, const std::string& qname, const std::vector<Key>& before, int own, const std::vector<std::vector<Key>>& prod, int lookers, int preempt)
{
    globals();
    live = 0;
    TimeVortex* q = make(qname);
    c.check(q, "create", "no queue %s", qname.c_str());
    std::vector<Ins> ins;
    std::vector<Pop> pops;
    std::map<int, Key> keys;
    uint64_t base = 0;
    int id = 1;
    auto pre = [&](Key k) { Ins i { -1, id++, k, ++base, 0 }; q->insert(new Act(k.t, k.prio, k.tag, i.id)); i.out = ++base; ins.push_back(i); };
    for ( auto& k : before ) pre(k);
    pre({ 5, 25, 0 });
    std::vector<std::vector<Ins>> per(prod.size() + 1);
    std::vector<std::function<void()>> f;
    f.push_back([&] {
        locals(0);
        size_t n = before.size() + 1 + own;
        for ( size_t i = 0; i < n; ++i ) {
            if ( (int)i < own ) { // for itself, before the sync
                Ins x { 0, 90 + (int)i, { 3, 50, 1 }, tmc::stamp(), 0 };
                q->insert(new Act(x.k.t, x.k.prio, x.k.tag, x.id));
                x.out = tmc::stamp();
                per[0].push_back(x);
            }
            Pop       p { 0, tmc::stamp(), 0 };
            Activity* a = q->pop();
            p.out = tmc::stamp();
            if ( !a ) { tmc::fail("lost", "nothing to pop although the sync is still to come"); return; }
            p.id = ((Act*)a)->id;
            pops.push_back(p);
            delete a;
        }
    });
    for ( size_t t = 0; t < prod.size(); ++t )
        f.push_back([&, t] {
            locals((int)t + 1);
            int k = 0;
            for ( auto& key : prod[t] ) {
                Ins x { (int)t + 1, 100 * ((int)t + 1) + k++, key, tmc::stamp(), 0 };
                q->insert(new Act(key.t, key.prio, key.tag, x.id));
                x.out = tmc::stamp();
                per[t + 1].push_back(x);
            }
            if ( lookers ) { // everybody looks for the next time in a sync
                if ( q->size() < 0 ) tmc::fail("size", "negative");
                if ( q->empty() && !prod[t].empty() && before.empty() ) tmc::fail("empty", "empty after an insert that nobody popped");
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    uint64_t last = 1000000 + base;
    for ( auto& v : per ) for ( auto x : v ) { x.in += base; x.out += base; ins.push_back(x); }
    for ( auto& p : pops ) { p.in += base; p.out += base; }
    for ( auto& i : ins ) keys[i.id] = i.k;
    c.check(q->size() == (int)(ins.size() - pops.size()), "size", "size is %d after %zu inserts and %zu pops", q->size(), ins.size(), pops.size());
    c.check(q->getCurrentDepth() == ins.size() - pops.size(), "depth", "depth is %lu after %zu inserts and %zu pops", (unsigned long)q->getCurrentDepth(), ins.size(), pops.size());
    c.check(q->getMaxDepth() <= ins.size() && q->getMaxDepth() >= ins.size() - pops.size(), "max-depth", "maximal depth is %lu after %zu inserts and %zu pops", (unsigned long)q->getMaxDepth(), ins.size(), pops.size());
    size_t left = ins.size() - pops.size();
    for ( size_t i = 0; i < left; ++i ) {
        c.check(!q->empty(), "lost", "empty with %zu left", left - i);
        Activity* fr = q->front();
        int       fid = fr ? ((Act*)fr)->id : -1;
        Activity* a = q->pop();
        c.check(a, "lost", "null with %zu left", left - i);
        Pop p { ((Act*)a)->id, last + 1, last + 2 };
        c.check(p.id == fid, "front", "front was %d, popped %d", fid, p.id);
        last += 2;
        pops.push_back(p);
        delete a;
    }
    c.check(q->empty() && q->pop() == nullptr, "left", "not empty after all was popped");
    delete q;
    c.check(live == 0, "leak", "%d activities are left", live);
    std::string h;
    for ( auto& i : ins ) h += fmt("%d@%lu/%d[%lu-%lu] ", i.id, (unsigned long)i.k.t, i.k.prio, (unsigned long)i.in, (unsigned long)i.out);
    h += "-> ";
    for ( auto& p : pops ) h += fmt("%d[%lu-%lu] ", p.id, (unsigned long)p.in, (unsigned long)p.out);
    std::map<int, int> at;
    for ( size_t i = 0; i < pops.size(); ++i ) {
        c.check(keys.count(pops[i].id), "unknown", "%s: %d was never inserted", h.c_str(), pops[i].id);
        c.check(at.emplace(pops[i].id, (int)i).second, "twice", "%s: %d came out twice", h.c_str(), pops[i].id);
    }
    for ( auto& a : ins )
        for ( auto& b : ins ) {
            if ( &a == &b ) continue;
            bool first = less(a.k, b.k) || (same(a.k, b.k) && a.out < b.in); // a goes before b
            if ( !first || at[a.id] < at[b.id] ) continue;
            // b came out before a: only right if a was not there yet
            c.check(pops[at[b.id]].out > a.in && pops[at[b.id]].in < a.out, "order", "%s: %s: %d came out before %d", qname.c_str(), h.c_str(), b.id, a.id);
        }
    c.note("%s %s", qname.c_str(), h.c_str());
    c.state(mc::hash(qname + h));
    c.nontrivial();
}
static const std::vector<Key> PK = { { 5, 50, 1 }, { 5, 50, 2 }, { 6, 50, 1 }, { 7, 40, 1 } };
static void vortex2(Ctx& c)
{
    std::string q = c.pick(QUEUES);
    static const std::vector<std::vector<Key>> B = { {}, { { 1, 50, 1 } }, { { 1, 50, 1 }, { 5, 20, 0 } }, { { 2, 40, 1 }, { 1, 50, 1 } } };
    auto b = c.pick(B);
    int own = c.choose(2), n = 1 + c.choose(c.thorough() ? 3 : 2);
    std::vector<Key> p;
    for ( int i = 0; i < n; ++i ) p.push_back(c.pick(PK));
    vortex_case(c, q, b, own, { p }, 1, c.thorough() ? 3 : 3);
}
static void vortex3(Ctx& c)
{
    std::string q = c.pick(QUEUES);
    static const std::vector<std::vector<Key>> B = { {}, { { 1, 50, 1 }, { 5, 20, 0 } } };
    auto b = c.pick(B);
    int n = c.thorough() ? 2 : 1;
    std::vector<std::vector<Key>> p(2);
    for ( auto& v : p ) for ( int i = 0; i < n; ++i ) v.push_back(c.pick(PK));
    if ( !c.thorough() ) p[0].push_back(c.pick(PK));
    vortex_case(c, q, b, 0, p, 0, c.thorough() ? 3 : 2);
}

// the queue between ranks: threads insert, one thread takes what is there, in packed form
static void ranks(Ctx& c)
{
    globals();
    RankSyncQueue* q = new RankSyncQueue(RankInfo(1, 0));
    int nt = 1 + c.choose(2), takes = 1 + c.choose(2), pre = c.choose(3);
    int ins = 1 + c.choose(2);
    std::vector<std::vector<int>> got;
    auto take = [&](std::vector<int>& ids) {
        char* d = q->getData();
        auto* h = (RankSyncQueue::Header*)d;
        Core::Serialization::serializer ser;
        ser.start_unpacking(d + sizeof(RankSyncQueue::Header), h->buffer_size - sizeof(RankSyncQueue::Header));
        std::vector<Activity*> v;
        SST_SER(v);
        for ( auto* a : v ) {
            Ev* e = dynamic_cast<Ev*>(a);
            if ( !e || e->extra != ~e->id || e->getDeliveryTime() != (uint64_t)e->id * 3 ) { tmc::fail("content", "an event came out damaged"); continue; }
            ids.push_back(e->id);
            delete e;
        }
    };
    for ( int i = 0; i < pre; ++i ) q->insert(new Ev((i + 1) * 3, i + 1));
    std::vector<std::function<void()>> f;
    struct T { std::vector<int> ids; uint64_t in, out; };
    std::vector<T> ts;
    std::map<int, std::pair<uint64_t, uint64_t>> when;
    std::vector<std::vector<std::pair<uint64_t, uint64_t>>> w(nt);
    f.push_back([&] {
        locals(0);
        for ( int i = 0; i < takes; ++i ) { T t { {}, tmc::stamp(), 0 }; take(t.ids); t.out = tmc::stamp(); ts.push_back(t); }
    });
    for ( int t = 0; t < nt; ++t )
        f.push_back([&, t] {
            locals(t + 1);
            for ( int i = 0; i < ins; ++i ) {
                int id = 100 * (t + 1) + i;
                uint64_t a = tmc::stamp();
                q->insert(new Ev(id * 3, id));
                w[t].push_back({ a, tmc::stamp() });
            }
            if ( q->size() > pre + nt * ins ) tmc::fail("size", "size is %d", q->size());
        });
    tmc::Opts o;
    o.preemptions = c.thorough() ? 4 : 3;
    tmc::run(c, o, f);
    for ( int i = 0; i < pre; ++i ) when[i + 1] = { 0, 0 };
    size_t total = pre + nt * ins, out = 0;
    for ( auto& t : ts ) out += t.ids.size();
    c.check(q->size() == (int)(total - out) && q->empty() == (total == out), "size", "size is %d after %zu inserts and %zu taken", q->size(), total, out);
    T fin { {}, 1000000, 1000001 };
    take(fin.ids);
    ts.push_back(fin);
    for ( int t = 0; t < nt; ++t ) for ( int i = 0; i < ins; ++i ) when[100 * (t + 1) + i] = w[t][i];
    std::map<int, std::pair<int, int>> at;
    std::string h;
    for ( size_t k = 0; k < ts.size(); ++k ) {
        h += "|";
        for ( size_t i = 0; i < ts[k].ids.size(); ++i ) {
            int id = ts[k].ids[i];
            h += fmt("%d ", id);
            c.check(when.count(id), "unknown", "%d was never inserted", id);
            c.check(at.emplace(id, std::make_pair((int)k, (int)i)).second, "twice", "%s: %d came out twice", h.c_str(), id);
            c.check(when[id].first < ts[k].out, "early", "%s: %d came out before it was inserted", h.c_str(), id);
        }
    }
    c.check(at.size() == total, "lost", "%s: %zu of %zu came out", h.c_str(), at.size(), total);
    for ( auto& a : when ) {
        for ( size_t k = 0; k < ts.size(); ++k )
            if ( a.second.second < ts[k].in ) c.check(at[a.first].first <= (int)k, "late", "%s: %d was there before take %zu", h.c_str(), a.first, k);
        for ( auto& b : when ) if ( a.second.second < b.second.first ) c.check(at[a.first] < at[b.first], "order", "%s: %d was inserted before %d", h.c_str(), a.first, b.first);
    }
    // nothing is left, and the queue goes on working
    std::vector<int> more;
    take(more);
    c.check(more.empty(), "again", "a queue that was emptied yields %zu events", more.size());
    q->insert(new Ev(21, 7));
    take(more);
    c.check(more == std::vector<int> { 7 }, "again", "an event inserted afterwards does not come out");
    delete q;
    c.note("%s", h.c_str());
    c.state(mc::hash(h));
    c.nontrivial();
}

// the queue of untimed events: one thread inserts, another removes
static void untimed(Ctx& c)
{
    globals();
    InitQueue* q = new InitQueue();
    int nt = 1 + c.choose(2), ins = 1 + c.choose(3), pre = c.choose(2), pops = 1 + c.choose(3);
    std::vector<int> got;
    for ( int i = 0; i < pre; ++i ) q->insert(new Act(0, 50, 0, i + 1));
    std::vector<std::function<void()>> f;
    std::vector<int> done(nt);
    auto pop1 = [&](bool later) {
        bool was = q->empty();
        Activity* fr = q->front();
        Activity* a  = q->pop();
        if ( !was && !a ) tmc::fail("lost", "not empty but nothing to pop");
        if ( fr && fr != a ) tmc::fail("front", "the front is not what is popped");
        if ( !a ) return false;
        got.push_back(((Act*)a)->id);
        delete a;
        return true;
    };
    f.push_back([&] { locals(0); for ( int i = 0; i < pops; ++i ) pop1(false); });
    for ( int t = 0; t < nt; ++t ) f.push_back([&, t] { locals(t + 1); for ( int i = 0; i < ins; ++i ) q->insert(new Act(0, 50, 0, 100 * (t + 1) + i)); });
    tmc::Opts o;
    o.preemptions = c.thorough() ? 4 : nt == 1 ? 3 : 2;
    tmc::run(c, o, f);
    while ( pop1(true) ) if ( got.size() > 50 ) break;
    std::string h;
    for ( int g : got ) h += fmt("%d ", g);
    std::map<int, size_t> at;
    for ( size_t i = 0; i < got.size(); ++i ) c.check(at.emplace(got[i], i).second, "twice", "%s: %d came out twice", h.c_str(), got[i]);
    c.check(got.size() == (size_t)(pre + nt * ins), "lost", "%s: %zu of %d came out", h.c_str(), got.size(), pre + nt * ins);
    for ( int t = 0; t < nt; ++t )
        for ( int i = 0; i < ins; ++i ) {
            int id = 100 * (t + 1) + i;
            c.check(at.count(id), "lost", "%s: %d is lost", h.c_str(), id);
            if ( i ) c.check(at[id - 1] < at[id], "order", "%s: %d came out after %d", h.c_str(), id - 1, id);
            if ( pre ) c.check(at[1] < at[id], "order", "%s: 1 came out after %d", h.c_str(), id);
        }
    delete q;
    c.note("%s", h.c_str());
    c.state(mc::hash(h));
    c.nontrivial();
}

// agreement counters
static thread_local uint64_t now_;
SimTime_t Simulation::getCurrentSimCycle() const { return now_; }
static void agreement(Ctx& c)
{
    globals();
    int nt = 2 + c.choose(2);
    // programs over + and -, never below zero for the thread
    static const std::vector<std::string> P = { "+", "-", "+-", "-+", "--", "+--" };
    std::vector<std::string> prog;
    std::vector<int>         start(nt, 0);
    unsigned total = 0, end = 0;
    Exit e(nt, true);
    static char* sim = (char*)calloc(1, sizeof(Simulation) + 4096);
    std::vector<std::vector<uint64_t>> times(nt);
    for ( int t = 0; t < nt; ++t ) {
        prog.push_back(c.pick(P));
        start[t] = prog[t] == "--" ? 2 : 1;
        int r = c.choose(2); // whose time is ahead
        int n = start[t];
        uint64_t when = 10 * (t + 1) * (r ? 5 - t : 1);
        for ( char k : prog[t] ) { n += k == '+' ? 1 : -1; when += 1; times[t].push_back(when); if ( n == 0 ) end = std::max<unsigned>(end, when); }
        total += n;
        for ( int i = 0; i < start[t]; ++i ) e.refInc(t);
    }
    for ( int t = 0; t < nt; ++t ) Simulation::instanceMap.clear();
    std::vector<std::function<void()>> f;
    tmc::Opts o;
    o.serial = true;
    o.races  = false;
    for ( int t = 0; t < nt; ++t ) f.push_back([&, t] { Simulation::instanceMap[std::this_thread::get_id()] = (Simulation*)sim; });
    tmc::run(c, o, f);
    f.clear();
    for ( int t = 0; t < nt; ++t )
        f.push_back([&, t] {
            int i = 0;
            for ( char k : prog[t] ) { now_ = times[t][i++]; if ( k == '+' ) e.refInc(t); else e.refDec(t); }
        });
    o.serial      = false;
    o.races       = true;
    o.preemptions = c.thorough() ? 4 : nt == 2 ? 3 : 2;
    tmc::run(c, o, f);
    Simulation::instanceMap.clear();
    std::string ps;
    for ( auto& s : prog ) ps += s + "|";
    c.check(e.getRefCount() == total, "count", "%s: count is %u, should be %u", ps.c_str(), e.getRefCount(), total);
    c.check(e.getEndTime() == end, "end", "%s: end time is %lu, should be %u", ps.c_str(), (unsigned long)e.getEndTime(), end);
    c.note("%s %u %u", ps.c_str(), total, end);
    c.nontrivial();
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "vortex2", vortex2, 20 }, { "vortex3", vortex3, 20 }, { "ranks", ranks, 20 }, { "untimed", untimed, 20 }, { "agreement", agreement, 20 } });
}
