// T02: lock-free queues, spin locks and atomic extremes.
#include "sst_config.h"
#include "sst/core/threadsafe.h"
#include "tmc.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
using mc::Ctx;
using mc::fmt;
using namespace SST::Core::ThreadSafe;

struct Op { int thread; bool ins; int v; bool ok; uint64_t in, out; };

// What holds of every history of a queue with room for `cap` elements (0: no limit).
static std::string judge(const std::vector<Op>& h, size_t cap, std::string& text)
{
    for ( auto& o : h ) text += fmt("%d%c%d%s[%lu-%lu] ", o.thread, o.ins ? 'I' : 'R', o.v, o.ok ? "" : "x", (unsigned long)o.in, (unsigned long)o.out);
    for ( auto& a : h ) {
        if ( a.ins && a.ok ) { // returned exactly once, not before it was inserted
            int n = 0;
            for ( auto& r : h ) if ( !r.ins && r.ok && r.v == a.v ) { ++n; if ( r.out < a.in ) return "returned before it was inserted"; }
            if ( n != 1 ) return fmt("element %d was returned %d times", a.v, n);
        }
        if ( !a.ins && a.ok ) {
            bool known = false;
            for ( auto& i : h ) known = known || (i.ins && i.ok && i.v == a.v);
            if ( !known ) return fmt("element %d was never inserted", a.v);
        }
        if ( a.ins && !a.ok ) { // refused: full at some moment of the call, unless a removal was under way
            size_t begun = 0, gone = 0;
            bool   under_way = false;
            for ( auto& i : h ) {
                if ( i.ins && i.ok && i.in < a.out ) ++begun;
                if ( !i.ins && i.ok && i.out < a.in ) ++gone;
                if ( !i.ins && i.ok && i.in < a.out && i.out > a.in ) under_way = true;
            }
            if ( !cap || !under_way && begun - gone < cap ) return fmt("element %d was refused although the queue was not full", a.v);
        }
        if ( a.ins && a.ok && cap ) { // accepted: not full during the whole call
            size_t before = 0, gone = 0;
            for ( auto& i : h ) { if ( i.ins && i.ok && i.out < a.in ) ++before; if ( !i.ins && i.ok && i.in < a.out ) ++gone; }
            if ( before >= cap + gone ) return fmt("element %d was accepted although the queue was full", a.v);
        }
        if ( !a.ins && !a.ok ) { // empty-handed: nothing complete was left, unless an insertion was under way
            size_t there = 0, taken = 0;
            bool   under_way = false;
            for ( auto& i : h ) {
                if ( i.ins && i.ok && i.out < a.in ) ++there;
                if ( i.ins && i.in < a.out && i.out > a.in ) under_way = true;
                if ( !i.ins && i.ok && i.in < a.out ) ++taken;
            }
            if ( !under_way && there > taken ) return "a removal failed although an element was there";
        }
    }
    // order: an element inserted entirely before another one is not removed entirely after it
    for ( auto& a : h )
        for ( auto& b : h ) {
            if ( !a.ins || !b.ins || !a.ok || !b.ok || a.out >= b.in ) continue;
            uint64_t ra = 0, rb = 0;
            for ( auto& r : h ) if ( !r.ins && r.ok ) { if ( r.v == a.v ) ra = r.in; if ( r.v == b.v ) rb = r.out; }
            if ( rb < ra ) return fmt("element %d was removed before %d, which was inserted earlier", b.v, a.v);
        }
    return "";
}

struct Bounded
{
    BoundedQueue<int> q; size_t cap;
    explicit Bounded(size_t c) : q(c), cap(c) {}
    bool ins(int v) { return q.try_insert(v); }
    bool rem(int& v) { return q.try_remove(v); }
    int  take() { return q.remove(); }
};
struct Unbounded
{
    UnboundedQueue<int> q; size_t cap = 0;
    explicit Unbounded(size_t) {}
    bool ins(int v) { q.insert(v); return true; }
    bool rem(int& v) { return q.try_remove(v); }
    int  take() { return q.remove(); }
};

template <class Q>
static void histories(Ctx& c, size_t cap, int prefill, int preremove, const std::vector<std::string>& prog, int preempt)
{
    Q q(cap);
    std::vector<std::vector<Op>> per(prog.size() + 1);
    auto& seq = per.back();
    int   val = 1;
    auto serial = [&](bool ins, int v) {
        Op o { 9, ins, v, false, tmc::stamp(), 0 };
        o.ok  = ins ? q.ins(v) : q.rem(o.v);
        o.out = tmc::stamp();
        seq.push_back(o);
        return o.ok;
    };
    std::vector<std::function<void()>> f;
    uint64_t base = 0;
    // the counter of stamps restarts with the run: serial operations before it get stamps of their own
    for ( int i = 0; i < prefill; ++i ) serial(true, val++);
    for ( int i = 0; i < preremove; ++i ) serial(false, 0);
    for ( auto& o : seq ) { o.in = ++base; o.out = ++base; }
    for ( size_t t = 0; t < prog.size(); ++t )
        f.push_back([&, t] {
            int v = 100 * (int)(t + 1);
            for ( char k : prog[t] ) {
                Op o { (int)t, k == 'I', k == 'I' ? v++ : 0, false, tmc::stamp(), 0 };
                if ( k == 'T' ) { o.v = q.take(); o.ok = true; }
                else o.ok = o.ins ? q.ins(o.v) : q.rem(o.v);
                o.out = tmc::stamp();
                per[t].push_back(o);
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    std::vector<Op> h = seq;
    uint64_t        last = 0;
    for ( size_t t = 0; t < prog.size(); ++t )
        for ( auto x : per[t] ) { x.in += base; x.out += base; last = std::max(last, x.out); h.push_back(x); }
    for ( int v = 0; q.rem(v); ) { Op x { 9, false, v, true, last + 1, last + 2 }; last += 2; h.push_back(x); if ( h.size() > 50 ) c.fail("drain", "the queue never gets empty"); }
    std::string text, why = judge(h, q.cap, text);
    std::string ps;
    for ( auto& p : prog ) ps += p + "|";
    if ( !why.empty() ) c.fail("history", "%s: capacity %zu programs %s: %s", why.c_str(), cap, ps.c_str(), text.c_str());
    c.note("cap %zu %s %s", cap, ps.c_str(), text.c_str());
    c.state(mc::hash(text));
    c.nontrivial();
}
static std::vector<std::string> words(int n) { std::vector<std::string> w; for ( int k = 0; k < (1 << n); ++k ) { std::string s; for ( int i = 0; i < n; ++i ) s += k >> i & 1 ? 'R' : 'I'; w.push_back(s); } return w; }

static void bounded2(Ctx& c)
{
    int cap = 1 + c.choose(3), pre = c.choose(cap + 1), rem = pre ? c.choose(2) : 0;
    int n = 1 + c.choose(3), m = 2 + c.choose(2);
    std::string a = c.pick(words(n)), b = c.pick(words(m));
    histories<Bounded>(c, cap, pre, rem, { a, b }, c.thorough() ? (n + m > 5 ? 4 : 5) : 3);
}
static void bounded3(Ctx& c)
{
    int cap = 1 + c.choose(2), pre = c.choose(cap + 1);
    std::string a = c.pick(words(1)), b = c.pick(words(2)), d = c.pick(words(2));
    histories<Bounded>(c, cap, pre, 0, { a, b, d }, c.thorough() ? 3 : 2);
}
static void unbounded2(Ctx& c)
{
    int pre = c.choose(3), rem = pre ? c.choose(2) : 0;
    int n = 1 + c.choose(3), m = 2 + c.choose(2);
    std::string a = c.pick(words(n)), b = c.pick(words(m));
    histories<Unbounded>(c, 0, pre, rem, { a, b }, c.thorough() ? (n + m > 5 ? 4 : 5) : 3);
}
static void unbounded3(Ctx& c)
{
    int pre = c.choose(2);
    std::string a = c.pick(words(1)), b = c.pick(words(2)), d = c.pick(words(2));
    histories<Unbounded>(c, 0, pre, 0, { a, b, d }, c.thorough() ? 3 : 2);
}
// removals that wait
static void waiting(Ctx& c)
{
    static const std::vector<std::vector<std::string>> P = { { "II", "TT" }, { "I", "T" }, { "I", "I", "TT" }, { "II", "T", "T" }, { "III", "TTT" } };
    auto p = c.pick(P);
    int  k = c.choose(3);
    size_t most = 0;
    for ( auto& s : p ) most += s[0] == 'I' ? s.size() : 0;
    if ( k == 2 ) histories<Unbounded>(c, 0, 0, 0, p, c.thorough() ? 4 : 3);
    else histories<Bounded>(c, most + k, 0, 0, p, c.thorough() ? 4 : 3);
}
// what the locks protect
template <class L>
static void locked(Ctx& c, int n, int rounds, int preempt)
{
    L   lock;
    int x = 0, inside = 0;
    std::vector<std::function<void()>> f;
    for ( int t = 0; t < n; ++t )
        f.push_back([&] {
            for ( int k = 0; k < rounds; ++k ) {
                std::lock_guard<L> g(lock);
                if ( ++inside != 1 ) tmc::fail("exclusion", "two threads hold the lock");
                ++x;
                tmc::point();
                --inside;
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    c.check(x == n * rounds, "lost", "%d of %d increments", x, n * rounds);
    c.note("lock %d %d", n, rounds);
    c.nontrivial();
}
static void spinlock(Ctx& c)
{
    int n = 2 + c.choose(2), r = 1 + c.choose(2);
    locked<Spinlock>(c, n, r, c.thorough() ? 5 : n * r > 4 ? 3 : 4);
}
template <bool MAX, class T>
static void extreme_t(Ctx& c, const std::vector<T>& vals)
{
    T first = c.pick(vals);
    int n = 2 + c.choose(2);
    std::vector<std::vector<T>> offer(n);
    for ( int t = 0; t < n; ++t ) for ( int k = 0; k < (n == 2 ? 2 : 1); ++k ) offer[t].push_back(c.pick(vals));
    std::atomic<T> a { first };
    std::vector<std::function<void()>> f;
    for ( int t = 0; t < n; ++t ) f.push_back([&, t] { for ( auto v : offer[t] ) { if ( MAX ) atomic_fetch_max(a, v); else atomic_fetch_min(a, v); } });
    tmc::Opts o;
    o.preemptions = c.thorough() ? 5 : 3;
    tmc::run(c, o, f);
    T want = first;
    for ( auto& t : offer ) for ( auto v : t ) want = MAX ? std::max(want, v) : std::min(want, v);
    c.check(a.load() == want, "extreme", "%s of the offers is %s, got %s", MAX ? "maximum" : "minimum", std::to_string(want).c_str(), std::to_string(a.load()).c_str());
    c.note("extreme %d %s", n, std::to_string(want).c_str());
    c.nontrivial();
}
static void extremes(Ctx& c)
{
    switch ( c.choose(4) ) {
    case 0: extreme_t<true, uint64_t>(c, { 0, 3, UINT64_MAX }); break;
    case 1: extreme_t<false, uint64_t>(c, { 0, 3, UINT64_MAX }); break;
    case 2: extreme_t<true, int>(c, { -5, 0, 7 }); break;
    default: extreme_t<false, int>(c, { -5, 0, 7 });
    }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "bounded2", bounded2, 20 }, { "bounded3", bounded3, 20 }, { "unbounded2", unbounded2, 20 }, { "unbounded3", unbounded3, 20 }, { "waiting", waiting, 20 },
        { "spinlock", spinlock, 20 }, { "extremes", extremes, 20 } });
}
