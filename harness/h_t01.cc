// T01: the thread barrier.
#include "sst_config.h"
#include "sst/core/threadsafe.h"
#include "tmc.h"
#include <memory>
#include <string>
using mc::Ctx;
using SST::Core::ThreadSafe::Barrier;

struct Mark { uint64_t in, out; };

// n threads go through r rounds; nobody leaves round k before all entered it, and what was written before is seen after
static void rounds(Ctx& c, int n, int r, int preempt, bool resize)
{
    std::vector<std::vector<Mark>> m(n, std::vector<Mark>(r));
    std::vector<int>               data(n * r, 0); // plain data handed over by the barrier
    std::unique_ptr<Barrier>       b;
    if ( resize ) { b.reset(new Barrier(n + 1)); b->resize(n); }
    else b.reset(new Barrier(n));
    std::vector<std::function<void()>> f;
    for ( int t = 0; t < n; ++t )
        f.push_back([&, t] {
            for ( int k = 0; k < r; ++k ) {
                data[k * n + t] = 100 * k + t + 1;
                m[t][k].in = tmc::stamp();
                b->wait();
                m[t][k].out = tmc::stamp();
                for ( int o = 0; o < n; ++o )
                    if ( data[k * n + o] != 100 * k + o + 1 ) tmc::fail("visibility", "thread %d does not see what thread %d wrote before round %d", t, o, k);
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    std::string h;
    for ( int k = 0; k < r; ++k ) {
        uint64_t last = 0;
        for ( int t = 0; t < n; ++t ) last = std::max(last, m[t][k].in);
        for ( int t = 0; t < n; ++t ) c.check(m[t][k].out > last, "early", "thread %d left round %d at %lu although another entered at %lu", t, k, (unsigned long)m[t][k].out, (unsigned long)last);
        for ( int t = 0; t < n; ++t ) h += mc::fmt("%lu.%lu ", (unsigned long)m[t][k].in, (unsigned long)m[t][k].out);
    }
    c.state(mc::hash(h));
    c.note("%d threads %d rounds: %s", n, r, h.c_str());
    c.nontrivial();
}
static void two(Ctx& c) { int r = 1 + c.choose(3); rounds(c, 2, r, c.thorough() ? 5 : r == 1 ? 5 : r == 2 ? 4 : 3, false); }
static void three(Ctx& c) { int r = 1 + c.choose(2); rounds(c, 3, r, c.thorough() ? (r == 1 ? 4 : 3) : (r == 1 ? 3 : 2), false); }
static void four(Ctx& c) { rounds(c, 4, 1 + c.choose(2), c.thorough() ? 2 : 1, false); }
static void resized(Ctx& c) { int n = 2 + c.choose(2); rounds(c, n, 2, c.thorough() ? 3 : 2, true); }

// disable lets everybody go, whoever waits already or comes later
static void disabled(Ctx& c)
{
    int n = 1 + c.choose(2), r = 1 + c.choose(2), size = n + 1 + c.choose(2);
    Barrier b(size);
    int  left = 0;
    std::vector<int> done(n, 0);
    std::vector<std::function<void()>> f;
    for ( int t = 0; t < n; ++t ) f.push_back([&, t] { for ( int k = 0; k < r; ++k ) b.wait(); done[t] = 1; });
    f.push_back([&] { b.disable(); });
    tmc::Opts o;
    o.preemptions = c.thorough() ? 4 : 3;
    tmc::run(c, o, f);
    for ( int d : done ) left += d;
    c.check(left == n, "stuck", "%d of %d threads left the disabled barrier", left, n);
    c.note("disable %d %d %d", n, r, size);
    c.nontrivial();
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "two", two, 20 }, { "three", three, 20 }, { "four", four, 20 }, { "resized", resized, 20 }, { "disabled", disabled, 20 } });
}
