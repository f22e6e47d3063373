// D08, threads: instances of one rank open, fill and publish one shared object at the same time, as the components of several threads do.
//
// The templates of the shared objects are instrumented and run under the thread model checker: every schedule with up to the stated number of preemptions, with data race
// detection. Each open must be counted once, no write may be lost, of two conflicting writes exactly one is rejected, reads under the mutex see whole values, and
// afterwards the object is published exactly when every instance has published.
#include "sst_config.h"
#include <cinttypes>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <vector>
#include "sst/core/output.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include "sst/core/simulation.h"
#include "tmc.h"
using mc::Ctx;
using mc::fmt;
using SST::Shared::SharedObject;

struct Fatal
{};
void SST::Output::fatal(uint32_t, const char*, const char*, int, const char*, ...) const { throw Fatal(); }
namespace SST::Shared::Private {
static int* out_mem[64];
Output&     getSimulationOutput() { return *reinterpret_cast<Output*>(out_mem); }
RankInfo    getNumRanks() { return RankInfo(1, 3); }
} // namespace SST::Shared::Private

using View = std::map<int, int>;
enum Kind { MAP, SET, ARR, BARR };
using VT = SharedObject::verify_type;
struct IMap
{
    SST::Shared::SharedMap<int, int> o;
    int  open(VT m, int) { return o.initialize("obj", m); }
    void write(int k, int v) { o.write(k, v); }
    int  get(int k) { try { return o.mutex_read(k); } catch ( std::out_of_range& ) { return -1; } }
    View view() { return View(o.begin(), o.end()); }
};
struct ISet
{
    SST::Shared::SharedSet<int> o;
    int  open(VT m, int) { return o.initialize("obj", m); }
    void write(int k, int) { o.insert(k); }
    int  get(int) { return (int)o.size() > 2 ? -2 : -1; }
    View view() { View v; for ( int x : std::set<int>(o.begin(), o.end()) ) v[x] = x; return v; }
};
template <class T>
struct IArr
{
    SST::Shared::SharedArray<T> o;
    int  open(VT m, int len) { return o.initialize("obj", len, T(0), m); }
    void write(int k, int v) { o.write(k, T(v)); }
    int  get(int k) { if ( (int)o.size() <= k ) return -1; return o.mutex_read(k); }
    View view() { View v; int n = 0; for ( auto it = o.begin(); it != o.end(); ++it ) v[n++] = *it; return v; }
};
struct Op { char what; int k, v; };
// o open (with length 2 - k), w write, p publish, r read
static const std::vector<std::vector<Op>> progs = {
    { { 'o', 0, 0 }, { 'w', 0, 1 }, { 'p', 0, 0 } },
    { { 'o', 0, 0 }, { 'w', 1, 1 }, { 'p', 0, 0 } },
    { { 'o', 0, 0 }, { 'w', 0, 2 }, { 'p', 0, 0 } },
    { { 'o', 0, 0 }, { 'r', 0, 0 }, { 'r', 1, 0 } },
    { { 'o', 0, 0 }, { 'w', 1, 1 }, { 'w', 0, 1 }, { 'p', 0, 0 } },
    { { 'o', 0, 0 }, { 'p', 0, 0 } },
    { { 'o', 2, 0 }, { 'r', 0, 0 }, { 'r', 1, 0 } }, // an array without a length of its own
};
template <class I>
static void play(Ctx& c, Kind kind, VT mode, const std::vector<int>& which, int preempt)
{
    // a manager of its own for every execution
    SharedObject::manager.~SharedObjectDataManager();
    new ((void*)&SharedObject::manager) SST::Shared::SharedObjectDataManager();
    size_t                             n = which.size();
    std::vector<std::unique_ptr<I>>    in;
    std::vector<int>                   before(n, -1), rejected(n, 0);
    std::vector<std::function<void()>> f;
    for ( size_t t = 0; t < n; ++t ) in.push_back(std::make_unique<I>());
    for ( size_t t = 0; t < n; ++t )
        f.push_back([&, t] {
            for ( auto& o : progs[which[t]] ) {
                try {
                    if ( o.what == 'o' ) before[t] = in[t]->open(mode, 2 - o.k);
                    else if ( o.what == 'w' ) in[t]->write(o.k, o.v);
                    else if ( o.what == 'p' ) in[t]->o.publish();
                    else {
                        int v = in[t]->get(o.k);
                        if ( v < -1 || v > 2 ) tmc::fail("torn", "a read under the mutex found %d", v);
                    }
                }
                catch ( Fatal& ) {
                    ++rejected[t];
                    if ( o.what != 'w' ) tmc::fail("rejected", "operation %c was rejected", o.what);
                }
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    std::set<int> counts(before.begin(), before.end());
    c.check(counts.size() == n && *counts.begin() == 0 && *counts.rbegin() == (int)n - 1, "sharers", "%zu instances were opened and got the numbers %s", n,
        [&] { std::string s; for ( int b : before ) s += fmt(" %d", b); return s; }().c_str());
    // what the writers left
    std::map<int, std::set<int>> w; // key -> values offered
    bool                         all_pub = true;
    int                          rej = 0;
    for ( size_t t = 0; t < n; ++t ) {
        rej += rejected[t];
        bool p = false;
        for ( auto& x : progs[which[t]] ) {
            if ( x.what == 'w' ) w[x.k].insert(kind == SET ? x.k : kind == BARR ? 1 : x.v);
            if ( x.what == 'p' ) p = true;
        }
        all_pub = all_pub && p;
    }
    int conflicts = 0;
    for ( auto& x : w ) {
        if ( x.second.size() < 2 ) continue;
        conflicts = 1;
    }
    View v = in[0]->view();
    for ( size_t t = 1; t < n; ++t ) c.check(in[t]->view() == v, "view", "the instances see different contents");
    for ( auto& x : w )
        c.check(v.count(x.first) && x.second.count(v[x.first]), "lost", "a write to %d was lost: the object has %s", x.first, v.count(x.first) ? fmt("%d", v[x.first]).c_str() : "no such entry");
    size_t want = (kind == ARR || kind == BARR) ? 2 : w.size();
    c.check(v.size() == want, "size", "the object has %zu entries, expected %zu", v.size(), want);
    if ( mode == SharedObject::NO_VERIFY || !conflicts ) c.check(rej == 0, "rejected", "%d writes were rejected without a conflict", rej);
    else {
        // with the value that stands, exactly the writers of other values were rejected
        int expect = 0;
        for ( size_t t = 0; t < n; ++t )
            for ( auto& x : progs[which[t]] )
                if ( x.what == 'w' && v[x.k] != (kind == SET ? x.k : kind == BARR ? 1 : x.v) ) ++expect;
        c.check(rej == expect, "conflict", "%d conflicting writes were rejected, %d differ from what the object holds", rej, expect);
    }
    SharedObject::manager.updateState(false);
    for ( size_t t = 0; t < n; ++t )
        c.check(in[t]->o.isFullyPublished() == all_pub, "published", "instance %zu finds the object %spublished, %s", t, in[t]->o.isFullyPublished() ? "" : "not ", all_pub ? "all have published" : "some have not");
    c.nontrivial(true);
    c.validated(1);
}
static void threads(Ctx& c)
{
    Kind kind = (Kind)c.choose(4);
    VT   mode = c.pick({ SharedObject::FE_VERIFY, SharedObject::INIT_VERIFY, SharedObject::NO_VERIFY });
    std::vector<std::vector<int>> sets = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 0, 3 }, { 4, 0 }, { 4, 2 }, { 4, 3 }, { 1, 5 }, { 4, 6 } };
    if ( c.thorough() ) sets.insert(sets.end(), { { 0, 1, 3 }, { 0, 2, 4 }, { 0, 1, 5 } });
    auto s       = sets[c.choose(sets.size())];
    int  preempt = s.size() > 2 ? 1 : c.thorough() ? 4 : 3;
    c.note("kind %d mode %d programs %d %d%s", kind, mode, s[0], s[1], s.size() > 2 ? " and a third" : "");
    switch ( kind ) {
    case MAP: play<IMap>(c, kind, mode, s, preempt); break;
    case SET: play<ISet>(c, kind, mode, s, preempt); break;
    case ARR: play<IArr<int>>(c, kind, mode, s, preempt); break;
    default: play<IArr<bool>>(c, kind, mode, s, preempt);
    }
}
int main(int argc, char** argv)
{
    // the update asks the simulation of the calling thread for the number of ranks
    size_t n   = (sizeof(SST::Simulation) + 63) / 64 * 64;
    auto*  sim = (SST::Simulation*)memset(aligned_alloc(64, n), 0, n);
    sim->my_rank   = SST::RankInfo(0, 0);
    sim->num_ranks = SST::RankInfo(1, 3);
    SST::Simulation::instanceMap[std::this_thread::get_id()] = sim;
    return mc::run(argc, argv, { { "threads", threads } });
}
