// D08: shared objects publish one consistent, complete and immutable view.
//
// Every history of opens, writes, publishes and synchronisations up to the stated length, by instances placed on one to three ranks, on the real shared arrays, maps
// and sets and the real manager that merges them. The ranks are fibers of this process with a manager each: a rank that enters the exchange of the changes waits for
// the others, the stand-in hands each the bytes the real code serialized, and the merge goes on. Between two synchronisations the ranks do not interact, so the
// operations of one round are enumerated in rank order only.
// After each history the objects are closed, written to, opened again, saved and restored.
#include "sst_config.h"
#include "mc.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <ucontext.h>
#include <vector>
#include "sst/core/output.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include "sst/core/simulation.h"
#include "sst/core/sst_mpi.h"
using mc::Ctx;
using mc::fmt;
using SST::RankInfo;
using SST::Simulation;
using SST::Core::Serialization::serializer;
using SST::Shared::SharedObject;
using SST::Shared::SharedObjectDataManager;

// memory that was never written reads as zero, the same in every run
void* operator new(size_t n)
{
    void* p = calloc(1, n ? n : 1);
    if ( !p ) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------ the errors of the code under test
struct Fatal
{};
void SST::Output::fatal(uint32_t, const char*, const char*, int, const char*, ...) const { throw Fatal(); }

// ------------------------------------------------------------------ ranks as fibers
constexpr int MAXR = 3;
static Simulation* sims[MAXR];
alignas(SharedObjectDataManager) static char mgr_mem[MAXR][sizeof(SharedObjectDataManager)];
static SharedObjectDataManager&              mgr(int r) { return *reinterpret_cast<SharedObjectDataManager*>(mgr_mem[r]); }
static int                                   nranks, cur = -1; // cur: the rank whose code runs
static void be(int r) // run as rank r from here
{
    cur = r;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[r];
}
struct As // the process-wide manager is that of rank r while this lives
{
    int r;
    explicit As(int r) : r(r) { be(r); SharedObject::manager = mgr(r); }
    ~As() { mgr(r) = SharedObject::manager; }
};

struct Fiber
{
    ucontext_t        ctx;
    std::vector<char> stack = std::vector<char>(256 << 10);
    bool              done = true, fatal = false;
    const void*       sbuf = nullptr;
    long              slen = 0;
};
static Fiber*     fibers;
static ucontext_t main_ctx;
static bool       in_sync = false, fin_flag = false, aborted = false;
static void       fiber_main(int r)
{
    try {
        mgr(r).updateState(fin_flag);
    }
    catch ( Fatal& ) {
        fibers[r].fatal = true;
        aborted         = true;
    }
    fibers[r].done = true;
    swapcontext(&fibers[r].ctx, &main_ctx);
}
static void exchange(const void* s, long n)
{
    Fiber& f = fibers[cur];
    f.sbuf = s;
    f.slen = n;
    int me = cur;
    swapcontext(&f.ctx, &main_ctx); // wait for all
    be(me);
    if ( aborted ) throw Fatal();
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = cur; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = nranks; return 0; }
int MPI_Allgather(const void* s, int n, MPI_Datatype, void* d, int rn, MPI_Datatype, MPI_Comm)
{
    exchange(s, n);
    for ( int r = 0; r < nranks; ++r ) memcpy((char*)d + (long)r * rn, fibers[r].sbuf, rn);
    // nobody may go on before all have copied: the send buffers live on the fibers' stacks and stay valid until the next exchange
    exchange(s, n);
    return 0;
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype, void* d, const int* cnt, const int* disp, MPI_Datatype, MPI_Comm)
{
    exchange(s, n);
    for ( int r = 0; r < nranks; ++r ) memcpy((char*)d + disp[r], fibers[r].sbuf, cnt[r]);
    exchange(s, n);
    return 0;
}
}
// the update runs under a process-wide mutex; the fibers of one thread take it one inside the other, so while they run locks are not taken
static int (*real_lock)(pthread_mutex_t*), (*real_unlock)(pthread_mutex_t*);
#include <dlfcn.h>
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if ( in_sync ) return 0;
    if ( !real_lock ) real_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real_lock(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if ( in_sync ) return 0;
    if ( !real_unlock ) real_unlock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return real_unlock(m);
}
// true: every rank came through
static bool update(bool finalize)
{
    fin_flag = finalize;
    aborted  = false;
    in_sync  = true;
    for ( int r = 0; r < nranks; ++r ) {
        Fiber& f = fibers[r];
        f.done = f.fatal = false;
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp   = f.stack.data();
        f.ctx.uc_stack.ss_size = f.stack.size();
        f.ctx.uc_link          = nullptr;
        makecontext(&f.ctx, (void (*)())fiber_main, 1, r);
    }
    for ( ;; ) {
        bool any = false;
        for ( int r = 0; r < nranks; ++r ) {
            if ( fibers[r].done ) continue;
            any = true;
            be(r);
            swapcontext(&main_ctx, &fibers[r].ctx);
        }
        if ( !any ) break;
    }
    in_sync = false;
    return !aborted;
}

// ------------------------------------------------------------------ the objects behind one interface
using View = std::map<int, int>; // key -> value; a set maps each member to itself
enum Kind { MAP, SET, ARR, BARR };
using VT = SharedObject::verify_type;
struct Inst
{
    virtual ~Inst() {}
    virtual int         open(int len, int init, VT mode) = 0;
    virtual void        write(int k, int v)              = 0;
    virtual void        publish()                        = 0;
    virtual bool        full()                           = 0;
    virtual View        view(std::string& bad)           = 0;
    virtual size_t      size()                           = 0;
    virtual void        ser(serializer& s)               = 0;
};
#define SAME(cond)                \
    do {                          \
        if ( !(cond) ) bad = #cond; \
    } while ( 0 )
struct IMap : Inst
{
    SST::Shared::SharedMap<int, int> o;
    int    open(int, int, VT m) override { return o.initialize("obj", m); }
    void   write(int k, int v) override { o.write(k, v); }
    void   publish() override { o.publish(); }
    bool   full() override { return o.isFullyPublished(); }
    size_t size() override { return o.size(); }
    void   ser(serializer& ser) override { SST_SER(o); }
    View   view(std::string& bad) override
    {
        View v(o.begin(), o.end());
        SAME(o.size() == v.size());
        SAME(o.empty() == v.empty());
        SAME(View(o.rbegin(), o.rend()) == v);
        for ( int k = -1; k <= 2; ++k ) {
            auto it = v.find(k);
            SAME(o.count(k) == v.count(k));
            SAME((o.find(k) == o.end()) == (it == v.end()));
            SAME(o.find(k) == o.end() || o.find(k)->second == it->second);
            SAME(o.lower_bound(k) == o.end() ? v.lower_bound(k) == v.end() : v.lower_bound(k) != v.end() && *o.lower_bound(k) == *v.lower_bound(k));
            SAME(o.upper_bound(k) == o.end() ? v.upper_bound(k) == v.end() : v.upper_bound(k) != v.end() && *o.upper_bound(k) == *v.upper_bound(k));
            int a = -1, b = -1;
            try { a = o[k]; } catch ( std::out_of_range& ) {}
            try { b = o.mutex_read(k); } catch ( std::out_of_range& ) {}
            SAME(a == (it == v.end() ? -1 : it->second));
            SAME(b == (it == v.end() ? -1 : it->second));
        }
        return v;
    }
};
struct ISet : Inst
{
    SST::Shared::SharedSet<int> o;
    int    open(int, int, VT m) override { return o.initialize("obj", m); }
    void   write(int k, int) override { o.insert(k); }
    void   publish() override { o.publish(); }
    bool   full() override { return o.isFullyPublished(); }
    size_t size() override { return o.size(); }
    void   ser(serializer& ser) override { SST_SER(o); }
    View   view(std::string& bad) override
    {
        View v;
        for ( auto it = o.begin(); it != o.end(); ++it ) v[*it] = *it;
        View w;
        for ( auto it = o.rbegin(); it != o.rend(); ++it ) w[*it] = *it;
        SAME(v == w);
        SAME(o.size() == v.size());
        SAME(o.empty() == v.empty());
        for ( int k = -1; k <= 2; ++k ) {
            SAME(o.count(k) == v.count(k));
            SAME((o.find(k) == o.end()) == !v.count(k));
            SAME((o.mutex_find(k) == o.end()) == !v.count(k));
            SAME(o.find(k) == o.end() || *o.find(k) == k);
        }
        return v;
    }
};
template <class T>
struct IArr : Inst
{
    SST::Shared::SharedArray<T> o;
    int    open(int len, int init, VT m) override { return o.initialize("obj", len, T(init), m); }
    void   write(int k, int v) override { o.write(k, T(v)); }
    void   publish() override { o.publish(); }
    bool   full() override { return o.isFullyPublished(); }
    size_t size() override { return o.size(); }
    void   ser(serializer& ser) override { SST_SER(o); }
    View   view(std::string& bad) override
    {
        View v;
        int  n = 0;
        for ( auto it = o.begin(); it != o.end(); ++it ) v[n++] = *it;
        SAME((int)o.size() == n);
        SAME(o.empty() == (n == 0));
        for ( int k = 0; k < n; ++k ) {
            SAME(o[k] == T(v[k]));
            SAME(o.mutex_read(k) == T(v[k]));
        }
        for ( auto it = o.rbegin(); it != o.rend(); ++it ) SAME(*it == T(v[--n]));
        return v;
    }
};
static std::unique_ptr<Inst> make(Kind k)
{
    switch ( k ) {
    case MAP: return std::make_unique<IMap>();
    case SET: return std::make_unique<ISet>();
    case ARR: return std::make_unique<IArr<int>>();
    default: return std::make_unique<IArr<bool>>();
    }
}

// ------------------------------------------------------------------ the reference
// One rank's copy: what the last synchronisation agreed on and what the rank wrote since.
struct RankRef
{
    bool             exists = false, have_cfg = false;
    VT               mode   = SharedObject::VERIFY_UNINITIALIZED;
    int              init = 0, len = 0; // arrays
    View             v;
    std::set<int>    written;           // keys written at all
    View             fresh;             // last value of the keys written since the last synchronisation
    std::set<int>    reset;             // keys that were given the initial value since
    int              shares = 0, pubs = 0;
};
enum Out { OK, ERR, OPEN }; // accepted, rejected, left open by the documentation
static bool is_array(Kind k) { return k == ARR || k == BARR; }
static Out  ref_open(Kind k, RankRef& r, int len, int init, VT mode)
{
    r.exists = true;
    ++r.shares;
    if ( is_array(k) && len == 0 ) return OK;
    if ( r.have_cfg && (r.mode != mode || (is_array(k) && r.init != init)) ) return ERR;
    r.have_cfg = true;
    r.mode     = mode;
    if ( is_array(k) ) {
        r.init = init;
        for ( ; r.len < len; ++r.len ) r.v[r.len] = init;
    }
    return OK;
}
static Out ref_write(Kind k, RankRef& r, int key, int val)
{
    if ( k == SET ) val = key;
    bool conflict = false;
    if ( k == MAP || k == SET || r.mode == SharedObject::FE_VERIFY )
        conflict = r.mode != SharedObject::NO_VERIFY && r.written.count(key) && r.v[key] != val;
    else if ( r.mode == SharedObject::INIT_VERIFY )
        conflict = r.v[key] != r.init && r.v[key] != val;
    if ( conflict ) return ERR;
    r.v[key] = val;
    r.written.insert(key);
    r.fresh[key] = val;
    if ( is_array(k) && val == r.init ) r.reset.insert(key);
    return OK;
}
static Out ref_sync(Kind k, std::vector<RankRef>& rs)
{
    // the configuration of the instances must agree
    const RankRef* cfg = nullptr;
    for ( auto& r : rs ) {
        if ( !r.have_cfg ) continue;
        if ( cfg && (cfg->mode != r.mode || (is_array(k) && cfg->init != r.init)) ) return ERR;
        cfg = &r;
    }
    if ( !cfg ) return OK;
    std::set<int> keys;
    int           len = 0;
    for ( auto& r : rs ) {
        for ( auto& f : r.fresh ) keys.insert(f.first);
        len = std::max(len, r.len);
    }
    VT   mode = cfg->mode;
    int  init = cfg->init;
    View agreed;
    bool open = false;
    for ( int key : keys ) {
        std::set<int> vals;
        for ( auto& r : rs )
            if ( r.fresh.count(key) ) vals.insert(r.fresh[key]);
        if ( vals.size() > 1 ) {
            if ( mode == SharedObject::NO_VERIFY ) open = true; // nobody says who wins
            else if ( is_array(k) && mode == SharedObject::INIT_VERIFY ) {
                vals.erase(init);
                if ( vals.size() > 1 ) return ERR;
            }
            else return ERR;
        }
        if ( is_array(k) && mode == SharedObject::INIT_VERIFY )
            for ( auto& r : rs )
                for ( auto& q : rs )
                    if ( &q != &r && r.reset.count(key) && q.written.count(key) && (r.fresh[key] != init || q.v[key] != init) ) open = true; // writing the initial value races with writing another
        agreed[key] = *vals.rbegin();
    }
    if ( open ) return OPEN;
    for ( auto& r : rs ) {
        r.exists   = true;
        r.have_cfg = true;
        r.mode     = mode;
        r.init     = init;
        if ( is_array(k) )
            for ( ; r.len < len; ++r.len ) r.v[r.len] = init;
        for ( auto& a : agreed ) {
            r.v[a.first] = a.second;
            r.written.insert(a.first);
        }
        r.fresh.clear();
        r.reset.clear();
    }
    return OK;
}
static std::string show(const View& v)
{
    std::string s = "{";
    for ( auto& x : v ) s += fmt(" %d:%d", x.first, x.second);
    return s + " }";
}
static const char* mname(VT m) { return m == SharedObject::FE_VERIFY ? "FE_VERIFY" : m == SharedObject::INIT_VERIFY ? "INIT_VERIFY" : "NO_VERIFY"; }
static const char* kname[] = { "SharedMap", "SharedSet", "SharedArray<int>", "SharedArray<bool>" };

// ------------------------------------------------------------------ one history
struct Cfg { int rank, len, init; VT mode; };
struct World
{
    World(int n)
    {
        nranks = n;
        for ( int r = 0; r < n; ++r ) {
            if ( !sims[r] ) {
                size_t n = (sizeof(Simulation) + 63) / 64 * 64;
                sims[r]  = (Simulation*)memset(aligned_alloc(64, n), 0, n);
            }
            sims[r]->my_rank   = RankInfo(r, 0);
            sims[r]->num_ranks = RankInfo(n, 1);
            new (mgr_mem[r]) SharedObjectDataManager();
        }
        if ( !fibers ) fibers = new Fiber[MAXR];
    }
    ~World()
    {
        for ( int r = 0; r < nranks; ++r ) mgr(r).~SharedObjectDataManager();
        new ((void*)&SharedObject::manager) SharedObjectDataManager();
    }
};
template <class F>
static bool fatal(F&& f)
{
    try {
        f();
    }
    catch ( Fatal& ) {
        return true;
    }
    return false;
}
static void history(Ctx& c, Kind kind, int ranks, const std::vector<Cfg>& cf, int depth, bool late)
{
    World                              w(ranks);
    int                                ni = cf.size();
    std::vector<std::unique_ptr<Inst>> in;
    std::vector<RankRef>               ref(ranks);
    std::vector<char>                  opened(ni, 0), pub(ni, 0);
    std::string                        what = kname[kind];
    for ( int i = 0; i < ni; ++i ) {
        in.push_back(make(kind));
        c.note("instance %d of one %s on rank %d of %d, %s%s", i, kname[kind], cf[i].rank, ranks, mname(cf[i].mode),
            is_array(kind) ? fmt(", length %d, initial value %d", cf[i].len, cf[i].init).c_str() : "");
    }
    auto views = [&](const char* when) {
        for ( int i = 0; i < ni; ++i ) {
            if ( !opened[i] ) continue;
            As          as(cf[i].rank);
            std::string bad;
            View        got = in[i]->view(bad);
            c.check(bad.empty(), "read", "%s, %s: the read operations of instance %d (contents %s) disagree: %s", what.c_str(), when, i, show(got).c_str(), bad.c_str());
            c.check(got == ref[cf[i].rank].v, "view", "%s, %s: instance %d on rank %d sees %s, expected %s", what.c_str(), when, i, cf[i].rank, show(got).c_str(),
                show(ref[cf[i].rank].v).c_str());
        }
    };
    auto published = [&]() {
        bool all = true;
        for ( auto& r : ref ) all = all && r.shares == r.pubs;
        return all;
    };
    auto do_open = [&](int i) -> bool { // false: the history ended
        RankRef& r = ref[cf[i].rank];
        int      before = r.shares;
        Out      o      = ref_open(kind, r, cf[i].len, cf[i].init, cf[i].mode);
        int      got    = -1;
        bool     f;
        {
            As as(cf[i].rank);
            f = fatal([&] { got = in[i]->open(cf[i].len, cf[i].init, cf[i].mode); });
        }
        c.note("instance %d opens: %s", i, f ? "rejected" : fmt("%d before it", got).c_str());
        c.check(f == (o == ERR), "open", "%s: opening instance %d %s, expected the contrary", what.c_str(), i, f ? "is rejected" : "is accepted");
        if ( f ) return false;
        c.check(got == before, "sharers", "%s: opening instance %d reports %d instances before it on the rank, %d were opened", what.c_str(), i, got, before);
        opened[i] = 1;
        return true;
    };
    auto do_sync = [&](bool finalize) -> bool {
        bool pubd = published();
        Out  o    = ref_sync(kind, ref);
        bool ok   = update(finalize);
        c.note("%s: %s", finalize ? "the init phase ends" : "synchronisation", ok ? "done" : "an error");
        if ( o == OPEN ) return false;
        c.check(ok == (o == OK), "merge", "%s: merging the ranks' changes %s, expected %s", what.c_str(), ok ? "succeeds" : "reports an error", o == OK ? "success" : "an error");
        if ( !ok || o == ERR ) return false;
        for ( int i = 0; i < ni; ++i ) {
            if ( !opened[i] ) continue;
            As   as(cf[i].rank);
            bool f = in[i]->full();
            c.check(f == (finalize || pubd), "published", "%s: after the %s, instance %d finds the object %sfully published; %s", what.c_str(), finalize ? "end of the init phase" : "synchronisation",
                i, f ? "" : "not ", pubd ? "every instance has published" : "some instance has not published");
        }
        return true;
    };
    if ( !late )
        for ( int i = 0; i < ni; ++i )
            if ( !do_open(i) ) return;
    int low = 0; // ranks below this one are through with the round
    int writes = 0, steps = 0;
    for ( ; steps < depth; ++steps ) {
        struct Op { int i, what, k, v; };
        std::vector<Op> ops;
        for ( int i = 0; i < ni; ++i ) {
            if ( cf[i].rank < low ) continue;
            if ( !opened[i] ) {
                ops.push_back({ i, 0, 0, 0 });
                continue;
            }
            int nk = is_array(kind) ? cf[i].len : 2;
            int v0 = is_array(kind) ? 0 : 1, nv = kind == ARR ? 3 : kind == SET ? 1 : 2;
            for ( int k = 0; k < nk; ++k )
                for ( int v = v0; v < v0 + nv; ++v ) ops.push_back({ i, 1, k, v });
            if ( !pub[i] ) ops.push_back({ i, 2, 0, 0 });
        }
        ops.push_back({ -1, 3, 0, 0 }); // synchronise
        ops.push_back({ -1, 4, 0, 0 }); // end the init phase
        Op op = ops[c.choose(ops.size())];
        if ( op.what == 4 ) break;
        if ( op.what == 3 ) {
            low = 0;
            if ( !do_sync(false) ) return;
            views("after a synchronisation");
            continue;
        }
        low = cf[op.i].rank;
        if ( op.what == 0 ) {
            if ( !do_open(op.i) ) return;
            views("after an open");
        }
        else if ( op.what == 1 ) {
            Out  o = pub[op.i] ? ERR : ref_write(kind, ref[cf[op.i].rank], op.k, op.v);
            bool f;
            {
                As as(cf[op.i].rank);
                f = fatal([&] { in[op.i]->write(op.k, op.v); });
            }
            c.note("instance %d writes %d -> %d: %s", op.i, op.k, kind == SET ? op.k : op.v, f ? "rejected" : "done");
            c.check(f == (o == ERR), pub[op.i] ? "after-publish" : "write", "%s: the write %d -> %d of instance %d%s %s, expected the contrary", what.c_str(), op.k, op.v, op.i,
                pub[op.i] ? ", which has published," : "", f ? "is rejected" : "is accepted");
            if ( f ) return;
            ++writes;
            views("after a write");
        }
        else {
            As as(cf[op.i].rank);
            in[op.i]->publish();
            if ( c.thorough() ) in[op.i]->publish(); // publishing again changes nothing
            pub[op.i] = 1;
            ++ref[cf[op.i].rank].pubs;
            c.note("instance %d publishes", op.i);
        }
    }
    c.step(steps);
    if ( !do_sync(true) ) return;
    views("after the init phase");
    c.nontrivial(writes > 0);
    auto closed = [&](const char* when) {
        for ( int i = 0; i < ni; ++i ) {
            if ( !opened[i] || (is_array(kind) && cf[i].len == 0) ) continue;
            bool f;
            {
                As as(cf[i].rank);
                f = fatal([&] { in[i]->write(0, 1); });
            }
            c.check(f, "closed", "%s, %s: instance %d writes to it", what.c_str(), when, i);
        }
        for ( int r = 0; r < ranks; ++r ) {
            auto x = make(kind);
            bool f;
            {
                As as(r);
                f = fatal([&] { x->open(1, 0, cf[0].mode); });
            }
            c.check(f, "closed-open", "%s, %s: a new instance on rank %d opens it", what.c_str(), when, r);
        }
    };
    closed("after the init phase");
    views("after rejected writes");
    // save and restore, the manager first, as a restart does
    std::vector<std::vector<char>> bytes(ranks);
    for ( int r = 0; r < ranks; ++r ) {
        As         as(r);
        serializer ser;
        ser.enable_pointer_tracking();
        auto put = [&] {
            SST_SER(SharedObject::manager);
            for ( int i = 0; i < ni; ++i )
                if ( cf[i].rank == r ) in[i]->ser(ser);
        };
        ser.start_sizing();
        put();
        bytes[r].resize(ser.size());
        ser.start_packing(bytes[r].data(), bytes[r].size());
        put();
    }
    for ( int r = 0; r < ranks; ++r ) {
        mgr(r).~SharedObjectDataManager();
        new (mgr_mem[r]) SharedObjectDataManager();
        As         as(r);
        serializer ser;
        ser.enable_pointer_tracking();
        ser.start_unpacking(bytes[r].data(), bytes[r].size());
        SST_SER(SharedObject::manager);
        for ( int i = 0; i < ni; ++i ) {
            if ( cf[i].rank != r ) continue;
            in[i] = make(kind);
            in[i]->ser(ser);
        }
    }
    views("after a restart");
    for ( int i = 0; i < ni; ++i ) {
        if ( !opened[i] ) continue;
        As as(cf[i].rank);
        c.check(in[i]->full(), "restart-published", "%s: after a restart, instance %d finds the object not fully published", what.c_str(), i);
    }
    closed("after a restart");
    views("after a restart and rejected writes");
}

static VT modes[] = { SharedObject::FE_VERIFY, SharedObject::INIT_VERIFY, SharedObject::NO_VERIFY };
static std::vector<std::vector<int>> placements(bool thorough)
{
    std::vector<std::vector<int>> p = { { 0 }, { 0, 0 }, { 0, 1 } };
    if ( thorough ) p.insert(p.end(), { { 0, 0, 1 }, { 0, 1, 2 } });
    return p;
}
template <int KIND>
static void histories(Ctx& c)
{
    Kind kind = (Kind)KIND;
    auto pl   = placements(c.thorough());
    auto pos  = pl[c.choose(pl.size())];
    VT   mode = c.pick({ SharedObject::FE_VERIFY, SharedObject::INIT_VERIFY, SharedObject::NO_VERIFY });
    std::vector<Cfg> cf;
    for ( int r : pos ) cf.push_back({ r, is_array(kind) ? 2 : 0, 0, mode });
    int depth = (kind == SET || kind == BARR ? 5 : 4) + (c.thorough() ? 1 : 0) - (pos.size() > 2 && kind != SET ? 1 : 0);
    history(c, kind, pos.back() + 1, cf, depth, false);
}
// instances that differ in the verification mode, the length or the initial value, opened at any time
static void openings(Ctx& c)
{
    Kind kind = (Kind)c.choose(4);
    auto pl   = placements(c.thorough());
    auto pos  = pl[c.choose(pl.size())];
    std::vector<Cfg> cf;
    for ( size_t i = 0; i < pos.size(); ++i ) {
        Cfg x { pos[i], 0, 0, modes[0] };
        if ( i < 2 ) x.mode = modes[c.choose(3)];
        else x.mode = cf[1].mode;
        if ( is_array(kind) ) {
            x.len  = c.choose(3);
            x.init = i < 2 ? c.choose(2) : 0;
        }
        cf.push_back(x);
    }
    history(c, kind, pos.back() + 1, cf, c.thorough() ? 4 : 3, true);
}
// a rank without instances takes part in the merge and passes what it got on to instances that open later
static void spare_rank(Ctx& c)
{
    Kind kind = (Kind)c.choose(4);
    VT   mode = modes[c.choose(3)];
    std::vector<Cfg> cf = { { 0, is_array(kind) ? 2 : 0, 0, mode }, { 1, is_array(kind) ? c.choose(3) : 0, 0, mode } };
    history(c, kind, 2 + c.choose(2), cf, c.thorough() ? 5 : 4, true);
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "map", histories<MAP> }, { "set", histories<SET> }, { "array", histories<ARR> }, { "bool-array", histories<BARR> },
        { "openings", openings }, { "spare-rank", spare_rank } });
}
