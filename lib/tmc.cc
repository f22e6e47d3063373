#include "tmc.h"

#include <atomic>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// This file is compiled without instrumentation.  While a thread is inside it, `in_rt` is set, so that instrumented
// copies of library templates it may end up calling are ignored.
namespace {
using namespace tmc;

typedef uint32_t Clk;
struct VC { Clk c[MAXT]; void join(const VC& o) { for ( int i = 0; i < MAXT; ++i ) if ( o.c[i] > c[i] ) c[i] = o.c[i]; } };

enum Status { IDLE, READY, MUTEX, SPIN, DONE };
static const int WINDOW = 64;
struct Thread
{
    pthread_t        os;
    std::atomic<int> baton { 0 };
    int              id = 0;
    Status           st = IDLE;
    const std::function<void()>* body = nullptr;
    bool             quit = false;
    // model
    VC       vc, rel_fence, acq_pending;
    uintptr_t wait_mutex = 0;
    uint64_t hist[WINDOW];    // hashes of the last operations (pc, address, value before, value after)
    uintptr_t haddr[WINDOW];
    int      nh = 0;
    struct { uintptr_t addr; uint64_t ver; } watch[24];
    int      nwatch = 0;
    uint64_t since = 0;       // steps since it was scheduled
    // fair scheduling: threads that go first, threads scheduled since this one last span
    unsigned first = 0, seen = ~0u;
    int      spins = 0, delay = 0;
    // a volatile write to record (it happens after the call that announces it)
    struct { bool on = false; uintptr_t pc, a; uint64_t v; } late;
};

struct Loc { uintptr_t addr; uint32_t gen; uint64_t ver; VC clock; };                                        // atomics
struct Cell { uintptr_t addr; uint32_t gen; Clk w; uint8_t wt, freed; uintptr_t wpc; Clk r[MAXT], a[MAXT], aw[MAXT]; }; // plain bytes
struct Mtx { uintptr_t addr; uint32_t gen; int owner; int depth; VC clock; };

static const size_t NLOC = 1 << 12, NCELL = 1 << 17, NMTX = 1 << 8;
Loc*  locs;
Cell* cells;
Mtx*  mtxs;
uint32_t gen = 0;

struct Pool { Thread* t[MAXT] = {}; int n = 0; };
Pool*   pool;
int     npool = 0;
std::atomic<int> main_baton { 0 };

// the execution in progress
mc::Ctx* ctx;
Opts     opts;
int      nt = 0, budget = 0;
bool     active = false, quiet = false; // quiet: no more choices
int      current = 0;
uint64_t steps = 0, stamps = 0, version = 0;
uint64_t progress_at = 0;
int      stuck_rounds = 0;
bool     abandoned = false;
std::exception_ptr thrown;
bool        failed = false;
std::string fsig, fmsg;
void*   freed_list[1 << 14];
size_t  nfreed = 0;

thread_local Thread* me     = nullptr;
thread_local int     in_rt  = 0;
struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

inline bool on() { return me && !in_rt && active; }

void futex_wait(std::atomic<int>* a) { while ( a->load() == 0 ) syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0); }
void futex_post(std::atomic<int>* a) { a->store(1); syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void violation(const char* sig, const std::string& msg)
{
    if ( !failed ) { failed = true; fsig = sig; fmsg = msg; }
    quiet = true;
}

Loc& loc(uintptr_t a)
{
    size_t h = (a * 0x9e3779b97f4a7c15ull) >> 52;
    for ( ;; h = (h + 1) & (NLOC - 1) ) {
        Loc& l = locs[h];
        if ( l.gen != gen ) { memset(&l, 0, sizeof l); l.gen = gen; l.addr = a; return l; }
        if ( l.addr == a ) return l;
    }
}
Mtx& mtx(uintptr_t a)
{
    size_t h = (a * 0x9e3779b97f4a7c15ull) >> 56;
    for ( ;; h = (h + 1) & (NMTX - 1) ) {
        Mtx& l = mtxs[h];
        if ( l.gen != gen ) { memset(&l, 0, sizeof l); l.gen = gen; l.addr = a; l.owner = -1; return l; }
        if ( l.addr == a ) return l;
    }
}
size_t ncells = 0;
Cell* cell(uintptr_t a, bool make)
{
    size_t h = ((a >> 3) * 0x9e3779b97f4a7c15ull) >> 50 << 3;
    h = (h + (a & 7)) & (NCELL - 1);
    for ( ;; h = (h + 8) & (NCELL - 1) ) {
        Cell& l = cells[h];
        if ( l.gen != gen ) {
            if ( !make || ncells > NCELL / 16 * 7 ) return nullptr;
            ++ncells;
            memset(&l, 0, sizeof l);
            l.gen = gen; l.addr = a;
            return &l;
        }
        if ( l.addr == a ) return &l;
    }
}

std::string where(uintptr_t pc)
{
    Dl_info i;
    if ( dladdr((void*)pc, &i) && i.dli_sname ) return mc::fmt("%s+%zx", i.dli_sname, pc - (uintptr_t)i.dli_saddr);
    return mc::fmt("%zx", pc);
}

enum Kind { PR, PW, AR, AW }; // plain read/write, atomic read/write
void race(uintptr_t a, uintptr_t pc, const char* what, int other, uintptr_t opc)
{
    violation("race", mc::fmt("data race: %s by thread %d at %s with an access of thread %d%s", what, me->id, where(pc).c_str(), other, opc ? (" at " + where(opc)).c_str() : ""));
}
void access(uintptr_t a, size_t n, Kind k, uintptr_t pc)
{
    if ( !opts.races || n > 4096 ) return;
    int t = me->id;
    for ( size_t i = 0; i < n; ++i ) {
        Cell* c = cell(a + i, true);
        if ( !c ) return;
        if ( c->freed ) { violation("use-after-free", mc::fmt("thread %d touches freed memory at %s (freed at %s)", t, where(pc).c_str(), where(c->wpc).c_str())); return; }
        const VC& v = me->vc;
        static const char* N[] = { "plain read", "plain write", "atomic read", "atomic write" };
        if ( c->w && c->wt != t && v.c[c->wt] < c->w ) { race(a, pc, N[k], c->wt, c->wpc); return; }
        for ( int o = 0; o < MAXT; ++o ) {
            if ( o == t ) continue;
            if ( (k == PW || k == AW) && c->r[o] > v.c[o] ) { race(a, pc, N[k], o, 0); return; }
            if ( k == PW && c->a[o] > v.c[o] ) { race(a, pc, N[k], o, 0); return; }
            if ( k == PR && c->aw[o] > v.c[o] ) { race(a, pc, N[k], o, 0); return; }
        }
        Clk now = v.c[t];
        switch ( k ) {
        case PR: c->r[t] = now; break;
        case PW: c->w = now; c->wt = (uint8_t)t; c->wpc = pc; break;
        case AR: c->a[t] = now; break;
        case AW: c->a[t] = now; c->aw[t] = now; break;
        }
    }
}

bool changed(const Thread& t)
{
    for ( int i = 0; i < t.nwatch; ++i ) if ( loc(t.watch[i].addr).ver != t.watch[i].ver ) return true;
    return false;
}
bool could(const Thread& t)
{
    switch ( t.st ) {
    case READY: return true;
    case MUTEX: return mtx(t.wait_mutex).owner < 0;
    case SPIN: return changed(t);
    default: return false;
    }
}
// A thread that spins lets those go first that could run and did not since it last span.
bool enabled(const Thread& t)
{
    if ( !could(t) ) return false;
    if ( t.first )
        for ( int i = 1; i <= nt; ++i ) if ( (t.first >> i & 1) && i != t.id && could(*pool->t[i]) ) return false;
    return true;
}
void scheduled(int x)
{
    for ( int i = 1; i <= nt; ++i ) { pool->t[i]->first &= ~(1u << x); pool->t[i]->seen |= 1u << x; }
    pool->t[x]->since = 0;
}
void finish_run() { futex_post(&main_baton); }

// hands over to another thread; the caller continues when it is scheduled again
void hand(int to)
{
    if ( to == current ) return;
    Thread* x = pool->t[to];
    int mine = me->id;
    (void)mine;
    current = to;
    scheduled(to);
    Thread* self = me;
    futex_post(&x->baton);
    if ( self->st != DONE ) futex_wait(&self->baton);
}
void wake(Thread& t)
{
    if ( t.st == SPIN ) { t.nwatch = 0; t.nh = 0; }
    if ( t.st == SPIN || t.st == MUTEX ) t.st = READY;
}

// picks the thread to run when the current one cannot go on; returns -1 when nobody can
int pick(bool self_ok)
{
    int e[MAXT], n = 0;
    for ( int i = 1; i <= nt; ++i ) {
        int x = 1 + (me->id - 1 + i) % nt; // starting after the current one
        if ( !self_ok && x == me->id ) continue;
        if ( enabled(*pool->t[x]) ) e[n++] = x;
    }
    if ( !n ) {
        // let the spinning threads go round again, a bounded number of times
        if ( progress_at != version ) { progress_at = version; stuck_rounds = 0; }
        int s[MAXT], m = 0;
        for ( int i = 1; i <= nt; ++i ) { int x = 1 + (me->id - 1 + i) % nt; if ( pool->t[x]->st == SPIN ) s[m++] = x; }
        if ( !m || ++stuck_rounds > 12 ) return -1;
        int x = s[0];
        wake(*pool->t[x]);
        return x;
    }
    int k = 0;
    if ( n > 1 && !quiet ) {
        try { k = ctx->choose(n); }
        catch ( ... ) { thrown = std::current_exception(); quiet = true; }
    }
    wake(*pool->t[e[k]]);
    return e[k];
}
void park_forever() { for ( ;; ) pause(); }
void dead(const char* sig)
{
    std::string s;
    for ( int i = 1; i <= nt; ++i ) {
        Thread& t = *pool->t[i];
        s += mc::fmt(" thread %d %s", i, t.st == DONE ? "done" : t.st == MUTEX ? "waits for a mutex" : t.st == SPIN ? "spins" : "ready");
    }
    violation(sig, s);
    abandoned = true;
    finish_run();
    park_forever();
}
// the current thread cannot go on (its status says why)
void block()
{
    int x = pick(true);
    if ( x < 0 ) dead("deadlock");
    if ( x == me->id ) return;
    hand(x);
}
// before a synchronisation operation
void record(uintptr_t pc, uintptr_t a, uint64_t before, uint64_t after);
void sched()
{
    if ( me->late.on ) { me->late.on = false; record(me->late.pc, me->late.a, me->late.v, 1); }
    ++steps;
    ++me->since;
    if ( steps > opts.max_steps ) dead("livelock");
    if ( opts.serial ) return;
    if ( quiet ) { if ( me->since > 200 ) goto rotate; return; }
    if ( budget > 0 ) {
        int e[MAXT], n = 0;
        for ( int i = 1; i < nt; ++i ) { int x = 1 + (me->id - 1 + i) % nt; if ( enabled(*pool->t[x]) ) e[n++] = x; }
        if ( n ) {
            int k = 0;
            try { k = ctx->choose(n + 1); }
            catch ( ... ) { thrown = std::current_exception(); quiet = true; }
            if ( k ) { --budget; wake(*pool->t[e[k - 1]]); hand(e[k - 1]); return; }
        }
    }
    if ( me->since > 300 ) {
    rotate: // fairness
        for ( int i = 1; i < nt; ++i ) {
            int x = 1 + (me->id - 1 + i) % nt;
            if ( enabled(*pool->t[x]) ) { wake(*pool->t[x]); hand(x); return; }
        }
        me->since = 0;
    }
}
// after an operation: detects that the thread repeats itself
void record(uintptr_t pc, uintptr_t a, uint64_t before, uint64_t after)
{
    if ( opts.serial ) return;
    Thread& t = *me;
    static bool trace = getenv("TMC_TRACE");
    if ( trace ) fprintf(stderr, "thread %d at %s: address %zx value %lu -> %lu\n", t.id, where(pc).c_str(), (size_t)a, (unsigned long)before, (unsigned long)after);
    uint64_t h = mc::mix(mc::mix(mc::mix(pc, a), before), after);
    if ( t.nh == WINDOW ) { memmove(t.hist, t.hist + WINDOW / 2, sizeof(t.hist) / 2); memmove(t.haddr, t.haddr + WINDOW / 2, sizeof(t.haddr) / 2); t.nh = WINDOW / 2; }
    t.hist[t.nh]  = h;
    t.haddr[t.nh] = a;
    ++t.nh;
    for ( int p = 1; p <= 10 && 3 * p <= t.nh; ++p ) {
        bool same = true;
        for ( int i = 0; i < 2 * p && same; ++i ) same = t.hist[t.nh - 1 - i] == t.hist[t.nh - 1 - i - p];
        if ( !same ) continue;
        // put aside at the end of a round of the loop (not where it holds a lock, say); when that does not help, anywhere
        int m = 2 * p;
        while ( t.nh - 1 - m - p >= 0 && t.hist[t.nh - 1 - m] == t.hist[t.nh - 1 - m - p] ) ++m;
        if ( t.spins < 16 ? m % p != 0 : t.delay < t.spins % p ) { ++t.delay; return; }
        t.delay = 0;
        ++t.spins;
        t.nwatch = 0;
        for ( int i = 0; i < p; ++i ) { t.watch[t.nwatch].addr = t.haddr[t.nh - 1 - i]; t.watch[t.nwatch].ver = loc(t.haddr[t.nh - 1 - i]).ver; ++t.nwatch; }
        t.nh = 0;
        for ( int i = 1; i <= nt; ++i ) if ( i != t.id && !(t.seen >> i & 1) && could(*pool->t[i]) ) t.first |= 1u << i;
        t.seen = 0;
        t.st = SPIN;
        block();
        t.st = READY;
        return;
    }
    t.delay = 0;
}
void forget() { if ( me ) me->nh = 0; }

enum { RLX, CONSUME, ACQ, REL, ACQREL, SEQ };
bool is_acq(int o) { return o == ACQ || o == CONSUME || o == ACQREL || o == SEQ; }
bool is_rel(int o) { return o == REL || o == ACQREL || o == SEQ; }
void tick() { ++me->vc.c[me->id]; }
void on_load(Loc& l, int o)
{
    if ( is_acq(o) ) me->vc.join(l.clock);
    me->acq_pending.join(l.clock);
}
void on_store(Loc& l, int o, bool rmw)
{
    if ( !rmw ) memset(&l.clock, 0, sizeof l.clock);
    if ( is_rel(o) ) { l.clock.join(me->vc); tick(); }
    else l.clock.join(me->rel_fence);
}

template <class T>
T do_load(const volatile T* a, int o, uintptr_t pc)
{
    Rt r;
    sched();
    access((uintptr_t)a, sizeof(T), AR, pc);
    T    v = *a;
    Loc& l = loc((uintptr_t)a);
    on_load(l, o);
    record(pc, (uintptr_t)a, (uint64_t)v, (uint64_t)v);
    return v;
}
template <class T>
void do_store(volatile T* a, T v, int o, uintptr_t pc)
{
    Rt r;
    sched();
    access((uintptr_t)a, sizeof(T), AW, pc);
    T    old = *a;
    *a       = v;
    Loc& l   = loc((uintptr_t)a);
    on_store(l, o, false);
    if ( old != v ) { ++l.ver; ++version; }
    record(pc, (uintptr_t)a, (uint64_t)old, (uint64_t)v);
}
template <class T, class F>
T do_rmw(volatile T* a, int o, uintptr_t pc, F f)
{
    Rt r;
    sched();
    access((uintptr_t)a, sizeof(T), AW, pc);
    T old = *a, v = f(old);
    *a       = v;
    Loc& l   = loc((uintptr_t)a);
    on_load(l, o);
    on_store(l, o, true);
    if ( old != v ) { ++l.ver; ++version; }
    record(pc, (uintptr_t)a, (uint64_t)old, (uint64_t)v);
    return old;
}
template <class T>
bool do_cas(volatile T* a, T* exp, T des, int o, int fo, uintptr_t pc)
{
    Rt r;
    sched();
    T    old = *a;
    bool ok  = memcmp((void*)&old, exp, sizeof(T)) == 0;
    access((uintptr_t)a, sizeof(T), ok ? AW : AR, pc);
    Loc& l = loc((uintptr_t)a);
    if ( ok ) {
        *a = des;
        on_load(l, o);
        on_store(l, o, true);
        if ( old != des ) { ++l.ver; ++version; }
    }
    else {
        on_load(l, fo);
        *exp = old;
    }
    record(pc, (uintptr_t)a, (uint64_t)old, ok ? (uint64_t)des : (uint64_t)old);
    return ok;
}

void* thread_main(void* p)
{
    Thread* t = (Thread*)p;
    me = t;
    for ( ;; ) {
        in_rt = 1;
        futex_wait(&t->baton);
        if ( t->quit ) return nullptr;
        in_rt = 0;
        try { (*t->body)(); }
        catch ( const mc::Violation& v ) { in_rt = 1; violation(v.sig.c_str(), v.msg); }
        catch ( const std::exception& e ) { in_rt = 1; violation("exception", e.what()); }
        catch ( ... ) { in_rt = 1; violation("exception", "unknown exception in a thread"); }
        in_rt = 1;
        t->st = DONE;
        ++version;
        bool all = true;
        for ( int i = 1; i <= nt; ++i ) all = all && pool->t[i]->st == DONE;
        if ( all ) { finish_run(); continue; }
        int x = pick(false);
        if ( x < 0 ) {
            std::string s;
            for ( int i = 1; i <= nt; ++i ) s += mc::fmt(" thread %d %s", i, pool->t[i]->st == DONE ? "done" : pool->t[i]->st == MUTEX ? "waits for a mutex" : "spins");
            violation("deadlock", s);
            abandoned = true;
            finish_run();
            park_forever();
        }
        current = x;
        scheduled(x);
        futex_post(&pool->t[x]->baton);
    }
}
} // namespace

namespace tmc {
uint64_t stamp() { return ++stamps; }
uint64_t last_steps() { return steps; }
void point() { if ( on() ) { Rt r; sched(); } }
void fail(const char* sig, const char* f, ...)
{
    Rt r;
    va_list ap;
    va_start(ap, f);
    violation(sig, mc::vfmt(f, ap));
    va_end(ap);
}

void fresh_threads()
{
    if ( !pool ) return;
    for ( int i = 1; i < MAXT; ++i ) {
        Thread* t = pool->t[i];
        if ( !t ) continue;
        t->quit = true;
        futex_post(&t->baton);
        pthread_join(t->os, nullptr);
        delete t;
        pool->t[i] = nullptr;
    }
}
extern "C" {
extern char __start_uut_bss[] __attribute__((weak)), __stop_uut_bss[] __attribute__((weak)), __start_uut_data[] __attribute__((weak)), __stop_uut_data[] __attribute__((weak));
}
void reset_statics()
{
    static char* save[2] = { nullptr, nullptr };
    char* from[2] = { __start_uut_bss, __start_uut_data };
    char* to[2]   = { __stop_uut_bss, __stop_uut_data };
    for ( int i = 0; i < 2; ++i ) {
        if ( !from[i] || from[i] == to[i] ) continue;
        size_t n = to[i] - from[i];
        if ( !save[i] ) { save[i] = (char*)::malloc(n); memcpy(save[i], from[i], n); }
        else memcpy(from[i], save[i], n);
    }
}

void run(mc::Ctx& c, const Opts& o, const std::vector<std::function<void()>>& bodies)
{
    if ( !locs ) {
        locs  = (Loc*)calloc(NLOC, sizeof(Loc));
        cells = (Cell*)calloc(NCELL, sizeof(Cell));
        mtxs  = (Mtx*)calloc(NMTX, sizeof(Mtx));
        cpu_set_t set;
        if ( sched_getaffinity(0, sizeof set, &set) == 0 && CPU_COUNT(&set) > 1 ) {
            // one of the allowed processors: handing over is cheaper there
            int k = (c.shard >= 0 ? c.shard : 0) % CPU_COUNT(&set);
            for ( int i = 0; i < CPU_SETSIZE; ++i )
                if ( CPU_ISSET(i, &set) && k-- == 0 ) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
    }
    static int abandons = 0;
    if ( abandons > 60 ) c.fail("deadlock", "too many stuck executions in this worker");
    if ( !pool ) pool = new Pool();
    nt = (int)bodies.size();
    if ( nt >= MAXT ) c.fail("harness", "too many threads");
    ++gen;
    ncells = 0;
    ctx = &c; opts = o; budget = o.preemptions; quiet = false; steps = stamps = 0; version = progress_at = 0; stuck_rounds = 0;
    abandoned = false; thrown = nullptr; failed = false; fsig.clear(); fmsg.clear(); nfreed = 0;
    for ( int i = 1; i <= nt; ++i ) {
        Thread*& t = pool->t[i];
        bool fresh = !t;
        if ( fresh ) { t = new Thread(); t->id = i; }
        t->st = READY; t->body = &bodies[i - 1];
        memset(&t->vc, 0, sizeof t->vc); memset(&t->rel_fence, 0, sizeof(VC)); memset(&t->acq_pending, 0, sizeof(VC));
        t->vc.c[i] = 1;
        t->nh = t->nwatch = 0; t->since = 0; t->wait_mutex = 0; t->first = 0; t->seen = ~0u; t->late.on = false; t->spins = t->delay = 0;
        if ( fresh && pthread_create(&t->os, nullptr, thread_main, t) ) abort();
    }
    int first = 1;
    if ( o.serial ) quiet = true;
    else if ( nt > 1 ) first = 1 + c.choose(nt);
    active  = true;
    current = first;
    futex_post(&pool->t[first]->baton);
    futex_wait(&main_baton);
    active = false;
    if ( abandoned ) { pool = new Pool(); ++abandons; } // its threads are stuck for good
    else for ( size_t i = 0; i < nfreed; ++i ) ::free(freed_list[i]);
    nfreed = 0;
    c.step(steps);
    if ( failed ) c.fail(fsig, "%s", fmsg.c_str());
    if ( thrown ) std::rethrow_exception(thrown);
}
} // namespace tmc

// ------------------------------------------------------------ compiler interface
#define PC ((uintptr_t)__builtin_return_address(0))
#define PLAIN(n)                                                                                                    \
    extern "C" void __tsan_read##n(void* a) { if ( on() ) { Rt r; access((uintptr_t)a, n, PR, PC); } }              \
    extern "C" void __tsan_write##n(void* a) { if ( on() ) { Rt r; access((uintptr_t)a, n, PW, PC); } }             \
    extern "C" void __tsan_unaligned_read##n(void* a) { if ( on() ) { Rt r; access((uintptr_t)a, n, PR, PC); } }    \
    extern "C" void __tsan_unaligned_write##n(void* a) { if ( on() ) { Rt r; access((uintptr_t)a, n, PW, PC); } }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
// volatile accesses are what x86 makes of them: loads acquire, stores release
static void vol(void* a, size_t n, bool w, uintptr_t pc)
{
    Rt r;
    sched();
    access((uintptr_t)a, n, w ? AW : AR, pc);
    Loc& l = loc((uintptr_t)a);
    if ( w ) { on_store(l, REL, false); ++l.ver; ++version; }
    else on_load(l, ACQ);
    uint64_t v = 0;
    memcpy(&v, a, n > 8 ? 8 : n);
    if ( w ) { me->late.on = true; me->late.pc = pc; me->late.a = (uintptr_t)a; me->late.v = v; }
    else record(pc, (uintptr_t)a, v, 0);
}
#define VOLATILE(n)                                                                             \
    extern "C" void __tsan_volatile_read##n(void* a) { if ( on() ) vol(a, n, false, PC); }      \
    extern "C" void __tsan_volatile_write##n(void* a) { if ( on() ) vol(a, n, true, PC); }      \
    extern "C" void __tsan_unaligned_volatile_read##n(void* a) { if ( on() ) vol(a, n, false, PC); } \
    extern "C" void __tsan_unaligned_volatile_write##n(void* a) { if ( on() ) vol(a, n, true, PC); }
VOLATILE(1) VOLATILE(2) VOLATILE(4) VOLATILE(8) VOLATILE(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { if ( on() ) { Rt r; access((uintptr_t)a, 8, PW, PC); } }
void __tsan_vptr_read(void** a) { if ( on() ) { Rt r; access((uintptr_t)a, 8, PR, PC); } }
void __tsan_read_range(void* a, size_t n) { if ( on() ) { Rt r; access((uintptr_t)a, n, PR, PC); } }
void __tsan_write_range(void* a, size_t n) { if ( on() ) { Rt r; access((uintptr_t)a, n, PW, PC); } }
void __tsan_atomic_thread_fence(int o)
{
    if ( !on() ) { __sync_synchronize(); return; }
    Rt r;
    if ( is_acq(o) ) me->vc.join(me->acq_pending);
    if ( is_rel(o) ) { me->rel_fence = me->vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
}
#define ATOMIC(bits, T)                                                                                                                             \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int o) { return on() ? do_load(a, o, PC) : __atomic_load_n(a, 5); }                \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int o) { if ( on() ) do_store(a, v, o, PC); else __atomic_store_n(a, v, 5); }   \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T) { return v; }) : __atomic_exchange_n(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T)(x + v); }) : __atomic_fetch_add(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T)(x - v); }) : __atomic_fetch_sub(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T)(x & v); }) : __atomic_fetch_and(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T)(x | v); }) : __atomic_fetch_or(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T)(x ^ v); }) : __atomic_fetch_xor(a, v, 5); } \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int o) { return on() ? do_rmw(a, o, PC, [=](T x) { return (T) ~(x & v); }) : __atomic_fetch_nand(a, v, 5); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int f) { return on() ? do_cas(a, e, v, o, f, PC) : __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int f) { return on() ? do_cas(a, e, v, o, f, PC) : __atomic_compare_exchange_n(a, e, v, true, 5, 5); } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int o, int f) { if ( on() ) do_cas(a, &e, v, o, f, PC); else __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// ------------------------------------------------------------ interposed library calls
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static int model_lock(pthread_mutex_t* m, bool try_only, uintptr_t pc)
{
    Rt r;
    sched();
    Mtx& x = mtx((uintptr_t)m);
    int  kind = m->__data.__kind & 3;
    if ( x.owner == me->id ) {
        if ( kind == PTHREAD_MUTEX_RECURSIVE ) { ++x.depth; return 0; }
        if ( try_only ) return 16;
    }
    while ( x.owner >= 0 ) {
        if ( try_only ) { record(pc, (uintptr_t)m, 1, 1); return 16; /* EBUSY */ }
        me->st = MUTEX;
        me->wait_mutex = (uintptr_t)m;
        block();
        me->st = READY;
    }
    x.owner = me->id;
    x.depth = 1;
    me->vc.join(x.clock);
    Loc& l = loc((uintptr_t)m);
    ++l.ver;
    record(pc, (uintptr_t)m, 0, 1);
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return on() ? model_lock(m, false, PC) : f(m);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return on() ? model_lock(m, true, PC) : f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if ( !on() ) return f(m);
    Rt   r;
    sched();
    Mtx& x = mtx((uintptr_t)m);
    if ( x.owner != me->id ) { violation("unlock", mc::fmt("thread %d unlocks a mutex it does not hold", me->id)); return 1; }
    if ( --x.depth ) return 0;
    x.owner = -1;
    x.clock = me->vc;
    tick();
    Loc& l = loc((uintptr_t)m);
    ++l.ver;
    ++version;
    record(PC, (uintptr_t)m, 1, 0);
    return 0;
}
extern "C" int sched_yield() noexcept
{
    static auto f = next<int (*)()>("sched_yield");
    if ( me ) return 0;
    return f();
}
extern "C" int nanosleep(const struct timespec* a, struct timespec* b)
{
    static auto f = next<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    if ( me && active ) return 0;
    return f(a, b);
}

static void model_free(void* p, uintptr_t pc)
{
    Rt r;
    size_t n = malloc_usable_size(p);
    if ( n > 512 ) n = 512;
    if ( opts.races ) {
        Cell* c0 = cell((uintptr_t)p, false);
        if ( c0 && c0->freed ) { violation("double-free", mc::fmt("thread %d frees memory twice at %s (first at %s)", me->id, where(pc).c_str(), where(c0->wpc).c_str())); return; }
        access((uintptr_t)p, n, PW, pc);
        for ( size_t i = 0; i < n; ++i ) if ( Cell* c = cell((uintptr_t)p + i, true) ) { c->freed = 1; c->wpc = pc; }
    }
    if ( nfreed < sizeof(freed_list) / sizeof(freed_list[0]) ) freed_list[nfreed++] = p;
}
void operator delete(void* p) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete(void* p, size_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete[](void* p) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete[](void* p, size_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if ( !p ) return; if ( on() ) model_free(p, PC); else free(p); }
