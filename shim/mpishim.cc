#include "mpi.h"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <mutex>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

// One byte ring per (src,dst) pair, single producer process / single consumer
// process; the calls of one process are serialised by a process local mutex.
namespace {
constexpr size_t RING = 1 << 20;
struct Ring {
    std::atomic<uint64_t> head; // written by producer
    std::atomic<uint64_t> tail; // written by consumer
    char                  data[RING];
};
struct Arena {
    int               n;
    std::atomic<int>  aborted;
    Ring              rings[1];
};
struct Hdr { int tag; int64_t len; };
struct Msg { int src, tag; std::string body; };

Arena* arena   = nullptr;
size_t arenasz = 0;
int    my_rank = 0, n_ranks = 1;
std::recursive_mutex mtx;
std::list<Msg>       inbox;
struct Partial { bool have_hdr = false; Hdr h; std::string buf; };
std::vector<Partial> partial;
} // namespace
struct vmpi_req {
    bool       send, done;
    void*      buf;
    long       cap;
    int        src, tag;
    MPI_Status st;
};
namespace {
std::list<vmpi_req*> posted;
inline int tsize(MPI_Datatype t) { return t & 0xff; }
Ring& ring(int src, int dst) { return arena->rings[src * n_ranks + dst]; }
constexpr int COLL = 1 << 28; // tag space of the collectives
[[noreturn]] void die(const char* m) { fprintf(stderr, "VMPI FATAL rank %d: %s\n", my_rank, m); _exit(97); }

bool match(int want_src, int want_tag, const Msg& m)
{
    if ( want_src != MPI_ANY_SOURCE && want_src != m.src ) return false;
    if ( want_tag == MPI_ANY_TAG ) return m.tag < COLL;
    return want_tag == m.tag;
}
void progress()
{
    if ( n_ranks > 1 ) {
        if ( arena->aborted.load() ) _exit(arena->aborted.load() & 0xff ? arena->aborted.load() & 0xff : 1);
        for ( int s = 0; s < n_ranks; ++s ) {
            if ( s == my_rank ) continue;
            Ring& r = ring(s, my_rank);
            for ( ;; ) {
                uint64_t t = r.tail.load(), h = r.head.load();
                uint64_t avail = h - t;
                if ( !avail ) break;
                Partial& p = partial[s];
                size_t want = p.have_hdr ? (size_t)(p.h.len - (int64_t)p.buf.size()) : sizeof(Hdr) - p.buf.size();
                size_t n = want < avail ? want : avail;
                for ( size_t k = 0; k < n; ++k ) p.buf.push_back(r.data[(t + k) % RING]);
                r.tail.store(t + n);
                if ( !p.have_hdr ) {
                    if ( p.buf.size() == sizeof(Hdr) ) { memcpy(&p.h, p.buf.data(), sizeof(Hdr)); p.have_hdr = true; p.buf.clear(); }
                    else continue;
                }
                if ( (int64_t)p.buf.size() == p.h.len ) {
                    inbox.push_back(Msg { s, p.h.tag, std::move(p.buf) });
                    p = Partial();
                }
            }
        }
    }
    for ( auto it = posted.begin(); it != posted.end(); ) {
        vmpi_req* q = *it;
        bool      hit = false;
        for ( auto m = inbox.begin(); m != inbox.end(); ++m ) {
            if ( match(q->src, q->tag, *m) ) {
                if ( (long)m->body.size() > q->cap ) die("message truncated");
                memcpy(q->buf, m->body.data(), m->body.size());
                q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st.count_bytes = m->body.size(); q->st.MPI_ERROR = 0;
                q->done = true;
                inbox.erase(m);
                hit = true;
                break;
            }
        }
        it = hit ? posted.erase(it) : std::next(it);
    }
}
void relax(int& k) { if ( ++k > 50 ) { sched_yield(); if ( k > 2000 ) usleep(50); } }
void put(int dst, const char* p, size_t len)
{
    Ring& r = ring(my_rank, dst);
    int   k = 0;
    while ( len ) {
        uint64_t h = r.head.load(), t = r.tail.load();
        size_t   room = RING - (h - t), n = room < len ? room : len;
        if ( !n ) { progress(); relax(k); continue; }
        for ( size_t i = 0; i < n; ++i ) r.data[(h + i) % RING] = p[i];
        r.head.store(h + n);
        p += n; len -= n;
    }
}
void send(const void* buf, long bytes, int dst, int tag)
{
    std::lock_guard<std::recursive_mutex> l(mtx);
    if ( dst < 0 || dst >= n_ranks ) die("send to a rank that does not exist");
    if ( dst == my_rank ) { inbox.push_back(Msg { my_rank, tag, std::string((const char*)buf, bytes) }); return; }
    Hdr h; memset(&h, 0, sizeof h); h.tag = tag; h.len = bytes;
    put(dst, (const char*)&h, sizeof h);
    put(dst, (const char*)buf, bytes);
}
vmpi_req* irecv(void* buf, long cap, int src, int tag)
{
    std::lock_guard<std::recursive_mutex> l(mtx);
    auto* q = new vmpi_req { false, false, buf, cap, src, tag, {} };
    posted.push_back(q);
    return q;
}
void wait(vmpi_req* q, MPI_Status* st)
{
    int k = 0;
    for ( ;; ) {
        { std::lock_guard<std::recursive_mutex> l(mtx); if ( !q->done ) progress(); if ( q->done ) break; }
        relax(k);
    }
    if ( st ) *st = q->st;
    delete q;
}
long recv(void* buf, long cap, int src, int tag)
{
    MPI_Status st;
    wait(irecv(buf, cap, src, tag), &st);
    return st.count_bytes;
}
template <class T> void red(T* a, const T* b, int n, MPI_Op op)
{
    for ( int i = 0; i < n; ++i ) switch ( op ) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
        case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
        case MPI_LOR: a[i] = (a[i] != 0) || (b[i] != 0); break;
        case MPI_LAND: a[i] = (a[i] != 0) && (b[i] != 0); break;
        default: die("unsupported reduction");
        }
}
struct DI { double v; int i; };
void reduce(void* a, const void* b, int n, MPI_Datatype t, MPI_Op op)
{
    if ( op == MPI_MAXLOC || op == MPI_MINLOC ) {
        DI* x = (DI*)a; const DI* y = (const DI*)b;
        for ( int i = 0; i < n; ++i ) {
            bool take = op == MPI_MAXLOC ? y[i].v > x[i].v : y[i].v < x[i].v;
            if ( take || (y[i].v == x[i].v && y[i].i < x[i].i) ) x[i] = y[i];
        }
        return;
    }
    switch ( t ) {
    case MPI_INT8_T: red((int8_t*)a, (const int8_t*)b, n, op); break;
    case MPI_UINT8_T: red((uint8_t*)a, (const uint8_t*)b, n, op); break;
    case MPI_INT16_T: red((int16_t*)a, (const int16_t*)b, n, op); break;
    case MPI_UINT16_T: red((uint16_t*)a, (const uint16_t*)b, n, op); break;
    case MPI_INT32_T: red((int32_t*)a, (const int32_t*)b, n, op); break;
    case MPI_UINT32_T: red((uint32_t*)a, (const uint32_t*)b, n, op); break;
    case MPI_INT64_T: red((int64_t*)a, (const int64_t*)b, n, op); break;
    case MPI_UINT64_T: red((uint64_t*)a, (const uint64_t*)b, n, op); break;
    case MPI_FLOAT: red((float*)a, (const float*)b, n, op); break;
    case MPI_DOUBLE: red((double*)a, (const double*)b, n, op); break;
    default: die("unsupported datatype");
    }
}
} // namespace

extern "C" {
void vmpi_setup(int n)
{
    vmpi_teardown();
    arenasz = sizeof(Arena) + sizeof(Ring) * (size_t)n * n;
    arena   = (Arena*)mmap(nullptr, arenasz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ( arena == MAP_FAILED ) die("mmap");
    arena->n = n;
}
void vmpi_enter(int rank)
{
    my_rank = rank; n_ranks = arena ? arena->n : 1;
    inbox.clear(); posted.clear(); partial.assign(n_ranks, Partial());
}
void vmpi_teardown(void) { if ( arena ) munmap(arena, arenasz); arena = nullptr; }

int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { if ( p ) *p = r; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code)
{
    if ( arena && n_ranks > 1 ) arena->aborted.store((code & 0xff) ? (code & 0xff) : 1);
    fflush(nullptr);
    _exit(code);
}
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : my_rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_SELF ? 1 : n_ranks; return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm)
{
    if ( n_ranks == 1 ) return 0;
    if ( my_rank == root ) { for ( int r = 0; r < n_ranks; ++r ) if ( r != root ) send(b, (long)n * tsize(t), r, COLL + 1); }
    else if ( recv(b, (long)n * tsize(t), root, COLL + 1) != (long)n * tsize(t) ) die("bcast size mismatch");
    return 0;
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm)
{
    long bytes = (long)n * tsize(t);
    if ( my_rank == root ) {
        std::string acc((const char*)s, bytes), in(bytes, 0);
        for ( int r = 0; r < n_ranks; ++r ) if ( r != root ) {
            if ( recv(&in[0], bytes, r, COLL + 2) != bytes ) die("reduce size mismatch");
            reduce(&acc[0], in.data(), n, t, op);
        }
        memcpy(d, acc.data(), bytes);
    }
    else send(s, bytes, root, COLL + 2);
    return 0;
}
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    if ( n_ranks == 1 ) { if ( s != d ) memcpy(d, s, (size_t)n * tsize(t)); return 0; }
    MPI_Reduce(s, d, n, t, op, 0, c);
    return MPI_Bcast(d, n, t, 0, c);
}
int MPI_Barrier(MPI_Comm c) { int a = 0, b; return MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_SUM, c); }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* d, const int* cnt, const int* disp, MPI_Datatype rt, MPI_Comm)
{
    for ( int r = 0; r < n_ranks; ++r ) if ( r != my_rank ) send(s, (long)n * tsize(t), r, COLL + 3);
    for ( int r = 0; r < n_ranks; ++r ) {
        char* p = (char*)d + (long)disp[r] * tsize(rt);
        if ( r == my_rank ) memmove(p, s, (size_t)n * tsize(t));
        else recv(p, (long)cnt[r] * tsize(rt), r, COLL + 3);
    }
    return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, MPI_Comm c)
{
    std::vector<int> cnt(n_ranks, rn), disp(n_ranks);
    for ( int i = 0; i < n_ranks; ++i ) disp[i] = i * rn;
    return MPI_Allgatherv(s, n, t, d, cnt.data(), disp.data(), rt, c);
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int rn, MPI_Datatype rt, int root, MPI_Comm)
{
    if ( my_rank != root ) { send(s, (long)n * tsize(t), root, COLL + 4); return 0; }
    for ( int r = 0; r < n_ranks; ++r ) {
        char* p = (char*)d + (long)r * rn * tsize(rt);
        if ( r == root ) memmove(p, s, (size_t)n * tsize(t)); else recv(p, (long)rn * tsize(rt), r, COLL + 4);
    }
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { send(b, (long)n * tsize(t), d, tag); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status* st)
{ wait(irecv(b, (long)n * tsize(t), s, tag), st); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* rq)
{ send(b, (long)n * tsize(t), d, tag); *rq = new vmpi_req { true, true, nullptr, 0, d, tag, {} }; return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request* rq)
{ *rq = irecv(b, (long)n * tsize(t), s, tag); return 0; }
int MPI_Wait(MPI_Request* rq, MPI_Status* st) { if ( *rq ) wait(*rq, st); *rq = nullptr; return 0; }
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st)
{ for ( int i = 0; i < n; ++i ) MPI_Wait(&rq[i], st ? &st[i] : nullptr); return 0; }
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st)
{
    if ( !*rq ) { *flag = 1; return 0; }
    {
        std::lock_guard<std::recursive_mutex> l(mtx);
        if ( !(*rq)->done ) progress();
        *flag = (*rq)->done;
    }
    if ( *flag ) MPI_Wait(rq, st); else sched_yield();
    return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm, int* flag, MPI_Status* st)
{
    std::lock_guard<std::recursive_mutex> l(mtx);
    progress();
    *flag = 0;
    for ( auto& m : inbox ) if ( match(s, tag, m) ) {
        *flag = 1;
        if ( st ) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->count_bytes = m.body.size(); st->MPI_ERROR = 0; }
        break;
    }
    return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st)
{ int f = 0, k = 0; for ( ;; ) { MPI_Iprobe(s, tag, c, &f, st); if ( f ) return 0; relax(k); } }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->count_bytes / tsize(t); return 0; }
int MPI_Pack(const void* in, int n, MPI_Datatype t, void* out, int cap, int* pos, MPI_Comm)
{ long b = (long)n * tsize(t); if ( *pos + b > cap ) die("pack overflow"); memcpy((char*)out + *pos, in, b); *pos += b; return 0; }
int MPI_Unpack(const void* in, int sz, int* pos, void* out, int n, MPI_Datatype t, MPI_Comm)
{ long b = (long)n * tsize(t); if ( *pos + b > sz ) die("unpack overflow"); memcpy(out, (const char*)in + *pos, b); *pos += b; return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "localhost"); *l = 9; return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Info_create(MPI_Info* i) { *i = 0; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Comm_spawn_multiple(int, char*[], char**[], const int[], const MPI_Info[], int, MPI_Comm, MPI_Comm*, int[]) { return MPI_ERR_OTHER; }
}
