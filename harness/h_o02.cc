// O02: the tunnel between processes.
#include "sst_config.h"
#include <cinttypes>
#include "sst/core/interprocess/circularBuffer.h"
#include "sst/core/interprocess/ipctunnel.h"
#include "sst/core/interprocess/mmapparent.h"
#include "sst/core/interprocess/shmchild.h"
#include "sst/core/interprocess/shmparent.h"
#include "sst/core/interprocess/tunneldef.h"
#include "tmc.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
using mc::Ctx;
using mc::fmt;
using namespace SST::Core::Interprocess;

namespace {
struct Msg { long a, b, c; bool ok() const { return b == a * 7 + 1 && c == ~a; } };
struct Share { long x; };
Msg msg(long i) { Msg m; m.a = i; m.b = i * 7 + 1; m.c = ~i; return m; }
using Tun = TunnelDef<Share, Msg>;
// parent and child in one process, over one region
struct World
{
    char* mem;
    Tun*  parent;
    std::vector<Tun*> kids;
    World(size_t buffers, size_t size, int children)
    {
        parent = new Tun(buffers, size, children);
        mem    = (char*)aligned_alloc(4096, (parent->getTunnelSize() + 4095) / 4096 * 4096);
        memset(mem, 0, parent->getTunnelSize());
        parent->initialize(mem);
    }
    Tun* attach() { kids.push_back(new Tun(mem)); kids.back()->initialize(mem); return kids.back(); }
    ~World() { for ( auto* k : kids ) delete k; delete parent; free(mem); }
};
enum K { W, R, NB, CL };
struct Op { int thread; K k; long v; bool ok; uint64_t in, out; };
} // namespace

static std::string judge(const std::vector<Op>& h, size_t size)
{
    std::map<long, const Op*> w, r;
    for ( auto& o : h ) if ( o.k == W ) w[o.v] = &o;
    for ( auto& o : h )
        if ( (o.k == R || o.k == NB) && o.ok ) {
            if ( !w.count(o.v) ) return fmt("message %ld was never written", o.v);
            if ( r.count(o.v) ) return fmt("message %ld was read twice", o.v);
            r[o.v] = &o;
            if ( o.out < w[o.v]->in ) return fmt("message %ld was read before it was written", o.v);
            for ( auto& c : h ) if ( c.k == CL && w[o.v]->out < c.in && c.out < o.in ) return fmt("message %ld was read after the buffer was cleared", o.v);
        }
    for ( auto& a : w ) {
        bool gone = false; // may a clear have taken it?
        for ( auto& c : h ) if ( c.k == CL && c.out > a.second->in ) gone = true;
        if ( !gone && !r.count(a.first) ) return fmt("message %ld was lost", a.first);
        for ( auto& b : w ) {
            if ( a.second->out >= b.second->in || !r.count(b.first) ) continue;
            if ( !r.count(a.first) ) {
                // cleared away before b was read: some clear between
                bool ok = false;
                for ( auto& c : h ) if ( c.k == CL && c.out > a.second->in && c.in < r[b.first]->out ) ok = true;
                if ( !ok ) return fmt("message %ld was read but %ld, written earlier, was not", b.first, a.first);
            }
            else if ( r[b.first]->out < r[a.first]->in ) return fmt("message %ld was read before %ld, which was written earlier", b.first, a.first);
        }
        // it was not put into a full buffer
        size_t before = 0, out = 0;
        for ( auto& o : h ) {
            if ( o.k == W && o.out < a.second->in ) ++before;
            if ( (o.k == R || o.k == NB) && o.ok && o.in < a.second->out ) ++out;
            if ( o.k == CL && o.in < a.second->out ) out += 1000;
        }
        if ( before >= size + out ) return fmt("message %ld was written although the buffer was full", a.first);
    }
    for ( auto& o : h )
        if ( o.k == NB && !o.ok ) {
            size_t there = 0, taken = 0;
            bool   other = false;
            for ( auto& x : h ) {
                if ( &x == &o ) continue;
                if ( x.in < o.out && x.out > o.in ) other = true;
                if ( x.k == W && x.out < o.in ) ++there;
                if ( (x.k == R || x.k == NB) && x.ok && x.in < o.out ) ++taken;
                if ( x.k == CL && x.in < o.out ) taken += 1000;
            }
            if ( !other && there > taken ) return "a non-blocking read found nothing although a message was there and nobody else was active";
        }
    return "";
}

// prog: w write, r read, n non-blocking read, c clear; thread 0 uses the parent's view, the others a child's
static void play(Ctx& c, size_t size, int pre, int skip, const std::vector<std::string>& prog, int preempt)
{
    World w(2, size, 1);
    Tun*  child = w.attach();
    std::vector<std::vector<Op>> per(prog.size() + 1);
    uint64_t base = 0;
    long     val = 1;
    for ( int i = 0; i < skip; ++i ) { w.parent->writeMessage(1, msg(900)); (void)child->readMessage(1); } // moves the indices on
    for ( int i = 0; i < pre; ++i ) { Op o { 9, W, val, true, ++base, 0 }; w.parent->writeMessage(1, msg(val++)); o.out = ++base; per.back().push_back(o); }
    std::vector<std::function<void()>> f;
    for ( size_t t = 0; t < prog.size(); ++t )
        f.push_back([&, t] {
            Tun* mine = t == 0 ? w.parent : child;
            long v = 100 * (long)(t + 1);
            for ( char k : prog[t] ) {
                Op o { (int)t, k == 'w' ? W : k == 'r' ? R : k == 'n' ? NB : CL, 0, true, tmc::stamp(), 0 };
                Msg m = msg(-1);
                if ( k == 'w' ) { o.v = v++; mine->writeMessage(1, msg(o.v)); }
                else if ( k == 'r' ) m = mine->readMessage(1);
                else if ( k == 'n' ) o.ok = mine->readMessageNB(1, &m);
                else mine->clearBuffer(1);
                o.out = tmc::stamp();
                if ( (k == 'r' || k == 'n') && o.ok ) { if ( !m.ok() ) tmc::fail("torn", "a message came out damaged: %ld %ld %ld", m.a, m.b, m.c); o.v = m.a; }
                per[t].push_back(o);
            }
        });
    tmc::Opts o;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    std::vector<Op> h = per.back();
    uint64_t last = 1000000;
    for ( size_t t = 0; t < prog.size(); ++t ) for ( auto x : per[t] ) { x.in += base; x.out += base; h.push_back(x); }
    Msg m;
    while ( w.parent->readMessageNB(1, &m) ) {
        c.check(m.ok(), "torn", "a message came out damaged: %ld %ld %ld", m.a, m.b, m.c);
        h.push_back({ 9, R, m.a, true, last + 1, last + 2 });
        last += 2;
        c.check(h.size() < 60, "drain", "the buffer never gets empty");
    }
    c.check(!w.parent->readMessageNB(0, &m), "other", "a message appeared in the other buffer");
    std::string text, ps;
    for ( auto& s : prog ) ps += s + "|";
    std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.in < b.in; });
    for ( auto& x : h ) text += fmt("%d%c%ld%s[%lu-%lu] ", x.thread, "WRNC"[x.k], x.v, x.ok ? "" : "x", (unsigned long)x.in, (unsigned long)x.out);
    std::string why = judge(h, size);
    if ( !why.empty() ) c.fail("history", "%s: size %zu, %d before, %s: %s", why.c_str(), size, pre, ps.c_str(), text.c_str());
    c.note("%zu %s %s", size, ps.c_str(), text.c_str());
    c.state(mc::hash(fmt("%zu", size) + text));
    c.nontrivial();
}
static std::vector<std::string> words(int n, const char* al)
{
    std::vector<std::string> w { "" };
    for ( int i = 0; i < n; ++i ) { std::vector<std::string> x; for ( auto& s : w ) for ( const char* a = al; *a; ++a ) x.push_back(s + *a); w = x; }
    return w;
}
// one writer, one reader: as many reads as there are messages, hence both always finish
static void stream(Ctx& c)
{
    int size = 2 + c.choose(3), pre = c.choose(size), skip = c.choose(size), n = 1 + c.choose(c.thorough() ? 4 : 3);
    int nb = c.choose(2);
    bool reader_parent = c.flip();
    std::string wr(n, 'w'), rd((size_t)(pre + n), 'r');
    if ( nb ) rd = "n" + rd.substr(1) + "n";
    // with non-blocking reads in place of blocking ones messages stay: only when the writer cannot block for good
    if ( nb && pre + n - (int)std::count(rd.begin(), rd.end(), 'r') > size - 1 ) c.discard();
    play(c, size, pre, skip, reader_parent ? std::vector<std::string> { rd, wr } : std::vector<std::string> { wr, rd }, c.thorough() ? 4 : 3);
}
// readers and writers of any number that can always finish
static void mixed(Ctx& c)
{
    int size = 2 + c.choose(3), pre = c.choose(size);
    std::string a = c.pick(words(2, "wrnc")), b = c.pick(words(c.thorough() ? 3 : 2, "wrnc"));
    std::string all = a + b;
    int nw = std::count(all.begin(), all.end(), 'w') , nr = std::count(all.begin(), all.end(), 'r');
    int ncl = std::count(all.begin(), all.end(), 'c'), nnb = std::count(all.begin(), all.end(), 'n');
    // blocking reads must find a message whatever the others take away, and writes room
    if ( nr && (ncl || nnb) ) c.discard();
    if ( nr > pre ) c.discard();
    if ( pre + nw > size - 1 ) c.discard();
    play(c, size, pre, c.choose(2), { a, b }, c.thorough() ? 4 : 3);
}
static void three(Ctx& c)
{
    static const std::vector<std::vector<std::string>> P = { { "ww", "r", "r" }, { "w", "w", "rr" }, { "w", "rr", "w" }, { "w", "w", "nn" }, { "ww", "c", "n" }, { "r", "w", "w" } };
    auto p = c.pick(P);
    int  size = 2 + c.choose(3);
    std::string all;
    for ( auto& s : p ) all += s;
    int left = std::count(all.begin(), all.end(), 'w') - std::count(all.begin(), all.end(), 'r');
    if ( left > size - 1 ) c.discard();
    play(c, size, 0, c.choose(2), p, c.thorough() ? 3 : 2);
}
// children attach
static void attach(Ctx& c)
{
    int n = 2 + c.choose(2), expected = n + c.choose(2);
    World w(1, 4, expected);
    std::vector<std::function<void()>> f;
    std::vector<long> got(n, -1);
    std::vector<Tun*> k(n);
    for ( int t = 0; t < n; ++t ) f.push_back([&, t] { k[t] = new Tun(w.mem); got[t] = k[t]->initialize(w.mem); });
    tmc::Opts o;
    o.preemptions = c.thorough() ? 5 : 3;
    tmc::run(c, o, f);
    for ( auto* x : k ) w.kids.push_back(x);
    std::sort(got.begin(), got.end());
    for ( int i = 0; i < n; ++i ) c.check(got[i] == expected - n + i, "attach", "%d of %d children attached and were told %ld %ld %ld children are left", n, expected, got[0], got[1], n > 2 ? got[2] : -1);
    c.note("attach %d %d", n, expected);
    c.nontrivial();
}
// layout: what one side puts anywhere is what the other side finds there
template <int S, int M>
struct Types
{
    struct Sh { unsigned char d[S]; };
    struct Me { unsigned char d[M]; };
    static Me make(int i) { Me m; for ( int k = 0; k < M; ++k ) m.d[k] = (unsigned char)(i * 31 + k * 7 + 3); return m; }
    template <class T>
    static void exercise(Ctx& c, T* p, const std::vector<T*>& kids, size_t nb, size_t size)
    {
        for ( int k = 0; k < S; ++k ) p->getSharedData()->d[k] = (unsigned char)(k * 5 + 1);
        for ( int round = 0; round < 2; ++round )
            for ( auto* kid : kids ) {
                for ( size_t b = 0; b < nb; ++b ) for ( size_t i = 0; i + 1 < size; ++i ) p->writeMessage(b, make((int)(b * 1000 + i)));
                for ( int k = 0; k < S; ++k ) c.check(kid->getSharedData()->d[k] == (unsigned char)(k * 5 + 1), "shared", "shared data of %d bytes differ at %d", S, k);
                for ( size_t b = nb; b-- > 0; )
                    for ( size_t i = 0; i + 1 < size; ++i ) {
                        Me m, want = make((int)(b * 1000 + i));
                        memset(&m, 0, sizeof m);
                        c.check(kid->readMessageNB(b, &m), "lost", "message %zu of buffer %zu is not there", i, b);
                        c.check(!memcmp(&m, &want, sizeof m), "content", "message %zu of buffer %zu differs", i, b);
                    }
                Me m;
                for ( size_t b = 0; b < nb; ++b ) c.check(!kid->readMessageNB(b, &m), "extra", "buffer %zu is not empty", b);
                // and back
                kid->getSharedData()->d[S - 1] ^= 0x55;
                c.check(p->getSharedData()->d[S - 1] == (unsigned char)(((S - 1) * 5 + 1) ^ 0x55), "shared", "shared data is not shared");
                kid->getSharedData()->d[S - 1] ^= 0x55;
                kid->writeMessage(nb - 1, make(77));
                Me want = make(77);
                m = p->readMessage(nb - 1);
                c.check(!memcmp(&m, &want, sizeof m), "content", "a message from the child differs");
                c.step(nb * size);
            }
    }
    static void layout(Ctx& c)
    {
        using T = TunnelDef<Sh, Me>;
        size_t nb = c.pick({ 1, 2, 3, 600 }), size = c.pick({ 2, 3, 100, 511, 512, 513 });
        int    kids = 1 + c.choose(2);
        if ( nb == 600 && size > 7 ) c.discard();
        T* p = new T(nb, size, kids);
        size_t n = p->getTunnelSize();
        size_t room = n + 8192;
        unsigned char* mem = (unsigned char*)aligned_alloc(4096, (room + 4095) / 4096 * 4096);
        memset(mem, 0, n);
        memset(mem + n, 0xa5, 8192);
        p->initialize(mem);
        std::vector<T*> ks;
        for ( int i = 0; i < kids; ++i ) {
            ks.push_back(new T((void*)mem));
            c.check(ks.back()->getTunnelSize() == n, "size", "the child sees a region of %zu bytes, the parent one of %zu", ks.back()->getTunnelSize(), n);
            c.check(ks.back()->initialize(mem) == (uint32_t)(kids - 1 - i), "attach", "wrong number of children left");
            c.check(!ks.back()->isMaster() && p->isMaster(), "master", "wrong role");
        }
        exercise(c, p, ks, nb, size);
        for ( size_t i = n; i < n + 8192; ++i ) c.check(mem[i] == 0xa5, "outside", "memory outside the region was changed");
        for ( auto* k : ks ) delete k;
        delete p;
        free(mem);
        c.note("layout %d %d %zu %zu", S, M, nb, size);
        c.nontrivial();
    }
    // the real shared memory regions
    static void regions(Ctx& c)
    {
        using T = TunnelDef<Sh, Me>;
        int    kind = c.choose(3), kids = 1 + c.choose(2);
        size_t nb = c.pick({ 1, 2, 5 }), size = c.pick({ 2, 9, 600 });
        std::string name;
        auto there = [&] { int fd = kind == 1 ? open(name.c_str(), O_RDONLY) : shm_open(name.c_str(), O_RDONLY, 0); if ( fd >= 0 ) close(fd); return fd >= 0; };
        if ( kind == 0 ) {
            auto* p = new SHMParent<T>(3, nb, size, kids);
            name    = p->getRegionName();
            std::vector<SHMChild<T>*> ks;
            std::vector<T*> ts;
            for ( int i = 0; i < kids; ++i ) {
                c.check(there(), "name", "the region is gone before the last child attached");
                ks.push_back(new SHMChild<T>(name));
                ts.push_back(ks.back()->getTunnel());
            }
            c.check(!there(), "name", "the region's name is left after all children attached");
            exercise(c, p->getTunnel(), ts, nb, size);
            for ( auto* k : ks ) delete k;
            delete p;
        }
        else if ( kind == 1 ) {
            auto* p = new MMAPParent<T>(3, nb, size, kids);
            name    = p->getRegionName();
            std::vector<T*> ts;
            int   fd = open(name.c_str(), O_RDWR);
            void* m  = mmap(nullptr, sizeof(InternalSharedData), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            T*    t  = new T(m);
            size_t n = t->getTunnelSize();
            munmap(m, sizeof(InternalSharedData));
            m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            t->initialize(m);
            ts.push_back(t);
            exercise(c, p->getTunnel(), ts, nb, size);
            delete t;
            munmap(m, n);
            delete p;
            c.check(!there(), "name", "the file is left");
        }
        else {
            auto* p = new IPCTunnel<Sh, Me>(3, nb, size, kids);
            name    = p->getRegionName();
            std::vector<IPCTunnel<Sh, Me>*> ts;
            for ( int i = 0; i < kids; ++i ) {
                c.check(there(), "name", "the region is gone before the last child attached");
                ts.push_back(new IPCTunnel<Sh, Me>(name));
            }
            c.check(!there(), "name", "the region's name is left after all children attached");
            exercise(c, p, ts, nb, size);
            for ( auto* k : ts ) delete k;
            delete p;
        }
        if ( there() ) { if ( kind == 1 ) unlink(name.c_str()); else shm_unlink(name.c_str()); }
        c.note("region %d %d %d %zu %zu", kind, S, M, nb, size);
        c.nontrivial();
    }
};
static void layout(Ctx& c)
{
    switch ( c.choose(6) ) {
    case 0: Types<1, 1>::layout(c); break;
    case 1: Types<4, 4>::layout(c); break;
    case 2: Types<3, 5>::layout(c); break;
    case 3: Types<8, 24>::layout(c); break;
    case 4: Types<5000, 100>::layout(c); break;
    default: Types<4096, 4097>::layout(c);
    }
}
static void regions(Ctx& c)
{
    switch ( c.choose(4) ) {
    case 0: Types<4, 4>::regions(c); break;
    case 1: Types<3, 5>::regions(c); break;
    case 2: Types<4064, 24>::regions(c); break;
    default: Types<5000, 100>::regions(c);
    }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "stream", stream, 20 }, { "mixed", mixed, 20 }, { "three", three, 20 }, { "attach", attach, 20 }, { "layout", layout, 60 }, { "regions", regions, 60 } });
}
