// T04: the memory pools.
#include "sst_config.h"
#include "sst/core/mempool.h"
#include "sst/core/mempoolAccessor.h"
#include "sst/core/output.h"
#include "tmc.h"
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using mc::Ctx;
using mc::fmt;
using SST::Core::MemPoolAccessor;
using SST::Core::MemPoolItem;

// The pools' arenas come from here: one region, handed out anew in every execution.
static bool   arena_on;
static char*  region;
static size_t region_used;
static const size_t REGION = 96u << 20;
extern "C" __attribute__((no_sanitize_thread)) void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    if ( arena_on && !a && (flags & MAP_ANONYMOUS) && region ) {
        n = (n + 4095) & ~(size_t)4095;
        if ( region_used + n > REGION ) return MAP_FAILED;
        char* p = region + region_used;
        region_used += n;
        memset(p, 0, n);
        return p;
    }
    return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}

namespace {
struct Item { uint64_t* p; size_t size; uint64_t tag; int owner; };
struct World
{
    Ctx&              c;
    bool              align;
    Item              live[64]; // only touched between two synchronisation operations of the schedule
    int               nlive = 0;
    uint64_t          next = 1;
    World(Ctx& c, bool align) : c(c), align(align)
    {
        if ( !region ) region = (char*)syscall(SYS_mmap, nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        tmc::reset_statics();
        region_used = 0;
        arena_on    = true;
        MemPoolAccessor::initializeGlobalData(4, align);
    }
    ~World() { arena_on = false; tmc::fresh_threads(); }
};
} // namespace
#define NOTSAN __attribute__((no_sanitize_thread))
// bookkeeping of the harness is not part of what is explored
NOTSAN static void enter(World& w, uint64_t* p, size_t size, int t, uint64_t& tag)
{
    if ( !p ) { tmc::fail("null", "no memory for %zu bytes", size); return; }
    if ( (uintptr_t)p % 8 ) tmc::fail("alignment", "%zu bytes at an address that is %zu modulo 8", size, (size_t)((uintptr_t)p % 8));
    for ( int k = 0; k < w.nlive; ++k ) {
        Item& i = w.live[k];
        bool overlap = (char*)p < (char*)i.p + i.size && (char*)i.p < (char*)p + size;
        if ( overlap ) tmc::fail("overlap", "thread %d got %zu bytes of which thread %d holds some (%zu bytes, offset %ld)", t, size, i.owner, i.size, (long)((char*)p - (char*)i.p));
        if ( w.align ) {
            uintptr_t a0 = ((uintptr_t)p) / 64, a1 = ((uintptr_t)p + size - 1) / 64, b0 = ((uintptr_t)i.p) / 64, b1 = ((uintptr_t)i.p + i.size - 1) / 64;
            if ( a0 <= b1 && b0 <= a1 ) tmc::fail("cache-line", "elements of %zu and %zu bytes share a cache line although cache alignment is on", size, i.size);
        }
    }
    tag = w.next++;
    w.live[w.nlive].p = p; w.live[w.nlive].size = size; w.live[w.nlive].tag = tag; w.live[w.nlive].owner = t;
    ++w.nlive;
}
NOTSAN static bool leave(World& w, uint64_t* p, Item& it)
{
    for ( int i = 0; i < w.nlive; ++i )
        if ( w.live[i].p == p ) {
            it.p = p; it.size = w.live[i].size; it.tag = w.live[i].tag; it.owner = w.live[i].owner;
            int l = --w.nlive;
            w.live[i].p = w.live[l].p; w.live[i].size = w.live[l].size; w.live[i].tag = w.live[l].tag; w.live[i].owner = w.live[l].owner;
            return true;
        }
    return false;
}
static size_t last(size_t size) { return size / 8 - 1; }
static uint64_t* get(World& w, size_t size, int t)
{
    uint64_t* p = (uint64_t*)MemPoolItem::operator new(size);
    uint64_t  tag = 0;
    enter(w, p, size, t, tag);
    if ( p ) { p[0] = tag; p[last(size)] = tag; }
    return p;
}
static void put(World& w, uint64_t* p, int t)
{
    Item i {};
    if ( !leave(w, p, i) ) { tmc::fail("harness", "unknown item"); return; }
    if ( p[0] != i.tag || p[last(i.size)] != i.tag )
        tmc::fail("touched", "an element of %zu bytes held by thread %d was changed: %lu and %lu instead of %lu", i.size, i.owner, (unsigned long)p[0], (unsigned long)p[last(i.size)], (unsigned long)i.tag);
    MemPoolItem::operator delete(p);
    (void)t;
}
static void account(World& w, int64_t want, size_t bytes_want)
{
    int64_t bytes = -1, active = -1;
    MemPoolAccessor::getMemPoolUsage(bytes, active);
    if ( active != want ) tmc::fail("usage", "%ld entries are reported active, %ld are (%d live)", (long)active, (long)want, w.nlive);
    if ( bytes < (int64_t)bytes_want ) tmc::fail("usage", "%ld bytes are reported in use, the held elements have %zu", (long)bytes, bytes_want);
    if ( w.nlive != want ) tmc::fail("harness", "live %d", w.nlive);
}

// Phase 1 (one after the other): each thread takes pre[t] elements.  Phase 2 (explored): A takes one, F frees the oldest of its own,
// X frees one that another thread took in phase 1.  Phase 3: all is freed and taken again by the first thread.
static void threads(Ctx& c, size_t size, const std::vector<int>& pre, const std::vector<std::string>& prog, int preempt, bool align, size_t size2 = 0)
{
    World w(c, align);
    int   n = (int)prog.size();
    std::vector<std::vector<uint64_t*>> own(n + 1), other(n + 1);
    std::vector<std::function<void()>>  f;
    for ( int t = 0; t < n; ++t )
        f.push_back([&, t] {
            MemPoolAccessor::initializeLocalData(t);
            for ( int i = 0; i < pre[t]; ++i ) own[t].push_back(get(w, i % 2 && size2 ? size2 : size, t));
        });
    tmc::Opts o;
    o.serial = true;
    o.races  = false;
    tmc::run(c, o, f);
    // who frees whose
    for ( int t = 0; t < n; ++t )
        for ( char k : prog[t] )
            if ( k == 'X' ) {
                int v = -1;
                for ( int d = 1; d < n && v < 0; ++d ) if ( !own[(t + d) % n].empty() ) v = (t + d) % n;
                if ( v < 0 ) c.discard();
                other[t].push_back(own[v].back());
                own[v].pop_back();
            }
    f.clear();
    for ( int t = 0; t < n; ++t )
        f.push_back([&, t] {
            auto& mine = own[t];
            size_t x = 0;
            for ( char k : prog[t] ) {
                if ( k == 'a' ) mine.push_back(get(w, size2, t));
                else if ( k == 'A' ) mine.push_back(get(w, size, t));
                else if ( k == 'X' ) put(w, other[t][x++], t);
                else if ( !mine.empty() ) { uint64_t* p = mine.front(); mine.erase(mine.begin()); put(w, p, t); }
            }
        });
    o.serial      = false;
    o.races       = true;
    o.preemptions = preempt;
    tmc::run(c, o, f);
    std::string s;
    for ( int t = 0; t < n; ++t ) s += fmt("%d %s %zu|", pre[t], prog[t].c_str(), own[t].size());
    // all threads take three more, hence what is left on any list is handed out
    f.clear();
    for ( int t = 0; t < n; ++t )
        f.push_back([&, t] {
            if ( t == 0 ) account(w, w.nlive, w.nlive * (size2 ? std::min(size, size2) : size));
            for ( int i = 0; i < (size2 ? 4 : 3); ++i ) own[t].push_back(get(w, i % 2 && size2 ? size2 : size, t));
            if ( t < n - 1 ) return;
            for ( int k = 0; k < n; ++k ) for ( auto* p : own[k] ) put(w, p, t);
            account(w, 0, 0);
        });
    o.serial = true;
    o.races  = false;
    tmc::run(c, o, f);
    c.note("%zu %s arenas %zu", size, s.c_str(), region_used >> 20);
    c.state(mc::hash(fmt("%zu %s %zu", size, s.c_str(), region_used)));
    c.nontrivial();
}
static std::vector<std::string> words(int n, const char* al)
{
    std::vector<std::string> w { "" };
    for ( int i = 0; i < n; ++i ) { std::vector<std::string> x; for ( auto& s : w ) for ( const char* a = al; *a; ++a ) x.push_back(s + *a); w = x; }
    return w;
}
static size_t SZ(Ctx& c) { return c.pick({ (size_t)1500000, (size_t)800000, (size_t)600000 }); } // 1, 2, 3 elements per arena
static void two(Ctx& c)
{
    size_t size = SZ(c);
    int    p0 = c.choose(3), p1 = 1 + c.choose(2);
    int    n = 2 + c.choose(2), m = c.thorough() ? 3 : 2;
    std::string a = c.pick(words(n, "AFX")), b = c.pick(words(m, "AFX"));
    threads(c, size, { p0, p1 }, { a, b }, c.thorough() ? 4 : 3, false);
}
static void three(Ctx& c)
{
    size_t size = SZ(c);
    int    p = 1 + c.choose(2);
    std::string a = c.pick(words(2, "AX")), b = c.pick(words(c.thorough() ? 2 : 1, "AX")), d = c.pick(words(c.thorough() ? 2 : 1, "AX"));
    threads(c, size, { 1, p, 3 }, { a, b, d }, c.thorough() ? 3 : 2, false);
}

static void mixed(Ctx& c)
{
    size_t s1 = SZ(c), s2 = SZ(c);
    if ( s1 == s2 ) c.discard();
    int p0 = c.choose(3), p1 = 2 + c.choose(3);
    std::string a = c.pick(words(3, "AaX")), b = c.pick(words(c.thorough() ? 2 : 1, "AaX"));
    threads(c, s1, { p0, p1 }, { a, b }, c.thorough() ? 2 : 1, false, s2);
}

// one thread, all sequences of operations over several sizes
template <int N>
class Thing : public MemPoolItem
{
public:
    uint64_t x[N];
    std::string toString() const override { return fmt("thing %lu", (unsigned long)x[0]); }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    ImplementSerializable(Thing)
};
static void sequences(Ctx& c)
{
    bool  align = c.flip();
    World w(c, align);
    static const size_t S[] = { 8, 24, 56, 64, 120, 1000, 699040, 1048560, 2097136, 3000000 };
    int    len = c.thorough() ? 7 : 6;
    size_t sz[2];
    int    i = c.choose(10), j = c.choose(10);
    if ( j <= i ) c.discard();
    sz[0] = S[i]; sz[1] = S[j];
    std::vector<int> prog;
    int n = 0;
    for ( int k = 0; k < len; ++k ) { int m = c.choose(2 + n); prog.push_back(m); n += m < 2 ? 1 : -1; }
    std::function<void()> f = [&] {
        MemPoolAccessor::initializeLocalData(0);
        std::vector<uint64_t*> held;
        for ( int m : prog ) {
            if ( m < 2 ) held.push_back(get(w, sz[m], 0));
            else { uint64_t* p = held[m - 2]; held.erase(held.begin() + (m - 2)); put(w, p, 0); }
            size_t b = 0;
            for ( int l = 0; l < w.nlive; ++l ) b += w.live[l].size;
            account(w, (int64_t)held.size(), b);
        }
        for ( auto* p : held ) put(w, p, 0);
    };
    tmc::Opts o;
    o.serial = true;
    o.races  = false;
    tmc::run(c, o, { f });
    c.note("seq %zu %zu %d %zu", sz[0], sz[1], n, (size_t)w.nlive);
    std::string t; for ( int m : prog ) t += (char)('0' + m);
    c.state(mc::hash(t + fmt(" %zu %zu", sz[0], sz[1])));
    c.nontrivial();
}
// more elements than one arena holds, and everything that is left at the end is listed
static void many(Ctx& c)
{
    bool align = c.flip();
    World w(c, align);
    int kind = c.choose(3), over = c.choose(5) - 2, freed = c.choose(4);
    std::string text;
    int64_t left = 0;
    char path[] = "/tmp/t04XXXXXX";
    int  fd = mkstemp(path);
    close(fd);
    auto run = [&](auto* dummy) {
        using T = std::remove_pointer_t<decltype(dummy)>;
        MemPoolAccessor::initializeLocalData(0);
        size_t per = MemPoolAccessor::getArenaSize(sizeof(T)) / 1;
        size_t alloc = sizeof(T) + 16;
        if ( align ) alloc = (alloc + 63) / 64 * 64;
        size_t n = std::max<long>((long)(per / alloc) + over, 1);
        if ( n > 9000 ) n = 9000; // (the last bound is for a larger arena)
        std::vector<T*> v;
        for ( size_t i = 0; i < n; ++i ) { v.push_back(new T()); v.back()->x[0] = 1000 + i; }
        std::vector<T*> s = v;
        std::sort(s.begin(), s.end());
        for ( size_t i = 1; i < n; ++i ) if ( (char*)s[i] - (char*)s[i - 1] < (long)sizeof(T) ) tmc::fail("overlap", "elements of %zu bytes are %ld apart", sizeof(T), (long)((char*)s[i] - (char*)s[i - 1]));
        for ( size_t i = 0; i < n; ++i ) if ( v[i]->x[0] != 1000 + i ) tmc::fail("touched", "element %zu was changed", i);
        size_t stop = freed == 0 ? 0 : freed == 1 ? n : freed == 2 ? n / 2 : n - 1;
        for ( size_t i = 0; i < stop; ++i ) delete v[i];
        left = n - stop;
        int64_t b, a;
        MemPoolAccessor::getMemPoolUsage(b, a);
        if ( a != left ) tmc::fail("usage", "%ld entries are reported active, %ld are", (long)a, (long)left);
        SST::Output out;
        std::vector<uint64_t> want;
        for ( size_t i = stop; i < n; ++i ) want.push_back(1000 + i);
        if ( left <= 300 ) {
            out.init("", 0, 0, SST::Output::FILE, path);
            MemPoolAccessor::printUndeletedMemPoolItems("left ", out);
        }
        for ( size_t i = stop; i < n; ++i ) delete v[i];
        MemPoolAccessor::getMemPoolUsage(b, a);
        if ( a != 0 ) tmc::fail("usage", "%ld entries are reported active, none is", (long)a);
        // and again: nothing is handed out twice
        std::set<T*> seen;
        for ( size_t i = 0; i < n; ++i ) if ( !seen.insert(new T()).second ) tmc::fail("overlap", "an element was handed out twice");
        for ( auto* p : seen ) delete p;
    };
    std::function<void()> f = [&] {
        if ( kind == 0 ) run((Thing<30>*)nullptr);
        else if ( kind == 1 ) run((Thing<2000>*)nullptr);
        else run((Thing<100001>*)nullptr);
    };
    tmc::Opts o;
    o.serial = true;
    o.races  = false;
    tmc::run(c, o, { f });
    std::string why;
    if ( left <= 300 ) {
        if ( FILE* g = fopen(path, "r") ) {
            char line[500];
            int64_t k = 0;
            std::set<std::string> lines;
            while ( fgets(line, sizeof line, g) ) { ++k; lines.insert(line); if ( strncmp(line, "left thing ", 11) ) why = fmt("unexpected line %s", line); }
            fclose(g);
            if ( why.empty() && (k != left || (int64_t)lines.size() != left) ) why = fmt("%ld lines (%zu different) list %ld elements", (long)k, lines.size(), (long)left);
        }
        else if ( left ) why = "nothing was written";
    }
    unlink(path);
    if ( !why.empty() ) c.fail("list", "%s", why.c_str());
    c.note("many %d %d %d", kind, over, freed);
    c.nontrivial();
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "two", two, 20 }, { "three", three, 20 }, { "mixed", mixed, 20 }, { "sequences", sequences, 20 }, { "many", many, 20 } });
}
