// D02: unpacking rebuilds graphs of objects: identity, cycles, dynamic types and ownership.
#include "mc.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "sst/core/serialization/serializable.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/warnmacros.h"
using mc::Ctx;
using mc::fmt;
using SST::Core::Serialization::serializer;
using SST::SerOption;

// Packs src and unpacks into dst; both serialize themselves with a function of the same sequence of calls.
template <class R>
static void trip(Ctx& c, R& src, R& dst, bool track, const std::string& what)
{
    serializer s;
    s.enable_pointer_tracking(track);
    s.start_sizing();
    src.serialize_order(s);
    size_t            n = s.size();
    std::vector<char> buf(n);
    try {
        s.start_packing(buf.data(), n);
        src.serialize_order(s);
        c.check(s.size() == n, "pack", "%s: sizing announced %zu bytes, packing wrote %zu", what.c_str(), n, s.size());
        s.start_unpacking(buf.data(), n);
        dst.serialize_order(s);
        c.check(s.size() == n, "unpack", "%s: %zu bytes packed, %zu consumed", what.c_str(), n, s.size());
    }
    catch ( const std::exception& e ) { c.fail("overrun", "%s: %s", what.c_str(), e.what()); }
    s.finalize();
    c.step(3);
    c.validated();
    c.nontrivial();
}
template <class R>
static void compare(Ctx& c, R& src, bool track, const std::string& what)
{
    std::string before = src.canon(track);
    auto*       dst    = new R();
    trip(c, src, *dst, track, what);
    std::string now = src.canon(track), after = dst->canon(track, !track);
    c.check(now == before, "source", "%s: serializing changed the source from %s to %s", what.c_str(), before.c_str(), now.c_str());
    c.check(after == before, "graph", "%s: %s was unpacked as %s", what.c_str(), before.c_str(), after.c_str());
    c.note("%s %s", what.c_str(), before.c_str());
    delete dst; // roots only
}
// Names objects by the order in which they are met.
struct Names
{
    std::map<const void*, int> m;
    bool                       share;
    bool                       copies = false; // every pointer must have its own object
    // true if the object is new and has to be described
    bool first(const void* p, std::string& s)
    {
        if ( !share ) { // every pointer has a copy of its own
            if ( !m.emplace(p, 0).second && copies ) s += "SHARED";
            return true;
        }
        auto r = m.emplace(p, (int)m.size());
        s += fmt("#%d", r.first->second);
        return r.second;
    }
};

// ------------------------------------------------------------------ raw pointers
struct N
{
    int  v = 0;
    N *  a = nullptr, *b = nullptr;
    void serialize_order(serializer& ser) { SST_SER(v); SST_SER(a); SST_SER(b); }
};
static void canon(Names& nm, const N* p, std::string& s)
{
    if ( !p ) { s += "-"; return; }
    if ( !nm.first(p, s) ) return;
    s += fmt("(%d ", p->v);
    canon(nm, p->a, s);
    canon(nm, p->b, s);
    s += ")";
}
class P : public SST::Core::Serialization::serializable
{
public:
    int  v = 0;
    P *  a = nullptr, *b = nullptr;
    void serialize_order(serializer& ser) override { SST_SER(v); SST_SER(a); SST_SER(b); }
    ImplementSerializable(P)
};
class Q : public P
{
public:
    P*   extra = nullptr;
    void serialize_order(serializer& ser) override { SST_SER(extra); P::serialize_order(ser); }
    ImplementSerializable(Q)
};
static void canon(Names& nm, const P* p, std::string& s)
{
    if ( !p ) { s += "-"; return; }
    if ( !nm.first(p, s) ) return;
    s += fmt("(%s%d ", typeid(*p) == typeid(Q) ? "Q" : "P", p->v);
    if ( auto q = dynamic_cast<const Q*>(p) ) canon(nm, q->extra, s);
    canon(nm, p->a, s);
    canon(nm, p->b, s);
    s += ")";
}
template <class T>
struct RawRoots
{
    T *              r0 = nullptr, *r1 = nullptr;
    std::vector<T*>  vec;
    void             serialize_order(serializer& ser) { SST_SER(r0); SST_SER(vec); SST_SER(r1); }
    std::string      canon(bool share, bool copies = false)
    {
        Names       nm { {}, share, copies };
        std::string s;
        ::canon(nm, r0, s);
        s += "[";
        for ( auto p : vec ) ::canon(nm, p, s);
        s += "]";
        ::canon(nm, r1, s);
        return s;
    }
};
template <class T>
static T* pickp(Ctx& c, const std::vector<T*>& nodes, int upto)
{
    int k = c.choose(upto + 1);
    return k ? nodes[k - 1] : nullptr;
}
template <class T>
static void raw(Ctx& c, const std::function<T*(int)>& make, const char* name)
{
    bool             track = !c.flip();
    int              n     = 1 + c.choose(c.thorough() ? 4 : 3);
    std::vector<T*>  node;
    for ( int i = 0; i < n; ++i ) node.push_back(make(i));
    for ( int i = 0; i < n; ++i ) {
        int up     = track ? n : i; // without tracking only acyclic graphs can be packed
        node[i]->v = 10 + i;
        node[i]->a = pickp(c, node, up);
        node[i]->b = pickp(c, node, up);
    }
    RawRoots<T> r;
    r.r0 = node[n - 1];
    r.r1 = n > 3 ? node[0] : pickp(c, node, n);
    if ( n < 3 ) for ( int k = c.choose(3); k > 0; --k ) r.vec.push_back(pickp(c, node, n));
    else r.vec = { node[0], nullptr, node[n - 1] };
    compare(c, r, track, fmt("%s%s", name, track ? "" : " (no tracking)"));
    for ( auto p : node ) delete p;
}
static void plain(Ctx& c) { raw<N>(c, [](int) { return new N(); }, "plain"); }
static void poly(Ctx& c)
{
    int mask = c.choose(4), ex = c.choose(2);
    raw<P>(c, [=](int i) { P* p = (mask >> (i & 1)) & 1 ? new Q() : new P(); if ( auto q = dynamic_cast<Q*>(p) ) q->extra = ex && i ? nullptr : nullptr; return p; }, "polymorphic");
}

// ------------------------------------------------------------------ pointers to containers
// Objects refer to containers, containers to objects.
template <template <class> class C>
struct M
{
    int         v = 0;
    C<M>*       kids = nullptr;
    void        serialize_order(serializer& ser) { SST_SER(v); SST_SER(kids); }
};
template <class X> using CVec = std::vector<X*>;
template <class X> using CList = std::list<X*>;
template <class X> using CDeq = std::deque<X*>;
template <class X> using CFwd = std::forward_list<X*>;
template <class X> using CMap = std::map<int, X*>;
template <class X> using CUmap = std::unordered_map<int, X*>;
template <class X> using CPair = std::pair<X*, X*>;
template <class X> using CTup = std::tuple<X*, X*>;
template <class X> using CArr = std::array<X*, 2>;
template <class X> using CStk = std::stack<X*>;
template <class T> struct Open : T { using T::c; };
template <class X> std::vector<X*> list(CVec<X>& k) { return k; }
template <class X> std::vector<X*> list(CList<X>& k) { return { k.begin(), k.end() }; }
template <class X> std::vector<X*> list(CDeq<X>& k) { return { k.begin(), k.end() }; }
template <class X> std::vector<X*> list(CFwd<X>& k) { return { k.begin(), k.end() }; }
template <class X> std::vector<X*> list(CMap<X>& k) { std::vector<X*> r; for ( auto& e : k ) r.push_back(e.second); return r; }
template <class X> std::vector<X*> list(CUmap<X>& k) { std::vector<X*> r; for ( int i = 0; i < 2; ++i ) if ( k.count(i) ) r.push_back(k[i]); return r; }
template <class X> std::vector<X*> list(CPair<X>& k) { return { k.first, k.second }; }
template <class X> std::vector<X*> list(CTup<X>& k) { return { std::get<0>(k), std::get<1>(k) }; }
template <class X> std::vector<X*> list(CArr<X>& k) { return { k[0], k[1] }; }
template <class X> std::vector<X*> list(CStk<X>& k) { auto& o = static_cast<Open<CStk<X>>&>(k).c; return { o.begin(), o.end() }; }
template <class X> void fill(CVec<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CList<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CDeq<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CFwd<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CMap<X>& k, X* a, X* b) { k = { { 0, a }, { 1, b } }; }
template <class X> void fill(CUmap<X>& k, X* a, X* b) { k = { { 0, a }, { 1, b } }; }
template <class X> void fill(CPair<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CTup<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CArr<X>& k, X* a, X* b) { k = { a, b }; }
template <class X> void fill(CStk<X>& k, X* a, X* b) { k.push(a); k.push(b); }
template <template <class> class C>
static void canonM(Names& nm, M<C>* p, std::string& s);
template <template <class> class C>
static void canonK(Names& nm, C<M<C>>* k, std::string& s)
{
    if ( !k ) { s += "-"; return; }
    if ( !nm.first(k, s) ) return;
    s += "{";
    for ( auto p : list<M<C>>(*k) ) canonM<C>(nm, p, s);
    s += "}";
}
template <template <class> class C>
static void canonM(Names& nm, M<C>* p, std::string& s)
{
    if ( !p ) { s += "-"; return; }
    if ( !nm.first(p, s) ) return;
    s += fmt("(%d ", p->v);
    canonK<C>(nm, p->kids, s);
    s += ")";
}
template <template <class> class C>
struct ContRoots
{
    M<C>*       o = nullptr;
    C<M<C>>*    k = nullptr;
    M<C>*       o2 = nullptr;
    void        serialize_order(serializer& ser) { SST_SER(o); SST_SER(k); SST_SER(o2); }
    std::string canon(bool share, bool copies = false)
    {
        Names       nm { {}, share, copies };
        std::string s;
        canonM<C>(nm, o, s);
        canonK<C>(nm, k, s);
        canonM<C>(nm, o2, s);
        return s;
    }
};
template <template <class> class C>
static void container(Ctx& c, const char* name)
{
    bool                  track = !c.flip();
    std::vector<M<C>*>    o { new M<C>(), new M<C>() };
    std::vector<C<M<C>>*> k { new C<M<C>>(), new C<M<C>>() };
    // acyclic when untracked: container 0 empty-ish, object 0 -> container 0, container 1 -> objects, object 1 -> container 1
    for ( int i = 0; i < 2; ++i ) {
        o[i]->v = 5 + i;
        fill<M<C>>(*k[i], pickp(c, o, track ? 2 : i), pickp(c, o, track ? 2 : i));
        o[i]->kids = pickp(c, k, track ? 2 : i + 1);
    }
    ContRoots<C> r;
    r.o = pickp(c, o, 2);
    r.k = pickp(c, k, 2);
    r.o2 = o[1];
    compare(c, r, track, fmt("pointers to %s%s", name, track ? "" : " (no tracking)"));
    for ( auto p : o ) delete p;
    for ( auto p : k ) delete p;
}
static void containers(Ctx& c)
{
    switch ( c.choose(10) ) {
    case 0: return container<CVec>(c, "vectors");
    case 1: return container<CList>(c, "lists");
    case 2: return container<CDeq>(c, "deques");
    case 3: return container<CFwd>(c, "forward lists");
    case 4: return container<CMap>(c, "maps");
    case 5: return container<CUmap>(c, "unordered maps");
    case 6: return container<CPair>(c, "pairs");
    case 7: return container<CTup>(c, "tuples");
    case 8: return container<CArr>(c, "arrays");
    default: return container<CStk>(c, "stacks");
    }
}

// ------------------------------------------------------------------ shared and weak pointers
struct S
{
    int                v = 0;
    std::shared_ptr<S> s;
    std::weak_ptr<S>   w;
    void               serialize_order(serializer& ser) { SST_SER(v); SST_SER(s); SST_SER(w); }
};
struct SharedRoots
{
    std::weak_ptr<S>                w0;
    std::shared_ptr<S>              s0, s1;
    std::weak_ptr<S>                w1;
    std::shared_ptr<int>            alias; // points into the object s0 owns
    std::vector<std::shared_ptr<S>> vec;
    bool                            has_alias = false;
    void                            serialize_order(serializer& ser)
    {
        SST_SER(has_alias);
        SST_SER(w0);
        SST_SER(s0);
        SST_SER(s1);
        if ( has_alias ) SST_SER(SST::Core::Serialization::shared_ptr(alias, s0));
        SST_SER(w1);
        SST_SER(vec);
    }
    void sp(Names& nm, const std::shared_ptr<S>& p, std::string& s, long more)
    {
        if ( !p ) { s += p.use_count() ? "?" : "-"; return; }
        if ( !nm.first(p.get(), s) ) return;
        s += fmt("(%d x%ld ", p->v, p.use_count() - more);
        sp(nm, p->s, s, 0);
        wp(nm, p->w, s);
        s += ")";
    }
    void wp(Names& nm, const std::weak_ptr<S>& w, std::string& s)
    {
        s += "w";
        auto p = w.lock();
        sp(nm, p, s, 1);
    }
    std::string canon(bool, bool = false)
    {
        Names       nm { {}, true };
        std::string s;
        wp(nm, w0, s);
        sp(nm, s0, s, 0);
        sp(nm, s1, s, 0);
        s += alias ? fmt(" alias %d of %ld", *alias, (long)((char*)alias.get() - (char*)s0.get())) : std::string(" no alias");
        if ( alias && s0 ) s += alias.owner_before(s0) || s0.owner_before(alias) ? " OTHER OWNER" : "";
        wp(nm, w1, s);
        for ( auto& p : vec ) sp(nm, p, s, 0);
        return s;
    }
};
static void shared(Ctx& c)
{
    bool                            track = !c.flip();
    int                             n     = 1 + c.choose(3);
    std::vector<std::shared_ptr<S>> node(n);
    for ( auto& p : node ) p = std::make_shared<S>();
    auto any = [&]() { int k = c.choose(n + 1); return k ? node[k - 1] : std::shared_ptr<S>(); };
    for ( int i = 0; i < n; ++i ) {
        node[i]->v = 20 + i;
        node[i]->s = any();
        node[i]->w = n == 3 && i < 2 && !c.thorough() ? std::shared_ptr<S>() : any();
    }
    SharedRoots r;
    r.s0 = any();
    r.w0 = n == 3 ? node[1] : any();
    r.s1 = n == 3 ? node[0] : any();
    r.w1 = n == 3 ? node[2] : any();
    if ( r.s0 && (r.has_alias = c.flip()) ) r.alias = std::shared_ptr<int>(r.s0, &r.s0->v);
    if ( c.flip() ) r.vec = { r.s0, r.s1, nullptr };
    auto w = node;
    node.clear(); // objects only weak pointers refer to die here
    std::vector<std::weak_ptr<S>> ww(w.begin(), w.end());
    w.clear();
    compare(c, r, track, fmt("shared%s", track ? "" : " (no tracking)"));
    for ( auto& p : ww ) if ( auto q = p.lock() ) { q->s.reset(); } // break cycles
}

// ------------------------------------------------------------------ owners and back pointers
struct U
{
    int                v = 0;
    std::unique_ptr<U> l, r;
    U*                 back = nullptr;
    void               serialize_order(serializer& ser) { SST_SER(v); SST_SER(l); SST_SER(back); SST_SER(r); }
};
struct UniqueRoots
{
    std::unique_ptr<U> root;
    U *                p0 = nullptr, *p1 = nullptr;
    bool               early = false; // a raw pointer comes before the owner
    void               serialize_order(serializer& ser) { SST_SER(early); if ( early ) SST_SER(p0); SST_SER(root); if ( !early ) SST_SER(p0); SST_SER(p1); }
    void               u(Names& nm, U* p, std::string& s)
    {
        if ( !p ) { s += "-"; return; }
        if ( !nm.first(p, s) ) return;
        s += fmt("(%d ", p->v);
        u(nm, p->l.get(), s);
        u(nm, p->r.get(), s);
        u(nm, p->back, s);
        s += ")";
    }
    std::string canon(bool share, bool copies = false)
    {
        Names       nm { {}, share, copies };
        std::string s;
        u(nm, root.get(), s);
        u(nm, p0, s);
        u(nm, p1, s);
        return s;
    }
};
static void unique(Ctx& c)
{
    bool            track = !c.flip();
    UniqueRoots     r;
    std::vector<U*> node;
    int             shape = c.choose(5); // 1 node, left chain 2, left chain 3, two children, right chain 3
    r.root.reset(new U());
    node.push_back(r.root.get());
    auto grow = [&](std::unique_ptr<U>& at) { at.reset(new U()); node.push_back(at.get()); };
    if ( shape == 1 || shape == 2 ) grow(node[0]->l);
    if ( shape == 2 ) grow(node[1]->l);
    if ( shape == 3 ) { grow(node[0]->l); grow(node[0]->r); }
    if ( shape == 4 ) { grow(node[0]->r); grow(node[1]->r); }
    int n = (int)node.size();
    for ( int i = 0; i < n; ++i ) {
        node[i]->v = 30 + i;
        if ( track ) node[i]->back = pickp(c, node, n);
    }
    if ( track ) {
        r.p0    = pickp(c, node, n);
        r.p1    = pickp(c, node, n);
        r.early = c.flip();
    }
    // A pointer met before the object's owner makes the object the unpacked pointer's; owners met afterwards take it over.
    std::string before = r.canon(track);
    auto*       dst    = new UniqueRoots();
    trip(c, r, *dst, track, "owners");
    std::string after = dst->canon(track, !track);
    c.check(after == before, "graph", "owners%s: %s was unpacked as %s", track ? "" : " (no tracking)", before.c_str(), after.c_str());
    c.note("%d %s", r.early, before.c_str());
    delete dst;
}

// ------------------------------------------------------------------ objects held by value, tracked by address
struct E
{
    int  v = 0;
    E*   q = nullptr;
    void serialize_order(serializer& ser) { SST_SER(v); SST_SER(q); }
    bool operator<(const E& o) const { return v < o.v; }
};
template <class C> std::vector<E*> elems(C& c) { std::vector<E*> r; for ( auto& e : c ) r.push_back(&e); return r; }
template <class K> std::vector<E*> elems(std::map<K, E>& c) { std::vector<E*> r; for ( auto& e : c ) r.push_back(&e.second); return r; }
template <class K> std::vector<E*> elems(std::multimap<K, E>& c) { std::vector<E*> r; for ( auto& e : c ) r.push_back(&e.second); return r; }
template <class K> std::vector<E*> elems(std::unordered_map<K, E>& c) { std::vector<E*> r; for ( int i = 0; i < 2; ++i ) if ( c.count(i) ) r.push_back(&c.at(i)); return r; }
std::vector<E*> elems(std::pair<E, E>& c) { return { &c.first, &c.second }; }
std::vector<E*> elems(std::tuple<E, E>& c) { return { &std::get<0>(c), &std::get<1>(c) }; }
std::vector<E*> elems(std::optional<E>& c) { return c ? std::vector<E*> { &*c } : std::vector<E*>(); }
std::vector<E*> elems(std::shared_ptr<E>& c) { return { c.get() }; }
std::vector<E*> elems(std::unique_ptr<E>& c) { return { c.get() }; }
struct Dyn
{
    E*     p = nullptr;
    size_t n = 0;
};
std::vector<E*> elems(Dyn& d) { std::vector<E*> r; for ( size_t i = 0; i < d.n; ++i ) r.push_back(d.p + i); return r; }
struct UDyn
{
    std::unique_ptr<E[]> p;
    size_t               n = 0;
};
std::vector<E*> elems(UDyn& d) { std::vector<E*> r; for ( size_t i = 0; i < d.n; ++i ) r.push_back(&d.p[i]); return r; }
struct SDyn
{
    std::shared_ptr<E[]> p;
    size_t               n = 0;
};
std::vector<E*> elems(SDyn& d) { std::vector<E*> r; for ( size_t i = 0; i < d.n; ++i ) r.push_back(&d.p[i]); return r; }
template <class C> void make(C& c) { c.emplace_back(); c.emplace_back(); }
void make(std::forward_list<E>& c) { c.emplace_front(); c.emplace_front(); }
void make(std::map<int, E>& c) { c[0]; c[1]; }
void make(std::multimap<int, E>& c) { c.emplace(3, E()); c.emplace(3, E()); }
void make(std::unordered_map<int, E>& c) { c[0]; c[1]; }
void make(std::array<E, 2>&) {}
void make(std::pair<E, E>&) {}
void make(std::tuple<E, E>&) {}
void make(std::optional<E>& c) { c.emplace(); }
void make(std::shared_ptr<E>& c) { c = std::make_shared<E>(); }
void make(std::unique_ptr<E>& c) { c.reset(new E()); }
void make(Dyn& d) { d.p = new E[2]; d.n = 2; }
void make(UDyn& d) { d.p.reset(new E[2]); d.n = 2; }
void make(SDyn& d) { d.p.reset(new E[2]); d.n = 2; }
struct CArray { E e[2]; };
std::vector<E*> elems(CArray& c) { return { &c.e[0], &c.e[1] }; }
void make(CArray&) {}
struct One { E e; };
std::vector<E*> elems(One& c) { return { &c.e }; }
void make(One&) {}
template <class C> void serC(serializer& ser, C& c) { SST_SER(c, SerOption::as_ptr_elem); }
void serC(serializer& ser, std::optional<E>& c) { SST_SER(c, SerOption::as_ptr); }
void serC(serializer& ser, One& c) { SST_SER(c.e, SerOption::as_ptr); }
void serC(serializer& ser, CArray& c) { SST_SER(c.e, SerOption::as_ptr_elem); }
void serC(serializer& ser, Dyn& d) { SST_SER(SST::Core::Serialization::array(d.p, d.n), SerOption::as_ptr_elem); }
void serC(serializer& ser, UDyn& d) { SST_SER(SST::Core::Serialization::unique_ptr(d.p, d.n), SerOption::as_ptr_elem); }
void serC(serializer& ser, SDyn& d) { SST_SER(SST::Core::Serialization::shared_ptr(d.p, d.n), SerOption::as_ptr_elem); }
template <class C>
struct HeldRoots
{
    C           held;
    E *         p0 = nullptr, *p1 = nullptr;
    int         tail = 0;
    void        serialize_order(serializer& ser) { serC(ser, held); SST_SER(p0); SST_SER(p1); SST_SER(tail); }
    std::string canon(bool share, bool copies = false)
    {
        Names       nm { {}, share, copies };
        std::string s;
        auto e = [&](auto self, E* p) -> void {
            if ( !p ) { s += "-"; return; }
            if ( !nm.first(p, s) ) return;
            s += fmt("(%d ", p->v);
            self(self, p->q);
            s += ")";
        };
        for ( auto p : elems(held) ) e(e, p);
        s += " ";
        e(e, p0);
        e(e, p1);
        return s + fmt(" %d", tail);
    }
};
template <class C>
static void held_in(Ctx& c, const char* name, bool optional = false)
{
    HeldRoots<C> r;
    make(r.held);
    auto es = elems(r.held);
    int  n  = (int)es.size();
    // an object has to be serialized before the pointers that refer to it; unordered maps may store in any order
    bool self = std::is_same_v<C, std::unordered_map<int, E>>;
    for ( int i = 0; i < n; ++i ) {
        es[i]->v = 40 + i;
        if ( self ) es[i]->q = c.flip() ? es[i] : nullptr;
        else es[i]->q = pickp(c, es, i + 1);
    }
    r.p0   = pickp(c, es, n);
    r.p1   = pickp(c, es, n);
    r.tail = 77;
    compare(c, r, true, fmt("held by value in %s", name));
}
static void held(Ctx& c)
{
    switch ( c.choose(18) ) {
    case 0: return held_in<std::vector<E>>(c, "a vector");
    case 1: return held_in<std::deque<E>>(c, "a deque");
    case 2: return held_in<std::list<E>>(c, "a list");
    case 3: return held_in<std::forward_list<E>>(c, "a forward list");
    case 4: return held_in<std::map<int, E>>(c, "a map");
    case 5: return held_in<std::multimap<int, E>>(c, "a multimap");
    case 6: return held_in<std::unordered_map<int, E>>(c, "an unordered map");
    case 7: return held_in<std::array<E, 2>>(c, "an array");
    case 8: return held_in<CArray>(c, "a C array");
    case 9: return held_in<std::pair<E, E>>(c, "a pair");
    case 10: return held_in<std::tuple<E, E>>(c, "a tuple");
    case 11: return held_in<One>(c, "a member");
    case 12: return held_in<Dyn>(c, "a dynamic array");
    case 13: return held_in<std::unique_ptr<E>>(c, "a unique pointer");
    case 14: return held_in<UDyn>(c, "a unique pointer to an array");
    case 15: return held_in<std::shared_ptr<E>>(c, "a shared pointer");
    case 16: return held_in<SDyn>(c, "a shared pointer to an array");
    default: return held_in<std::optional<E>>(c, "an optional");
    }
}
// Options that have no meaning for a type must not spoil the stream.
template <class T>
static void option_of(Ctx& c, const T& v, const char* name)
{
    struct R
    {
        T    t;
        int  tail = 0;
        int  opt  = 0;
        void serialize_order(serializer& ser)
        {
            if ( opt == 0 ) SST_SER(t);
            if ( opt == 1 ) SST_SER(t, SerOption::as_ptr);
            if ( opt == 2 ) SST_SER(t, SerOption::as_ptr_elem);
            if ( opt == 3 ) SST_SER(t, SerOption::as_ptr | SerOption::as_ptr_elem);
            SST_SER(tail);
        }
    } a { v, 99 }, b { T(), 0 };
    bool track = c.flip();
    a.opt = b.opt = c.choose(4);
    trip(c, a, b, track, fmt("%s with option %d%s", name, a.opt, track ? " (tracking)" : ""));
    c.check(a.t == b.t && b.tail == 99, "option", "%s with option %d%s: the unpacked value differs", name, a.opt, track ? " (tracking)" : "");
    c.note("%s %d %d", name, a.opt, track);
}
static void options(Ctx& c)
{
    using Str = std::string;
    switch ( c.choose(18) ) {
    case 0: return option_of<int>(c, 5, "int");
    case 1: return option_of<Str>(c, "abc", "string");
    case 2: return option_of<std::vector<int>>(c, { 1, 2 }, "vector<int>");
    case 3: return option_of<std::vector<Str>>(c, { "x", "yy" }, "vector<string>");
    case 4: return option_of<std::set<int>>(c, { 1, 2 }, "set<int>");
    case 5: return option_of<std::multiset<Str>>(c, { "x", "x" }, "multiset<string>");
    case 6: return option_of<std::unordered_set<Str>>(c, { "x", "yy" }, "unordered_set<string>");
    case 7: return option_of<std::map<Str, int>>(c, { { "x", 1 }, { "y", 2 } }, "map<string, int>");
    case 8: return option_of<std::unordered_map<Str, Str>>(c, { { "x", "p" } }, "unordered_map<string, string>");
    case 9: return option_of<std::pair<int, Str>>(c, { 3, "q" }, "pair");
    case 10: return option_of<std::tuple<int, Str, int>>(c, { 3, "q", 4 }, "tuple");
    case 11: return option_of<std::array<Str, 2>>(c, { "q", "r" }, "array");
    case 12: return option_of<std::optional<Str>>(c, Str("o"), "optional");
    case 13: return option_of<std::variant<int, Str>>(c, Str("v"), "variant");
    case 14: return option_of<std::vector<bool>>(c, { true, false, true }, "vector<bool>");
    case 15: return option_of<std::list<std::vector<Str>>>(c, { { "a" }, {}, { "b", "c" } }, "list<vector<string>>");
    case 16: return option_of<std::stack<Str>>(c, [] { std::stack<Str> s; s.push("a"); s.push("b"); return s; }(), "stack<string>");
    default: return option_of<std::multimap<int, Str>>(c, { { 1, "a" }, { 1, "b" } }, "multimap<int, string>");
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {
        { "plain", plain },
        { "polymorphic", poly },
        { "containers", containers },
        { "shared", shared },
        { "unique", unique },
        { "held", held },
        { "options", options },
    });
}
