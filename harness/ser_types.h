// Values of every serializable type: domains, equality and a type-erased round trip.  Used by h_d01*.cc.
#ifndef VERIF_SER_TYPES_H
#define VERIF_SER_TYPES_H
#include <array>
#include <atomic>
#include <bitset>
#include <complex>
#include <cstring>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
#include <vector>
#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializable.h"
#include "sst/core/warnmacros.h"

namespace dom {
// D<T>::n(small): number of values; D<T>::set(t, i): makes the default constructed t the i-th value; D<T>::eq.
template <class T, class = void> struct D;

template <class T>
std::vector<T> arith()
{
    using L = std::numeric_limits<T>;
    if constexpr ( std::is_same_v<T, bool> ) return { false, true };
    else if constexpr ( std::is_floating_point_v<T> )
        return { T(0), T(1.5), T(-2.25), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), -T(0), L::epsilon(), L::quiet_NaN() };
    else
        return { T(0), T(1), L::max(), L::min(), T(-1), T(0x5a), T(L::max() / 3), T(L::min() + 1) };
}
template <class T>
struct D<T, std::enable_if_t<std::is_arithmetic_v<T>>>
{
    static int  n(bool small) { return std::min<int>(small ? 3 : 99, (int)arith<T>().size()); }
    static void set(T& t, int i) { t = arith<T>()[i]; }
    static bool eq(const T& a, const T& b)
    {
        if constexpr ( std::is_floating_point_v<T> ) return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b));
        else return a == b;
    }
};
template <>
struct D<std::string>
{
    static const std::vector<std::string>& v()
    {
        static const std::vector<std::string> s { "", "a", std::string("x\0y", 3), std::string(300, 'q'), "\n \xc3\xa4", std::string(15, 'k'), std::string(16, 'k'), std::string(1, '\0') };
        return s;
    }
    static int  n(bool small) { return small ? 3 : (int)v().size(); }
    static void set(std::string& t, int i) { t = v()[i]; }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
};
enum Plain { plain0, plain1 = 7, plain2 = -3 };
enum class Scoped : uint8_t { a = 0, b = 200, c = 255 };
template <class T>
struct D<T, std::enable_if_t<std::is_enum_v<T>>>
{
    static int  n(bool) { return 3; }
    static void set(T& t, int i)
    {
        if constexpr ( std::is_same_v<T, Plain> ) t = (const Plain[]) { plain0, plain1, plain2 }[i];
        else t = (const Scoped[]) { Scoped::a, Scoped::b, Scoped::c }[i];
    }
    static bool eq(const T& a, const T& b) { return a == b; }
};
template <class F>
struct D<std::complex<F>>
{
    static int  n(bool) { return 3; }
    static void set(std::complex<F>& t, int i) { t = i == 0 ? std::complex<F>() : i == 1 ? std::complex<F>(1.5, -2) : std::complex<F>(0, std::numeric_limits<F>::max()); }
    static bool eq(const std::complex<F>& a, const std::complex<F>& b) { return a == b; }
};
template <size_t N>
struct D<std::bitset<N>>
{
    static int  n(bool small) { return small ? 3 : 4; }
    static void set(std::bitset<N>& t, int i)
    {
        t.reset();
        if ( i == 1 ) t.set();
        if ( i == 2 ) t.set(N - 1);
        if ( i == 3 ) t.set(0);
    }
    static bool eq(const std::bitset<N>& a, const std::bitset<N>& b) { return a == b; }
};
// trivially serializable aggregate with padding
struct Triv { char c; uint64_t u; int16_t s; };
template <> struct D<Triv>
{
    static int  n(bool) { return 3; }
    static void set(Triv& t, int i) { t = i == 0 ? Triv {} : i == 1 ? Triv { 'x', 5, -1 } : Triv { '\0', ~0ull, 77 }; }
    static bool eq(const Triv& a, const Triv& b) { return a.c == b.c && a.u == b.u && a.s == b.s; }
};
struct Off { int a; int b; short c; };
template <class M> struct D<M Off::*>
{
    static int  n(bool) { return 3; }
    static void set(M Off::*& t, int i) { t = i == 0 ? nullptr : i == 1 ? &Off::a : &Off::b; }
    static bool eq(M Off::*a, M Off::*b) { return a == b; }
};

// ---- sequences: lengths and contents
inline const std::vector<std::vector<int>>& shapes(bool small)
{
    static const std::vector<std::vector<int>> s { {}, { 1 }, { 1, 0 }, { 0 }, { 2, 0, 1 }, { 1, 1 }, { 0, 1, 2, 0, 1 } };
    static const std::vector<std::vector<int>> t { {}, { 1 }, { 1, 0 } };
    return small ? t : s;
}
template <class E> int clip(int i) { return i % D<E>::n(true); }

template <class T, class E>
struct Seq
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(T& t, int i)
    {
        t.clear();
        for ( int k : shapes(false)[i] ) {
            if constexpr ( std::is_same_v<T, std::vector<bool>> ) t.push_back(clip<E>(k));
            else D<E>::set(t.emplace_back(), clip<E>(k));
        }
    }
    static bool eq(const T& a, const T& b)
    {
        auto x = a.begin(), y = b.begin();
        for ( ; x != a.end() && y != b.end(); ++x, ++y )
            if ( !D<E>::eq(*x, *y) ) return false;
        return x == a.end() && y == b.end();
    }
};
template <class E> struct D<std::vector<E>> : Seq<std::vector<E>, E> {};
template <class E> struct D<std::deque<E>> : Seq<std::deque<E>, E> {};
template <class E> struct D<std::list<E>> : Seq<std::list<E>, E> {};
template <class E>
struct D<std::forward_list<E>> : Seq<std::forward_list<E>, E>
{
    static void set(std::forward_list<E>& t, int i)
    {
        t.clear();
        auto p = t.before_begin();
        for ( int k : shapes(false)[i] ) { p = t.emplace_after(p); D<E>::set(*p, clip<E>(k)); }
    }
};
// ---- ordered and hashed keys (key equality is the container's)
template <class T, class K, bool ordered>
struct Set
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(T& t, int i)
    {
        t.clear();
        for ( int k : shapes(false)[i] ) {
            K key {};
            D<K>::set(key, clip<K>(k));
            t.insert(std::move(key));
        }
    }
    static bool eq(const T& a, const T& b)
    {
        if constexpr ( ordered ) return Seq<T, K>::eq(a, b);
        if ( a.size() != b.size() ) return false;
        for ( auto& k : a )
            if ( a.count(k) != b.count(k) ) return false;
        return true;
    }
};
template <class K> struct D<std::set<K>> : Set<std::set<K>, K, true> {};
template <class K> struct D<std::multiset<K>> : Set<std::multiset<K>, K, true> {};
template <class K> struct D<std::unordered_set<K>> : Set<std::unordered_set<K>, K, false> {};
template <class K> struct D<std::unordered_multiset<K>> : Set<std::unordered_multiset<K>, K, false> {};
template <class T, class K, class V, bool ordered>
struct Map
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(T& t, int i)
    {
        t.clear();
        int j = 0;
        for ( int k : shapes(false)[i] ) {
            K key {};
            D<K>::set(key, clip<K>(k));
            t.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple());
            // value: differs between elements of one key
            auto r = t.equal_range(key);
            int  c = 0;
            for ( auto it = r.first; it != r.second; ++it ) ++c;
            (void)c;
            ++j;
        }
        j = (int)shapes(false)[i].size();
        for ( auto& e : t ) D<V>::set(e.second, clip<V>(j++));
    }
    static bool eq(const T& a, const T& b)
    {
        if ( a.size() != b.size() ) return false;
        if constexpr ( ordered ) {
            auto y = b.begin();
            for ( auto x = a.begin(); x != a.end(); ++x, ++y )
                if ( !D<K>::eq(x->first, y->first) || !D<V>::eq(x->second, y->second) ) return false;
            return true;
        }
        for ( auto& e : a ) {
            auto ra = a.equal_range(e.first);
            auto rb = b.equal_range(e.first);
            if ( std::distance(ra.first, ra.second) != std::distance(rb.first, rb.second) ) return false;
            auto cnt = [&](auto r) { int c = 0; for ( auto it = r.first; it != r.second; ++it ) c += D<V>::eq(it->second, e.second); return c; };
            if ( cnt(ra) != cnt(rb) ) return false;
        }
        return true;
    }
};
template <class K, class V> struct D<std::map<K, V>> : Map<std::map<K, V>, K, V, true> {};
template <class K, class V> struct D<std::multimap<K, V>> : Map<std::multimap<K, V>, K, V, true> {};
template <class K, class V> struct D<std::unordered_map<K, V>> : Map<std::unordered_map<K, V>, K, V, false> {};
template <class K, class V> struct D<std::unordered_multimap<K, V>> : Map<std::unordered_multimap<K, V>, K, V, false> {};
// ---- adapters
template <class T>
struct Open : T { using T::c; };
template <class T, class E>
struct Adapter
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(T& t, int i)
    {
        t = T();
        for ( int k : shapes(false)[i] ) {
            E e {};
            D<E>::set(e, clip<E>(k));
            t.push(std::move(e));
        }
    }
    static bool eq(const T& a, const T& b) { return D<typename T::container_type>::eq(static_cast<const Open<T>&>(a).c, static_cast<const Open<T>&>(b).c); }
};
template <class E> struct D<std::stack<E>> : Adapter<std::stack<E>, E> {};
template <class E> struct D<std::queue<E>> : Adapter<std::queue<E>, E> {};
template <class E> struct D<std::priority_queue<E>> : Adapter<std::priority_queue<E>, E> {};
// ---- products: all combinations of small values
template <class T, class... E>
struct Product
{
    static int  n(bool small) { return small ? 3 : (1 * ... * D<E>::n(true)); }
    template <size_t... I>
    static void set_(T& t, int i, std::index_sequence<I...>)
    {
        int k = i; // in base n(E): when only three are used, take mixed ones
        ((D<E>::set(std::get<I>(t), k % D<E>::n(true)), k = k / D<E>::n(true) + (k % D<E>::n(true) == 1)), ...);
    }
    static void set(T& t, int i) { set_(t, i, std::index_sequence_for<E...>()); }
    template <size_t... I>
    static bool eq_(const T& a, const T& b, std::index_sequence<I...>) { return (D<E>::eq(std::get<I>(a), std::get<I>(b)) && ...); }
    static bool eq(const T& a, const T& b) { return eq_(a, b, std::index_sequence_for<E...>()); }
};
template <class A, class B> struct D<std::pair<A, B>> : Product<std::pair<A, B>, A, B> {};
template <class... E> struct D<std::tuple<E...>> : Product<std::tuple<E...>, E...> {};
template <class E, size_t N>
struct D<std::array<E, N>>
{
    static int  n(bool small) { return small ? 3 : 4; }
    static void set(std::array<E, N>& t, int i) { for ( size_t k = 0; k < N; ++k ) D<E>::set(t[k], clip<E>(i == 3 ? (int)k : (int)(i + k))); }
    static bool eq(const std::array<E, N>& a, const std::array<E, N>& b) { for ( size_t k = 0; k < N; ++k ) if ( !D<E>::eq(a[k], b[k]) ) return false; return true; }
};
// non-trivial aggregate
template <class E> struct Agg { E a; std::string b; int8_t c; };
template <class E> struct D<Agg<E>>
{
    static int  n(bool) { return 3; }
    static void set(Agg<E>& t, int i) { D<E>::set(t.a, clip<E>(i)); D<std::string>::set(t.b, (i + 1) % 3); t.c = (int8_t)(3 - i * 70); }
    static bool eq(const Agg<E>& x, const Agg<E>& y) { return D<E>::eq(x.a, y.a) && x.b == y.b && x.c == y.c; }
};
// class with serialize_order
template <class E> struct Cls
{
    uint8_t pre = 9;
    E       a {};
    int     post = 4;
    void    serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(pre); SST_SER(a); SST_SER(post); }
};
template <class E> struct D<Cls<E>>
{
    static int  n(bool) { return 3; }
    static void set(Cls<E>& t, int i) { D<E>::set(t.a, clip<E>(i)); t.pre = (uint8_t)(i * 100); t.post = -i; }
    static bool eq(const Cls<E>& x, const Cls<E>& y) { return D<E>::eq(x.a, y.a) && x.pre == y.pre && x.post == y.post; }
};
// C array inside a class
template <class E> struct CArr
{
    E    a[2] {};
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(a); }
};
template <class E> struct D<CArr<E>>
{
    static int  n(bool) { return 3; }
    static void set(CArr<E>& t, int i) { D<E>::set(t.a[0], clip<E>(i)); D<E>::set(t.a[1], clip<E>(i + 1)); }
    static bool eq(const CArr<E>& x, const CArr<E>& y) { return D<E>::eq(x.a[0], y.a[0]) && D<E>::eq(x.a[1], y.a[1]); }
};
template <class E> struct D<std::optional<E>>
{
    static int  n(bool) { return 3; }
    static void set(std::optional<E>& t, int i) { if ( i == 0 ) t.reset(); else D<E>::set(t.emplace(), clip<E>(i)); }
    static bool eq(const std::optional<E>& a, const std::optional<E>& b) { return a.has_value() == b.has_value() && (!a || D<E>::eq(*a, *b)); }
};
template <class E> struct D<std::variant<int8_t, E, std::list<E>>>
{
    using T = std::variant<int8_t, E, std::list<E>>;
    static int  n(bool small) { return small ? 3 : 5; }
    static void set(T& t, int i)
    {
        if ( i == 0 ) t.template emplace<0>(int8_t(-5));
        else if ( i == 1 || i == 3 ) D<E>::set(t.template emplace<1>(), clip<E>(i - 1));
        else D<std::list<E>>::set(t.template emplace<2>(), i == 2 ? 2 : 0);
    }
    static bool eq(const T& a, const T& b)
    {
        if ( a.index() != b.index() ) return false;
        if ( a.index() == 0 ) return std::get<0>(a) == std::get<0>(b);
        if ( a.index() == 1 ) return D<E>::eq(std::get<1>(a), std::get<1>(b));
        return D<std::list<E>>::eq(std::get<2>(a), std::get<2>(b));
    }
};
template <class P, class E>
struct Smart
{
    static int  n(bool small) { return small ? 3 : 1 + D<E>::n(true); }
    static bool eq(const P& a, const P& b) { return !a == !b && (!a || D<E>::eq(*a, *b)); }
};
template <class E> struct D<std::unique_ptr<E>> : Smart<std::unique_ptr<E>, E>
{
    static void set(std::unique_ptr<E>& t, int i) { if ( i == 0 ) t.reset(); else { t.reset(new E()); D<E>::set(*t, clip<E>(i - 1)); } }
};
template <class E> struct D<std::shared_ptr<E>> : Smart<std::shared_ptr<E>, E>
{
    static void set(std::shared_ptr<E>& t, int i) { if ( i == 0 ) t.reset(); else { t = std::make_shared<E>(); D<E>::set(*t, clip<E>(i - 1)); } }
};
// raw pointer (a test object leaks what the unpacker allocates)
template <class E> struct D<E*> : Smart<E*, E>
{
    static void set(E*& t, int i) { if ( i == 0 ) t = nullptr; else { t = new E(); D<E>::set(*t, clip<E>(i - 1)); } }
};
template <class E> struct D<std::atomic<E>>
{
    static int  n(bool) { return D<E>::n(false); }
    static void set(std::atomic<E>& t, int i) { E e; D<E>::set(e, i); t = e; }
    static bool eq(const std::atomic<E>& a, const std::atomic<E>& b) { return D<E>::eq(a.load(), b.load()); }
};
template <class E> struct D<std::valarray<E>>
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(std::valarray<E>& t, int i)
    {
        auto& s = shapes(false)[i];
        t.resize(s.size());
        for ( size_t k = 0; k < s.size(); ++k ) D<E>::set(t[k], clip<E>(s[k]));
    }
    static bool eq(const std::valarray<E>& a, const std::valarray<E>& b)
    {
        if ( a.size() != b.size() ) return false;
        for ( size_t k = 0; k < a.size(); ++k ) if ( !D<E>::eq(a[k], b[k]) ) return false;
        return true;
    }
};
// arrays of run-time size; the size travels with them
template <class E, class S> struct DynArr
{
    E*   p = nullptr;
    S    n = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(SST::Core::Serialization::array(p, n)); }
};
template <class E, class S> struct UniArr
{
    std::unique_ptr<E[]> p;
    S                    n = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(SST::Core::Serialization::unique_ptr(p, n)); }
};
template <class E, class S> struct ShArr
{
    std::shared_ptr<E[]> p;
    S                    n = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(SST::Core::Serialization::shared_ptr(p, n)); }
};
template <class T, class E>
struct ArrOf
{
    static int  n(bool small) { return (int)shapes(small).size(); }
    static void set(T& t, int i)
    {
        auto& s = shapes(false)[i];
        t.n     = (decltype(t.n))s.size();
        if constexpr ( std::is_pointer_v<decltype(t.p)> ) t.p = s.empty() ? nullptr : new E[s.size()]();
        else if ( s.empty() ) t.p.reset();
        else t.p.reset(new E[s.size()]());
        for ( size_t k = 0; k < s.size(); ++k ) D<E>::set(t.p[k], clip<E>(s[k]));
    }
    static bool eq(const T& a, const T& b)
    {
        if ( a.n != b.n ) return false;
        for ( size_t k = 0; k < (size_t)a.n; ++k ) if ( !D<E>::eq(a.p[k], b.p[k]) ) return false;
        return true;
    }
};
template <class E, class S> struct D<DynArr<E, S>> : ArrOf<DynArr<E, S>, E> {};
template <class E, class S> struct D<UniArr<E, S>> : ArrOf<UniArr<E, S>, E> {};
template <class E, class S> struct D<ShArr<E, S>> : ArrOf<ShArr<E, S>, E> {};
struct Buf
{
    void*    p = nullptr;
    unsigned n = 0;
    void     serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(SST::Core::Serialization::buffer(p, n)); }
};
template <> struct D<Buf>
{
    static int  n(bool) { return 3; }
    static void set(Buf& t, int i) { t.n = i == 0 ? 0 : i == 1 ? 3 : 200; t.p = t.n ? new char[t.n] : nullptr; if ( t.n ) memset(t.p, 'a' + i, t.n); }
    static bool eq(const Buf& a, const Buf& b) { return a.n == b.n && (a.n == 0 || !memcmp(a.p, b.p, a.n)); }
};
struct RawP
{
    int* p = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser) { SST_SER(SST::Core::Serialization::raw_ptr(p)); }
};
template <> struct D<RawP>
{
    static int  n(bool) { return 3; }
    static void set(RawP& t, int i) { static int x[2]; t.p = i ? x + i - 1 : nullptr; }
    static bool eq(const RawP& a, const RawP& b) { return a.p == b.p; }
};
// polymorphic classes
class Base : public SST::Core::Serialization::serializable
{
public:
    int          x = 0;
    void         serialize_order(SST::Core::Serialization::serializer& ser) override { SST_SER(x); }
    virtual bool same(const Base* o) const { return cls_id() == o->cls_id() && x == o->x; }
    ImplementSerializable(dom::Base)
};
class Derived : public Base
{
public:
    std::string y;
    void        serialize_order(SST::Core::Serialization::serializer& ser) override { Base::serialize_order(ser); SST_SER(y); }
    bool        same(const Base* o) const override { return Base::same(o) && y == static_cast<const Derived*>(o)->y; }
    ImplementSerializable(dom::Derived)
};
template <> struct D<Base*>
{
    static int  n(bool small) { return small ? 3 : 4; }
    static void set(Base*& t, int i)
    {
        t = nullptr;
        if ( i == 1 || i == 3 ) { t = new Base(); t->x = i; }
        if ( i == 2 ) { auto d = new Derived(); d->x = 8; d->y = "why"; t = d; }
    }
    static bool eq(Base* const& a, Base* const& b) { return !a == !b && (!a || a->same(b)); }
};
} // namespace dom

// ---- type erasure
struct Item
{
    virtual ~Item() {}
    virtual void set(int i)                                                   = 0;
    virtual void ser(SST::Core::Serialization::serializer& s)                 = 0;
    virtual bool eq(const Item& o) const                                      = 0;
};
template <class T>
struct ItemOf : Item
{
    T    t {};
    void set(int i) override { dom::D<T>::set(t, i); }
    void ser(SST::Core::Serialization::serializer& ser) override { SST_SER(t); }
    bool eq(const Item& o) const override { return dom::D<T>::eq(t, static_cast<const ItemOf<T>&>(o).t); }
};
struct Kind
{
    std::string name;
    int         n;      // number of values
    int         level;  // 0: leaf, 1: one constructor, 2: two
    bool        hashed; // the packed bytes may depend on the order of a hash table
    Item* (*make)();
};
std::vector<Kind>& kinds();
template <class T>
void add(const char* name, int level)
{
    kinds().push_back({ name, dom::D<T>::n(level == 2), level, std::string(name).find("unordered") != std::string::npos, [] { return (Item*)new ItemOf<T>(); } });
}
#define ADD(level, ...) add<__VA_ARGS__>(#__VA_ARGS__, level)
#endif
