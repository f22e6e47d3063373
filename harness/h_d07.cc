// D07: the sorted-vector maps behave as maps.
//
// "values", "pointers", "keys": every sequence of operations on each flavour against std::map.
// "orders": every insertion order of up to seven keys, and every such vector handed over at construction.
#include "mc.h"
#include <algorithm>
#include <climits>
#include <map>
#include <memory>
#include <numeric>
#include "sst/core/serialization/serialize.h"
#include "sst/core/sparseVectorMap.h"
using mc::Ctx;
using mc::fmt;
using SST::Core::Serialization::serializer;

template <class K>
struct Val
{
    K    k {};
    int  v = 0;
    K    key() const { return k; }
    void serialize_order(serializer& ser) { SST_SER(k); SST_SER(v); }
};
template <class K> std::string str(const K& k) { if constexpr ( std::is_same_v<K, std::string> ) return "'" + k + "'"; else return std::to_string(k); }

// One interface for the three flavours.
template <class K> struct ByValue
{
    using Map = SST::SparseVectorMap<K, Val<K>>;
    using Elem = Val<K>;
    static Elem make(const K& k, int v) { return { k, v }; }
    static K    key(const Elem& e) { return e.k; }
    static int  val(const Elem& e) { return e.v; }
    static constexpr bool same_address = false, filters = false;
};
template <class K> struct ByPointer
{
    using Map = SST::SparseVectorMap<K, Val<K>*>;
    using Elem = Val<K>*;
    static Elem make(const K& k, int v)
    {
        static std::vector<std::unique_ptr<Val<K>>> keep;
        if ( keep.size() > 100000 ) keep.erase(keep.begin(), keep.begin() + 50000);
        keep.emplace_back(new Val<K> { k, v });
        return keep.back().get();
    }
    static K    key(const Val<K>* e) { return e->k; }
    static int  val(const Val<K>* e) { return e->v; }
    static constexpr bool filters = true;
};
template <class K> struct ByKey
{
    using Map = SST::SparseVectorMap<K>;
    using Elem = K;
    static Elem make(const K& k, int) { return k; }
    static K    key(const K& e) { return e; }
    static int  val(const K&) { return 0; }
    static constexpr bool filters = false;
};

template <class F, class K>
static void verify(Ctx& c, typename F::Map& m, const std::map<K, int>& ref, const std::vector<K>& keys, const std::string& hist)
{
    const typename F::Map& cm = m;
    auto bad = [&](const char* sig, const std::string& what) { c.fail(sig, "after%s: %s", hist.c_str(), what.c_str()); };
    if ( m.size() != ref.size() ) bad("size", fmt("%zu elements instead of %zu", m.size(), ref.size()));
    auto it = ref.begin();
    for ( auto i = m.begin(); i != m.end(); ++i, ++it )
        if ( it == ref.end() || F::key(*i) != it->first || F::val(*i) != it->second ) bad("iterate", "iteration yields other elements or another order");
    it = ref.begin();
    for ( auto& e : cm ) {
        if ( it == ref.end() || F::key(e) != it->first || F::val(e) != it->second ) bad("iterate", "iteration of a constant map yields other elements or another order");
        ++it;
    }
    for ( auto& k : keys ) {
        auto r = ref.find(k);
        if ( m.contains(k) != (r != ref.end()) ) bad("contains", "contains(" + str(k) + ") is " + (r == ref.end() ? "true" : "false"));
        for ( int cst = 0; cst < 2; ++cst ) {
            try {
                int v;
                K   kk;
                if ( cst ) { const auto& e = cm[k]; v = F::val(e); kk = F::key(e); }
                else { auto& e = static_cast<const typename F::Elem&>(m[k]); v = F::val(e); kk = F::key(e); }
                if ( r == ref.end() ) bad("lookup", "[" + str(k) + "] found something");
                if ( v != r->second || kk != k ) bad("lookup", "[" + str(k) + "] found another element");
            }
            catch ( const std::out_of_range& ) {
                if ( r != ref.end() ) bad("lookup", "[" + str(k) + "] found nothing");
            }
        }
    }
}
template <class K>
struct Keep
{
    unsigned          mask;
    std::vector<K>    keys;
    bool              replace;
    int               add;
    Val<K>*           operator()(Val<K>* e)
    {
        size_t i = std::find(keys.begin(), keys.end(), e->k) - keys.begin();
        if ( !((mask >> i) & 1) ) return nullptr;
        return replace ? ByPointer<K>::make(e->k, e->v + add) : e;
    }
};

template <template <class> class F_, class K>
static void sequences(Ctx& c, const std::vector<K>& keys, int depth)
{
    using F = F_<K>;
    auto             m = std::make_unique<typename F::Map>();
    std::map<K, int> ref;
    std::string      hist;
    int              n    = (int)keys.size();
    int              kind = F::filters ? 4 : 2; // clear, serialize, filters
    for ( int s = 0; s < depth; ++s ) {
        int o = c.choose(n + kind);
        c.step();
        if ( o < n ) {
            hist += " insert " + str(keys[o]);
            auto e  = F::make(keys[o], s + 1);
            auto r  = ref.emplace(keys[o], std::is_same_v<typename F::Elem, K> ? 0 : s + 1);
            const auto& got = m->insert(e);
            c.check(F::key(got) == keys[o] && F::val(got) == r.first->second, "insert", "after%s: insert returned another element", hist.c_str());
        }
        else if ( o == n ) { hist += " clear"; m->clear(); ref.clear(); }
        else if ( o == n + 1 ) {
            hist += " restore";
            auto       nm = std::make_unique<typename F::Map>();
            serializer ser;
            bool       track = s & 1;
            ser.enable_pointer_tracking(track);
            if ( s == depth - 1 && n > 0 ) nm->insert(F::make(keys[0], 99)); // a used target
            ser.start_sizing();
            SST_SER(*m);
            std::vector<char> buf(ser.size());
            ser.start_packing(buf.data(), buf.size());
            SST_SER(*m);
            ser.start_unpacking(buf.data(), buf.size());
            SST_SER(*nm);
            m = std::move(nm);
        }
        else {
            if constexpr ( F::filters ) {
                Keep<K> f { o == n + 2 ? 0x15u : 0xeu, keys, o == n + 3, 100 };
                hist += o == n + 2 ? " keep even" : " keep and replace";
                m->filter(f);
                for ( auto it = ref.begin(); it != ref.end(); ) {
                    size_t i = std::find(keys.begin(), keys.end(), it->first) - keys.begin();
                    if ( !((f.mask >> i) & 1) ) it = ref.erase(it);
                    else { if ( f.replace ) it->second += 100; ++it; }
                }
            }
        }
        verify<F, K>(c, *m, ref, keys, hist);
    }
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}
template <template <class> class F>
static void seqs(Ctx& c)
{
    int d = c.thorough() ? 7 : 5;
    switch ( c.choose(4) ) {
    case 0: return sequences<F, int>(c, { 1, 2, 3, 4, 5 }, d);
    case 1: return sequences<F, int>(c, { INT_MIN, -1, 0, INT_MAX }, d - 1);
    case 2: return sequences<F, uint64_t>(c, { 0, 1, 1ull << 63, ~0ull, 0xffffffffull }, d - 1);
    default: return sequences<F, std::string>(c, { "", "a", "ab", "b" }, d - 1);
    }
}
template <template <class> class F_>
static void order(Ctx& c)
{
    using F = F_<int>;
    int n = c.choose(c.thorough() ? 9 : 8);
    std::vector<int> left(n), in;
    std::iota(left.begin(), left.end(), 0);
    std::map<int, int> ref;
    std::string hist;
    while ( !left.empty() ) {
        int i = c.choose((int)left.size());
        in.push_back(left[i] * 3 - 4);
        left.erase(left.begin() + i);
        hist += fmt(" %d", in.back());
    }
    std::vector<int> keys;
    for ( int k = -6; k < 3 * n; ++k ) keys.push_back(k);
    std::vector<typename F::Elem> v;
    bool has_val = !std::is_same_v<typename F::Elem, int>;
    for ( int k : in ) { v.push_back(F::make(k, k + 50)); ref.emplace(k, has_val ? k + 50 : 0); }
    typename F::Map one;
    for ( auto& e : v ) one.insert(e);
    verify<F, int>(c, one, ref, keys, " inserting" + hist);
    bool sorted = std::is_sorted(in.begin(), in.end());
    for ( int flag = 0; flag < (sorted ? 2 : 1); ++flag ) {
        auto            w = v;
        typename F::Map two(w, flag == 1);
        c.check(w.empty(), "swap", "the vector handed over is not empty");
        verify<F, int>(c, two, ref, keys, " construction from" + hist);
        two.insert(F::make(100, 1));
        auto r2 = ref;
        r2.emplace(100, has_val ? 1 : 0);
        verify<F, int>(c, two, r2, keys, " construction and an insertion from" + hist);
    }
    c.note("%s", hist.c_str());
    c.step(n);
    c.validated();
    c.nontrivial();
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {
        { "values", seqs<ByValue> },
        { "pointers", seqs<ByPointer> },
        { "keys", seqs<ByKey> },
        { "orders", [](Ctx& c) { int f = c.choose(3); if ( f == 0 ) order<ByValue>(c); else if ( f == 1 ) order<ByPointer>(c); else order<ByKey>(c); } },
    });
}
