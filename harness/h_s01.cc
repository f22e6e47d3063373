// S01: statistics report what was recorded.
//
// Every history of add, add-many, clear, disable, enable, report and save-and-restore over boundary values on the three built-in
// statistics, for every field type, against exact bookkeeping of the values given.  The values keep the exact sums representable.
#include "mc.h"
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "sst/core/params.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/statapi/stataccumulator.h"
#include "sst/core/statapi/stathistogram.h"
#include "sst/core/statapi/statoutput.h"
#include "sst/core/statapi/statuniquecount.h"
using mc::Ctx;
using mc::fmt;
using namespace SST;
using namespace SST::Statistics;
using SST::Core::Serialization::serializer;

template <class T> std::string str(T v) { if constexpr ( std::is_floating_point_v<T> ) return fmt("%.17g", (double)v); else return std::to_string(v); }
using Report = std::map<std::string, std::string>;

struct Recorder : public StatisticFieldsOutput
{
    Report r;
    int    calls = 0;
    Recorder(Params& p) : StatisticFieldsOutput(p) {}
    template <class T> void put(fieldHandle_t h, T v) { r[getRegisteredField(h)->getFieldName()] = str(v); ++calls; }
    void outputField(fieldHandle_t h, int32_t v) override { put(h, v); }
    void outputField(fieldHandle_t h, uint32_t v) override { put(h, v); }
    void outputField(fieldHandle_t h, int64_t v) override { put(h, v); }
    void outputField(fieldHandle_t h, uint64_t v) override { put(h, v); }
    void outputField(fieldHandle_t h, float v) override { put(h, v); }
    void outputField(fieldHandle_t h, double v) override { put(h, v); }
    bool checkOutputParameters() override { return true; }
    void startOfSimulation() override {}
    void endOfSimulation() override {}
    void implStartOutputEntries(StatisticBase*) override { r.clear(); calls = 0; }
    void implStopOutputEntries() override {}
    uint32_t cls_id() const override { return 0; }
    const char* cls_name() const override { return "Recorder"; }
    std::string serialization_name() const override { return "Recorder"; }
};

template <class T> std::vector<T> domain(bool thorough)
{
    std::vector<T> v { (T)0, (T)1, (T)3, (T)4, (T)11 };
    if ( std::is_signed_v<T> ) { v.push_back((T)-1); v.push_back((T)-6); }
    if ( std::is_floating_point_v<T> ) { v.push_back((T)3.5); v.push_back((T)-0.25); }
    if ( thorough ) { v.push_back((T)100); }
    return v;
}

// What a statistic has been told since it was last cleared.
template <class T> struct Told { std::vector<T> v; bool enabled = true; };

template <class T> struct Acc
{
    using S = AccumulatorStatistic<T>;
    static void params(Ctx&, Params&) {}
    static std::string describe() { return "accumulator"; }
    static Report expect(const Told<T>& t)
    {
        T sum = 0, sq = 0, mn = 0, mx = 0;
        for ( size_t i = 0; i < t.v.size(); ++i ) {
            T x = t.v[i];
            sum += x; sq += x * x;
            if ( i == 0 || x < mn ) mn = x;
            if ( i == 0 || x > mx ) mx = x;
        }
        return { { "Sum", str(sum) }, { "SumSQ", str(sq) }, { "Count", str((uint64_t)t.v.size()) }, { "Min", str(mn) }, { "Max", str(mx) } };
    }
};
template <class T> struct Uniq
{
    using S = UniqueCountStatistic<T>;
    static void params(Ctx&, Params&) {}
    static std::string describe() { return "unique count"; }
    static Report expect(const Told<T>& t) { std::set<T> s(t.v.begin(), t.v.end()); return { { "UniqueItems", str((uint64_t)s.size()) } }; }
};
template <class T> struct Hist
{
    using S = HistogramStatistic<T>;
    static inline T        mn = 0;
    static inline uint32_t w = 1, n = 1;
    static inline bool     oob = true, dump = true;
    static void params(Ctx& c, Params& p)
    {
        static const int MINS[] = { 0, 3, -5, -4 };
        mn   = (T)MINS[c.choose(std::is_signed_v<T> ? 4 : 2)];
        w    = c.choose(2) ? 4 : 1;
        n    = c.choose(2) ? 3 : 1;
        int f = c.choose(3);
        oob  = f != 1;
        dump = f != 2;
        p.insert("minvalue", str(mn)); p.insert("binwidth", std::to_string(w)); p.insert("numbins", std::to_string(n));
        p.insert("includeoutofbounds", oob ? "true" : "false"); p.insert("dumpbinsonoutput", dump ? "true" : "false");
    }
    static std::string describe() { return fmt("histogram from %s, %u bins of %u", str(mn).c_str(), n, w); }
    static Report expect(const Told<T>& t)
    {
        T        top = (T)((double)mn + (double)w * n - 1);
        T        sum = 0, sq = 0;
        uint64_t lo = 0, hi = 0, in = 0;
        std::vector<uint64_t> bins(n);
        for ( T x : t.v ) {
            if ( x < mn ) { ++lo; continue; }
            if ( x > top ) { ++hi; continue; }
            ++in; sum += x; sq += x * x;
            ++bins[(size_t)std::floor(((double)x - (double)mn) / w)];
        }
        uint32_t active = 0;
        for ( uint64_t b : bins ) active += b != 0;
        Report r { { "BinsMinValue", str(mn) }, { "BinsMaxValue", str(top) }, { "BinWidth", str(w) }, { "TotalNumBins", str(n) }, { "Sum", str(sum) }, { "SumSQ", str(sq) },
            { "NumActiveBins", str(active) }, { "NumItemsCollected", str((uint64_t)t.v.size()) }, { "NumItemsBinned", str(in) } };
        if ( oob ) { r["NumOutOfBounds-MinValue"] = str(lo); r["NumOutOfBounds-MaxValue"] = str(hi); }
        if ( dump )
            for ( uint32_t y = 0; y < n; ++y ) {
                T ll = (T)(mn + (T)(y * w)), ul = (T)(ll + (T)w - 1);
                std::stringstream ss;
                ss << "Bin" << y << ":" << ll << "-" << ul;
                r[ss.str()] = str(bins[y]);
            }
        return r;
    }
};

template <class M, class T> void history(Ctx& c)
{
    using S = typename M::S;
    auto    dom = domain<T>(c.thorough());
    Params  sp, op;
    M::params(c, sp);
    // Values that lie between the last bin's labels and the next integer belong to neither side by the documentation.
    Recorder out(op);
    auto     s = std::make_unique<S>(nullptr, "st", "", sp);
    out.m_currentFieldStatName = "st";
    s->registerOutputFields(&out);
    Told<T>     t;
    std::string log = M::describe();
    bool        hist = std::is_same_v<M, Hist<T>>;
    int         n = (c.thorough() ? 4 : 3) + (hist ? 0 : 1);
    int         nv = (int)dom.size();
    for ( int step = 0; step < n; ++step ) {
        int o = c.choose(nv + 2 * 2 + 5);
        if ( o < nv ) {
            log += fmt(" add %s", str(dom[o]).c_str());
            s->addData(dom[o]);
            if ( t.enabled ) t.v.push_back(dom[o]);
        }
        else if ( o < nv + 4 ) {
            int k = o - nv;
            T   x = k / 2 ? dom[nv - 1] : dom[2];
            uint64_t m = k % 2 ? 3 : 1;
            log += fmt(" add %llu x %s", (unsigned long long)m, str(x).c_str());
            s->addDataNTimes(m, x);
            if ( t.enabled ) for ( uint64_t i = 0; i < m; ++i ) t.v.push_back(x);
        }
        else if ( o == nv + 4 ) { log += " clear"; s->clearStatisticData(); t.v.clear(); }
        else if ( o == nv + 5 ) { log += " disable"; s->disable(); t.enabled = false; }
        else if ( o == nv + 6 ) { log += " enable"; s->enable(); t.enabled = true; }
        else if ( o == nv + 7 ) { log += " report"; }
        else {
            log += " save+restore";
            serializer ser;
            ser.start_sizing(); s->serialize_order(ser);
            size_t sz = ser.size();
            std::vector<char> buf(sz + 1);
            ser.start_packing(buf.data(), sz); s->serialize_order(ser);
            auto s2 = std::unique_ptr<S>(new S());
            s2->stat_name_ = "st";
            ser.start_unpacking(buf.data(), sz); s2->serialize_order(ser);
            s = std::move(s2);
            out.m_currentFieldStatName = "st";
            s->registerOutputFields(&out);
            c.check(s->isEnabled() == t.enabled, "restored-enable", "%s: enabled is %d", log.c_str(), s->isEnabled());
        }
        if ( o >= nv + 7 || step == n - 1 ) {
            out.output(s.get(), false);
            Report want = M::expect(t);
            c.check(out.calls == (int)out.r.size(), "fields", "%s: a field was written twice", log.c_str());
            for ( auto& [k, v] : want )
                c.check(out.r.count(k) && out.r[k] == v, ("report-" + k.substr(0, 3) + (hist ? "-histogram" : "")).c_str(), "%s: %s is %s, expected %s", log.c_str(), k.c_str(),
                    out.r.count(k) ? out.r[k].c_str() : "missing", v.c_str());
            c.check(out.r.size() == want.size(), "fields", "%s: %zu fields written, %zu expected", log.c_str(), out.r.size(), want.size());
            if ( !std::is_same_v<M, Uniq<T>> )
                c.check(s->getCollectionCount() == t.v.size(), "count", "%s: the collection count is %llu, expected %zu", log.c_str(),
                    (unsigned long long)s->getCollectionCount(), t.v.size());
        }
    }
    c.note("%s", log.c_str()); c.nontrivial(!t.v.empty()); c.step(n); c.validated();
}
template <template <class> class M> void types(Ctx& c)
{
    switch ( c.choose(6) ) {
    case 0: return history<M<int32_t>, int32_t>(c);
    case 1: return history<M<uint32_t>, uint32_t>(c);
    case 2: return history<M<int64_t>, int64_t>(c);
    case 3: return history<M<uint64_t>, uint64_t>(c);
    case 4: return history<M<float>, float>(c);
    default: return history<M<double>, double>(c);
    }
}

// One value of any size is its own minimum and maximum; with a second one, the smaller and the larger.
template <class T> void extremes(Ctx& c)
{
    using L = std::numeric_limits<T>;
    std::vector<T> v { L::lowest(), L::max(), (T)0, (T)1, (T)(L::max() / 2) };
    if constexpr ( std::is_floating_point_v<T> ) { v.push_back(L::min()); v.push_back(-L::min()); v.push_back((T)-1e30); v.push_back((T)1e30); }
    if constexpr ( std::is_signed_v<T> ) v.push_back((T)-1);
    Params p, op;
    AccumulatorStatistic<T> s(nullptr, "st", "", p);
    int n = 1 + c.choose(3);
    T   mn = 0, mx = 0;
    std::string log;
    bool clear = c.flip();
    if ( clear ) { s.addData_impl_Ntimes(1, 0); s.clearStatisticData(); }
    for ( int i = 0; i < n; ++i ) {
        T x = v[c.choose((int)v.size())];
        if ( c.flip() ) s.addData(x); else s.addDataNTimes(2, x);
        log += " " + str(x);
        if ( i == 0 || x < mn ) mn = x;
        if ( i == 0 || x > mx ) mx = x;
    }
    c.check(s.getMin() == mn, "min", "%s: minimum %s", log.c_str(), str(s.getMin()).c_str());
    c.check(s.getMax() == mx, "max", "%s: maximum %s", log.c_str(), str(s.getMax()).c_str());
    c.note("%s %d", log.c_str(), clear); c.nontrivial(); c.step(n); c.validated();
}
static void ext(Ctx& c)
{
    switch ( c.choose(6) ) {
    case 0: return extremes<int32_t>(c);
    case 1: return extremes<uint32_t>(c);
    case 2: return extremes<int64_t>(c);
    case 3: return extremes<uint64_t>(c);
    case 4: return extremes<float>(c);
    default: return extremes<double>(c);
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {
        { "accumulator", [](Ctx& c) { types<Acc>(c); } },
        { "histogram", [](Ctx& c) { types<Hist>(c); } },
        { "unique", [](Ctx& c) { types<Uniq>(c); } },
        { "extremes", ext },
    });
}
