// D09: random sequences are a function of the seed and survive serialization.
//
// "draws": every sequence of draws, saves and re-seedings of each generator from each seed of a boundary set, against the published algorithms.
// "long": every generator over several state batches, saved and restored at every position.
// "distributions": every sequence of boundary uniforms fed to every distribution, with a save and restore at every position.
// "shared": distributions that share a generator, or own one, restored at every position of every interleaving.
#include "mc.h"
#include <cmath>
#include <memory>
#include <random>
#include "sst/core/rng/constant.h"
#include "sst/core/rng/discrete.h"
#include "sst/core/rng/expon.h"
#include "sst/core/rng/gaussian.h"
#include "sst/core/rng/marsaglia.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/rng/poisson.h"
#include "sst/core/rng/uniform.h"
#include "sst/core/rng/xorshift.h"
#include "sst/core/serialization/serialize.h"
using mc::Ctx;
using mc::fmt;
using SST::Core::Serialization::serializer;
using namespace SST::RNG;

// ------------------------------------------------------------------ the published algorithms
struct Ref
{
    virtual ~Ref() {}
    virtual uint32_t             next()                = 0;
    virtual void                 seed(uint64_t s)      = 0;
    virtual double               uniform()             = 0;
    virtual std::unique_ptr<Ref> copy() const          = 0;
    uint64_t                     next64() { uint64_t l = next(); return l | ((uint64_t)next() << 32); }
};
static double by_max(Ref& r)
{
    double d;
    do d = r.next() / 4294967295.0; while ( d >= 1.0 );
    return d;
}
struct RefMersenne : Ref
{
    std::mt19937                 g;
    uint32_t                     next() override { return g(); }
    void                         seed(uint64_t s) override { g.seed((uint32_t)s); }
    double                       uniform() override { return by_max(*this); }
    std::unique_ptr<Ref>         copy() const override { return std::make_unique<RefMersenne>(*this); }
};
struct RefMarsaglia : Ref // multiply with carry, two 16 bit lags
{
    uint32_t             z = 0, w = 0;
    uint32_t             next() override
    {
        z = (uint32_t)(36969ull * (z % 65536) + z / 65536);
        w = (uint32_t)(18000ull * (w % 65536) + w / 65536);
        return (z << 16) + w;
    }
    void                 seed(uint64_t s) override { z = (uint32_t)s; w = (uint32_t)((~s) * 2 + 1); }
    double               uniform() override
    {
        double d;
        do d = (double)(uint32_t)(next() + 1u) * 2.328306435454494e-10; while ( d >= 1.0 );
        return d;
    }
    std::unique_ptr<Ref> copy() const override { return std::make_unique<RefMarsaglia>(*this); }
};
struct RefXorshift : Ref // Marsaglia's xor128
{
    uint32_t             s[4] = { 0, 0, 0, 0 };
    uint32_t             next() override
    {
        uint32_t t = s[0] ^ (s[0] << 11), n = s[3] ^ (s[3] >> 19) ^ t ^ (t >> 8);
        s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; s[3] = n;
        return n;
    }
    void                 seed(uint64_t x) override { s[0] = (uint32_t)x; s[1] = s[2] = s[3] = 0; }
    double               uniform() override { return by_max(*this); }
    std::unique_ptr<Ref> copy() const override { return std::make_unique<RefXorshift>(*this); }
};

enum Kind { MERSENNE, MARSAGLIA, XORSHIFT };
static const char* kind_name[] = { "Mersenne", "Marsaglia", "XORShift" };
static void reseed(Kind k, Random* r, uint64_t s)
{
    if ( k == MERSENNE ) static_cast<MersenneRNG*>(r)->seed(s);
    else if ( k == MARSAGLIA ) static_cast<MarsagliaRNG*>(r)->seed(s);
    else static_cast<XORShiftRNG*>(r)->seed(s);
}

template <class T>
static void transfer(T& from, T& to, bool track)
{
    std::vector<char> buf;
    for ( int phase = 0; phase < 3; ++phase ) {
        serializer ser;
        ser.enable_pointer_tracking(track);
        if ( phase == 0 ) { ser.start_sizing(); SST_SER(from); buf.resize(ser.size()); }
        else if ( phase == 1 ) { ser.start_packing(buf.data(), buf.size()); SST_SER(from); }
        else { ser.start_unpacking(buf.data(), buf.size()); SST_SER(to); }
    }
}
// A restored copy: through the polymorphic pointer (two flavours) or into an object that was used before.
static std::unique_ptr<Random> restored(Kind k, Random* r, int how)
{
    if ( how < 2 ) {
        Random* to = nullptr;
        transfer(r, to, how == 1);
        return std::unique_ptr<Random>(to);
    }
    if ( k == MERSENNE ) {
        auto t = std::make_unique<MersenneRNG>(99u);
        t->nextUniform();
        transfer(*static_cast<MersenneRNG*>(r), *t, false);
        return t;
    }
    if ( k == MARSAGLIA ) {
        auto t = std::make_unique<MarsagliaRNG>(9u, 11u);
        t->nextUniform();
        transfer(*static_cast<MarsagliaRNG*>(r), *t, false);
        return t;
    }
    auto t = std::make_unique<XORShiftRNG>(99u);
    t->nextUniform();
    transfer(*static_cast<XORShiftRNG*>(r), *t, false);
    return t;
}
// Draws by function f; true if the generator and the algorithm agree.
static bool draw(Random* r, Ref& ref, int f, std::string& what)
{
    switch ( f ) {
    case 0: { uint32_t a = r->generateNextUInt32(), b = ref.next(); what = fmt("u32 %u, expected %u", a, b); return a == b; }
    case 1: { uint64_t a = r->generateNextUInt64(), b = ref.next64(); what = fmt("u64 %lu, expected %lu", a, b); return a == b; }
    case 2: { int32_t a = r->generateNextInt32(), b = (int32_t)ref.next(); what = fmt("i32 %d, expected %d", a, b); return a == b; }
    case 3: { int64_t a = r->generateNextInt64(), b = (int64_t)ref.next64(); what = fmt("i64 %ld, expected %ld", a, b); return a == b; }
    default: { double a = r->nextUniform(), b = ref.uniform(); what = fmt("uniform %.17g, expected %.17g", a, b); return std::fabs(a - b) < 1e-12 && a >= 0 && a < 1; }
    }
}
static const uint64_t SEEDS[] = { 1, 2, 5489, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x10001, 0 };
static std::unique_ptr<Random> seeded(Ctx& c, Kind k, std::unique_ptr<Ref>& ref, std::string& hist)
{
    unsigned               s = (unsigned)SEEDS[c.choose(k == XORSHIFT ? 7 : 8)];
    std::unique_ptr<Random> r;
    hist = fmt("%s(%u)", kind_name[k], s);
    if ( k == MERSENNE ) { r = std::make_unique<MersenneRNG>(s); ref = std::make_unique<RefMersenne>(); ref->seed(s); }
    else if ( k == XORSHIFT ) { r = std::make_unique<XORShiftRNG>(s); ref = std::make_unique<RefXorshift>(); ref->seed(s); }
    else {
        unsigned w  = c.pick({ 1u, 521288629u, 0xffffffffu });
        auto     rm = std::make_unique<RefMarsaglia>();
        rm->z = s;
        rm->w = w;
        if ( c.flip() ) {
            auto m = std::make_unique<MarsagliaRNG>(3u, 4u);
            m->generateNextUInt32();
            m->restart(s, w);
            hist += " restarted";
            r = std::move(m);
        }
        else r = std::make_unique<MarsagliaRNG>(s, w);
        ref = std::move(rm);
        hist += fmt(" w=%u", w);
    }
    return r;
}

static void draws(Ctx& c)
{
    static const char* ops[] = { "u32", "u64", "i32", "i64", "uniform", "save", "seed" };
    Kind                 k   = (Kind)c.choose(3);
    std::unique_ptr<Ref> ref;
    std::string          hist, what;
    auto                 r = seeded(c, k, ref, hist);
    int                  n = c.thorough() ? 6 : 4;
    if ( k == MERSENNE ) {
        int skip = c.pick({ 0, 621, 623, 1246 });
        for ( int i = 0; i < skip; ++i ) { r->generateNextUInt32(); ref->next(); }
        hist += fmt(" after %d", skip);
        if ( c.thorough() ) n = 5;
    }
    struct Old { std::unique_ptr<Random> r; std::unique_ptr<Ref> ref; std::string at; };
    std::vector<Old> olds;
    for ( int i = 0; i < n; ++i ) {
        int o = c.choose(7);
        c.step();
        hist += std::string(" ") + ops[o];
        if ( o < 5 ) { if ( !draw(r.get(), *ref, o, what) ) c.fail("sequence", "%s: %s", hist.c_str(), what.c_str()); }
        else if ( o == 5 ) {
            auto nr = restored(k, r.get(), c.choose(3));
            c.check(nr != nullptr, "restore", "%s: nothing was restored", hist.c_str());
            olds.push_back({ std::move(r), ref->copy(), hist });
            r = std::move(nr);
        }
        else {
            static const uint64_t again[] = { 7, 0xffffffffu, 0x123456789abcdefull, ~0ull };
            uint64_t s = again[c.choose(4)];
            hist += fmt(" %lx", s);
            reseed(k, r.get(), s);
            ref->seed(s);
        }
    }
    for ( int f = 0; f < 5; ++f )
        if ( !draw(r.get(), *ref, f, what) ) c.fail("sequence", "%s, then %s", hist.c_str(), what.c_str());
    for ( auto& o : olds ) // a saved generator goes on as if it had not been saved
        for ( int f = 0; f < 5; ++f )
            if ( !draw(o.r.get(), *o.ref, f, what) ) c.fail("saved", "%s: the saved generator then draws %s", o.at.c_str(), what.c_str());
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

static void longrun(Ctx& c)
{
    Kind                 k = (Kind)c.choose(3);
    std::unique_ptr<Ref> ref;
    std::string          hist, what;
    auto                 r    = seeded(c, k, ref, hist);
    int                  f    = c.choose(5);
    int                  part = c.choose(4);
    int                  n    = c.thorough() ? 1400 : 700;
    hist += fmt(" draw %d part %d", f, part);
    for ( int i = 0; i < n; ++i ) {
        if ( !draw(r.get(), *ref, f, what) ) c.fail("sequence", "%s: draw %d is %s", hist.c_str(), i, what.c_str());
        c.step();
        if ( i % 4 != part ) continue;
        auto nr   = restored(k, r.get(), i % 3);
        auto nref = ref->copy();
        for ( int j = 0; j < 8; ++j )
            if ( !draw(nr.get(), *nref, j % 5, what) ) c.fail("restored", "%s: a copy restored after draw %d draws %s", hist.c_str(), i, what.c_str());
        if ( i % 8 == part ) r = std::move(nr), ref = std::move(nref);
    }
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

// ------------------------------------------------------------------ distributions
// A generator whose draws are chosen by the explorer; copies at the same position continue alike.
static Ctx*                ctx;
static std::vector<double> script;
static const double        UNI[] = { 0.0, 0.3, 0.25, 0.75, 0.9999999997671694, 2.3283064365386963e-10, 0.5, 0.2499999999, 0.7500000001 };
static size_t              script_limit, uni_n;
class Scripted : public Random
{
public:
    uint32_t pos = 0;
    double   nextUniform() override
    {
        if ( pos >= script.size() ) script.push_back(pos < script_limit ? UNI[ctx->choose((int)uni_n)] : pos % 2 ? 0.7 : 0.1);
        return script[pos++];
    }
    uint32_t generateNextUInt32() override { return 0; }
    uint64_t generateNextUInt64() override { return 0; }
    int64_t  generateNextInt64() override { return 0; }
    int32_t  generateNextInt32() override { return 0; }
    void     seed(uint64_t) {}
    void     serialize_order(serializer& ser) override { SST_SER(pos); }
    ImplementSerializable(Scripted)
};

struct Dist
{
    const char*         name;
    int                 p;
    static const double PROBS[6][4];
    RandomDistribution* make(Random* r) const
    {
        switch ( name[0] ) {
        case 'c': return new ConstantDistribution(p - 1.5);
        case 'd': { int n = 0; while ( n < 4 && PROBS[p][n] >= 0 ) ++n; return r ? new DiscreteDistribution(PROBS[p], n, r) : new DiscreteDistribution(PROBS[p], n); }
        case 'e': return r ? new ExponentialDistribution(lambda(), r) : new ExponentialDistribution(lambda());
        case 'g': return r ? new GaussianDistribution(p * 10. - 5, 0.5 + p, r) : new GaussianDistribution(p * 10. - 5, 0.5 + p);
        case 'p': return r ? new PoissonDistribution(lambda(), r) : new PoissonDistribution(lambda());
        default: return r ? new UniformDistribution(p + 1, r) : new UniformDistribution(p + 1);
        }
    }
    double lambda() const { return p == 0 ? 0.5 : p == 1 ? 1.0 : 3.0; }
    // Judges value v that was drawn with the uniforms script[from, to); `pair` is what a Gaussian keeps.
    // Returns "" if it is right.
    std::string judge(double v, uint32_t from, uint32_t to, double& pair, bool& have, bool& offby) const
    {
        auto   u   = [&](uint32_t i) { return script[from + i]; };
        auto   n   = to - from;
        auto   near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
        double e;
        switch ( name[0] ) {
        case 'c': return v == p - 1.5 && n == 0 ? "" : fmt("%g instead of the constant", v);
        case 'd': {
            double cum = 0;
            bool   ok = false, off = false;
            int    i = 0;
            for ( ; i < 4 && PROBS[p][i] >= 0; ++i ) {
                bool in = PROBS[p][i] > 0 && u(0) >= cum - 1e-15 && u(0) <= cum + PROBS[p][i] + 1e-15;
                cum += PROBS[p][i];
                if ( in && v == i ) ok = true;
                if ( in && v == i + 1 ) off = true;
            }
            if ( n == 1 && ok ) return "";
            if ( n == 1 && off ) { offby = true; return ""; }
            return fmt("%g for %u draws, the first of which is %.17g", v, n, n ? u(0) : -1.);
        }
        case 'e':
            if ( n != 1 ) return fmt("%u draws", n);
            e = -std::log(1 - u(0)) / lambda();
            return near(v, e) && v >= 0 ? "" : fmt("%.17g, expected %.17g", v, e);
        case 'g': {
            if ( have ) {
                have = false;
                return n == 0 && near(v, pair) ? "" : fmt("%.17g, expected the second of the pair, %.17g", v, pair);
            }
            uint32_t i = 0;
            double   x, y, s;
            do { if ( i + 4 > n ) return "too few draws"; x = u(i); y = u(i + 1); s = x * x + y * y; i += 2; } while ( s >= 1 || s == 0 );
            if ( i + 2 != n ) return fmt("%u draws instead of %u", n, i + 2);
            if ( u(i) < 0.5 ) x = -x;
            if ( u(i + 1) < 0.5 ) y = -y;
            double m = std::sqrt(-2 * std::log(s) / s), mean = p * 10. - 5, sd = 0.5 + p;
            pair = mean + sd * y * m;
            have = true;
            return near(v, mean + sd * x * m) ? "" : fmt("%.17g, expected %.17g", v, mean + sd * x * m);
        }
        case 'p': { // the number of uniforms whose product stays above exp(-lambda)
            double L = std::exp(-lambda()), q = 1;
            int    k = 0;
            while ( true ) {
                if ( (uint32_t)k >= n ) return "too few draws";
                q *= u(k);
                if ( q <= L ) break;
                ++k;
            }
            return v == k && (uint32_t)k + 1 == n ? "" : fmt("%g for %u draws, expected %d", v, n, k);
        }
        default: {
            if ( n != 1 ) return fmt("%u draws", n);
            double b = u(0) * (p + 1);
            bool   ok = v >= 0 && v <= p && v == std::floor(v) && v <= b + 1e-9 && b <= v + 1 + 1e-9;
            return ok ? "" : fmt("bin %g of %d for %.17g", v, p + 1, u(0));
        }
        }
    }
};
const double Dist::PROBS[6][4] = { { 1, -1 }, { .25, .75, -1 }, { .25, .25, .25, .25 }, { .5, 0, .5, -1 }, { .75, .125, .125, -1 }, { .25, .5, .25, -1 } };
static const std::vector<Dist> DISTS = {
    { "constant", 0 }, { "constant", 3 },
    { "discrete", 0 }, { "discrete", 1 }, { "discrete", 2 }, { "discrete", 3 }, { "discrete", 4 }, { "discrete", 5 },
    { "exponential", 0 }, { "exponential", 1 }, { "exponential", 2 },
    { "gaussian", 0 }, { "gaussian", 1 },
    { "poisson", 0 }, { "poisson", 1 }, { "poisson", 2 },
    { "uniform", 0 }, { "uniform", 1 }, { "uniform", 2 }, { "uniform", 3 }, { "uniform", 6 }, { "uniform", 9 }, { "uniform", 99 },
};
struct Both // a distribution and its generator, as a component holds them
{
    Random*             r = nullptr;
    RandomDistribution* d = nullptr;
    void serialize_order(serializer& ser) { SST_SER(r); SST_SER(d); }
};

static void distributions(Ctx& c)
{
    const Dist& D = c.pick(DISTS);
    bool        g = D.name[0] == 'g', po = D.name[0] == 'p';
    ctx           = &c;
    script.clear();
    script_limit  = g ? 6 : po ? 5 : 3;
    uni_n         = g || po ? (c.thorough() ? 6 : 5) : 9;
    Both b { new Scripted, nullptr };
    b.d = D.make(b.r);
    std::vector<Both> all { b };
    double            pair = 0;
    bool              have = false, offby = false;
    std::string       hist = fmt("%s %d", D.name, D.p);
    int               n    = D.name[0] == 'c' ? 3 : c.thorough() ? 4 : 3;
    for ( int i = 0; i < n; ++i ) {
        int o = c.choose(2);
        c.step();
        if ( o ) {
            Both nb;
            transfer(b, nb, true);
            c.check(nb.r && nb.d && nb.r != b.r && nb.d != b.d, "restore", "%s: restored nothing", hist.c_str());
            all.push_back(nb);
            // the original continues alike
            if ( i == n - 1 ) {
                double sp = pair; bool sh = have, so = offby;
                uint32_t from = static_cast<Scripted*>(b.r)->pos;
                double   v    = b.d->getNextDouble();
                auto     w    = D.judge(v, from, static_cast<Scripted*>(b.r)->pos, sp, sh, so);
                if ( !w.empty() ) c.fail("saved", "%s: the saved distribution then yields %s", hist.c_str(), w.c_str());
            }
            b = nb;
            hist += " save";
        }
        uint32_t from = static_cast<Scripted*>(b.r)->pos;
        double   v    = b.d->getNextDouble();
        hist += fmt(" next=%g", v);
        auto w = D.judge(v, from, static_cast<Scripted*>(b.r)->pos, pair, have, offby);
        if ( !w.empty() ) c.fail("value", "%s: %s", hist.c_str(), w.c_str());
    }
    for ( auto& x : all ) { delete x.d; delete x.r; }
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
    if ( offby ) c.fail("discrete-off-by-one", "%s: the index after the one where the probability is located", hist.c_str());
}

struct Shared
{
    Random*             r = nullptr;
    RandomDistribution *a = nullptr, *b = nullptr;
    void serialize_order(serializer& ser) { SST_SER(a); SST_SER(r); SST_SER(b); }
};
static void shared(Ctx& c)
{
    static const std::vector<Dist> D = { { "constant", 0 }, { "discrete", 2 }, { "exponential", 1 }, { "gaussian", 1 }, { "poisson", 2 }, { "uniform", 6 } };
    const Dist& da    = c.pick(D);
    const Dist& db    = c.pick(D);
    Kind        k     = (Kind)c.choose(3);
    int         owned = c.choose(3); // none, the first, both
    auto        gen   = [&]() -> Random* { if ( k == MERSENNE ) return new MersenneRNG(17u); if ( k == MARSAGLIA ) return new MarsagliaRNG(17u, 4u); return new XORShiftRNG(17u); };
    Shared      s { gen(), nullptr, nullptr }, t;
    s.a = da.make(owned ? nullptr : s.r);
    s.b = db.make(owned == 2 ? nullptr : s.r);
    std::string hist = fmt("%s and %s on %s, %d owned:", da.name, db.name, kind_name[k], owned);
    int         n    = c.thorough() ? 8 : 6, at = c.choose(n);
    auto draw = [&](Shared& x, int o) { return o == 0 ? x.a->getNextDouble() : o == 1 ? x.b->getNextDouble() : x.r->nextUniform(); };
    for ( int i = 0; i < n; ++i ) {
        if ( i == at ) {
            transfer(s, t, true);
            hist += " save";
            c.check(t.r && t.a && t.b, "restore", "%s restored nothing", hist.c_str());
        }
        int    o = i < at && i > 1 ? (i + at) % 3 : c.choose(3);
        double x = draw(s, o);
        hist += o == 0 ? " a" : o == 1 ? " b" : " r";
        c.step();
        if ( i < at ) continue;
        double y = draw(t, o);
        c.check(x == y, "shared", "%s: the original draws %.17g, the restored one %.17g", hist.c_str(), x, y);
    }
    for ( auto* x : { &s, &t } ) { delete x->a; delete x->b; delete x->r; }
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "draws", draws }, { "long", longrun }, { "distributions", distributions }, { "shared", shared } });
}
