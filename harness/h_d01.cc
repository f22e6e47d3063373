// D01: unpacking what was packed gives the same value and uses exactly the bytes announced.
//
// "values": every value of every type, with and without pointer tracking, into a fresh and into a used target.
// "streams": sequences of two values of different types in one stream.
// "comms": the helpers that send objects between ranks.
#include "mc.h"
#include "ser_types.h"
#include "sst/core/objectSerialization.h"
using mc::Ctx;
using mc::fmt;
using SST::Core::Serialization::serializer;

std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
void kinds0(); void kinds1(); void kinds2(); void kinds3(); void kinds4(); void kinds5(); void kinds6(); void kinds7();

static void trip(Ctx& c, const std::vector<std::pair<const Kind*, int>>& vals, const std::vector<int>& dirty, bool track, const std::string& what)
{
    std::vector<std::unique_ptr<Item>> src, dst;
    for ( auto& [k, i] : vals ) {
        src.emplace_back(k->make());
        src.back()->set(i);
        dst.emplace_back(k->make());
    }
    for ( size_t i = 0; i < dst.size(); ++i )
        if ( dirty[i] >= 0 ) dst[i]->set(dirty[i]);
    serializer s;
    s.enable_pointer_tracking(track);
    s.start_sizing();
    for ( auto& x : src ) x->ser(s);
    size_t size = s.size();
    static const char   mark[9] = "guarded!";
    std::vector<char> buf(size + 16, 0);
    memcpy(buf.data(), mark, 8);
    memcpy(buf.data() + 8 + size, mark, 8);
    try {
        s.start_packing(buf.data() + 8, size);
        for ( auto& x : src ) x->ser(s);
    }
    catch ( const std::exception& e ) { c.fail("pack", "%s: packing more than the %zu bytes of sizing: %s", what.c_str(), size, e.what()); }
    c.check(s.size() == size, "pack", "%s: sizing announced %zu bytes, packing wrote %zu", what.c_str(), size, s.size());
    c.check(!memcmp(buf.data(), mark, 8) && !memcmp(buf.data() + 8 + size, mark, 8), "bounds", "%s: packing wrote outside of its buffer", what.c_str());
    // the sources must not have changed
    for ( size_t i = 0; i < src.size(); ++i ) {
        std::unique_ptr<Item> again(vals[i].first->make());
        again->set(vals[i].second);
        c.check(src[i]->eq(*again), "source", "%s: serializing changed the source (%zu)", what.c_str(), i);
    }
    std::vector<char> keep(buf);
    try {
        s.start_unpacking(buf.data() + 8, size);
        for ( auto& x : dst ) x->ser(s);
    }
    catch ( const std::exception& e ) { c.fail("unpack", "%s: unpacking needs more than the %zu bytes packed: %s", what.c_str(), size, e.what()); }
    c.check(s.size() == size, "unpack", "%s: %zu bytes packed, %zu consumed", what.c_str(), size, s.size());
    for ( size_t i = 0; i < src.size(); ++i ) c.check(dst[i]->eq(*src[i]), "value", "%s: unpacked value %zu differs", what.c_str(), i);
    c.check(keep == buf, "buffer", "%s: unpacking changed the buffer", what.c_str());
    // what was unpacked is of a piece: it packs again to the same size
    s.start_sizing();
    for ( auto& x : dst ) x->ser(s);
    c.check(s.size() == size, "again", "%s: the unpacked value needs %zu bytes, the original %zu", what.c_str(), s.size(), size);
    s.finalize();
    c.step(3);
    c.validated();
    c.nontrivial(size > 0);
}

static void values(Ctx& c, int from, int to)
{
    std::vector<const Kind*> ks;
    for ( auto& k : kinds() )
        if ( k.level >= from && k.level <= to ) ks.push_back(&k);
    const Kind* k     = ks[c.choose((int)ks.size())];
    bool        track = c.flip();
    int         v = c.choose(k->n), d = c.choose(k->n + 1) - 1;
    std::string w = fmt("%s value %d%s into %s", k->name.c_str(), v, track ? " (tracking)" : "", d < 0 ? "a new object" : fmt("value %d", d).c_str());
    c.note("%s", w.c_str());
    trip(c, { { k, v } }, { d }, track, w);
}
static void streams(Ctx& c)
{
    // two values of one-constructor types, after one another in one stream
    std::vector<const Kind*> ks;
    for ( auto& k : kinds() )
        if ( k.level <= 1 ) ks.push_back(&k);
    const Kind *a = ks[c.choose((int)ks.size())], *b = ks[c.choose((int)ks.size())];
    bool        track = c.flip();
    int         v = std::min(a->n - 1, c.thorough() ? c.choose(std::min(a->n, 4)) : 2 - c.choose(std::min(a->n, 2))), w = std::min(b->n - 1, c.thorough() ? c.choose(std::min(b->n, 4)) : 1);
    std::string s = fmt("%s value %d then %s value %d then a byte%s", a->name.c_str(), v, b->name.c_str(), w, track ? " (tracking)" : "");
    c.note("%s", s.c_str());
    static const Kind byte { "byte", 2, 0, false, [] { return (Item*)new ItemOf<uint8_t>(); } };
    trip(c, { { a, v }, { b, w }, { &byte, 5 } }, { -1, 0, -1 }, track, s);
}

template <class T>
static void comms_of(Ctx& c)
{
    T a {}, b {};
    int v = c.choose(dom::D<T>::n(false)), d = c.choose(dom::D<T>::n(false));
    dom::D<T>::set(a, v);
    dom::D<T>::set(b, d);
    auto buf = SST::Comms::serialize(a);
    if ( c.flip() ) SST::Comms::deserialize(buf, b);
    else SST::Comms::deserialize(buf.data(), (int)buf.size(), b);
    c.check(dom::D<T>::eq(a, b), "comms", "value %d sent into value %d differs", v, d);
    // as a pointer
    T*   p = &a;
    auto pb = SST::Comms::serialize(p);
    auto q  = std::unique_ptr<T>(SST::Comms::deserialize<T>(pb));
    c.check(q && dom::D<T>::eq(a, *q), "comms", "value %d sent as a pointer differs", v);
    c.note("%d %d", v, d);
    c.step(2);
    c.validated();
    c.nontrivial();
}
static void comms(Ctx& c)
{
    int t = c.choose(8);
    c.note("type %d ", t);
    switch ( t ) {
    case 0: return comms_of<std::string>(c);
    case 1: return comms_of<std::vector<std::string>>(c);
    case 2: return comms_of<std::map<int16_t, std::string>>(c);
    case 3: return comms_of<dom::Cls<std::string>>(c);
    case 4: return comms_of<uint64_t>(c);
    case 5: return comms_of<std::set<std::string>>(c);
    case 6: return comms_of<std::pair<int8_t, std::string>>(c);
    default: return comms_of<dom::Triv>(c);
    }
}

int main(int argc, char** argv)
{
    kinds0(); kinds1(); kinds2(); kinds3(); kinds4(); kinds5(); kinds6(); kinds7();
    return mc::run(argc, argv, {
        { "values", [](Ctx& c) { values(c, 0, 1); } },
        { "nested", [](Ctx& c) { values(c, 2, 2); } },
        { "streams", streams },
        { "comms", comms },
    });
}
