// D06: parameter lookup honours keys, scopes, shared sets, defaults and parsing.
//
// "store": every sequence of inserts, shared inserts, subscriptions, copies, merges, scoped views and serializations against maps.
// "scalars": every literal of a small grammar read as every type, with and without defaults, present and absent.
// "lists": every list, set and map of up to three elements in every notation.
#include "mc.h"
#include <cmath>
#include <map>
#include <set>
#include "sst/core/params.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/unitAlgebra.h"
using mc::Ctx;
using mc::fmt;
using SST::Params;
using SST::Core::Serialization::serializer;
using Map = std::map<std::string, std::string>;

struct Ref
{
    Map                      local;
    std::vector<std::string> sets;
};
static std::map<std::string, Map> rshared;
// the value of a key, or null: own parameters first, then the shared sets in the order of subscription
static const std::string* lookup(const Ref& r, const std::string& k)
{
    auto i = r.local.find(k);
    if ( i != r.local.end() ) return &i->second;
    for ( auto& s : r.sets ) {
        auto j = rshared[s].find(k);
        if ( j != rshared[s].end() ) return &j->second;
    }
    return nullptr;
}
static Map flat(const Ref& r)
{
    Map m = r.local;
    for ( auto& s : r.sets ) m.insert(rshared[s].begin(), rshared[s].end());
    return m;
}
static Ref scoped(const Ref& r, const std::string& scope)
{
    Ref n;
    for ( auto& [k, v] : flat(r) ) if ( k.compare(0, scope.size() + 1, scope + ".") == 0 ) n.local[k.substr(scope.size() + 1)] = v;
    return n;
}
static void compare(Ctx& c, const Params& p, const Ref& r, const std::string& hist, int depth = 0)
{
    static const std::vector<std::string> KEYS = { "a", "s.a", "s.b.a", "s", "b.a", "s.b", "", "<set_name>", "A", "a " };
    Map   all = flat(r);
    std::set<std::string> keys;
    for ( auto& kv : all ) keys.insert(kv.first);
    for ( auto& k : KEYS ) {
        bool               found;
        const std::string* want = lookup(r, k);
        int                got  = p.find<int>(k, -77, found);
        if ( found != (want != nullptr) || got != (want ? atoi(want->c_str()) : -77) )
            c.fail("find", "%s: key '%s' is %d (found %d) instead of %s", hist.c_str(), k.c_str(), got, found, want ? want->c_str() : "absent");
        if ( p.contains(k) != (want != nullptr) ) c.fail("contains", "%s: contains('%s') is %d", hist.c_str(), k.c_str(), p.contains(k));
        if ( p.count(k) != (want != nullptr) ) c.fail("count", "%s: count('%s') is %zu", hist.c_str(), k.c_str(), p.count(k));
    }
    if ( p.getKeys() != keys ) {
        std::string l;
        for ( auto& k : p.getKeys() ) l += " " + k;
        c.fail("keys", "%s: the keys are%s", hist.c_str(), l.c_str());
    }
    if ( p.size() != keys.size() || p.empty() != keys.empty() ) c.fail("size", "%s: size %zu, empty %d", hist.c_str(), p.size(), p.empty());
    if ( depth < 2 )
        for ( auto* s : { "s", "b", "s.b", "x" } ) {
            Ref n = scoped(r, s);
            compare(c, p.get_scoped_params(s), n, hist + " scoped " + s, depth + (n.local.empty() ? 2 : 1));
        }
}
static void saved(Params& p, Params& q, bool track)
{
    std::vector<char> buf;
    for ( int phase = 0; phase < 3; ++phase ) {
        serializer ser;
        ser.enable_pointer_tracking(track);
        if ( phase == 0 ) { ser.start_sizing(); SST_SER(p); buf.resize(ser.size()); }
        else if ( phase == 1 ) { ser.start_packing(buf.data(), buf.size()); SST_SER(p); }
        else { ser.start_unpacking(buf.data(), buf.size()); SST_SER(q); }
    }
}
static void store(Ctx& c)
{
    Params::shared_params.clear();
    rshared.clear();
    Params      A, B;
    Ref         ra, rb;
    std::string hist;
    int         n = c.thorough() ? 5 : 4;
    auto ins = [&](Params& p, Ref& r, const char* name, const char* k, const char* v, bool ow) {
        hist += fmt(" %s.%s(%s,%s)", name, ow ? "insert" : "add", k, v);
        p.insert(k, v, ow);
        if ( ow ) r.local[k] = v; else r.local.emplace(k, v);
    };
    auto shr = [&](const char* s, const char* k, const char* v, bool ow) {
        hist += fmt(" shared %s.%s(%s,%s)", s, ow ? "insert" : "add", k, v);
        Params::insert_shared(s, k, v, ow);
        if ( ow ) rshared[s][k] = v; else rshared[s].emplace(k, v);
    };
    auto sub = [&](Params& p, Ref& r, const char* name, const char* s) {
        hist += fmt(" %s.subscribe(%s)", name, s);
        p.addSharedParamSet(s);
        r.sets.push_back(s);
    };
    for ( int i = 0; i < n; ++i ) {
        c.step();
        switch ( c.choose(23) ) {
        case 0: ins(A, ra, "A", "a", "1", true); break;
        case 1: ins(A, ra, "A", "a", "2", false); break;
        case 2: ins(A, ra, "A", "s.a", "3", true); break;
        case 3: ins(A, ra, "A", "s.b.a", "4", true); break;
        case 4: ins(B, rb, "B", "a", "5", true); break;
        case 5: ins(B, rb, "B", "s.a", "6", true); break;
        case 6: shr("X", "a", "7", true); break;
        case 7: shr("X", "a", "8", false); break;
        case 8: shr("X", "s.a", "9", true); break;
        case 9: shr("Y", "s.a", "10", true); break;
        case 10: shr("Y", "a", "11", true); break;
        case 11: sub(A, ra, "A", "X"); break;
        case 12: sub(A, ra, "A", "Y"); break;
        case 13: sub(B, rb, "B", "X"); break;
        case 14:
            hist += " A.insert(B)";
            A.insert(B);
            ra.local.insert(rb.local.begin(), rb.local.end());
            for ( auto& s : rb.sets ) if ( std::find(ra.sets.begin(), ra.sets.end(), s) == ra.sets.end() ) ra.sets.push_back(s);
            break;
        case 15: hist += " A=B"; A = B; ra = rb; break;
        case 16: { hist += " B=copy(A)"; Params t(A); t.insert("s", "12"); B = t; rb = ra; rb.local["s"] = "12"; break; }
        case 17: hist += " A.clear"; A.clear(); ra = Ref(); break;
        case 18: { hist += " A=sent(A)"; Params t; saved(A, t, false); A = t; break; }
        case 19: { hist += " A=checkpointed(A)"; Params t; saved(A, t, true); A = t; ra.local = flat(ra); ra.sets.clear(); break; }
        case 20: hist += " A=A.scoped(s)"; A = A.get_scoped_params("s"); ra = scoped(ra, "s"); break;
        case 21: ins(B, rb, "B", "s", "13", false); break;
        default: shr("Y", "s.b.a", "14", true); break;
        }
    }
    compare(c, A, ra, hist + " | A");
    compare(c, B, rb, hist + " | B");
    std::set<std::string> lk, want;
    for ( auto& k : A.getLocalKeys() ) lk.insert(k);
    for ( auto& kv : ra.local ) want.insert(kv.first);
    c.check(lk == want, "local-keys", "%s: wrong local keys", hist.c_str());
    c.check(A.getSubscribedSharedParamSets() == ra.sets, "subscribed", "%s: wrong subscriptions", hist.c_str());
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

// ------------------------------------------------------------------ scalars
template <class T>
static bool same(const T& a, const T& b) { return a == b; }
// Reads value `text` as T in every way find() offers and compares with `want` (null: must be refused).
template <class T>
static void read_as(Ctx& c, const char* tname, const std::string& text, const T* want, const T& def, const std::string& deftext)
{
    Params p;
    p.insert("k", text);
    std::string what = fmt("'%s' as %s", text.c_str(), tname);
    auto run = [&](const char* how, bool check_found, auto&& f) {
        bool found = false;
        try {
            T v = f(found);
            if ( !want ) c.fail("accepted", "%s (%s): a malformed value is accepted", what.c_str(), how);
            if ( !same(v, *want) ) c.fail("value", "%s (%s): another value", what.c_str(), how);
            if ( check_found && !found ) c.fail("found", "%s (%s): found is not set", what.c_str(), how);
        }
        catch ( const std::invalid_argument& e ) {
            if ( want ) c.fail("refused", "%s (%s): refused", what.c_str(), how);
        }
        c.step();
    };
    run("default", false, [&](bool&) { return p.find<T>("k", def); });
    run("text default", false, [&](bool&) { return p.find<T>("k", deftext); });
    run("C text default", false, [&](bool&) { return p.find<T>("k", deftext.c_str()); });
    run("no default", false, [&](bool&) { return p.find<T>("k"); });
    run("default, found", true, [&](bool& f) { return p.find<T>("k", def, f); });
    run("text default, found", true, [&](bool& f) { return p.find<T>("k", deftext, f); });
    if constexpr ( !std::is_same_v<T, bool> ) run("found", true, [&](bool& f) { return p.find<T>("k", f); });
    // absent: the default
    bool f = true;
    c.check(same(p.find<T>("other", def), def) && same(p.find<T>("other", def, f), def) && !f, "default", "%s: the default is not returned", tname);
    f = true;
    c.check(same(p.find<T>("other", deftext), def) && same(p.find<T>("other", deftext, f), def) && !f, "default", "%s: the text default is not returned", tname);
    c.check(same(p.find<T>("other"), T()), "default", "%s: an absent key without default is not the empty value", tname);
    std::vector<T> v;
    p.find_array<T>("other", v);
    c.check(v.empty(), "default", "%s: an absent array is not empty", tname);
    if ( !std::is_same_v<T, std::string> && text != "[1]" ) {
        bool threw = false;
        try { p.find_array<T>("k", v); }
        catch ( const std::invalid_argument& ) { threw = true; }
        if ( want ) c.check(!threw && v.size() == 1 && same(T(v[0]), *want), "single", "%s: a single value is not an array of one", what.c_str());
        else c.check(threw, "single", "%s: a malformed value is accepted as an array", what.c_str());
    }
}
struct Number { std::string text; bool ok; bool neg; unsigned long long mag; };
static Number number(Ctx& c)
{
    static const unsigned long long MAG[] = { 0, 1, 7, 8, 9, 10, 15, 16, 127, 128, 255, 65535, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
    static const char* BAD[] = { "", "abc", "-", "+", " ", "x1", "--1", ".", "'1'", "[1]", "$5" };
    if ( c.flip() ) return { BAD[c.choose(11)], false, false, 0 };
    Number n { "", true, false, MAG[c.choose(19)] };
    int    sign = c.choose(3), base = c.choose(4), sp = c.choose(2);
    n.neg  = sign == 1 && n.mag;
    n.text = std::string(sp ? " " : "") + (sign == 1 ? "-" : sign == 2 ? "+" : "") + (base == 0 ? fmt("%llu", n.mag) : base == 1 ? fmt("0x%llx", n.mag) : base == 2 ? fmt("0X%llX", n.mag) : fmt("0%llo", n.mag));
    return n;
}
template <class T>
static void integer(Ctx& c, const char* tname, T def)
{
    Number n = number(c);
    if ( n.ok ) {
        if ( n.neg && !std::is_signed_v<T> ) c.discard();
        if ( n.mag > (unsigned long long)std::numeric_limits<T>::max() + (n.neg ? 1 : 0) ) c.discard(); // outside the type: unspecified
    }
    T v = n.neg ? (T)(0 - n.mag) : (T)n.mag;
    c.note("%s %s", tname, n.text.c_str());
    read_as<T>(c, tname, n.text, n.ok ? &v : nullptr, def, fmt("%lld", (long long)def));
}
template <class T>
static void real(Ctx& c, const char* tname)
{
    struct R { const char* t; double v; bool ok; };
    static const std::vector<R> L = { { "0", 0, true }, { "1", 1, true }, { "-1.5", -1.5, true }, { "+2.25", 2.25, true }, { ".5", .5, true }, { "5.", 5, true }, { "1e3", 1000, true }, { "1E-1", (double)(T)0.1L, true },
        { "0x10", 16, true }, { "-0x1p-3", -.125, true }, { "  4", 4, true }, { "16777216", 16777216, true }, { "1e30", (double)(T)1e30L, true }, { "0.333251953125", 0.333251953125, true }, { "007", 7, true },
        { "", 0, false }, { "abc", 0, false }, { "-", 0, false }, { ".", 0, false }, { "e5", 0, false }, { " ", 0, false } };
    const R& r = c.pick(L);
    T        v = (T)r.v;
    c.note("%s %s", tname, r.t);
    read_as<T>(c, tname, r.t, r.ok ? &v : nullptr, (T)-2.5, "-2.5");
}
static void scalars(Ctx& c)
{
    switch ( c.choose(13) ) {
    case 0: integer<int>(c, "int", -5); break;
    case 1: integer<unsigned>(c, "unsigned", 5); break;
    case 2: integer<long>(c, "long", -6); break;
    case 3: integer<unsigned long>(c, "unsigned long", 6); break;
    case 4: integer<long long>(c, "long long", -6); break;
    case 5: integer<unsigned long long>(c, "unsigned long long", 6); break;
    case 6: integer<short>(c, "short", -7); break;
    case 7: integer<uint16_t>(c, "uint16_t", 7); break;
    case 8: integer<int8_t>(c, "int8_t", -3); break;
    case 9: real<float>(c, "float"); break;
    case 10: real<double>(c, "double"); break;
    case 11: {
        static const std::vector<std::pair<std::string, int>> L = { { "true", 1 }, { "t", 1 }, { "yes", 1 }, { "y", 1 }, { "on", 1 }, { "1", 1 }, { "false", 0 }, { "f", 0 }, { "no", 0 }, { "n", 0 }, { "off", 0 },
            { "0", 0 }, { "", 2 }, { "maybe", 2 }, { "2", 2 }, { "tru", 2 }, { "truee", 2 }, { "-1", 2 }, { "00", 2 }, { "o", 2 }, { "nope", 2 }, { " true", 2 } };
        auto [t, w] = c.pick(L);
        if ( int up = c.choose(3) )
            for ( size_t i = 0; i < t.size(); ++i ) if ( up == 1 || i % 2 == 0 ) t[i] = toupper(t[i]);
        bool v = w == 1, d = c.flip();
        c.note("bool %s %d", t.c_str(), d);
        read_as<bool>(c, "bool", t, w < 2 ? &v : nullptr, d, d ? "true" : "no");
        break;
    }
    default: {
        static const std::vector<std::string> L = { "", "a", " a b ", "'q'", "\"q\"", "[1]", "%d", "a\nb", "true", "0x1" };
        std::string v = c.pick(L);
        c.note("string %s", v.c_str());
        read_as<std::string>(c, "string", v, &v, "dflt x", "dflt x");
    }
    }
    c.validated();
    c.nontrivial();
}

// ------------------------------------------------------------------ lists
struct Tok { std::string text, value; bool as_int; };
// Every way an element can be written.
static const std::vector<Tok> TOKS = {
    { "1", "1", true }, { "-2", "-2", true }, { "'3'", "3", true }, { "\"4\"", "4", true }, { "0x10", "0x10", true },
    { "a", "a", false }, { "a b", "a b", false }, { "'a, b'", "a, b", false }, { "\"x:y\"", "x:y", false }, { "'[q]'", "[q]", false }, { "'{'", "{", false },
    { "'say \"hi\"'", "say \"hi\"", false }, { "\"it's\"", "it's", false }, { "'it\\'s \"ok\"'", "it's \"ok\"", false }, { "\"a \\\"b\\\", c\"", "a \"b\", c", false },
    { "''", "", false }, { "' '", " ", false }, { "'a\\\"b'", "a\\\"b", false },
};
static int toint(const std::string& s) { return (int)strtol(s.c_str(), nullptr, 0); }
static void lists(Ctx& c)
{
    int  kind = c.choose(4); // array, set, old set, map
    int  n    = c.choose(c.thorough() ? 4 : 3 + (kind != 3));
    int  sepk = c.choose(4);
    static const char* SEP[] = { ", ", ",", " , ", "  ,\t" };
    bool ints = c.flip();
    std::vector<const Tok*> ts, vs;
    std::string body;
    int limit = ints ? 5 : (int)TOKS.size();
    for ( int i = 0; i < n; ++i ) {
        ts.push_back(&TOKS[n >= 3 && i == 2 ? 2 * c.choose(limit / 2) : c.choose(limit)]);
        if ( i ) body += SEP[sepk];
        body += ts.back()->text;
        if ( kind == 3 ) {
            vs.push_back(&TOKS[n == 1 ? c.choose(limit) : (i + c.choose(3) * 5 + 1) % limit]);
            body += (sepk == 1 ? ":" : sepk == 2 ? " : " : ": ") + vs.back()->text;
        }
    }
    if ( sepk >= 2 && n ) body = " " + body + " ";
    std::string text = kind == 0 ? "[" + body + "]" : kind == 2 ? "set([" + body + "])" : "{" + body + "}";
    Params p;
    p.insert("k", text);
    c.note("%d %d %s", kind, ints, text.c_str());
    c.check(p.is_value_array("k") == (kind == 0) && !p.is_value_array("other"), "is-array", "%s: is_value_array is %d", text.c_str(), p.is_value_array("k"));
    try {
        if ( kind == 0 ) {
            std::vector<std::string> sv { "pre" }, sw { "pre" };
            std::vector<int>         iv, iw;
            p.find_array<std::string>("k", sv);
            if ( ints ) p.find_array<int>("k", iv);
            for ( auto* t : ts ) { sw.push_back(t->value); if ( ints ) iw.push_back(toint(t->value)); }
            c.check(sv == sw && iv == iw, "array", "%s: another array of %zu", text.c_str(), sv.size() - 1);
        }
        else if ( kind < 3 ) {
            std::set<std::string> ss, sw;
            std::set<int>         is, iw;
            p.find_set<std::string>("k", ss);
            if ( ints ) p.find_set<int>("k", is);
            for ( auto* t : ts ) { sw.insert(t->value); if ( ints ) iw.insert(toint(t->value)); }
            c.check(ss == sw && is == iw, "set", "%s: another set of %zu", text.c_str(), ss.size());
        }
        else {
            std::map<std::string, std::string> m, w;
            std::map<int, int>                 im, iw;
            p.find_map<std::string, std::string>("k", m);
            if ( ints ) p.find_map<int, int>("k", im);
            for ( int i = 0; i < n; ++i ) { w[ts[i]->value] = vs[i]->value; if ( ints ) iw[toint(ts[i]->value)] = toint(vs[i]->value); }
            c.check(m == w && im == iw, "map", "%s: another map of %zu", text.c_str(), m.size());
        }
    }
    catch ( const std::invalid_argument& e ) { c.fail("list-refused", "%s: refused", text.c_str()); }
    c.step();
    c.validated();
    c.nontrivial();
}
static void malformed(Ctx& c)
{
    struct M { const char* text; char kind; bool ints_only; };
    static const std::vector<M> L = { { "[1,,2]", 'a', true }, { "[,1]", 'a', true }, { "[1, x]", 'a', true }, { "['1, 2]", 'a', false }, { "[\"a']", 'a', false }, { "[1 2", 'a', true },
        { "{1,,2}", 's', true }, { "{'a}", 's', false }, { "set(['a])", 's', false }, { "{1, z}", 's', true },
        { "{1:2, 3}", 'm', false }, { "{1:2:3}", 'm', false }, { "1:2", 'm', false }, { "[1:2]", 'm', false }, { "{1:}", 'm', true }, { "{:1}", 'm', true }, { "{'a:1}", 'm', false }, { "", 'm', false }, { "{", 'm', false } };
    const M& m = c.pick(L);
    if ( std::string(m.text) == "[1 2" ) c.discard(); // a single value with a trailing text: unspecified
    bool     ints = c.flip();
    if ( !ints && m.ints_only ) c.discard();
    Params p;
    p.insert("k", m.text);
    bool threw = false;
    try {
        if ( ints ) {
            std::vector<int> v; std::set<int> s; std::map<int, int> mm;
            if ( m.kind == 'a' ) p.find_array("k", v); else if ( m.kind == 's' ) p.find_set("k", s); else p.find_map("k", mm);
        }
        else {
            std::vector<std::string> v; std::set<std::string> s; std::map<std::string, std::string> mm;
            if ( m.kind == 'a' ) p.find_array("k", v); else if ( m.kind == 's' ) p.find_set("k", s); else p.find_map("k", mm);
        }
    }
    catch ( const std::invalid_argument& ) { threw = true; }
    c.note("%s %d", m.text, ints);
    c.check(threw, "malformed", "'%s' (%s) is accepted", m.text, ints ? "numbers" : "strings");
    static const std::vector<std::pair<std::string, bool>> ARR = { { "[]", true }, { "[1]", true }, { "1", false }, { "a[1]", false }, { "[1]b", false }, { "", false }, { "[", false }, { "]", false }, { "x[", false }, { "a]b[c", false } };
    for ( auto& [t, w] : ARR ) {
        Params q;
        q.insert("k", t);
        c.check(q.is_value_array("k") == w, "is-array", "'%s': is_value_array is %d", t.c_str(), !w);
    }
    c.step();
    c.validated();
    c.nontrivial();
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, { { "store", store }, { "scalars", scalars }, { "lists", lists }, { "malformed", malformed } });
}
