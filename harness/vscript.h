// The little language that drives the vtest components.
//
//   rules  := rule { ';' rule }
//   rule   := trigger [ '[' lo '-' hi ']' ] '>' action { ',' action }
//   trigger:= S setup | I<n> init phase n | K<n> complete phase n | F finish
//           | E<i> event at port i (condition on the value) | C<i> clock handler i (condition on the cycle)
//           | U<i> untimed data at port i (condition on the value) | Q<i> value polled from port i
//           | G<n> the n-th received event or clock tick of the component (condition unused)
//   action := s<port>:<delay>:<val>  send          val := <int> | '+'<int> (relative to the trigger's value)
//           | u<port>:<val>          send untimed data
//           | r<clk> reregister | x<clk> unregister | n<clk> first registration | a<clk> activate | d<clk> deactivate
//           | q<clk> ask for the next cycle | R stop this clock | P<port> poll everything due
//           | W<ms> sleep that long in wall-clock time
//           | O ok to end | D do not end | g draw and log a random number | t<i>:<val> add to statistic i
//           | o<id>:<delay>:<prio> one-shot after a delay | z<id>:<time>:<prio> one-shot at a time (trigger T<id>)
//           | y<i>:<code> statistic i: 0 disable, 1 enable, 2/4 no output/output at the end, 3 clear, 5 output now, 6 output all
//             statistics of this partition, 100+n add the value 3 n times
//           | N<port>:<delay> send a null event | c<port>:<delay>:<unit ps>:<val> send with a TimeConverter
#ifndef VERIF_VSCRIPT_H
#define VERIF_VSCRIPT_H
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

namespace vs {
struct Action { char op = 0; int i = 0; int64_t d = 0, u = 0, v = 0; bool rel = false; };
struct Rule { char trig = 0; int i = 0; int64_t lo = 0, hi = 0; bool cond = false; std::vector<Action> acts; };

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> o;
    std::string              cur;
    for ( char x : s ) { if ( x == c ) { o.push_back(cur); cur.clear(); } else cur += x; }
    if ( !cur.empty() || !o.empty() ) o.push_back(cur);
    return o;
}
inline Action parse_action(const std::string& t)
{
    Action a;
    a.op   = t[0];
    auto f = split(t.substr(1), ':');
    auto val = [&](const std::string& s) { if ( !s.empty() && s[0] == '+' ) { a.rel = true; a.v = atoll(s.c_str() + 1); } else a.v = atoll(s.c_str()); };
    if ( !f.empty() ) a.i = atoi(f[0].c_str());
    switch ( a.op ) {
    case 's': a.d = atoll(f.at(1).c_str()); val(f.at(2)); break;
    case 'c': a.d = atoll(f.at(1).c_str()); a.u = atoll(f.at(2).c_str()); val(f.at(3)); break;
    case 'u': case 't': case 'y': val(f.at(1)); break;
    case 'N': a.d = atoll(f.at(1).c_str()); break;
    case 'o': case 'z': a.d = atoll(f.at(1).c_str()); a.v = atoll(f.at(2).c_str()); break;
    default: break;
    }
    return a;
}
inline std::vector<Rule> parse(const std::string& s)
{
    std::vector<Rule> out;
    for ( auto& t : split(s, ';') ) {
        if ( t.empty() ) continue;
        Rule   r;
        size_t g = t.find('>');
        std::string h = t.substr(0, g);
        size_t b = h.find('[');
        if ( b != std::string::npos ) {
            std::string c = h.substr(b + 1, h.size() - b - 2);
            size_t      m = c.find('-');
            r.lo = atoll(c.substr(0, m).c_str());
            r.hi = m == std::string::npos ? r.lo : atoll(c.substr(m + 1).c_str());
            r.cond = true;
            h      = h.substr(0, b);
        }
        r.trig = h[0];
        r.i    = h.size() > 1 ? atoi(h.c_str() + 1) : 0;
        for ( auto& a : split(t.substr(g + 1), ',') ) if ( !a.empty() ) r.acts.push_back(parse_action(a));
        out.push_back(r);
    }
    return out;
}
inline bool match(const Rule& r, char trig, int i, int64_t v)
{
    if ( r.trig != trig || r.i != i ) return false;
    return !r.cond || (v >= r.lo && v <= r.hi);
}

// what a component saw
struct Rec { int32_t comp; char kind; int32_t i; uint64_t t; int64_t a, b; uint32_t rank, thread; };
} // namespace vs
// exported by the harness executable
extern "C" void vt_log(int comp, char kind, int i, uint64_t t, int64_t a, int64_t b, unsigned rank, unsigned thread);
#endif
