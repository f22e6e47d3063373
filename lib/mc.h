// Bounded-exhaustive explorer.
//
// A *scenario* is a deterministic function of the choices it draws through
// Ctx::choose().  The explorer runs it once for every leaf of the choice tree
// (depth first, stateless: each execution replays its prefix), so a scenario
// that terminates is decided for every combination of choices.  The tree is
// split over worker processes by a hash of the first choices.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation { std::string sig, msg; };
struct Skip {};     // this execution belongs to another worker
struct Discard {};  // the combination of choices is not a case (does not count)

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string vfmt(const char* f, va_list ap);

class Ctx
{
public:
    // Draws one of n alternatives.
    int choose(int n);
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    template <class T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
    bool flip() { return choose(2) == 1; }
    // Alternative 0 is free, any other one costs one unit of the budget.
    int  deviate(int n, int& budget) { if ( budget <= 0 ) return 0; int r = choose(n); if ( r ) --budget; return r; }

    [[noreturn]] void fail(const std::string& sig, const char* f, ...) __attribute__((format(printf, 3, 4)));
    void check(bool ok, const char* sig, const char* f, ...) __attribute__((format(printf, 4, 5)));
    [[noreturn]] void discard() { throw Discard(); }

    // What the execution did; its hash decides distinctness of the case.
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    // transitions (steps of the system under test) taken by this execution
    void step(uint64_t n = 1) { steps += n; }
    // a state reached (hash of its canonical form)
    void state(uint64_t h);
    // a trace whose outcome was compared against the implementation
    void validated(uint64_t n = 1) { nvalid += n; }

    bool thorough() const { return thorough_; }

    // ---- used by the driver
    std::vector<int> stack, arity;
    size_t           pos = 0;
    std::string      trace;
    bool             nontriv = false, replaying = false, thorough_ = false;
    uint64_t         steps = 0, nvalid = 0;
    std::unordered_set<uint64_t>* states = nullptr;
    int              shard = 0, nshards = 1;
    double           weight = 1;
    bool             decided = false;
    uint64_t         prefix = 1469598103934665603ull;
    void             reset();
    void             decide();
};

uint64_t hash(const std::string& s);
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

// Result of running something in a forked child.
struct Child { int exit_code = 0; int signal = 0; bool timeout = false; std::string out; };
Child in_child(const std::function<void(int fd)>& body, double limit_s = 20);

struct Scenario
{
    std::string               name;
    std::function<void(Ctx&)> body;
    double                    case_limit_s = 10;
    int                       max_jobs     = 1 << 20; // cases that use several cores each
};

int run(int argc, char** argv, const std::vector<Scenario>& scenarios);

} // namespace mc
#endif
