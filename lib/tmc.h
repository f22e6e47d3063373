// Stateless model checker for threads.
//
// The code under test is compiled with -fsanitize=thread; the calls the compiler
// inserts (plain accesses, atomics) end in tmc.cc instead of the sanitizer's
// runtime, as do the pthread mutex, sched_yield and nanosleep calls.  Of the
// bodies passed to run() one executes at a time.  Before every atomic and every
// mutex operation the explorer may switch to another thread; the choices come
// from mc::Ctx, so that all schedules with at most `preemptions` switches away
// from a thread that could go on are enumerated.  Plain accesses are checked for
// data races with vector clocks that follow the memory orders given (hence code
// without data races is covered by switching at synchronisation alone), and
// freed memory is quarantined, so that use after free and double free show.
// A thread that repeats the same operations with the same values spins: it is
// put aside until something changes (no cost); when all are put aside for good
// the schedule is reported as a deadlock.
#ifndef VERIF_TMC_H
#define VERIF_TMC_H
#include "mc.h"
#include <functional>
#include <vector>

namespace tmc {
struct Opts
{
    int      preemptions = 2;
    uint64_t max_steps   = 20000;
    bool     races       = true;
    bool     serial      = false; // the bodies one after the other, no choices
};
static const int MAXT = 5; // with the main thread

// Runs the bodies to completion under one schedule.  Fails on deadlock, livelock, data race, use after free.
void run(mc::Ctx& c, const Opts& o, const std::vector<std::function<void()>>& bodies);
// From a body: reports a violation (the execution is completed without further switches).
void fail(const char* sig, const char* f, ...) __attribute__((format(printf, 2, 3)));
// From a body: a stamp that grows with every call in the order of the schedule.
uint64_t stamp();
// From a body: a point at which the explorer may switch although nothing is shared.
void point();
uint64_t last_steps();
// Ends the threads of earlier runs, so that the next run starts with fresh thread-local data.
void fresh_threads();
// Puts the static data of the core's sources in this program back to what they were at the first call.
void reset_statics();
} // namespace tmc
#endif
