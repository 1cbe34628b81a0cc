// A controlled scheduler for generated schedules.
//
// vs::run() runs a function as the first of a set of managed threads. Only one
// managed thread runs at any time, and which one continues at each
// synchronization operation and memory access is drawn from the Case, so that
// a schedule is generated, shrunk and replayed like any other input.
// Blocking, timeouts and sleeps use virtual time; a state in which no thread
// can continue is a deadlock, and is reported as such.
//
// The code under test is built with -fsanitize=thread instrumentation, whose
// runtime is this file: it reports data races (vector clocks) and accesses to
// freed memory.
#pragma once

#include "pbt.h"

#include <functional>
#include <string>

namespace vs {

struct Config {
  bool spurious = true;       // generate spurious condition variable wakeups
  bool races = true;          // report data races
  bool earlyTimers = true;    // timers may fire while threads are runnable
  uint64_t maxSteps = 20000000;
};

// run() returns once f has returned and all the threads it started have ended.
void run(pbt::Case& c, const std::function<void()>& f, Config cfg = {});

bool active();  // the calling thread is a managed thread
int tid();      // index of the calling thread, 0 is the one that runs f
int64_t now();  // virtual nanoseconds
uint64_t switches();  // context switches so far
uint64_t preemptions();  // switches away from a thread that could continue
int threadCount();    // threads started so far

// Quiet suspends scheduling and race detection for the calling thread. Used by
// the bookkeeping of a harness.
struct Quiet {
  Quiet();
  ~Quiet();
};

// yield() is a scheduling point.
void yield();
// waitUntil() blocks until the predicate (evaluated quietly) holds.
void waitUntil(const char* what, const std::function<bool()>& pred);
// As above, until the virtual time deadlineNs (-1: none). Returns false if the
// predicate does not hold then.
bool waitUntil(const char* what, const std::function<bool()>& pred,
               int64_t deadlineNs);
// waitIdle() blocks until no other thread can continue. With timers, it also
// waits for the pending timeouts and sleeps.
void waitIdle(bool timers = true);
// blocked() returns the number of threads that cannot continue (called when
// idle).
int blocked();
// sleep() blocks for the given virtual time.
void sleep(int64_t ns);

// Blocks the calling thread until the descriptor has one of the poll() events,
// or the virtual deadline (-1: none) has passed. Returns the events.
int waitFd(int fd, int events, int64_t deadlineNs);

// In an unmanaged context: real functions.
}  // namespace vs
