// A deterministic scheduler for threads of instrumented code, with a
// happens-before race detector.
//
// Code compiled with -fsanitize=thread calls the hooks in sched.cc instead of
// the TSan runtime.  While run() is active only one controlled thread executes
// at any time; at every hook (memory access, atomic operation, lock, wait,
// thread start and end) the plan may preempt it.  Mutexes, condition
// variables, joins and timed waits of controlled threads are modelled: a timed
// wait runs out only when no thread can run, and that advances the virtual
// clock.
#pragma once
#include "engine.h"

#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sched {

struct Plan {
  enum Mode { All = 0, Sync = 1, Shared = 2, Waits = 3 } mode = Shared;
  struct Preempt {
    uint32_t gap, who;  // points to let pass, who is next
    bool at_wake;       // counting from the next instant at which more than one timed wait runs out
  };
  std::vector<Preempt> preempt;
  std::vector<uint32_t> picks;                         // who is next when a thread blocks or ends
  bool races = true;
};

Plan draw_plan(vf::Ctx& c, bool timed = false);
std::string text(const Plan& p);

struct Result {
  std::string failure;  // deadlock, race, use of freed memory, or what fail() said
  uint64_t points = 0, switches = 0, preemptions = 0, timeouts = 0;
};

// runs body as the first controlled thread
Result run(const Plan& plan, const std::function<void()>& body);

// from the controlled main thread: run the bodies in threads of their own, with preemptions, and wait for all of them
void go(const std::vector<std::function<void()>>& bodies);
// preemptions for the code in f of the calling thread
void explore(const std::function<void()>& f);
// no preemptions while f runs
void atomically(const std::function<void()>& f);
// what the thread did so far has happened for those that wait for input from now on
void io_done();
void fail(const std::string& msg);
bool failed();
// a timed wait that runs out while this is on is a failure
void forbid_timeouts(const char* why);
// controlled threads that have not ended
int live();
// give the others a chance
void yield();
bool active();

}  // namespace sched
