#pragma once
// Controlled scheduling of real threads.
//
// The check is compiled with clang's thread-sanitizer instrumentation but linked with mc/sched_rt.cc instead of the
// sanitizer's runtime.  Within explore() exactly one thread runs at a time; thread creation, join, mutexes, condition
// variables, futexes (hence std::barrier, std::latch, atomic waits), one-time initialisation and atomics are scheduling
// points, and explore() repeats `body` under every schedule of the chosen strategy:
//
//   DPOR   every Mazurkiewicz trace of the scheduling points (Flanagan/Godefroid with sleep sets): no bound on
//          preemptions.  Complete if the program has no data race - which is checked in every execution.
//   DELAY  every schedule that deviates from the deterministic one at most `delays` times.
//
// In every execution, all plain memory accesses (and free) are checked for data races by happens-before.

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace kmc::sched {

struct Options {
  enum Strategy { DPOR, DELAY } strategy = DPOR;
  bool fine = true;  // every atomic is a scheduling point; otherwise only the sequentially consistent ones
  int delays = 1;
  int rotate = 0;    // DELAY: the deterministic schedule passes on to the next thread at every rotate-th point (0: only when blocked)
  std::uint64_t shard = 0, shards = 1;  // DELAY: explore the schedules whose first deviation is at a point = shard mod shards
  std::uint64_t max_executions = 0;     // 0: no limit (Result::complete says whether the limit was met)
  std::uint64_t max_events = 400000;    // per execution, beyond: reported as "does not end"
  unsigned seconds = 20;                // per execution, beyond: reported as a hang
  bool fork = true;                     // explore in a child process
};

struct Result {
  std::uint64_t executions = 0;  // complete executions judged
  std::uint64_t pruned = 0;      // executions cut off as equivalent to one already explored
  std::uint64_t events = 0;      // scheduling points executed
  std::uint64_t max_events = 0;  // in one execution
  std::uint64_t max_live = 0;    // most threads besides the caller alive at a time
  std::uint64_t accesses = 0;    // plain accesses checked for races
  bool complete = true;
  char key[64] = {};
  char text[6000] = {};
  bool violated() const { return key[0] != 0; }
};

// body runs one execution in the calling thread; judge is called after each and returns an empty string or
// "key: explanation".
Result explore(const Options& options, const std::function<void()>& body, const std::function<std::string()>& judge);

// Within body: a scheduling point of the harness, conflicting with others on the same object.
void point(const void* object);
// Within body: threads besides the calling one that are alive now / at most were in this execution.
std::size_t live_threads();
std::size_t max_live_threads();
std::size_t created_threads();
// The number of the calling thread in this execution: 0 the caller of explore(), others in order of creation.
int self_id();

}  // namespace kmc::sched
