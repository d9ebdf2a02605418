// Controlled execution of instrumented code: a serialising scheduler with vector clocks below the
// calls that -fsanitize=thread compiles into the library, in place of the sanitizer's own runtime.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

const int kMax = 3;                         // threads

// One program: objects made by a single thread, operations run by one thread each, results read afterwards.
struct Op { std::string name; std::function<void()> setup; std::function<void()> run; std::function<std::string()> result; };

struct Step { uint8_t chosen, enabled, current, asleep; };   // current: thread that could have gone on, or kMax
struct Event { uint64_t addr; uint32_t size; int32_t step; uint8_t tid, write; };   // a visible access and the decision that led to it, or -1; write 2: only orders what follows

// An access that was tried at the last decision of the prefix: the thread sleeps until something interferes with it.
struct Sleep { int tid; uint64_t addr; uint32_t size; uint8_t write; };

struct Run {
  bool ok = false;                          // ended; otherwise crash
  bool deadlock = false, diverged = false;
  bool pruned = false;                      // all that follows is equivalent to what was run
  std::string race;                         // unordered conflicting accesses
  std::string result[kMax];
  std::vector<Step> steps;                  // scheduling decisions
  std::vector<Event> events;
  std::vector<uint64_t> conflicts;          // granules that more than one thread accessed and at least one wrote
  uint64_t accesses = 0, visible = 0, sync = 0;
  bool truncated = false;                   // more decisions or accesses than were recorded
  std::string crash;
};

// Runs the operations made by `make(thread)` in a new process. `visible` lists the granules at whose accesses
// the scheduler may switch; `prefix` are the first decisions, afterwards the current thread goes on.
// `warm`: every operation ran once before.
Run Execute(int threads, const std::function<Op(int)>& make, bool warm, const std::vector<uint64_t>& visible, const std::vector<uint8_t>& prefix,
            const std::vector<Sleep>& sleep = std::vector<Sleep>());

extern std::vector<uint64_t> guard_variables;   // addresses of the guards of function-local statics
int Current();                              // controlled thread, -1 otherwise
std::string Place(uint64_t address);        // symbol of a granule

}  // namespace rt
