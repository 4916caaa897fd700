// Bounded exhaustive exploration of executions of real code.
//
// A harness registers scenarios.  Each scenario body is executed many times;
// every nondeterministic decision of an execution (thread scheduling in the
// concurrent engine, mc::choose() anywhere) is a choice point, and the
// explorer enumerates every combination of choices within the bounds.
//
// Two engines implement this interface:
//   rt.cpp  - concurrent: fibers under a controlled scheduler, race / memory
//             detection from compiler instrumentation, simulated sockets.
//   seq.cpp - sequential: plain calls, built with ASan/UBSan.
#ifndef MC_H
#define MC_H
#include <cstddef>
#include <cstdint>
#include <string>

namespace mc {

struct Bounds {
  int preemptions = 2;       // upper bound of deviations per execution
  int spurious = 0;          // 1: explore spurious condition wakeups
  int timeouts = 0;          // 1: explore early expiry of timed waits
  long horizon = 20000;      // scheduling steps per execution (livelock)
  bool warmup = true;        // run once before snapshotting static state
  bool leakcheck = true;     // every block of an execution must be released
  bool racecheck = true;
  bool fdcheck = true;       // simulated descriptors must be closed
  long accesses = 60000000;  // instrumented accesses per execution (hang)
};

struct Scenario {
  const char* name;
  void (*fn)();
  Bounds quick;
  Bounds thorough;
  int tiers;                 // 1 quick, 2 thorough, 3 both
};

void registerScenario(const Scenario& s);
struct Reg {
  Reg(const char* n, void (*f)(), Bounds q, Bounds t, int tiers) {
    registerScenario(Scenario{n, f, q, t, tiers});
  }
};

// --- used by scenario bodies -------------------------------------------
// Data nondeterminism: every value 0..n-1 is explored.
int choose(int n, const char* what = "");
// Environment deviation: value 0 is the default, every other value costs one
// unit of the deviation bound.
int deviate(int n, const char* what = "");
// Reports a property violation and ends the execution.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Ends the execution quietly (the choices made are outside the space).
[[noreturn]] void discard();
#define MC_CHECK(c, ...)                                   \
  do {                                                     \
    if (!(c)) ::mc::fail("check failed: " #c " " __VA_ARGS__); \
  } while (0)
// Appends to the execution's observation string (for outcome counting and
// replay traces).  In the concurrent engine it is ordered with respect to all
// other observations.
void observe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A free scheduling point (concurrent engine), ignored by the sequential one.
void yield();
// Number of steps so far: order of events within one execution.
long now();
bool thorough();
// Outcome classification for evidence: distinct strings are counted.
void outcomeC(const char* s);
inline void outcome(const std::string& s) { outcomeC(s.c_str()); }

// --- concurrent engine only ----------------------------------------------
// Blocks the calling thread until no other thread can make a step without
// the passage of time.
void quiesce();
// Counters shared by the threads of a scenario.  They are totally ordered,
// are no synchronisation for the code under test, and start at zero.
void set(int cell, long v);
long get(int cell);
long add(int cell, long v);          // returns the new value
// Ordered event log of the execution.
void eventC(const char* s, size_t n);
inline void event(const std::string& s) { eventC(s.data(), s.size()); }
int eventCount();
const char* eventText(int i, size_t* len);
int eventThread(int i);
inline std::string eventAt(int i) {
  size_t n;
  const char* p = eventText(i, &n);
  return std::string(p, n);
}
int self();                          // index of the calling thread
// Waits (without a deviation cost) until cell >= v.
void await(int cell, long v);
// Happens-before edges for data of the harness itself (no scheduling point).
void publish(int cell);
void subscribe(int cell);
// Runs the destructors of the static objects created by this execution, last
// first, as the process exit would.
void exitHandlers();
// Number of live (allocated, not freed) heap blocks of this execution.
long liveBlocks();

}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, q, t)                                       \
  static void name();                                                 \
  static ::mc::Reg MC_CAT(reg_, name)(#name, name, q, t, 3);          \
  static void name()
#define MC_SCENARIO_THOROUGH(name, t)                                 \
  static void name();                                                 \
  static ::mc::Reg MC_CAT(reg_, name)(#name, name, t, t, 2);          \
  static void name()

#endif
