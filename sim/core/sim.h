// Deterministic simulator core: seeded scheduler over fibers, virtual clocks, locks, heap and memory-access hooks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0xD1B54A32D192ED03ull) { s = next() ^ (seed * 0xff51afd7ed558ccdull); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// Scope in which nothing is a scheduling point, allocations come from the ordinary heap and no access is checked.
extern int g_off;
struct NoSim
{
  NoSim() { ++g_off; }
  ~NoSim() { --g_off; }
};

enum PointKind { P_MEM, P_SYNC };

struct Decision { uint64_t pt; int target; uint64_t freeze; };

struct SchedConfig
{
  bool replay = false;
  uint64_t seed = 1;
  double p_mem = 0.01;     // preemption probability at an access to memory shared between fibers
  double p_sync = 0.1;     // ... at a lock/atomic/clock/sleep/callback point
  double p_freeze = 0.2;   // probability that a preempted fiber is frozen for a while
  uint64_t max_freeze = 2000000;  // ns
  uint64_t freeze_budget = 6000000000ull;  // total frozen time per run, ns
  uint64_t cap = 3000000;  // scheduling points per run
  std::vector<Decision> decisions;  // for replay
};

struct Violation { std::string msg; };

struct RunResult
{
  bool violated = false;      // a violation of the target property
  std::string msg;
  bool other = false;         // ended early for a reason that belongs to another property
  std::string other_msg;
  uint64_t hash = 0;          // event log hash (with times)
  uint64_t order_hash = 0;    // event order hash (no times)
  uint64_t points = 0;
  uint64_t sim_ns = 0;
  uint64_t switches = 0, preemptions = 0, freezes = 0;
  std::vector<Decision> decisions;
  std::vector<std::string> trace;
  std::map<std::string, uint64_t> counters;
};

// ---- run control (called from the main context) ----
void begin_run(const SchedConfig& cfg, const std::string& target_prop, bool keep_trace);
int spawn(const std::string& name, std::function<void()> fn, bool daemon = false);
void own_faults();                 // memory faults, deadlocks and endless loops violate the property being checked, whichever it is
void run_fibers();                 // returns when all non-daemon fibers ended or the run was halted
RunResult end_run();
bool halted();

// ---- called from fibers ----
int cur();                         // -1 in the main context
void point(PointKind k);
void sleep_ns(uint64_t d);
extern void (*on_code_sleep)();    // called when code under test (not the harness) goes to sleep
uint64_t now();                    // monotonic simulated time, ns
int64_t wall();                    // wall clock, ns since epoch
void wall_jump(int64_t d);
void set_rt_section(bool on);      // current fiber executes code that must be realtime safe
void arm_alloc_fail(int k);        // the k-th allocation (1-based) of the current fiber throws bad_alloc; <=0 disarms
bool alloc_fail_fired();           // and resets the flag
uint64_t alloc_count();            // allocations made by the current fiber
bool in_arena(const void* p);
void sync_all();                    // orders everything all fibers did so far before what the current one does next
uint64_t frozen_total();             // time for which fibers have been frozen by the scheduler or paused in this run
void pause_all(uint64_t d);          // the whole process is stopped for a while

// arena allocation from the main context during set-up
struct ArenaScope { ArenaScope(); ~ArenaScope(); };

// ---- reporting ----
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const std::string& name, uint64_t n = 1);
// props: comma separated ids for which this is a violation. fatal: the run cannot usefully go on.
void fail(const char* props, bool fatal, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
bool target_is(const char* prop);
const std::string& target();
void note_other(const std::string& msg);  // not a violation of anything checked; ends the run

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
