// Deterministic-simulation runtime: API used by the harnesses in /verif/harness.
// One kernel thread runs every simulated thread as a fiber; see rt.cpp and DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdarg>

namespace sim {

// ---- workload randomness (drawn from the run's seed; independent of the schedule) ----
uint64_t rnd();                               // bulk data, not minimised
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline bool chance(unsigned num, unsigned den) { return below(den) < num; }
// A named workload parameter in [lo,hi]; recorded in the replay file and minimised towards lo.
int64_t param(const char* name, int64_t lo, int64_t hi);
// Log-uniform parameter (small values are more likely).
int64_t param_log(const char* name, int64_t lo, int64_t hi);
// One of the listed values (index is the parameter).
template <size_t N> inline int64_t param_of(const char* name, const int64_t (&v)[N]) { return v[param(name, 0, (int64_t)N - 1)]; }

// ---- verdicts ----
[[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// abandon this run without a verdict (e.g. resource cap of the simulator itself)
[[noreturn]] void inconclusive(const char* why);
#define SIM_CHECK(cond, tag, ...) do { if (!(cond)) ::sim::fail(tag, __VA_ARGS__); } while (0)
// A violation listed in known-findings.json under this key is counted, not reported.
// Returns true if the finding is listed (the caller then skips the rest of that comparison).
bool known_finding(const char* key);

// ---- observation ----
void probe(const char* name, uint64_t n = 1); // "rare condition reached" counters, reported in evidence
uint64_t step();                              // global event sequence number (stamps histories)
uint64_t now_ns();                            // simulated time
int tid();                                    // simulated thread id (0 = main)
int live_threads();                           // simulated threads not yet finished
void state(uint64_t h);                       // report an abstract state (distinct-state coverage)
inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }

// ---- control ----
void yield_point();                           // explicit scheduling point in harness code
void no_faults_begin(); void no_faults_end(); // region without preemption or faults (oracle code)
struct Quiet { Quiet() { no_faults_begin(); } ~Quiet() { no_faults_end(); } };
void set_hw_concurrency(unsigned n);          // value of std::thread::hardware_concurrency()
void set_phys_mem(uint64_t bytes);            // sysconf(_SC_PHYS_PAGES) * page size
void io_faults(bool on);                      // short reads/writes and EINTR on file descriptors
void alloc_fail_after(int64_t n);             // n-th next operator new of this thread throws bad_alloc; -1 = off
bool alloc_fail_fired();
void stop_timers(bool on);                    // timeouts never fire (an arbitrarily slow timer), so lost wakeups become deadlocks
void at_end(void (*f)());                     // run f after main's thread_locals and this run's function-local statics were destroyed
void budget(uint64_t fair_steps);             // steps allowed after faults stop

// heap accounting of operator new / malloc since the run started
uint64_t heap_live_bytes(); uint64_t heap_live_blocks(); uint64_t heap_total_allocs();
// instrumented accesses made by the oracle itself: annotate a read/write of [p,p+n) by the current thread
void note_read(const void* p, size_t n); void note_write(const void* p, size_t n);
bool instrumented();                          // true in the full build (plain accesses checked)

// ---- scenarios ----
struct Scenario { const char* name; void (*fn)(); int weight; Scenario* next;
  Scenario(const char* n, void (*f)(), int w); };
Scenario* scenarios();                        // the registered scenarios
// a harness compiled in several parts guards its scenarios by #if SIM_PART(k)
#ifndef SIM_PARTNO
#define SIM_PARTNO 0
#endif
#define SIM_PART(k) (SIM_PARTNO == 0 || SIM_PARTNO == (k))
#define SIM_SCENARIO(name, weight) \
  static void scn_##name(); static ::sim::Scenario reg_##name(#name, scn_##name, weight); static void scn_##name()

} // namespace sim
