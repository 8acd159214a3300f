// C03: fork-join programs and scheduler start-up and shutdown always finish.
// The oracle is the runtime itself: a deadlock, a run that does not finish under a fair fault-free schedule, or a
// worker thread left behind is a violation. Timers may be arbitrarily slow (stop_timers), so progress may not hinge on a time-out.
#include "common.h"
#include <chrono>
using namespace hx;
static void nap() { int k = (int)sim::param("nap", 0, 3); if (k == 1) std::this_thread::sleep_for(std::chrono::milliseconds(sim::param_log("ms", 1, 60))); else if (k == 2) std::this_thread::sleep_for(std::chrono::microseconds(sim::param_log("us", 1, 9000))); else if (k == 3) busy((unsigned)sim::param_log("spin", 1, 3000)); }
static void some_work(int n, bool cons) { std::vector<int> c(n, 0); parlay::parallel_for(0, n, [&](size_t i) { c[i]++; busy(i % 3); }, 1, cons); for (int i = 0; i < n; i++) SIM_CHECK(c[i] == 1, "not-once", "iteration %d ran %d times", i, c[i]); }
static void timers() { sim::budget(6000000); if (sim::param("timers_never_fire", 0, 1)) sim::stop_timers(true); }
SIM_SCENARIO(create_destroy, 4) {
  timers(); int rounds = (int)sim::param("rounds", 1, 4);
  for (int r = 0; r < rounds; r++) { int P = (int)sim::param("P", 1, 7); int k = (int)sim::param("k", 0, 3);
    parlay::execute_with_scheduler((unsigned)P, [&] { if (k & 1) some_work((int)sim::param("n", 0, 20), false); if (k & 2) nap(); }); SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still alive after the scheduler was destroyed", sim::live_threads() - 1); }
}
SIM_SCENARIO(sleep_wake, 5) { // workers fall asleep between bursts of work
  timers(); int P = (int)sim::param("P", 2, 5), bursts = (int)sim::param("bursts", 1, 4);
  parlay::execute_with_scheduler((unsigned)P, [&] { for (int b = 0; b < bursts; b++) { nap(); some_work((int)sim::param("n", 1, 30), sim::param("cons", 0, 1)); } if (sim::param("napend", 0, 1)) nap(); });
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still alive", sim::live_threads() - 1);
}
SIM_SCENARIO(implicit_exit, 3) { // implicit schedulers owned by threads that exit (and by main)
  timers(); workers(1, 4); int T = (int)sim::param("threads", 0, 3); int n = (int)sim::param("n", 0, 12);
  joiner j; for (int t = 0; t < T; t++) j.go([=] { if (t & 1) nap(); some_work(n, false); });
  if (sim::param("main", 0, 1)) some_work(n, true); j.join();
}
SIM_SCENARIO(unbalanced, 3) { // one long branch, others starve, then late work appears
  timers(); int P = (int)sim::param("P", 2, 5); int d = (int)sim::param("d", 1, 12); unsigned len = (unsigned)sim::param_log("len", 1, 4000);
  parlay::execute_with_scheduler((unsigned)P, [&] { int done = 0;
    struct R { unsigned len; int go(int d) { if (!d) return 1; int a = 0, b = 0; parlay::par_do([&] { busy(len / (d + 1)); a = go(d - 1); }, [&] { busy(d * 3); b = 1; }, d % 3 == 0); return a + b; } } r{len}; done = r.go(d);
    SIM_CHECK(done == d + 1, "not-once", "%d leaves of %d", done, d + 1); });
}
SIM_SCENARIO(nested_shutdown, 2) { // a scheduler created and destroyed inside tasks of another
  timers(); int P = (int)sim::param("P", 1, 3), Q = (int)sim::param("Q", 1, 3), n = (int)sim::param("n", 1, 5);
  parlay::execute_with_scheduler((unsigned)P, [&] { parlay::parallel_for(0, n, [&](size_t i) { parlay::execute_with_scheduler((unsigned)Q, [&] { some_work(3 + (int)i, false); }); }, 1, true); });
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads still alive", sim::live_threads() - 1);
}
