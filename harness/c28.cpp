// C28: independent callers in different threads do not disturb one another.
// PARTS: 7
#include "programs.h"
#include <parlay/alloc.h>
#include <parlay/delayed.h>
#include <parlay/hash_table.h>
#include <parlay/io.h>
#include <parlay/random.h>
#include <parlay/thread_specific.h>
#include <parlay/worker_specific.h>
#include <parlay/internal/concurrency/hazptr_stack.h>
using namespace prog;
#include "ops.h"
#if SIM_PART(7)
Op*& prog::ops() { static Op* head = nullptr; return head; }
#include <chrono>
namespace {
// what one independent caller does: some operations with a scheduler of its own (implicit, explicit, or both), then it may linger
void caller(const List& l, size_t ops, int sched, int P, size_t big) {
  auto body = [&] { for (size_t i = 0; i < ops; i++) { Op* o = l.pick(); sim::probe(o->name); o->f(size_for(big), sim::rnd()); } };
  if (sched == 0) body(); else if (sched == 1) parlay::execute_with_scheduler((unsigned)P, [&] { EQ(parlay::num_workers(), (size_t)P, "num_workers"); body(); EQ(parlay::worker_id() < (size_t)P, true, "worker_id"); }); else { body(); parlay::execute_with_scheduler((unsigned)P, body); body(); } }
void none_left(int before) { SIM_CHECK(sim::live_threads() == before, "threads", "%d threads are alive after all callers ended, %d before", sim::live_threads(), before); }
}
// several threads come, compute and go
SIM_SCENARIO(callers, 6) { List l; int T = (int)sim::param("threads", 2, 4); set_workers((int)sim::param("P", 1, 3)); bool here = sim::param("main_too", 0, 1); int mode = (int)sim::param("sched", 0, 3); int before = sim::live_threads();
  { std::thread main_like([&] { joiner j; for (int t = 0; t < T; t++) { unsigned d = (unsigned)sim::param_log("delay", 0, 400); size_t ops = 1 + sim::below(3); int s = mode < 3 ? mode : (int)sim::below(3), P = 1 + (int)sim::below(3); j.go([&, d, ops, s, P] { busy(d); caller(l, ops, s, P, 1200); }); } if (here) caller(l, 1 + sim::below(2), mode % 3, 2, 1200); j.join(); }); main_like.join(); }
  none_left(before); }
// the same operation by several callers, and by several tasks of each, past the library's sequential cutoffs
SIM_SCENARIO(same_callers, 4) { List l; Op* o = l.pick(); sim::probe(o->name); int T = (int)sim::param("threads", 1, 3); set_workers((int)sim::param("P", 1, 4)); size_t m = (size_t)sim::param("tasks", 1, 8), n = length("n", {1024, 2000, 2048, 3072, 4096, 8192}, (sim::instrumented() ? 18000 : 60000) / (int64_t)m / T); uint64_t k = sim::rnd(); int before = sim::live_threads();
  { joiner j; for (int t = 0; t < T; t++) j.go([&, t] { parlay::parallel_for(0, m, [&](size_t i) { o->f(n - n * i / 9, k + 7 * (uint64_t)t + i); }, 1); }); }
  none_left(before); }
// threads that live for a single short operation, one generation after another, next to a long-lived caller
SIM_SCENARIO(short_lived, 4) { List l; int gens = (int)sim::param("generations", 1, 5), T = (int)sim::param("threads", 1, 3); set_workers((int)sim::param("P", 1, 2)); int before = sim::live_threads();
  { joiner steady; std::atomic<bool> stop{false}; steady.go([&] { while (!stop) caller(l, 1, 0, 1, 300); }); for (int g = 0; g < gens; g++) { joiner j; for (int t = 0; t < T; t++) { int s = (int)sim::below(2); j.go([&, s] { caller(l, 1, s, 2, 100); }); } j.join(); } stop = true; steady.join(); }
  none_left(before); }
// a result outlives the thread that computed it, and is used and released by another one
SIM_SCENARIO(outliving, 3) { int T = (int)sim::param("threads", 2, 4); set_workers((int)sim::param("P", 1, 3)); uint64_t k = sim::rnd(); int before = sim::live_threads(); // all of it in a thread: releasing a long sequence starts the scheduler of the thread that does it
  std::thread all([&] { std::vector<parlay::sequence<long>> v((size_t)T); std::vector<parlay::sequence<std::string>> w((size_t)T); int mid = sim::live_threads(); { joiner j; for (int t = 0; t < T; t++) j.go([&, t] { v[t] = parlay::sort(data(size_for(3000), k + t, 1000)); w[t] = parlay::map(v[t], [](long x) { return word((uint64_t)x); }); }); }
    none_left(mid); { joiner j; for (int t = 0; t < T; t++) j.go([&, t] { int u = (t + 1) % T; SIM_CHECK(std::is_sorted(v[u].begin(), v[u].end()), "result", "a sequence made by another thread"); auto c = parlay::map(w[u], [](auto& s) { return s; }); for (size_t i = 0; i < c.size(); i++) SIM_CHECK(c[i] == word((uint64_t)v[u][i]), "result", "a sequence made by another thread"); v[u].push_back(7); v[u].clear(); w[u] = std::move(c); }); } }); all.join();
  none_left(before); }
// one thread waits for another inside a parallel computation of its own: no caller depends on another one's workers
SIM_SCENARIO(waiting, 3) { set_workers((int)sim::param("P", 1, 3)); int T = (int)sim::param("threads", 2, 3); List l; std::atomic<int> arrived{0}; int before = sim::live_threads(); bool par = sim::param("inside", 0, 1);
  { joiner j; for (int t = 0; t < T; t++) { size_t d = sim::below(200); j.go([&, d] { busy((unsigned)d); auto meet = [&] { arrived++; while (arrived < T) std::this_thread::yield(); }; if (par) parlay::par_do([&] { meet(); }, [&] { caller(l, 1, 0, 1, 100); }); else { caller(l, 1, 0, 1, 200); meet(); caller(l, 1, 0, 1, 200); } }); } }
  none_left(before); }
#endif
