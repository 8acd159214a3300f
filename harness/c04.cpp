// C04: scheduler instances are isolated; worker ids are stable, unique and dense.
#include "common.h"
using namespace hx;
namespace {
// one per scheduler instance; owner[id] is the simulated thread that has been seen as worker id
struct Inst { size_t p; std::atomic<int> owner[16]; int members; Inst(size_t p_) : p(p_) { for (auto& o : owner) o.store(-1); }
  void check(const char* where) {
    size_t w = parlay::worker_id(), n = parlay::num_workers(); int me = sim::tid();
    SIM_CHECK(n == p, "wrong-scheduler", "%s: num_workers()=%zu inside a scheduler of %zu (thread %d)", where, n, p, me);
    SIM_CHECK(w < p, "bad-id", "%s: worker_id()=%zu with %zu workers", where, w, p);
    int e = -1; if (!owner[w].compare_exchange_strong(e, me)) SIM_CHECK(e == me, "id-shared", "%s: worker id %zu used by threads %d and %d", where, w, e, me);
    for (size_t i = 0; i < p; i++) if (i != w) SIM_CHECK(owner[i].load() != me, "id-changed", "%s: thread %d was worker %zu and is now %zu", where, me, i, w); } };
void tree(Inst& I, int d) { I.check("task"); if (d) { parlay::par_do([&] { tree(I, d - 1); }, [&] { tree(I, d - 1); }); I.check("after join"); } }
void use(Inst& I, int depth, int nest) {
  I.check("start"); SIM_CHECK(parlay::worker_id() == 0, "creator-not-0", "creator of a scheduler is worker %zu", parlay::worker_id());
  tree(I, depth);
  if (nest > 0) { size_t w0 = parlay::worker_id(), n0 = parlay::num_workers();
    unsigned q = (unsigned)sim::param("q", 1, 4); Inst J(q); parlay::execute_with_scheduler(q, [&] { use(J, depth > 2 ? 2 : depth, nest - 1); });
    SIM_CHECK(parlay::worker_id() == w0 && parlay::num_workers() == n0, "not-restored", "after a nested scheduler: id %zu of %zu, before: %zu of %zu", parlay::worker_id(), parlay::num_workers(), w0, n0);
    tree(I, depth); }
  parlay::parallel_for(0, 9, [&](size_t i) { busy(i % 4); I.check("loop"); }, 1);
  SIM_CHECK(parlay::worker_id() == 0, "creator-not-0", "creator became worker %zu", parlay::worker_id());
}
}
SIM_SCENARIO(nesting, 4) { unsigned p = (unsigned)sim::param("p", 1, 5); int nest = (int)sim::param("nest", 0, 3), d = (int)sim::param("depth", 0, 4);
  set_workers((int)sim::param("P0", 1, 4)); bool pre = sim::param("outer_first", 0, 1); size_t n0 = 0; if (pre) n0 = parlay::num_workers();
  { Inst I(p); parlay::execute_with_scheduler(p, [&] { use(I, d, nest); }); }
  if (pre) { SIM_CHECK(parlay::num_workers() == n0 && parlay::worker_id() == 0, "not-restored", "outer scheduler lost"); }
  Inst I0((size_t)std::atoi(getenv("PARLAY_NUM_THREADS"))); use(I0, d, 0);
}
SIM_SCENARIO(from_tasks, 3) { // tasks of an outer scheduler create inner ones: stolen work must not leak between them
  unsigned p = (unsigned)sim::param("p", 1, 3), q = (unsigned)sim::param("q", 1, 3); int n = (int)sim::param("n", 1, 5); int d = (int)sim::param("depth", 0, 3);
  Inst I(p); parlay::execute_with_scheduler(p, [&] { parlay::parallel_for(0, n, [&](size_t) { I.check("outer"); size_t w = parlay::worker_id();
      Inst J(q); parlay::execute_with_scheduler(q, [&] { use(J, d, 0); }); I.check("outer again"); SIM_CHECK(parlay::worker_id() == w, "not-restored", "worker id %zu became %zu", w, parlay::worker_id()); tree(I, 1); }, 1); });
}
SIM_SCENARIO(user_threads, 5) { // several user threads, implicit and explicit schedulers at once
  int T = (int)sim::param("threads", 1, 3); int P = (int)sim::param("P", 1, 3); set_workers(P); int d = (int)sim::param("depth", 0, 3);
  { joiner j; for (int t = 0; t < T; t++) { int k = (int)sim::param("k", 0, 2); unsigned q = (unsigned)sim::param("q", 1, 3);
      j.go([=] { if (k == 1) { Inst J(q); parlay::execute_with_scheduler(q, [&] { use(J, d, 0); }); } Inst I((size_t)P); use(I, d, 0); if (k == 2) { Inst J(q); parlay::execute_with_scheduler(q, [&] { use(J, d, 0); }); I.check("after"); } }); }
    if (sim::param("main", 0, 1)) { Inst I((size_t)P); use(I, d, 0); } j.join(); }
}
