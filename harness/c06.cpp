// C06: thread ids are unique among live threads, stable, dense, re-used with ordered hand-over.
#include "common.h"
#include <parlay/thread_specific.h>
using namespace hx;
namespace {
struct World {
  std::vector<std::atomic<int>> owner; std::vector<long> slot; std::atomic<int> live{0}, peak{0}; 
  World() : owner(256), slot(256, 0) {}
  void born() { int l = live.fetch_add(1) + 1; int p = peak.load(); while (p < l && !peak.compare_exchange_weak(p, l)) {} }
  void gone() { live.fetch_sub(1); }
  unsigned claim() { unsigned id = parlay::my_thread_id();
    SIM_CHECK(id < 256, "dense", "thread id %u", id); SIM_CHECK((int)id < peak.load(), "dense", "id %u handed out although at most %d threads were alive together", id, peak.load());
    SIM_CHECK(parlay::num_thread_ids() > id, "dense", "num_thread_ids()=%u but id %u exists", parlay::num_thread_ids(), id);
    int o = owner[id].exchange(sim::tid() + 1, std::memory_order_relaxed); SIM_CHECK(o == 0, "not-unique", "id %u held by threads %d and %d at once", id, o - 1, sim::tid());
    slot[id] = slot[id] + 1; return id; }     // plain access: ordered only by the id hand-over itself
  void check(unsigned id) { SIM_CHECK(parlay::my_thread_id() == id, "unstable", "thread id changed from %u to %u", id, parlay::my_thread_id()); slot[id]++; }
  // relaxed on purpose: the library must provide the ordering
  void release(unsigned id) { slot[id]++; owner[id].store(0, std::memory_order_relaxed); }
};
// released when the thread really lets go of its id: a thread_local destroyed after ours would be too late, so release right before the end
}
SIM_SCENARIO(waves, 6) {
  int waves = (int)sim::param("waves", 1, 4), nt = (int)sim::param("threads", 1, 7); bool self = sim::param("main_too", 0, 1); int over = (int)sim::param("overlap", 0, 2); int kind = (int)sim::param("kind", 0, 2);
  World w; unsigned mine = 0; w.born(); if (self) mine = w.claim();
  std::vector<std::unique_ptr<joiner>> js; int perw[4]; for (int& x : perw) x = (int)sim::below(nt) + 1;
  for (int v = 0; v < waves; v++) {
    js.emplace_back(new joiner);
    for (int i = 0; i < perw[v]; i++) { unsigned a = sim::below(6), b = sim::below(6); bool skip = sim::chance(1, 6); w.born();
      js.back()->go([&w, a, b, skip, kind] { busy(a); if (skip) return; unsigned id = w.claim(); for (unsigned k = 0; k < b; k++) { sim::yield_point(); w.check(id); }
        if (kind == 1) { std::thread t([&] { w.born(); unsigned c = w.claim(); w.check(c); w.release(c); }); w.check(id); t.join(); w.gone(); }
        w.check(id); w.release(id); }); }
    if ((int)js.size() > over) { size_t k = js.size() - 1 - over; if (js[k]) { size_t n = js[k]->t.size(); js[k]->join(); for (size_t i = 0; i < n; i++) w.gone(); js[k].reset(); } }
    if (self) w.check(mine);
  }
  for (auto& j : js) if (j) { size_t n = j->t.size(); j->join(); for (size_t i = 0; i < n; i++) w.gone(); j.reset(); }
  if (self) w.check(mine);
  unsigned n = parlay::num_thread_ids(); SIM_CHECK((int)n <= w.peak.load(), "dense", "%u ids assigned, at most %d threads alive together", n, w.peak.load());
}
// sequential churn: ids must be re-used, never grow
SIM_SCENARIO(churn, 3) {
  int n = (int)sim::param("n", 1, 30); World w; w.born();
  for (int i = 0; i < n; i++) { w.born(); std::thread t([&] { unsigned id = w.claim(); w.check(id); w.release(id); }); t.join(); w.gone(); }
  SIM_CHECK(parlay::num_thread_ids() <= 2, "dense", "%u ids after %d threads one after the other", parlay::num_thread_ids(), n);
}
// detached threads that outlive main's interest; worker threads of schedulers take ids too
SIM_SCENARIO(workers, 2) {
  int P = workers(1, 4), rounds = (int)sim::param("rounds", 1, 3); World w; w.born(); (void)w.claim();
  for (int r = 0; r < rounds; r++) {
    for (int i = 1; i < P; i++) w.born();
    parlay::execute_with_scheduler((unsigned)P, [&] { std::vector<std::atomic<long>> ids(P); for (auto& x : ids) x = -1;
      parlay::parallel_for(0, 40, [&](size_t) { size_t me = parlay::worker_id(); long id = parlay::my_thread_id(); SIM_CHECK((int)id < w.peak.load(), "dense", "worker thread got id %ld with %d threads", id, w.peak.load());
        long old = ids[me].exchange(id); SIM_CHECK(old == -1 || old == id, "unstable", "id of worker %zu changed %ld -> %ld", me, old, id); sim::yield_point(); }, 1);
      for (int i = 0; i < P; i++) for (int j = 0; j < i; j++) SIM_CHECK(ids[i] < 0 || ids[i] != ids[j], "not-unique", "workers %d and %d share thread id %ld", i, j, ids[i].load()); });
    for (int i = 1; i < P; i++) w.gone();
  }
  SIM_CHECK((int)parlay::num_thread_ids() <= w.peak.load(), "dense", "%u ids for at most %d threads", parlay::num_thread_ids(), w.peak.load());
}
