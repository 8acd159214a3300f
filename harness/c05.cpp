// C05: WorkerSpecific: one element per worker, stable, distinct, initialised once, sums exact.
#include "common.h"
#include <parlay/worker_specific.h>
#include <parlay/primitives.h>
using namespace hx;
namespace {
struct Cell { long v; long id; int inits; explicit Cell(long i) : v(0), id(i), inits(1) {} Cell(const Cell&) = delete; Cell& operator=(const Cell&) = delete; };
template <class WS> void use(WS& ws, size_t p, size_t n, long gran, int mode) {
  std::vector<void*> addr(p, nullptr); std::vector<int> hits(n, 0);
  parlay::parallel_for(0, n, [&](size_t i) {
    size_t w = parlay::worker_id(); SIM_CHECK(w < p, "bad-id", "worker id %zu >= %zu", w, p);
    auto* c = &*ws; SIM_CHECK(c == &ws.get() && c == ws.operator->(), "unstable", "operator*, get and -> differ");
    if (addr[w]) SIM_CHECK(addr[w] == (void*)c, "unstable", "worker %zu element moved", w); else addr[w] = (void*)c;
    const WS& cws = ws; SIM_CHECK(&*cws == c, "unstable", "const access differs");
    if (mode == 0) c->v += (long)i + 1;
    else if (mode == 1) { long o = c->v; sim::yield_point(); c->v = o + (long)i + 1; }
    else { parlay::par_do([&] { ws->v += (long)i; }, [&] { ws->v += 1; }); }
    hits[i]++;
  }, gran);
  long tot = 0, want = (long)n * ((long)n + 1) / 2; size_t k = 0;
  for (auto& c : ws) { tot += c.v; SIM_CHECK(c.inits == 1, "bad-init", "element %zu not initialised once", k); if (c.id >= 0) SIM_CHECK((size_t)c.id == k, "bad-init", "element %zu was initialised with id %ld", k, c.id); k++; }
  SIM_CHECK(k == p, "iteration", "iterating visited %zu elements, there are %zu workers", k, p);
  SIM_CHECK(tot == want, "lost-update", "sum over workers %ld, expected %ld", tot, want);
  { const WS& cws = ws; size_t i = 0; for (auto& c : cws) { SIM_CHECK(&c == &ws.begin()[(ssize_t)i], "iteration", "const iteration differs at %zu", i); i++; } SIM_CHECK(i == p, "iteration", "const iteration visits %zu of %zu", i, p);
    auto b = ws.begin(), e = ws.end(); size_t x = (size_t)sim::below(p), y = (size_t)sim::below(p); auto ix = b + (ssize_t)x, iy = e - (ssize_t)(p - y);
    SIM_CHECK((ix == iy) == (x == y) && (ix != iy) == (x != y) && (ix < iy) == (x < y) && (ix > iy) == (x > y) && (ix <= iy) == (x <= y) && (ix >= iy) == (x >= y) && ix - iy == (ssize_t)x - (ssize_t)y, "iteration", "iterators at %zu and %zu compare wrongly", x, y);
    ix += (ssize_t)y - (ssize_t)x; SIM_CHECK(ix == iy && &*ix == &b[(ssize_t)y], "iteration", "jump from %zu to %zu", x, y); ix -= (ssize_t)y; SIM_CHECK(ix == b, "iteration", "jump back from %zu", y); }
  long t2 = 0; size_t k2 = 0; std::vector<void*> seen; ws.for_each([&](auto& c) { t2 += c.v; k2++; seen.push_back(&c); });
  std::sort(seen.begin(), seen.end()); SIM_CHECK(std::adjacent_find(seen.begin(), seen.end()) == seen.end() && k2 == p && t2 == want, "iteration", "for_each visited %zu elements, sum %ld (expected %zu, %ld)", k2, t2, p, want);
  SIM_CHECK((size_t)(ws.end() - ws.begin()) == p, "iteration", "size %zd", (ssize_t)(ws.end() - ws.begin()));
  for (size_t i = 0; i < p; i++) if (addr[i]) { SIM_CHECK(std::binary_search(seen.begin(), seen.end(), addr[i]), "iteration", "element of worker %zu not visited", i); SIM_CHECK((void*)&ws.begin()[i] == addr[i], "iteration", "begin()[%zu] is not the element of worker %zu", i, i); for (size_t j = 0; j < i; j++) SIM_CHECK(addr[i] != addr[j], "shared", "workers %zu and %zu share an element", i, j); }
}
}
SIM_SCENARIO(by_id, 4) {
  size_t n = (size_t)sim::param_log("n", 1, 300); long gran = sim::param("gran", 0, 3); int mode = (int)sim::param("mode", 0, 2);
  with_sched([&] { size_t p = parlay::num_workers(); int made = 0;
    { parlay::WorkerSpecific<Cell> ws([&](size_t i) { made++; return Cell((long)i); }); use(ws, p, n, gran, mode); }
    SIM_CHECK(made == (int)p, "bad-init", "constructor function called %d times for %zu workers", made, p); });
}
SIM_SCENARIO(by_value, 2) {
  size_t n = (size_t)sim::param_log("n", 1, 200);
  with_sched([&] { size_t p = parlay::num_workers();
    parlay::WorkerSpecific<Cell> a([] { return Cell(-1); }); use(a, p, n, 1, 0);
    parlay::WorkerSpecific<std::atomic<long>> b([] { return 7; });
    parlay::parallel_for(0, n, [&](size_t i) { (*b).fetch_add((long)i, std::memory_order_relaxed); }, 1);
    long s = 0; for (auto& x : b) s += x.load(std::memory_order_relaxed);
    SIM_CHECK(s == (long)(7 * p + n * (n - 1) / 2), "lost-update", "atomic sum %ld", s);
    parlay::WorkerSpecific<long> z; long zs = 0; z.for_each([&](long& x) { zs += x; }); SIM_CHECK(zs == 0, "bad-init", "default elements are not value-initialised (%ld)", zs); });
}
// several objects, used through nested schedulers: an object belongs to the scheduler it was made in
SIM_SCENARIO(nested, 2) {
  int q = (int)sim::param("q", 1, 4); size_t n = (size_t)sim::param_log("n", 1, 60);
  with_sched([&] { size_t p = parlay::num_workers();
    parlay::WorkerSpecific<Cell> outer([](size_t i) { return Cell((long)i); });
    std::vector<long> inner_sums(n, -1);
    parlay::parallel_for(0, n, [&](size_t i) {
      outer->v += 1; auto* before = &*outer;
      if (i % 7 == 3) { parlay::execute_with_scheduler((unsigned)q, [&] { { parlay::WorkerSpecific<Cell> same([](size_t k) { return Cell((long)k); }); use(same, (size_t)q, 6, 1, 0); } // same type as outer, other worker ids
          parlay::WorkerSpecific<long> in([](size_t k) { return (long)k; });
          parlay::parallel_for(0, 10, [&](size_t j) { *in += (long)j * 100; }, 1); long s = 0; size_t c = 0; for (long& x : in) { s += x; c++; }
          SIM_CHECK(c == (size_t)q, "iteration", "inner object has %zu elements for %d workers", c, q); inner_sums[i] = s; }); 
        SIM_CHECK(&*outer == before, "unstable", "element changed across a nested scheduler"); SIM_CHECK(inner_sums[i] == 4500 + (long)q * (q - 1) / 2, "lost-update", "inner sum %ld", inner_sums[i]); }
    }, 1);
    long s = 0; size_t c = 0; for (auto& x : outer) { s += x.v; c++; } SIM_CHECK(s == (long)n && c == p, "lost-update", "outer sum %ld of %zu", s, n); }, 4);
}
