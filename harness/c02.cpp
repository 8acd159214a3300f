// C02: parallel loops visit every index exactly once and only in range.
#include "common.h"
#include <limits>
using namespace hx;
namespace {
struct Visits { size_t start, end; std::vector<int> c; Visits(size_t s, size_t e) : start(s), end(e), c(e > s ? e - s : 0, 0) {}
  void hit(size_t i) { SIM_CHECK(i >= start && i < end, "out-of-range", "index %zu called for range [%zu,%zu)", i, start, end); c[i - start]++; }
  void verify() { for (size_t i = 0; i < c.size(); i++) SIM_CHECK(c[i] == 1, "not-once", "index %zu (range [%zu,%zu)) visited %d times", start + i, start, end, c[i]); } };
int64_t maxn() { return sim::instrumented() ? 4000 : 60000; }
size_t pick_start() { switch (sim::param("startk", 0, 4)) { case 0: case 1: return 0; case 2: return (size_t)sim::param_log("start", 0, 100000); case 3: return (size_t)1 << 63; default: return std::numeric_limits<size_t>::max() - 70000; } }
long pick_gran(size_t n) { switch (sim::param("grank", 0, 6)) { case 0: case 1: case 2: return 0; case 3: return 1; case 4: return (long)sim::param_log("gran", 1, 5000); case 5: return (long)n + (long)sim::param("gd", -1, 1); default: return std::numeric_limits<long>::max(); } }
}
SIM_SCENARIO(for_range, 6) {
  size_t n = (size_t)sim::param_log("n", 0, maxn()); size_t s = pick_start(); long gr = pick_gran(n); if (gr < 0) gr = 0; bool cons = sim::param("cons", 0, 1); int work = (int)sim::param("work", 0, 3);
  with_sched([&] { Visits v(s, s + n);
    parlay::parallel_for(s, s + n, [&](size_t i) { v.hit(i); if (work == 1 && i % 7 == 0) sim::yield_point(); if (work == 2 && i % 64 == 0) std::this_thread::yield(); }, gr, cons); v.verify(); });
}
SIM_SCENARIO(for_empty, 1) {
  size_t a = pick_start(), d = (size_t)sim::param_log("d", 0, 1000); if (d > a) d = a; long gr = pick_gran(0); if (gr < 0) gr = 0;
  with_sched([&] { parlay::parallel_for(a, a - d, [&](size_t i) { sim::fail("out-of-range", "f(%zu) called for the empty range [%zu,%zu)", i, a, a - d); }, gr);
    size_t M = std::numeric_limits<size_t>::max();
    parlay::parallel_for(M, 0, [&](size_t i) { sim::fail("out-of-range", "f(%zu) called for the empty range [%zu,0)", i, M); }, gr); });
}
SIM_SCENARIO(for_nested, 3) {
  size_t n = (size_t)sim::param_log("n", 0, 60), m = (size_t)sim::param_log("m", 0, sim::instrumented() ? 60 : 400); long g1 = pick_gran(n), g2 = pick_gran(m); if (g1 < 0) g1 = 0; if (g2 < 0) g2 = 0;
  with_sched([&] { std::vector<Visits> v(n, Visits(3, 3 + m)); Visits o(0, n);
    parlay::parallel_for(0, n, [&](size_t i) { o.hit(i); parlay::parallel_for(3, 3 + m, [&](size_t j) { v[i].hit(j); }, g2); v[i].verify(); }, g1);
    o.verify(); for (auto& x : v) x.verify(); });
}
SIM_SCENARIO(for_grow_gran, 2) { // the first iterations are slow or fast in simulated time: granularity estimation sees every shape
  size_t n = (size_t)sim::param_log("n", 1, 2000); int slow = (int)sim::param("slow", 0, 40);
  with_sched([&] { Visits v(0, n); parlay::parallel_for(0, n, [&](size_t i) { v.hit(i); if ((int)(i % 41) < slow) busy(2); }); v.verify(); });
}
SIM_SCENARIO(blocked, 4) {
  size_t n = (size_t)sim::param_log("n", 0, maxn()); size_t s = pick_start(); size_t bs; int k = (int)sim::param("bk", 0, 5);
  bs = k == 0 ? 1 : k == 1 ? n + 1 : k == 2 ? (n ? n : 1) : k == 3 ? (size_t)sim::param_log("bs", 1, 3000) : k == 4 ? std::numeric_limits<size_t>::max() - (size_t)sim::param_log("bs", 0, 3000) : (n + 2) / 2;
  if (n / bs > 4000) bs = n / 4000 + 1; bool cons = sim::param("cons", 0, 1);
  with_sched([&] { size_t nb = n ? (n - 1) / bs + 1 : 0; Visits v(s, s + n); std::vector<int> blk(nb, 0);
    parlay::blocked_for(s, s + n, bs, [&](size_t i, size_t a, size_t b) {
      SIM_CHECK(i < nb, "bad-block", "block index %zu of %zu", i, nb);
      blk[i]++;
      SIM_CHECK(a == s + i * bs && b - s == std::min(n, nb == 1 ? n : (i + 1) * bs), "bad-block", "block %zu is [%zu,%zu) for start %zu n %zu size %zu", i, a, b, s, n, bs);
      for (size_t j = a; j < b; j++) v.hit(j); }, cons);
    for (size_t i = 0; i < nb; i++) SIM_CHECK(blk[i] == 1, "not-once", "block %zu visited %d times", i, blk[i]);
    v.verify(); });
}
