// C27: the library is free of data races: random programs over the whole library under the happens-before race detector.
// PARTS: 7
#include "programs.h"
#include <parlay/alloc.h>
#include <parlay/delayed.h>
#include <parlay/hash_table.h>
#include <parlay/io.h>
#include <parlay/random.h>
#include <parlay/thread_specific.h>
#include <parlay/worker_specific.h>
#include <parlay/internal/concurrency/hazptr_stack.h>
using namespace prog;
#include "ops.h"
#if SIM_PART(7)
Op*& prog::ops() { static Op* head = nullptr; return head; }
namespace { size_t few(size_t hi) { return 1 + sim::below(hi); } }
// operations one after another, each parallel inside
SIM_SCENARIO(in_sequence, 5) { List l; size_t m = (size_t)sim::param("ops", 1, 4); with_sched([&] { for (size_t i = 0; i < m; i++) { Op* o = l.pick(); sim::probe(o->name); o->f(size_for(6000), sim::rnd()); } }); }
// one operation on a larger input, past the library's sequential cutoffs
SIM_SCENARIO(one_large, 4) { List l; Op* o = l.pick(); sim::probe(o->name); size_t n = length("n", {1, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384}, sim::instrumented() ? 17000 : 40000); with_sched([&] { o->f(n, sim::rnd()); }); }
// operations as tasks of one parallel loop or a tree of par_dos
SIM_SCENARIO(as_tasks, 5) { List l; size_t m = (size_t)sim::param("ops", 2, 6); std::vector<Op*> o; std::vector<std::pair<size_t, uint64_t>> a; for (size_t i = 0; i < m; i++) { o.push_back(l.pick()); sim::probe(o[i]->name); a.push_back({size_for(1500), sim::rnd()}); } bool tree = sim::param("tree", 0, 1);
  with_sched([&] { if (!tree) parlay::parallel_for(0, m, [&](size_t i) { o[i]->f(a[i].first, a[i].second); }, 1); else { std::function<void(size_t, size_t)> go = [&](size_t lo, size_t hi) { if (hi - lo == 1) o[lo]->f(a[lo].first, a[lo].second); else { size_t mid = (lo + hi) / 2; parlay::par_do([&] { go(lo, mid); }, [&] { go(mid, hi); }); } }; go(0, m); } }); }
// one operation in several tasks at once, past the library's sequential cutoffs: a worker waiting inside one of them may run another
SIM_SCENARIO(same_tasks, 4) { List l; Op* o = l.pick(); sim::probe(o->name); size_t m = (size_t)sim::param("tasks", 2, 10), n = length("n", {1024, 2000, 2048, 3072, 4096, 8192}, (sim::instrumented() ? 24000 : 80000) / (int64_t)m); uint64_t k = sim::rnd(); with_sched([&] { parlay::parallel_for(0, m, [&](size_t i) { o->f(n - n * i / 9, k + i); }, 1); }); }
// what tasks produce is read, changed and released by other tasks
SIM_SCENARIO(handed_over, 3) { size_t m = few(8), rounds = few(4); uint64_t k = sim::rnd();
  with_sched([&] { parlay::sequence<parlay::sequence<parlay::sequence<long>>> v(m); std::vector<std::string> names(m);
    for (size_t r = 0; r < rounds; r++) { parlay::parallel_for(0, m, [&](size_t i) { v[i] = parlay::tabulate(few(5), [&](size_t j) { return data(size_for(300), k + i + j, 50); }); names[i] = word(X(k, i)); }, 1); long t = 0; for (auto& x : v) for (auto& y : x) for (long z : y) t += z;
      auto mv = parlay::map(parlay::iota<size_t>(m), [&](size_t i) { return std::move(v[(i + 1) % m]); }); parlay::parallel_for(0, m, [&](size_t i) { for (auto& y : mv[i]) { for (auto& z : y) z++; y.push_back(1); } }, 1); long u = 0; parlay::sequence<long> parts = parlay::map(mv, [](auto& x) { return parlay::reduce(parlay::flatten(x)); }); for (long z : parts) u += z; size_t cnt = 0; for (auto& x : mv) for (auto& y : x) cnt += y.size();
      EQ(u, t + (long)cnt, "sum of what was handed over"); parlay::parallel_for(0, m, [&](size_t i) { mv[m - 1 - i].clear(); names[i].clear(); }, 1); } }); }
#endif
