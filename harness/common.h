#pragma once
#include "sim.h"
#include <parlay/parallel.h>
#include <parlay/sequence.h>
#include <parlay/delayed_sequence.h>
#include <parlay/slice.h>
#include <deque>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <memory>
#include <utility>
#include <algorithm>
#include <functional>
// checks of the library's internal helpers; left out (with everything else kept) if they do not compile, say because a helper was renamed
#ifdef SIM_NO_INTERNAL
#define SIM_INTERNAL(...)
#else
#define SIM_INTERNAL(...) __VA_ARGS__
#endif
namespace hx {
using std::size_t;
inline void set_workers(int P) { setenv("PARLAY_NUM_THREADS", std::to_string(P).c_str(), 1); }
inline int workers(int lo = 1, int hi = 5) { int P = (int)sim::param("P", lo, hi); set_workers(P); return P; }
// run f on the implicit scheduler of the calling thread, or inside execute_with_scheduler
inline bool together = false; // set while the scenario runs as one of several tasks of an enclosing parallel loop
template <class F> void with_sched(F&& f, int hi = 5) {
  if (together) return f();
  int P = workers(1, hi); int own = (int)sim::param("own_scheduler", 0, 3);
  if (own == 1) parlay::execute_with_scheduler((unsigned)P, f); else f();
}
// several scenarios (or one several times over) as tasks of one loop or of a tree of par_dos: while one waits inside the library, its worker may run another
inline void at_once(const char* self, int most = 6) {
  std::vector<void (*)()> all, f; for (auto* s = sim::scenarios(); s; s = s->next) if (std::string(s->name) != self) for (int k = 0; k < s->weight; k++) all.push_back(s->fn);
  size_t m = (size_t)sim::param("tasks", 2, most); bool one = sim::param("same", 0, 3), tree = sim::param("tree", 0, 1); for (size_t i = 0; i < m; i++) f.push_back(one && i ? f[0] : all[sim::below(all.size())]);
  with_sched([&] { together = true; if (!tree) parlay::parallel_for(0, m, [&](size_t i) { f[i](); }, 1); else { std::function<void(size_t, size_t)> go = [&](size_t lo, size_t hi) { if (hi - lo == 1) f[lo](); else { size_t mid = (lo + hi) / 2; parlay::par_do([&] { go(lo, mid); }, [&] { go(mid, hi); }); } }; go(0, m); } together = false; }); }
// lengths: concentrated on interesting boundaries b-1,b,b+1 of each listed value, or log-uniform up to hi
template <size_t N> inline size_t length(const char* name, const int64_t (&bounds)[N], int64_t hi) {
  int64_t k = sim::param(name, 0, 2 * (int64_t)N + 5);
  int64_t r;
  if (k < (int64_t)N) r = bounds[k] - 1 + (int64_t)sim::param("off", 0, 2); else r = sim::param_log("len", 0, hi);
  if (r < 0) r = 0; if (r > hi) r = hi; return (size_t)r;
}
struct joiner { std::vector<std::thread> t; ~joiner() { for (auto& x : t) if (x.joinable()) x.join(); }
  template <class F> void go(F&& f) { t.emplace_back(std::forward<F>(f)); } void join() { for (auto& x : t) if (x.joinable()) x.join(); } };
inline void busy(unsigned n) { for (unsigned i = 0; i < n; i++) sim::yield_point(); }

// ---- helpers for the algorithm harnesses ----
// lengths around the library's thresholds (1000/1024/2000/2048 ...); small ones are frequent so that many schedules are explored
inline size_t big_n(const char* name, int64_t full_cap = 6000, int64_t fast_cap = 60000) {
  int64_t cap = sim::instrumented() ? full_cap : fast_cap; int64_t k = sim::param(name, 0, 9), r;
  static const int64_t b[] = {0, 1, 2, 1000, 1024, 2000, 2048, 3000, 3072, 4000, 4096, 5120, 8192, 10000, 16384, 20480};
  if (k < 4) r = sim::param_log("len", 0, 300); else if (k < 7) { r = b[sim::param("bound", 0, 15)] + sim::param("off", 0, 2) - 1; } else if (k < 9) r = sim::param_log("len", 0, std::min<int64_t>(cap, 6000)); else r = sim::param_log("len", 0, cap);
  if (r < 0) r = 0; if (r > cap) r = cap; return (size_t)r; }
struct Seg { long lo = 0, hi = 0; bool id = true, bad = false; bool operator==(const Seg& o) const { return lo == o.lo && hi == o.hi && id == o.id && bad == o.bad; } };
struct seg_op { Seg operator()(const Seg& a, const Seg& b) const { if (a.id) return b; if (b.id) return a; return Seg{a.lo, b.hi, false, a.bad || b.bad || a.hi != b.lo}; } };
struct Aff { uint64_t a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } bool operator!=(const Aff& o) const { return !(*this == o); } };
struct aff_op { Aff operator()(const Aff& x, const Aff& y) const { return Aff{y.a * x.a, y.a * x.b + y.b}; } };
// run f on the data presented as different kinds of random-access range
template <class T, class F> void as_range(const std::vector<T>& v, int kind, F&& f) {
  switch (kind) {
    case 0: { parlay::sequence<T> s(v.begin(), v.end()); const auto& c = s; f(c); break; }
    case 1: f(v); break;
    case 2: { auto s = parlay::make_slice(v.begin(), v.end()); f(s); break; }
    case 3: { auto d = parlay::delayed_seq<T>(v.size(), [&v](size_t i) { return v[i]; }); f(d); break; }
    default: { std::deque<T> d(v.begin(), v.end()); f(d); break; } } }
// the same with a pointer slice and, if D, a delayed range, for code that is expensive to instantiate
template <bool D = false, class T, class F> void as_range2(const std::vector<T>& v, int kind, F&& f) { if constexpr (D) if (kind % 2) { auto d = parlay::delayed_seq<T>(v.size(), [&v](size_t i) { return v[i]; }); f(d); return; } auto s = parlay::make_slice(const_cast<T*>(v.data()), const_cast<T*>(v.data()) + v.size()); f(s); }
template <class V> auto ptrs(V& v) { return parlay::make_slice(v.data(), v.data() + v.size()); }
template <class A, class B> void same(const A& got, const B& want, const char* tag, const char* what) { size_t n = parlay::size(got), m = parlay::size(want); SIM_CHECK(n == m, tag, "%s: %zu elements instead of %zu", what, n, m); auto g = std::begin(got); auto w = std::begin(want); for (size_t i = 0; i < n; i++, ++g, ++w) SIM_CHECK(*g == *w, tag, "%s: element %zu of %zu is wrong", what, i, n); }
}
