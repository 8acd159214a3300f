// C26: write_min / write_max / write_add lose no update.
#include "common.h"
#include <parlay/utilities.h>
#include <parlay/primitives.h>
using namespace hx;
namespace {
template <class T> void minmax(bool mx) {
  int nt = (int)sim::param("threads", 1, 5), n = (int)sim::param("ops", 1, 8); long range = sim::param_log("range", 1, 1000); T init = (T)(sim::below(range)); 
  std::atomic<T> x(init); std::vector<std::vector<std::pair<T, bool>>> h(nt, std::vector<std::pair<T, bool>>(n)); for (auto& v : h) for (auto& p : v) p.first = (T)sim::below(range);
  auto less = [](T a, T b) { return a < b; }; std::atomic<bool> stop{false};
  std::thread watch([&] { T last = x.load(); while (!stop.load()) { T v = x.load(); SIM_CHECK(mx ? v >= last : v <= last, "wrong-direction", "location moved from %ld to %ld", (long)last, (long)v); last = v; std::this_thread::yield(); } });
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (auto& p : h[t]) { p.second = mx ? parlay::write_max(&x, p.first, less) : parlay::write_min(&x, p.first, less); T v = x.load(); SIM_CHECK(mx ? v >= p.first : v <= p.first, "lost-update", "after writing %ld the location holds %ld", (long)p.first, (long)v); } }); }
  stop = true; watch.join();
  T best = init; for (auto& v : h) for (auto& p : v) best = mx ? std::max(best, p.first) : std::min(best, p.first);
  SIM_CHECK(x.load() == best, "lost-update", "final value %ld, expected %ld", (long)x.load(), (long)best);
  std::vector<T> wins; int wb = 0; for (auto& v : h) for (auto& p : v) if (p.second) { wins.push_back(p.first); wb += p.first == best; SIM_CHECK(mx ? p.first > init : p.first < init, "false-success", "a call that could not improve on the initial value reported success"); }
  std::sort(wins.begin(), wins.end()); SIM_CHECK(std::adjacent_find(wins.begin(), wins.end()) == wins.end(), "false-success", "two calls both report having installed the same value %ld", wins.empty() ? 0L : (long)*std::adjacent_find(wins.begin(), wins.end()));
  if (best != init) SIM_CHECK(wb == 1, "no-winner", "%d calls report having installed the final value", wb);
}
template <class T> void add() {
  int nt = (int)sim::param("threads", 1, 6), n = (int)sim::param("ops", 1, 12); std::atomic<T> x((T)3); std::vector<std::vector<int>> d(nt, std::vector<int>(n)); long sum = 3; for (auto& v : d) for (int& k : v) { k = (int)sim::below(50); sum += k; }
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (int k : d[t]) parlay::write_add(&x, k); }); }
  SIM_CHECK(x.load() == (T)sum, "lost-update", "sum %ld, expected %ld", (long)x.load(), (long)(T)sum);
}
}
SIM_SCENARIO(min_int, 3) { minmax<int>(false); }
SIM_SCENARIO(max_int, 3) { minmax<int>(true); }
SIM_SCENARIO(min_long, 2) { minmax<long>(false); }
SIM_SCENARIO(max_short, 2) { minmax<short>(true); }
SIM_SCENARIO(min_double, 1) { minmax<double>(false); }
SIM_SCENARIO(max_u64, 1) { minmax<unsigned long>(true); }
SIM_SCENARIO(add_int, 3) { add<int>(); }
SIM_SCENARIO(add_long, 2) { add<long>(); }
SIM_SCENARIO(add_u8, 1) { add<unsigned char>(); }
SIM_SCENARIO(add_double, 1) { add<double>(); }
// inverted order and order on a key only: "less" decides, ties install nothing
SIM_SCENARIO(custom_order, 2) {
  int nt = (int)sim::param("threads", 1, 5), n = (int)sim::param("ops", 1, 6); auto less = [](int a, int b) { return a % 10 < b % 10; }; std::atomic<int> x(95); std::vector<std::vector<std::pair<int, bool>>> h(nt, std::vector<std::pair<int, bool>>(n)); int uid = 0; for (auto& v : h) for (auto& p : v) p.first = (++uid) * 10 + (int)sim::below(10);
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (auto& p : h[t]) { p.second = parlay::write_min(&x, p.first, less); SIM_CHECK(!less(p.first, x.load()), "lost-update", "location is worse than the value just written"); } }); }
  int best = 5; for (auto& v : h) for (auto& p : v) best = std::min(best, p.first % 10); SIM_CHECK(x.load() % 10 == best, "lost-update", "key %d, expected %d", x.load() % 10, best);
  int w = 0; for (auto& v : h) for (auto& p : v) if (p.second && p.first % 10 == best) { w++; SIM_CHECK(x.load() == p.first, "false-success", "winner wrote %d but the location holds %d", p.first, x.load()); }
  SIM_CHECK(w == (best < 5), "no-winner", "%d winners", w);
}
SIM_SCENARIO(in_parallel_for, 2) {
  int n = (int)sim::param_log("n", 1, 300);
  with_sched([&] { std::vector<int> v(n); for (int& x : v) x = (int)sim::below(100000); std::atomic<int> mn(1 << 30), mx(-1); std::atomic<long> s(0);
    parlay::parallel_for(0, n, [&](size_t i) { parlay::write_min(&mn, v[i], std::less<int>()); parlay::write_max(&mx, v[i], std::less<int>()); parlay::write_add(&s, (long)v[i]); }, 1);
    long sum = 0; for (int x : v) sum += x; SIM_CHECK(mn.load() == *std::min_element(v.begin(), v.end()) && mx.load() == *std::max_element(v.begin(), v.end()) && s.load() == sum, "lost-update", "min %d max %d sum %ld", mn.load(), mx.load(), s.load()); });
}
