// C01: fork-join runs every branch exactly once and publishes its effects.
#include "common.h"
using namespace hx;
namespace {
struct Node { int kind; std::vector<int> ch; bool cons; unsigned work; int pre, runs, done; };
struct Prog { std::vector<Node> n; int maxn; int maxd;
  int gen(int d) { int id = (int)n.size(); n.push_back(Node{0, {}, false, 0, 0, 0, 0});
    int k = (d >= maxd || (int)n.size() >= maxn) ? 0 : (int)sim::below(9);
    Node x{k, {}, sim::chance(1, 4), (unsigned)(sim::chance(1, 3) ? sim::below(12) : 0), 0, 0, 0};
    int c = k == 0 ? 0 : k == 3 || k == 4 ? 3 : k == 7 ? (int)sim::below(5) : 2;
    for (int i = 0; i < c; i++) x.ch.push_back(gen(d + 1));
    n[id] = x; return id; }
  // value written by the parent before the fork must be visible in the child; the child's effects after the join
  void run(int id, int parent) {
    Node& x = n[id]; x.runs++; SIM_CHECK(x.runs == 1, "ran-twice", "node %d executed %d times", id, x.runs);
    if (parent >= 0) SIM_CHECK(n[parent].pre == parent + 1000, "stale-before", "branch %d does not see what was written before the fork (%d)", id, n[parent].pre);
    x.pre = id + 1000; busy(x.work);
    auto R = [&](int i) { return [this, &x, id, i] { run(x.ch[i], id); }; };
    switch (x.kind) {
      case 0: break;
      case 1: parlay::par_do(R(0), R(1), x.cons); break;
      case 2: parlay::parallel_do(R(0), R(1), x.cons); break;
      case 3: parlay::par_do3(R(0), R(1), R(2)); break;
      case 4: parlay::par_do3_if((id & 1) != 0, R(0), R(1), R(2)); break;
      case 5: parlay::par_do_if((id & 1) != 0, R(0), R(1), x.cons); break;
      case 6: { run(x.ch[0], id); run(x.ch[1], id); break; }
      case 7: parlay::parallel_for(0, x.ch.size(), [&](size_t i) { run(x.ch[i], id); }, (long)(id % 3), x.cons); break;
      case 8: { // rvalue, move-only functors
        auto u = std::make_unique<int>(x.ch[0]), v = std::make_unique<int>(x.ch[1]);
        parlay::par_do([this, id, u = std::move(u)]() mutable { run(*u, id); u.reset(); }, [this, id, v = std::move(v)]() { run(*v, id); }, x.cons); break; }
    }
    for (int c : x.ch) SIM_CHECK(n[c].done == 1, "early-return", "fork at node %d returned before branch %d finished", id, c);
    busy(x.work / 3); x.done = 1;
  }
  void verify() { for (size_t i = 0; i < n.size(); i++) SIM_CHECK(n[i].runs == 1 && n[i].done == 1, "not-once", "node %zu ran %d times, done=%d", i, n[i].runs, n[i].done); }
};
}
SIM_SCENARIO(tree, 6) {
  int maxn = (int)sim::param_log("nodes", 1, 70), depth = (int)sim::param("depth", 1, 8);
  with_sched([&] { Prog p; p.maxn = maxn; p.maxd = depth; p.n.reserve(512); p.gen(0); p.run(0, -1); p.verify(); });
}
// small trees with many workers: the deque operations collide most often here
SIM_SCENARIO(tiny, 6) {
  int rounds = (int)sim::param("rounds", 1, 12); int shape = (int)sim::param("shape", 0, 3);
  with_sched([&] {
    std::vector<int> cell(8 * rounds, 0);
    for (int r = 0; r < rounds; r++) { int* c = &cell[8 * r]; c[7] = r + 1;
      auto leaf = [&](int i) { return [c, i, r] { SIM_CHECK(c[7] == r + 1, "stale-before", "leaf %d does not see the value written before the fork", i); c[i]++; }; };
      if (shape == 0) parlay::par_do(leaf(0), leaf(1));
      else if (shape == 1) parlay::par_do([&] { parlay::par_do(leaf(0), leaf(1)); }, [&] { parlay::par_do(leaf(2), leaf(3)); });
      else if (shape == 2) parlay::par_do([&] { parlay::par_do([&] { parlay::par_do(leaf(0), leaf(1)); }, leaf(2)); }, leaf(3));
      else parlay::par_do(leaf(0), [&] { parlay::par_do(leaf(1), [&] { parlay::par_do(leaf(2), leaf(3)); }); });
      int want = shape == 0 ? 2 : 4; for (int i = 0; i < 4; i++) SIM_CHECK(c[i] == (i < want), "not-once", "round %d leaf %d ran %d times", r, i, c[i]); }
  }, 4);
}
// deep one-sided recursion: many outstanding jobs on one deque
SIM_SCENARIO(deep, 2) {
  int depth = (int)sim::param_log("depth", 1, 400), side = (int)sim::param("side", 0, 1); bool cons = sim::param("cons", 0, 1);
  with_sched([&] {
    std::vector<int> c(depth + 1, 0); 
    struct R { std::vector<int>& c; int side; bool cons; void go(int d) { if (d == 0) { c[0]++; return; }
        auto rec = [&] { go(d - 1); }; auto leaf = [&] { c[d]++; };
        if (side) parlay::par_do(rec, leaf, cons); else parlay::par_do(leaf, rec, cons);
        SIM_CHECK(c[d] == 1 && c[d - 1] == 1, "not-once", "depth %d: %d %d", d, c[d], c[d - 1]); } } r{c, side, cons};
    r.go(depth);
    for (int i = 0; i <= depth; i++) SIM_CHECK(c[i] == 1, "not-once", "leaf %d ran %d times", i, c[i]);
  });
}
static long fib(int n) { if (n < 2) return n; long a = -1, b = -1; parlay::par_do([&] { a = fib(n - 1); }, [&] { b = fib(n - 2); }); SIM_CHECK(a >= 0 && b >= 0, "early-return", "branch result missing at fib(%d)", n); return a + b; }
SIM_SCENARIO(fibonacci, 2) {
  int n = (int)sim::param("n", 1, sim::instrumented() ? 11 : 15);
  with_sched([&] { long f = fib(n), x = 0, y = 1; for (int i = 0; i < n; i++) { long z = x + y; x = y; y = z; } SIM_CHECK(f == x, "wrong-result", "fib(%d)=%ld, expected %ld", n, f, x); });
}
// two phases of fork-join with different stolen work interleaved: conservative joins among non-conservative ones
SIM_SCENARIO(mixed_conservative, 2) {
  int n = (int)sim::param("n", 1, 24);
  with_sched([&] {
    std::vector<int> c(2 * n, 0);
    parlay::parallel_for(0, n, [&](size_t i) {
      parlay::par_do([&] { busy(i % 5); c[2 * i]++; }, [&] { c[2 * i + 1]++; }, i % 2 == 0);
      SIM_CHECK(c[2 * i] == 1 && c[2 * i + 1] == 1, "not-once", "pair %zu: %d %d", i, c[2 * i], c[2 * i + 1]); }, 1, n % 2 == 0);
    for (int i = 0; i < 2 * n; i++) SIM_CHECK(c[i] == 1, "not-once", "cell %d = %d", i, c[i]);
  });
}
