// C08: every concurrent history on the lock-free stack is linearizable.
#include "common.h"
#include <parlay/internal/concurrency/hazptr_stack.h>
#include <unordered_set>
#include <optional>
using namespace hx;
namespace {
enum Kind { PUSH, POP, SIZE, EMPTY, CLEAR };
struct Op { Kind k; long v; long r; uint64_t inv, ret; int thr; };   // POP: r = value or -1; SIZE/EMPTY: r = result
const char* name(Kind k) { static const char* n[] = {"push", "pop", "size", "empty", "clear"}; return n[k]; }
// depth-first search for a linearisation (Wing & Gong with memoisation); clear = any number of silent pops inside its interval, ending on an empty stack
struct Lin {
  std::vector<Op>& h; std::vector<char> done; std::vector<long> st; std::unordered_set<uint64_t> seen; uint64_t nodes = 0; 
  explicit Lin(std::vector<Op>& h_) : h(h_), done(h_.size(), 0) {}
  uint64_t key() { uint64_t k = 1469598103934665603ull; for (size_t i = 0; i < done.size(); i++) if (done[i]) k = sim::mix(k, i + 1); k = sim::mix(k, 0xabcdef); for (long x : st) k = sim::mix(k, (uint64_t)x); return k; }
  bool overlaps(size_t i) { for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].inv < h[i].ret && h[i].inv < h[j].ret && (h[j].k == PUSH || h[j].k == POP || h[j].k == CLEAR)) return true; return false; }
  bool go(size_t left) {
    if (!left) return true;
    if (++nodes > 400000) return true;                     // give up (counted by a probe), never an alarm
    if (!seen.insert(key()).second) return false;
    uint64_t minret = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!done[i]) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) { if (done[i] || h[i].inv > minret) continue; Op& o = h[i];
      switch (o.k) {
        case PUSH: done[i] = 1; st.push_back(o.v); if (go(left - 1)) return true; st.pop_back(); done[i] = 0; break;
        case POP: if (o.r < 0) { if (!st.empty()) break; done[i] = 1; if (go(left - 1)) return true; done[i] = 0; }
                  else { if (st.empty() || st.back() != o.r) break; st.pop_back(); done[i] = 1; if (go(left - 1)) return true; done[i] = 0; st.push_back(o.r); } break;
        case SIZE: if (!overlaps(i) && o.r != (long)st.size()) break; done[i] = 1; if (go(left - 1)) return true; done[i] = 0; break;
        case EMPTY: if (!overlaps(i) && o.r != (long)st.empty()) break; done[i] = 1; if (go(left - 1)) return true; done[i] = 0; break;
        case CLEAR: if (st.empty()) { done[i] = 1; if (go(left - 1)) return true; done[i] = 0; }
                    else { long v = st.back(); st.pop_back(); if (go(left)) return true; st.push_back(v); } break;
      } }
    return false;
  }
};
void verify(std::vector<Op> h, std::vector<long> init) {
  sim::Quiet q; std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
  std::vector<long> pushed = init, popped; for (auto& o : h) { if (o.k == PUSH) pushed.push_back(o.v); if (o.k == POP && o.r >= 0) popped.push_back(o.r); }
  std::sort(pushed.begin(), pushed.end()); std::sort(popped.begin(), popped.end());
  auto d = std::adjacent_find(popped.begin(), popped.end()); SIM_CHECK(d == popped.end(), "duplicated", "value %ld popped twice", d == popped.end() ? 0 : *d);
  for (long p : popped) SIM_CHECK(std::binary_search(pushed.begin(), pushed.end(), p), "invented", "popped %ld which was never pushed", p);
  Lin l(h); l.st = init; bool ok = l.go(h.size()); if (l.nodes > 400000) sim::probe("checker_gave_up");
  if (!ok) { std::string s; for (auto& o : h) s += "\n    T" + std::to_string(o.thr) + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "] " + name(o.k) + "(" + (o.k == PUSH ? std::to_string(o.v) : "") + ") -> " + std::to_string(o.r); sim::fail("not-linearizable", "no sequential order explains this history of the stack:%s", s.c_str()); }
}
struct P { long v; unsigned pad; explicit P(long x) : v(x), pad(0xC0FFEE) {} P(P&& o) noexcept : v(o.v), pad(o.pad) { o.pad = 0; } P(const P&) = delete; };
template <class T> struct Conv { static T to(long v) { return T(v); } static long from(T&& t) { return (long)t; } };
template <> struct Conv<P> { static P to(long v) { return P(v); } static long from(P&& p) { SIM_CHECK(p.pad == 0xC0FFEE, "invented", "popped an object that had already been moved out (value %ld)", p.v); return p.v; } };
template <> struct Conv<std::unique_ptr<long>> { static std::unique_ptr<long> to(long v) { return std::make_unique<long>(v); } static long from(std::unique_ptr<long>&& p) { SIM_CHECK(p != nullptr, "invented", "popped a moved-out pointer"); return *p; } };
template <class T> void history() {
  int nt = (int)sim::param("threads", 2, 4), ops = (int)sim::param("ops", 1, 7), ninit = (int)sim::param("init", 0, 4); int mix = (int)sim::param("mix", 0, 3); bool drain = sim::param("drain", 0, 1);
  parlay::internal::hazptr_stack<T> s; std::vector<long> init; for (int i = 0; i < ninit; i++) { s.push(Conv<T>::to(900 + i)); init.push_back(900 + i); }
  std::vector<std::vector<Op>> hist(nt + 1); std::vector<std::vector<int>> plan(nt); bool clr = false;
  for (auto& p : plan) for (int i = 0; i < ops; i++) { int k = (int)sim::below(20); int o = k < 9 ? PUSH : k < 18 ? POP : k == 18 ? (mix == 3 && !clr ? (clr = true, CLEAR) : SIZE) : EMPTY; if (mix == 1 && o == POP && sim::chance(1, 2)) o = PUSH; if (mix == 2 && o == PUSH && sim::chance(1, 2)) o = POP; p.push_back(o); }
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { hist[t].reserve(plan[t].size()); long c = 0;
      for (int k : plan[t]) { Op o{(Kind)k, 0, -1, 0, 0, t}; T val = Conv<T>::to(o.v = 100 * (t + 1) + ++c); o.inv = sim::step();
        switch (k) { case PUSH: s.push(std::move(val)); break; case POP: { auto r = s.pop(); if (r) o.r = Conv<T>::from(std::move(*r)); break; } case SIZE: o.r = (long)s.size(); break; case EMPTY: o.r = s.empty(); break; case CLEAR: s.clear(); break; }
        o.ret = sim::step(); { sim::Quiet q; hist[t].push_back(o); } sim::yield_point(); } }); }
  std::vector<Op> all; for (auto& x : hist) all.insert(all.end(), x.begin(), x.end());
  auto ask = [&](Kind k) { Op o{k, 0, -1, sim::step(), 0, 99}; if (k == SIZE) o.r = (long)s.size(); else if (k == EMPTY) o.r = s.empty(); else { auto r = s.pop(); if (r) o.r = Conv<T>::from(std::move(*r)); } sim::yield_point(); o.ret = sim::step(); all.push_back(o); sim::yield_point(); return o.r; };
  ask(SIZE); ask(EMPTY);
  if (drain) { int guard = 0; while (ask(POP) >= 0) { ask(SIZE); SIM_CHECK(++guard < 200, "invented", "draining does not end"); } ask(EMPTY); }
  verify(std::move(all), init);
}
}
SIM_SCENARIO(ints, 6) { history<long>(); }
SIM_SCENARIO(move_only, 3) { history<P>(); }
SIM_SCENARIO(pointers, 2) { history<std::unique_ptr<long>>(); }
// longer runs: conservation and per-producer order only
SIM_SCENARIO(conservation, 3) {
  int nt = (int)sim::param("threads", 2, 5), n = (int)sim::param_log("ops", 1, 200); parlay::internal::hazptr_stack<long> s; std::vector<std::vector<long>> got(nt + 1); std::vector<long> pushed(nt, 0);
  { joiner j; for (int t = 0; t < nt; t++) { unsigned bias = (unsigned)sim::below(3); uint64_t r = sim::rnd(); j.go([&, t, bias, r]() mutable { for (int i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1; if ((r >> 33) % 4 > bias) { s.push((long)t * 100000 + ++pushed[t]); } else { auto x = s.pop(); if (x) got[t].push_back(*x); } } }); } }
  size_t expect = 0; for (int t = 0; t < nt; t++) expect += pushed[t]; for (auto& g : got) expect -= g.size();
  SIM_CHECK(s.size() == expect && s.empty() == (expect == 0), "lost", "size %zu after the threads finished, expected %zu", s.size(), expect);
  std::vector<long> last(nt, 1 << 30); while (auto x = s.pop()) { long t = *x / 100000, k = *x % 100000; SIM_CHECK(t >= 0 && t < nt && k < last[t], "order", "values of thread %ld come back out of LIFO order: %ld after %ld", t, k, last[t]); last[t] = k; got[nt].push_back(*x); }
  std::vector<long> all; for (auto& g : got) all.insert(all.end(), g.begin(), g.end()); std::sort(all.begin(), all.end()); std::vector<long> want; for (int t = 0; t < nt; t++) for (long i = 1; i <= pushed[t]; i++) want.push_back((long)t * 100000 + i);
  SIM_CHECK(all == want, "lost", "%zu values came out, %zu went in, or values differ", all.size(), want.size());
}
