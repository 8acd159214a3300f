// C29: the concurrent hash map of the examples is linearizable.
#include "common.h"
#include <iostream>
#include <functional>
#include "hash_map.h"
#include <map>
#include <optional>
#include <unordered_set>
using namespace hx;
namespace {
enum Kind { INSERT, FIND, REMOVE };
struct Op { Kind k; long key, v; bool ok; long r; uint64_t inv, ret; int thr; };   // INSERT: ok; FIND, REMOVE: ok and r
const char* name(Kind k) { static const char* n[] = {"insert", "find", "remove"}; return n[k]; }
// the operations on one key form an object of their own, and linearizability composes
struct Lin {
  std::vector<Op> h; std::vector<char> done; std::unordered_set<uint64_t> seen; uint64_t nodes = 0;
  bool go(size_t left, bool has, long v) {
    if (!left || ++nodes > 300000) return true;
    uint64_t key = sim::mix(has ? (uint64_t)v : 12345, 7); for (size_t i = 0; i < done.size(); i++) if (done[i]) key = sim::mix(key, i + 1);
    if (!seen.insert(key).second) return false;
    uint64_t minret = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!done[i]) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done[i] || h[i].inv > minret) continue;
      const Op& o = h[i]; bool can, nh = has; long nv = v;
      if (o.k == INSERT) { can = o.ok == !has; if (!has) { nh = true; nv = o.v; } }
      else { can = o.ok == has && (!has || o.r == v); if (o.k == REMOVE) nh = false; }
      if (!can) continue;
      done[i] = 1; if (go(left - 1, nh, nv)) return true; done[i] = 0;
    }
    return false;
  }
};
void verify(std::vector<Op> all) {
  sim::Quiet q; std::map<long, std::vector<Op>> by; for (auto& o : all) by[o.key].push_back(o);
  for (auto& [key, h] : by) {
    std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
    Lin l; l.h = h; l.done.assign(h.size(), 0); bool ok = l.go(h.size(), false, 0); if (l.nodes > 300000) sim::probe("checker_gave_up");
    if (ok) continue;
    std::string s; for (auto& o : h) s += "\n    T" + std::to_string(o.thr) + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "] " + name(o.k) + "(" + (o.k == INSERT ? std::to_string(o.v) : "") + ") -> " + (o.k == INSERT ? (o.ok ? "true" : "false") : o.ok ? std::to_string(o.r) : "none");
    SIM_CHECK(false, "not-linearizable", "no order of these operations on key %ld explains their results:%s", key, s.c_str());
  }
}
struct clash { unsigned long m = 3; unsigned long operator()(long k) const { return (unsigned long)k % m; } };
template <class V> struct Val { static V to(long v) { return (V)v; } static long from(const V& v) { return (long)v; } };
template <> struct Val<std::string> { static std::string to(long v) { return "a string that is too long to be stored in place " + std::to_string(v); } static long from(const std::string& s) { size_t p = s.rfind(' '); SIM_CHECK(p == 47 && s.size() > 48, "torn", "a value came back damaged: '%s'", s.c_str()); return std::atol(s.c_str() + p + 1); } };
template <class V> void history() {
  int nt = (int)sim::param("threads", 1, 4), ops = (int)sim::param("ops", 1, 9), keys = (int)sim::param("keys", 1, 4), mix = (int)sim::param("mix", 0, 3); clash c{(unsigned long)sim::param("slots", 1, 3)};
  hash_map<long, V, clash> m(10, std::move(c)); std::vector<std::vector<Op>> hist(nt + 1); std::vector<std::vector<std::pair<Kind, long>>> plan(nt + 1);
  for (auto& p : plan) for (int i = 0; i < ops; i++) { int k = (int)sim::below(10); p.push_back({mix == 0 ? (k < 4 ? INSERT : k < 7 ? FIND : REMOVE) : mix == 1 ? (k < 5 ? INSERT : REMOVE) : mix == 2 ? (k < 3 ? INSERT : FIND) : (k < 3 ? INSERT : k < 5 ? FIND : REMOVE), (long)sim::below((unsigned)keys)}); }
  auto run = [&](int t) { long cnt = 0; hist[t].reserve(plan[t].size());
    for (auto [k, key] : plan[t]) { Op o{k, key, 100 * (t + 1) + ++cnt, false, -1, 0, 0, t}; V val = Val<V>::to(o.v); o.inv = sim::step();
      if (k == INSERT) o.ok = m.insert(key, val); else { std::optional<V> r = k == FIND ? m.find(key) : m.remove(key); o.ok = r.has_value(); if (r) o.r = Val<V>::from(*r); }
      o.ret = sim::step(); { sim::Quiet q; hist[t].push_back(o); } sim::yield_point(); } };
  if (sim::param("prefix", 0, 1)) run(nt);
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { run(t); }); }
  std::vector<Op> all; for (auto& x : hist) all.insert(all.end(), x.begin(), x.end()); std::vector<long> present;
  for (long key = 0; key < keys; key++) { Op o{FIND, key, 0, false, -1, sim::step(), 0, 99}; auto r = m.find(key); o.ok = r.has_value(); if (r) { o.r = Val<V>::from(*r); present.push_back(key); } o.ret = sim::step(); all.push_back(o); }
  verify(all);
  set_workers(1 + (int)sim::below(3)); auto ks = m.keys(); std::vector<long> got(ks.begin(), ks.end()); std::sort(got.begin(), got.end());
  SIM_CHECK(got == present && m.size() == present.size(), "keys", "keys() has %zu entries and size() is %zu with %zu keys present", got.size(), (size_t)m.size(), present.size());
}
}
SIM_SCENARIO(ints, 6) { history<long>(); }
SIM_SCENARIO(strings, 3) { history<std::string>(); }
// many keys from a parallel loop against a dictionary
SIM_SCENARIO(phases, 3) { with_sched([&] {
  size_t n = (size_t)sim::param_log("n", 1, sim::instrumented() ? 300 : 2000), r = (size_t)sim::param("range", 1, 400); uint64_t s = sim::rnd(); clash c{(unsigned long)sim::param_log("slots", 1, 500)};
  hash_map<long, long, clash> m((long)r, std::move(c)); std::map<long, long> model; auto key = [&](size_t i, int ph) { return (long)(sim::mix(s + (uint64_t)ph, i) % r); };
  std::vector<std::atomic<int>> won(r); std::vector<std::vector<long>> val(r);
  parlay::parallel_for(0, n, [&](size_t i) { if (m.insert(key(i, 0), (long)i)) won[(size_t)key(i, 0)]++; }, 1);
  for (size_t i = 0; i < n; i++) { SIM_CHECK(won[(size_t)key(i, 0)] == 1, "insert", "key %ld was inserted %d times", key(i, 0), won[(size_t)key(i, 0)].load()); val[(size_t)key(i, 0)].push_back((long)i); }
  parlay::parallel_for(0, r, [&](size_t k) { auto f = m.find((long)k); bool in = !val[k].empty(); SIM_CHECK(f.has_value() == in && (!in || std::find(val[k].begin(), val[k].end(), *f) != val[k].end()), "find", "find(%zu) is wrong", k); }, 1);
  std::vector<std::atomic<int>> gone(r);
  parlay::parallel_for(0, n, [&](size_t i) { long k = key(i, 1); auto f = m.remove(k); if (f) { gone[(size_t)k]++; bool in = std::find(val[(size_t)k].begin(), val[(size_t)k].end(), *f) != val[(size_t)k].end(); SIM_CHECK(in, "remove", "remove(%ld) returned %ld, which was not its value", k, *f); } }, 1);
  std::vector<char> asked(r); for (size_t i = 0; i < n; i++) asked[(size_t)key(i, 1)] = 1; size_t left = 0;
  for (size_t k = 0; k < r; k++) { bool in = !val[k].empty(); SIM_CHECK(gone[k] == (in && asked[k]), "remove", "key %zu was removed %d times", k, gone[k].load()); bool now = in && !asked[k]; left += now; SIM_CHECK(m.find((long)k).has_value() == now, "find", "find(%zu) after removals is wrong", k); }
  SIM_CHECK(m.size() == left && m.keys().size() == left, "size", "size() is %zu, %zu keys are left", (size_t)m.size(), left);
}); }
