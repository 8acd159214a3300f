// C13: the phase-concurrent hash table is a set / dictionary whatever the interleaving, and history independent.
#include "common.h"
#include <parlay/hash_table.h>
#include <map>
#include <set>
using namespace hx;
namespace {
int hmode; size_t hM; uint64_t hsalt;
size_t place(uint64_t k) { switch (hmode) { case 0: return (size_t)parlay::hash64(k ^ hsalt); case 1: return (size_t)((k ^ hsalt) % 5) * 9; case 2: return (hM - 4 + (size_t)((k ^ hsalt) % 8)) % hM; case 3: return (size_t)((k ^ hsalt) % 3) + hM / 2; default: return (size_t)((k ^ hsalt) % hM); } }
template <class T> struct Num : parlay::hash_numeric<T> { size_t hash(T v) { return place((uint64_t)v); } };
// key in the high half, value in the low half; keep the larger value (mode 0), the first (1)
template <int MODE> struct KV { using eType = uint64_t; using kType = uint32_t; eType empty() { return ~0ull; } kType getKey(eType v) { return (uint32_t)(v >> 32); } size_t hash(kType k) { return place(k); }
  int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; } bool replaceQ(eType n, eType o) { return MODE == 0 ? (uint32_t)n > (uint32_t)o : MODE == 2; } eType update(eType c, eType v) { return (c >> 32 << 32) | (uint32_t)((uint32_t)c + (uint32_t)v); }
  bool cas(eType* p, eType o, eType n) { return reinterpret_cast<std::atomic<eType>*>(p)->compare_exchange_strong(o, n, std::memory_order_relaxed); } };
struct Rec { int key; int val; long pad; };
struct Ptr { using eType = Rec*; using kType = int; eType empty() { return nullptr; } kType getKey(eType v) { return v->key; } size_t hash(kType k) { return place((uint64_t)k); } int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; } bool replaceQ(eType n, eType o) { return n->val > o->val; } eType update(eType, eType v) { return v; }
  bool cas(eType* p, eType o, eType n) { return reinterpret_cast<std::atomic<eType>*>(p)->compare_exchange_strong(o, n); } };
struct Plan { int runner, P; }; // who executes a phase
template <class F> void phase(int runner, size_t n, F f) { if (runner == 0) parlay::parallel_for(0, n, f, 1); else if (runner == 1) parlay::parallel_for(0, n, f); else { int nt = 2 + runner; joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (size_t i = t; i < n; i += nt) f(i); }); } }
template <class H, class E> void compare(parlay::hashtable<H>& t, H h, size_t cap, const std::vector<E>& sorted_model, const char* when) {
  auto e = t.entries(); std::vector<E> got(e.begin(), e.end()); size_t c = t.count(); SIM_CHECK(c == sorted_model.size(), "count", "count() is %zu, the set has %zu keys (%s)", c, sorted_model.size(), when);
  SIM_CHECK(got.size() == sorted_model.size(), "entries", "entries() returned %zu entries, the set has %zu (%s)", got.size(), sorted_model.size(), when);
  auto s = got; auto lt = [&](const E& a, const E& b) { return h.cmp(h.getKey(a), h.getKey(b)) < 0; }; std::sort(s.begin(), s.end(), lt); for (size_t i = 0; i < s.size(); i++) SIM_CHECK(s[i] == sorted_model[i], "entries", "entry %zu (in key order) differs from the set (%s)", i, when);
  parlay::hashtable<H> ref(cap, h); for (auto& x : sorted_model) ref.insert(x); auto re = ref.entries(); for (size_t i = 0; i < got.size(); i++) SIM_CHECK(got[i] == re[i], "history", "position %zu of entries() depends on the history of operations (%s)", i, when);
  auto ix = t.get_index(); size_t k = 0; SIM_CHECK(ix.size() >= cap, "index", "get_index size"); for (auto& x : sorted_model) { auto f = t.find(h.getKey(x)); SIM_CHECK(f == x, "find", "find misses or returns a wrong entry (%s)", when); auto fi = t.findIndex(h.getKey(x)); SIM_CHECK(fi < ix.size() && ix[fi] < got.size() && got[ix[fi]] == x, "index", "findIndex/get_index disagree with entries (%s)", when); k++; } }
template <class H, class Mk, class Merge> void history(H h, size_t maxn, uint64_t range, Mk mk, Merge merge, bool upd, bool count_true) {
  using E = typename H::eType; using K = typename H::kType;
  workers(1, 5); hmode = (int)sim::param("hash", 0, 4); size_t n = (size_t)sim::param_log("n", 1, (int64_t)maxn); if ((hmode == 1 || hmode == 2 || hmode == 3) && n > 60) n = 60; size_t extra = (size_t)sim::param("extra_room", 0, 3) * 20; int phases = (int)sim::param("phases", 1, 5); bool dense = sim::param("dense_keys", 0, 1); uint64_t rg = std::min<uint64_t>(dense ? n + n / 4 + 1 : range, range); hsalt = sim::param("salt", 0, 3);
  size_t cap = n + extra; hM = 100 + (size_t)(1.5 * (double)cap); parlay::hashtable<H> t(cap, h); std::map<K, E> model;
  for (int p = 0; p < phases; p++) { int kind = p == 0 ? 0 : (int)sim::below(3), runner = (int)sim::below(5); size_t m = kind == 0 ? n : (size_t)sim::below(n + 1);
    if (kind != 1) { std::vector<E> v; std::map<K, E> next = model; std::set<K> fresh; for (size_t i = 0; i < m; i++) { E x = mk(sim::below(rg)); if (!next.count(h.getKey(x)) && next.size() >= n) continue; v.push_back(x); auto it = next.find(h.getKey(x)); if (it == next.end()) { next[h.getKey(x)] = x; fresh.insert(h.getKey(x)); } else it->second = merge(it->second, x); }
      std::atomic<long> ok{0}; phase(runner, v.size(), [&](size_t i) { bool r = upd ? t.update(v[i]) : t.insert(v[i]); if (r) ok.fetch_add(1, std::memory_order_relaxed); });
      if (count_true) SIM_CHECK(ok == (long)fresh.size(), "insert-result", "%ld inserts reported success, %zu new keys", ok.load(), fresh.size()); else SIM_CHECK(ok >= (long)fresh.size() || v.empty(), "insert-result", "%ld inserts reported success, %zu new keys", ok.load(), fresh.size()); model = next; }
    else { std::vector<K> v; for (size_t i = 0; i < m; i++) v.push_back(h.getKey(mk(sim::below(rg)))); if (sim::chance(1, 4)) for (auto& kv : model) v.push_back(kv.first); for (auto& k : v) model.erase(k); phase(runner, v.size(), [&](size_t i) { t.deleteVal(v[i]); }); }
    // a find phase over present and absent keys
    if (sim::chance(2, 3)) { std::vector<K> q; for (auto& kv : model) q.push_back(kv.first); for (int i = 0; i < 10; i++) q.push_back(h.getKey(mk(sim::below(rg)))); phase((int)sim::below(5), q.size(), [&](size_t i) { auto r = t.find(q[i]); auto it = model.find(q[i]); if (it == model.end()) SIM_CHECK(r == h.empty(), "find", "find returns an entry for an absent key"); else SIM_CHECK(r == it->second, "find", "find misses or returns a wrong entry"); if (it == model.end()) SIM_CHECK(t.findIndex(q[i]) == (size_t)-1, "find", "findIndex finds an absent key"); }); }
    std::vector<E> sm; for (auto& kv : model) sm.push_back(kv.second); compare(t, h, cap, sm, kind != 1 ? "after inserts" : "after deletes"); sim::state(sim::mix(sm.size(), p)); }
}
size_t big() { return sim::instrumented() ? 200 : 1500; }
}
SIM_SCENARIO(numeric_int, 4) { history(Num<int>{}, big(), 1u << 20, [](uint64_t k) { return (int)k; }, [](int a, int) { return a; }, false, true); }
SIM_SCENARIO(numeric_u64, 2) { history(Num<uint64_t>{}, big(), 1ull << 40, [](uint64_t k) { return k; }, [](uint64_t a, uint64_t) { return a; }, false, true); }
SIM_SCENARIO(numeric_default, 2) { history(parlay::hash_numeric<long>{}, big(), 1ull << 20, [](uint64_t k) { return (long)k; }, [](long a, long) { return a; }, false, true); }
SIM_SCENARIO(numeric_u16, 1) { history(Num<uint16_t>{}, big(), 3000, [](uint64_t k) { return (uint16_t)k; }, [](uint16_t a, uint16_t) { return a; }, false, true); }
SIM_SCENARIO(keep_largest, 4) { history(KV<0>{}, big(), 1u << 20, [](uint64_t k) { return (k << 32) | sim::below(5); }, [](uint64_t a, uint64_t b) { return std::max(a, b); }, false, false); }
SIM_SCENARIO(update_sum, 4) { history(KV<2>{}, big(), 1u << 20, [](uint64_t k) { return (k << 32) | sim::below(5); }, [](uint64_t a, uint64_t b) { return (a >> 32 << 32) | (uint32_t)((uint32_t)a + (uint32_t)b); }, true, false); }
SIM_SCENARIO(pointers, 3) { std::vector<std::unique_ptr<Rec>> own; std::map<std::pair<int, int>, Rec*> canon; history(Ptr{}, std::min<size_t>(big(), 400), 1u << 20, [&](uint64_t k) { int v = (int)sim::below(4); auto& r = canon[{(int)k, v}]; if (!r) { own.emplace_back(new Rec{(int)k, v, 0}); r = own.back().get(); } return r; }, [](Rec* a, Rec* b) { return b->val > a->val ? b : a; }, false, false); }
// any value actually inserted is acceptable when nothing replaces
SIM_SCENARIO(keep_any, 2) {
  workers(1, 5); hmode = (int)sim::param("hash", 0, 4); int n = (int)sim::param("n", 1, 40), reps = (int)sim::param("reps", 1, 4), runner = (int)sim::param("runner", 0, 4); hsalt = 0; hM = 100 + (size_t)(1.5 * n); KV<1> h; parlay::hashtable<KV<1>> t(n, h); std::vector<uint64_t> v; for (int r = 0; r < reps; r++) for (int i = 0; i < n; i++) v.push_back(((uint64_t)(i * 3) << 32) | (unsigned)(r * 1000 + i)); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sim::below(i)]);
  std::atomic<long> ok{0}; bool upd = sim::param("update", 0, 1); phase(runner, v.size(), [&](size_t i) { if (upd ? t.update(v[i]) : t.insert(v[i])) ok++; }); SIM_CHECK(ok == n, "insert-result", "%ld inserts reported success for %d distinct keys", ok.load(), n);
  SIM_CHECK((int)t.count() == n, "count", "count %zu", t.count()); for (int i = 0; i < n; i++) { uint64_t e = t.find((uint32_t)(i * 3)); SIM_CHECK(e != h.empty() && (uint32_t)(e >> 32) == (uint32_t)(i * 3) && (uint32_t)e % 1000 == (uint32_t)i && (uint32_t)e / 1000 < (uint32_t)reps, "find", "key %d maps to a value that was never inserted", i * 3); }
}
