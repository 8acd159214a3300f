// C18: grouping, histograms, reductions by key or index and duplicate removal match a sequential dictionary.
#include "common.h"
#include <parlay/primitives.h>
#include <map>
#include <unordered_map>
#include <set>
// PARTS: 8
using namespace hx;
namespace {
size_t gn() { int64_t k = sim::param("n", 0, 11), r, lim = sim::instrumented() ? 13000 : 70000; static const int64_t b[] = {0, 1, 2, 8192, 10000, 2000, 1024, 10000}; if (k < 4) r = sim::param_log("len", 0, 300); else if (k < 7) r = b[sim::param("bound", 0, 7)] + sim::param("off", 0, 2) - 1; else if (k < 9) r = sim::param_log("len", 0, 4000); else r = sim::param_log("len", 5000, lim); return r < 0 ? 0 : (size_t)r; }
// key ids: uniform over few/many values, heavy hitters, skewed, all equal, all distinct, sorted runs
std::vector<uint32_t> ids(size_t n, uint32_t range) { int d = (int)sim::param("dist", 0, 6); std::vector<uint32_t> k(n); uint32_t hot = (uint32_t)sim::below(range), nh = 1 + (uint32_t)sim::below(4); for (size_t i = 0; i < n; i++) { uint64_t x; switch (d) { case 0: x = sim::rnd(); break; case 1: x = hot; break; case 2: x = sim::chance(7, 10) ? hot : sim::rnd(); break; case 3: x = sim::chance(1, 2) ? hot + 16 * sim::below(nh) : sim::rnd(); break; case 4: x = i; break; case 5: { uint64_t m = 1 + sim::below(range); x = sim::below(m); break; } default: x = i / 50; } k[i] = (uint32_t)(x % range); } return k; }
uint32_t range_of(size_t n) { switch (sim::param("keys", 0, 4)) { case 0: return 1 + (uint32_t)sim::below(4); case 1: return 1 + (uint32_t)sim::below(40); case 2: return 1 + (uint32_t)sim::below(n + 1); case 3: return 1u << 30; default: return 1 + (uint32_t)sim::below(3 * n + 1); } }
// key types, and hash functions from good to constant
struct SK { std::string s; bool operator==(const SK& o) const { return s == o.s; } bool operator<(const SK& o) const { return s < o.s; } };
template <class K> K mk(uint32_t x) { if constexpr (std::is_same_v<K, std::string>) return (x % 2 ? "k" : "a rather long key that is not stored in place ") + std::to_string(x); else if constexpr (std::is_same_v<K, parlay::sequence<char>>) { auto s = std::to_string(x); return parlay::sequence<char>(s.begin(), s.end()); } else return (K)x; }
struct Hsh { int mode; template <class K> size_t operator()(const K& k) const { if (mode == 0) return parlay::hash<K>{}(k); size_t h = parlay::hash<K>{}(k); return mode == 1 ? h % 3 : mode == 2 ? 42 : h << 20; } };
struct affm2 { using T = Aff; Aff identity{}; Aff operator()(const Aff& a, const Aff& b) const { return aff_op{}(a, b); } };
template <class K> struct Less { bool operator()(const K& a, const K& b) const { return a < b; } };
template <class K, int LO, int HI, bool D = false> void by_key(bool heavy_hash_ok) {
  size_t n = gn(); int hm = heavy_hash_ok ? (int)sim::param("hash", 0, 3) : 0; if (hm && n > 600) { n = hm == 1 || hm == 2 ? n % 600 : n; } uint32_t rg = range_of(n); auto id = ids(n, rg); if (hm) rg = std::min<uint32_t>(rg, 200), (void)0; if (hm) for (auto& x : id) x %= 200; int op = (int)sim::param("op", LO, HI), rk = (int)sim::param("range", 0, 4); Hsh h{hm};
  std::vector<std::pair<K, int>> kv(n); std::vector<K> ks(n); for (size_t i = 0; i < n; i++) { kv[i] = {mk<K>(id[i]), (int)i}; ks[i] = mk<K>(id[i]); }
  std::map<K, std::vector<int>> m; for (auto& p : kv) m[p.first].push_back(p.second);
  auto grouped = [&](auto&& r, bool ordered, bool stable, const char* w) { SIM_CHECK(r.size() == m.size(), "groups", "%s: %zu groups, %zu distinct keys", w, (size_t)r.size(), m.size()); std::set<K> seen; auto it = m.begin(); for (auto& g : r) { if (ordered) { SIM_CHECK(g.first == it->first, "order", "%s: keys out of order", w); ++it; } SIM_CHECK(seen.insert(g.first).second, "groups", "%s: a key appears twice", w); auto f = m.find(g.first); SIM_CHECK(f != m.end(), "groups", "%s: a key that is not in the input", w); std::vector<int> got(g.second.begin(), g.second.end()); if (!stable) std::sort(got.begin(), got.end()); SIM_CHECK(got == f->second, got.size() == f->second.size() ? "values" : "groups", "%s: a group has wrong values (%zu, expected %zu)", w, got.size(), f->second.size()); } };
  auto counted = [&](auto&& r, const char* w) { SIM_CHECK(r.size() == m.size(), "groups", "%s: %zu entries, %zu distinct keys", w, (size_t)r.size(), m.size()); std::set<K> seen; for (auto& g : r) { SIM_CHECK(seen.insert(g.first).second, "groups", "%s: a key appears twice", w); auto f = m.find(g.first); SIM_CHECK(f != m.end() && (size_t)g.second == f->second.size(), "count", "%s: wrong count %zu", w, (size_t)g.second); } };
  auto uniq = [&](auto&& r, bool ordered, const char* w) { SIM_CHECK(r.size() == m.size(), "groups", "%s: %zu elements, %zu distinct", w, (size_t)r.size(), m.size()); std::set<K> seen; auto it = m.begin(); for (auto& x : r) { if (ordered) { SIM_CHECK(x == it->first, "order", "%s: out of order", w); ++it; } SIM_CHECK(m.count(x) && seen.insert(x).second, "groups", "%s: an element appears twice or is not from the input", w); } };
  switch (op) {
    case 0: if constexpr (LO <= 0 && 0 <= HI) { as_range2<D>(kv, rk, [&](auto& r) { grouped(parlay::group_by_key(r, h), false, true, "group_by_key"); }); } break;
    case 1: if constexpr (LO <= 1 && 1 <= HI) { if constexpr (!std::is_same_v<K, parlay::sequence<char>>) as_range2<D>(kv, rk, [&](auto& r) { grouped(parlay::group_by_key_ordered(r), true, true, "group_by_key_ordered"); }); } break;
    case 2: if constexpr (LO <= 2 && 2 <= HI) { as_range2<D>(kv, rk, [&](auto& r) { auto o = parlay::reduce_by_key(r, parlay::plus<int>(), h); SIM_CHECK(o.size() == m.size(), "groups", "reduce_by_key: %zu entries, %zu distinct keys", (size_t)o.size(), m.size()); std::set<K> seen; for (auto& g : o) { int s = 0; auto f = m.find(g.first); SIM_CHECK(f != m.end() && seen.insert(g.first).second, "groups", "reduce_by_key: a key appears twice or not in the input"); for (int x : f->second) s += x; SIM_CHECK(g.second == s, "sum", "reduce_by_key: wrong sum of %zu values", f->second.size()); } }); } break;
    case 3: if constexpr (LO <= 3 && 3 <= HI) { as_range2<D>(ks, rk, [&](auto& r) { counted(parlay::histogram_by_key(r, h), "histogram_by_key"); }); } break;
    case 4: if constexpr (LO <= 4 && 4 <= HI) { as_range2<D>(ks, rk, [&](auto& r) { uniq(parlay::remove_duplicates(r, h), false, "remove_duplicates"); }); } break;
    case 5: if constexpr (LO <= 5 && 5 <= HI) { if constexpr (!std::is_same_v<K, parlay::sequence<char>>) as_range2<D>(ks, rk, [&](auto& r) { uniq(parlay::remove_duplicates_ordered(r), true, "remove_duplicates_ordered"); }); } break;
    case 6: if constexpr (LO <= 6 && 6 <= HI) { { auto s = parlay::to_sequence(kv); grouped(parlay::group_by_key(std::move(s), h), false, true, "group_by_key(&&)"); } } break;
    case 7: if constexpr (LO <= 7 && 7 <= HI) { { auto s = parlay::to_sequence(ks); if (sim::param("alt", 0, 1)) counted(parlay::histogram_by_key<unsigned>(std::move(s), h), "histogram_by_key(&&)"); else uniq(parlay::remove_duplicates(std::move(s), h), false, "remove_duplicates(&&)"); } } break;
    case 8: if constexpr (LO <= 8 && 8 <= HI) { { // order-sensitive reduction: values combined in input order
      std::vector<std::pair<K, Aff>> av(n); std::map<K, Aff> w; for (size_t i = 0; i < n; i++) { Aff a{(sim::rnd() % 5) * 2 + 1, sim::rnd() % 100}; av[i] = {ks[i], a}; auto [it, nw] = w.insert({ks[i], a}); if (!nw) it->second = aff_op{}(it->second, a); } auto s = parlay::to_sequence(av); auto chk = [&](auto&& o) { SIM_CHECK(o.size() == w.size(), "groups", "reduce_by_key: %zu entries, %zu distinct keys", (size_t)o.size(), w.size()); std::set<K> seen; for (auto& g : o) { auto f = w.find(g.first); SIM_CHECK(f != w.end() && seen.insert(g.first).second, "groups", "reduce_by_key: key"); SIM_CHECK(g.second == f->second, "reduce", "reduce_by_key: values not combined in input order"); } }; if (sim::param("alt", 0, 1)) chk(parlay::reduce_by_key(s, affm2{}, h)); else chk(parlay::reduce_by_key(std::move(s), affm2{}, h)); } } break;
    default: if constexpr (HI >= 9 && !std::is_same_v<K, parlay::sequence<char>>) { bool kd = sim::param("alt", 0, 1); auto gt = [](const K& a, const K& b) { return b < a; }; auto r = kd ? parlay::group_by_key_ordered(kv, gt) : parlay::group_by_key_ordered(kv, Less<K>{}); if (kd) for (size_t i = 0; i + i + 1 < r.size(); i++) std::swap(r[i], r[r.size() - 1 - i]); grouped(r, true, true, kd ? "group_by_key_ordered(greater)" : "group_by_key_ordered(less)"); } } }
template <class I, int LO, int HI, bool D = false> void by_index(uint32_t cap) {
  size_t n = gn(); uint32_t nb; switch (sim::param("buckets", 0, 4)) { case 0: nb = 1 + (uint32_t)sim::below(4); break; case 1: nb = 1 + (uint32_t)sim::below(100); break; case 2: nb = 1 + (uint32_t)sim::below(2 * n + 1); break; case 3: nb = 250 + (uint32_t)sim::below(20); break; default: nb = 1 + (uint32_t)sim::below(20000); } nb = std::min(nb, cap); auto id = ids(n, nb); int op = (int)sim::param("op", LO, HI), rk = (int)sim::param("range", 0, 4);
  std::vector<std::vector<int>> w(nb); for (size_t i = 0; i < n; i++) w[id[i]].push_back((int)i); std::vector<I> ks(n); std::vector<std::pair<I, int>> kv(n); for (size_t i = 0; i < n; i++) { ks[i] = (I)id[i]; kv[i] = {(I)id[i], (int)i}; }
  switch (op) {
    case 0: if constexpr (LO <= 0 && 0 <= HI) { as_range2<D>(ks, rk, [&](auto& r) { auto o = parlay::histogram_by_index(r, (uint32_t)nb); SIM_CHECK(o.size() == nb, "size", "histogram_by_index: %zu buckets of %u", (size_t)o.size(), nb); for (size_t i = 0; i < nb; i++) SIM_CHECK((size_t)o[i] == w[i].size(), "count", "histogram_by_index: bucket %zu counts %zu, not %zu", i, (size_t)o[i], w[i].size()); }); } break;
    case 1: if constexpr (LO <= 1 && 1 <= HI) { as_range2<D>(kv, rk, [&](auto& r) { auto o = parlay::reduce_by_index(r, nb, parlay::plus<int>()); SIM_CHECK(o.size() == nb, "size", "reduce_by_index"); for (size_t i = 0; i < nb; i++) { int s = 0; for (int x : w[i]) s += x; SIM_CHECK(o[i] == s, "sum", "reduce_by_index: bucket %zu", i); } }); } break;
    case 2: if constexpr (LO <= 2 && 2 <= HI) { as_range2<D>(ks, rk, [&](auto& r) { auto o = parlay::remove_duplicate_integers(r, (I)std::min<uint64_t>(nb, std::numeric_limits<I>::max())); size_t j = 0; for (size_t i = 0; i < nb; i++) if (!w[i].empty()) { SIM_CHECK(j < o.size() && (size_t)o[j] == i, "groups", "remove_duplicate_integers: position %zu is not %zu", j, i); j++; } SIM_CHECK(j == o.size(), "groups", "remove_duplicate_integers returned %zu of %zu", (size_t)o.size(), j); }); } break;
    case 3: if constexpr (LO <= 3 && 3 <= HI) { as_range2<D>(kv, rk, [&](auto& r) { auto o = parlay::group_by_index(r, (I)std::min<uint64_t>(nb, std::numeric_limits<I>::max())); SIM_CHECK(o.size() == nb, "size", "group_by_index: %zu buckets of %u", (size_t)o.size(), nb); for (size_t i = 0; i < nb; i++) { std::vector<int> g(o[i].begin(), o[i].end()); SIM_CHECK(g == w[i], g.size() == w[i].size() ? "values" : "groups", "group_by_index: bucket %zu of %u has wrong values (%zu, expected %zu; n=%zu)", i, nb, g.size(), w[i].size(), n); } }); } break;
    case 4: if constexpr (LO <= 4 && 4 <= HI) { std::vector<std::pair<I, Aff>> av(n); std::vector<Aff> x(nb); for (size_t i = 0; i < n; i++) { Aff a{(sim::rnd() % 5) * 2 + 1, sim::rnd() % 100}; av[i] = {(I)id[i], a}; x[id[i]] = aff_op{}(x[id[i]], a); } auto o = parlay::reduce_by_index(av, nb, affm2{}); for (size_t i = 0; i < nb; i++) SIM_CHECK(o[i] == x[i], "reduce", "reduce_by_index: bucket %zu not combined in input order", i); } break;
    default: if constexpr (HI >= 5) { auto o = parlay::histogram_by_index(parlay::delayed_seq<I>(n, [&](size_t i) { return ks[i]; }), (size_t)nb); for (size_t i = 0; i < nb; i++) SIM_CHECK((size_t)o[i] == w[i].size(), "count", "histogram_by_index(size_t): bucket %zu", i); } } }
}
#if SIM_PART(1)
SIM_SCENARIO(group_u32, 4) { with_sched([] { by_key<uint32_t, 0, 1>(true); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(count_u32, 5) { with_sched([] { by_key<uint32_t, 2, 4, true>(true); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(rest_u32, 4) { with_sched([] { by_key<uint32_t, 5, 9>(true); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(group_string, 3) { with_sched([] { by_key<std::string, 0, 3>(true); }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(rest_string, 3) { with_sched([] { by_key<std::string, 4, 9>(true); }); }
SIM_SCENARIO(chars, 2) { with_sched([] { by_key<parlay::sequence<char>, 3, 4>(false); }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(hist_u32, 3) { with_sched([] { by_index<uint32_t, 0, 1>(~0u); }); }
#endif
#if SIM_PART(7)
SIM_SCENARIO(index_u32, 3) { with_sched([] { by_index<uint32_t, 2, 5>(~0u); }); }
#endif
#if SIM_PART(8)
SIM_SCENARIO(index_u8, 3) { with_sched([] { by_index<uint8_t, 2, 3>(255); }); }
#endif
#if SIM_PART(1)
SIM_SCENARIO(group_i64, 2) { with_sched([] { by_key<long, 0, 1>(true); }); }
SIM_SCENARIO(ordered_i64, 2) { with_sched([] { by_key<long, 9, 9>(true); }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
