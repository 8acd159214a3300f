// C17: integer sorts and counting sorts: sorted, stable permutation and exact bucket offsets on every schedule.
// PARTS: 5
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/internal/bucket_sort.h>
using namespace hx;
namespace {
constexpr bool DBG =
#ifdef DEBUG
  true;   // the recursive radix sort starts at 128 elements in this build instead of 2^17
#else
  false;
#endif
size_t sort_n() { int64_t k = sim::param("n", 0, 11), r; static const int64_t b[] = {0, 1, 2, 128, 256, 8192, 8192, 10000, 2000, 16384}; int64_t lim = sim::instrumented() ? 12000 : 60000;
  if (k < 4) r = sim::param_log("len", 0, 400); else if (k < 7) r = b[sim::param("bound", 0, 9)] + sim::param("off", 0, 2) - 1; else if (k < 10) r = sim::param_log("len", 0, sim::instrumented() ? 3000 : 16000); else if (k == 10 && !sim::instrumented()) r = 131072 + sim::param("off", 0, 40000) - 1; else r = sim::param_log("len", 4000, lim); return (size_t)((int64_t)0 > r ? 0 : r); }
template <class K> K key_of(int d, size_t i, size_t n, int bits) { uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1, x; switch (d) { case 0: x = sim::rnd(); break; case 1: x = 3; break; case 2: x = sim::below(4); break; case 3: x = i; break; case 4: x = n - i; break; case 5: x = sim::chance(9, 10) ? 5 : sim::rnd(); break; case 6: x = m - sim::below(3); break; case 7: x = (sim::below(3) << (bits > 9 ? bits - 9 : 0)) | sim::below(2); break; case 8: x = sim::rnd() & ~255ull; break; default: x = i / 7; } return (K)(x & m); }
template <class K> std::vector<K> keys(size_t n) { int d = (int)sim::param("dist", 0, 9); int w = (int)sizeof(K) * 8; static const int c[] = {1, 2, 3, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 33, 48, 63, 64}; int bits = std::min(w, c[sim::param("bits", 0, 21)]); std::vector<K> k(n); for (size_t i = 0; i < n; i++) k[i] = key_of<K>(d, i, n, bits); return k; }
template <class K> struct Rec { K key; int id; }; template <class K> struct Big { K key; int id; char pad[48]; };
struct NonTriv { uint32_t key; int id; std::unique_ptr<int> chk; NonTriv() : key(0), id(-1) {} NonTriv(uint32_t k, int i) : key(k), id(i), chk(new int(i)) {} NonTriv(const NonTriv& o) : key(o.key), id(o.id), chk(o.chk ? new int(*o.chk) : nullptr) {} NonTriv(NonTriv&&) = default; NonTriv& operator=(const NonTriv& o) { key = o.key; id = o.id; chk.reset(o.chk ? new int(*o.chk) : nullptr); return *this; } NonTriv& operator=(NonTriv&&) = default; };
template <class R, class V> void check(const R& r, const V& in, bool stable, const char* what) { size_t n = in.size(); SIM_CHECK((size_t)parlay::size(r) == n, "length", "%s returned %zu of %zu elements", what, (size_t)parlay::size(r), n); std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) { size_t id = (size_t)r[i].id; SIM_CHECK(id < n && !seen[id] && r[i].key == in[id].key, "permutation", "%s: position %zu of %zu holds a lost, duplicated or altered element", what, i, n); seen[id] = 1; if (i) { SIM_CHECK(!(r[i].key < r[i - 1].key), "order", "%s: positions %zu,%zu of %zu out of order", what, i - 1, i, n); if (stable && r[i].key == r[i - 1].key) SIM_CHECK(r[i - 1].id < r[i].id, "stability", "%s: equal elements at %zu,%zu of %zu swapped", what, i - 1, i, n); } } }
template <class T, class K, bool D = false> void rec_sort() { size_t n = sort_n(); auto k = keys<K>(n); std::vector<T> v(n); for (size_t i = 0; i < n; i++) { v[i] = T{}; v[i].key = k[i]; v[i].id = (int)i; } auto g = [](const T& x) { return x.key; }; int op = (int)sim::param("op", 0, 4), rk = (int)sim::param("range", 0, 4);
  if (op == 0) as_range2<D>(v, rk, [&](auto& r) { check(parlay::integer_sort(r, g), v, false, "integer_sort"); });
  else if (op == 1) as_range2<D>(v, rk, [&](auto& r) { check(parlay::stable_integer_sort(r, g), v, true, "stable_integer_sort"); });
  else if (op == 2) { auto s = v; auto sl = ptrs(s); parlay::integer_sort_inplace(sl, g); check(s, v, false, "integer_sort_inplace"); }
  else if (op == 3) { auto s = v; auto sl = ptrs(s); parlay::stable_integer_sort_inplace(sl, g); check(s, v, true, "stable_integer_sort_inplace"); }
  else { parlay::sequence<T> s(v.begin(), v.end()); size_t a = n / 5, b = n - n / 7; parlay::stable_integer_sort_inplace(s.cut(a, b), g); for (size_t i = 0; i < n; i++) if (i < a || i >= b) SIM_CHECK(s[i].id == (int)i, "outside", "in-place integer sort changed position %zu outside [%zu,%zu)", i, a, b); std::vector<T> sub(v.begin() + a, v.begin() + b), got(s.begin() + a, s.begin() + b); for (auto& x : sub) x.id -= (int)a; for (auto& x : got) x.id -= (int)a; check(got, sub, true, "stable_integer_sort_inplace of a slice"); } }
template <class K, bool D = false> void plain() { size_t n = sort_n(); auto v = keys<K>(n), w = v; std::sort(w.begin(), w.end()); if (sim::param("op", 0, 2)) as_range2<D>(v, (int)sim::param("range", 0, 4), [&](auto& r) { same(parlay::integer_sort(r), w, "order", "integer_sort"); }); else { auto s = parlay::to_sequence(v); parlay::integer_sort_inplace(s); same(s, w, "order", "integer_sort_inplace"); } }
template <class O, class V> void offs(const O& o, const V& in, size_t nb, const char* what) { SIM_CHECK(o.size() == nb + 1, "offsets", "%s: %zu offsets for %zu buckets", what, (size_t)o.size(), nb); std::vector<size_t> c(nb + 1, 0); for (auto& x : in) c[x.key]++; size_t s = 0; for (size_t b = 0; b <= nb; b++) { SIM_CHECK(o[b] == s, "offsets", "%s: bucket %zu of %zu starts at %zu, not %zu", what, b, nb, (size_t)o[b], s); s += c[b]; } }
}
#if SIM_PART(1)
SIM_SCENARIO(pairs32, 4) { with_sched([&] { rec_sort<Rec<uint32_t>, uint32_t, true>(); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(pairs64, 4) { with_sched([&] { rec_sort<Rec<uint64_t>, uint64_t>(); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(bytes, 2) { with_sched([&] { rec_sort<Rec<uint8_t>, uint8_t>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(big_structs, 2) { with_sched([&] { rec_sort<Big<uint32_t>, uint32_t>(); }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(plain_ints, 3) { with_sched([&] { switch (sim::param("width", 0, 3)) { case 0: case 1: plain<uint16_t>(); break; default: plain<uint64_t, true>(); } }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(non_trivial, 2) { with_sched([&] { size_t n = sort_n(); if (sim::instrumented() && n > 20000) n = 20000; auto k = keys<uint32_t>(n); std::vector<NonTriv> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.emplace_back(k[i], (int)i); auto g = [](const NonTriv& x) { return x.key; }; auto chk = [&](auto& r, const char* w) { check(r, v, true, w); for (auto& x : r) SIM_CHECK(x.chk && *x.chk == x.id, "permutation", "%s: element %d (key %u) at %zu lost its own data (%d)", w, x.id, x.key, (size_t)(&x - &*r.begin()), x.chk ? *x.chk : -1); };
    switch (sim::param("op", 0, 2)) { case 0: { auto vs = ptrs(v); auto r = parlay::stable_integer_sort(vs, g); chk(r, "stable_integer_sort"); break; } case 1: { auto s = v; auto sl = ptrs(s); parlay::stable_integer_sort_inplace(sl, g); chk(s, "stable_integer_sort_inplace"); break; } default: { size_t nb = 40; for (auto& x : v) x.key %= nb; auto s = parlay::to_sequence(v); auto o = parlay::counting_sort_inplace(s, nb, g); chk(s, "counting_sort_inplace"); offs(o, v, nb, "counting_sort_inplace"); auto vs = ptrs(v); auto [r2, o2] = parlay::counting_sort(vs, nb, g); chk(r2, "counting_sort"); offs(o2, v, nb, "counting_sort"); } }
    for (auto& x : v) SIM_CHECK(x.chk && *x.chk == x.id, "input", "a sort that copies changed its input"); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(counting, 6) { with_sched([&] { size_t n = sort_n(); size_t nb = (size_t)sim::param_log("buckets", 1, 300); int d = (int)sim::param("dist", 0, 6), op = (int)sim::param("op", 0, 4), rk = (int)sim::param("range", 0, 4); std::vector<Rec<uint32_t>> v(n); for (size_t i = 0; i < n; i++) { uint64_t x = d == 0 ? sim::rnd() : d == 1 ? 0 : d == 2 ? nb - 1 : d == 3 ? i : d == 4 ? sim::below(3) : d == 5 ? (i * nb) / (n + 1) : n - i; v[i] = {(uint32_t)(x % nb), (int)i}; } auto g = [](const Rec<uint32_t>& x) { return x.key; };
    if (op == 0) as_range2<true>(v, rk, [&](auto& r) { auto [s, o] = parlay::counting_sort(r, nb, g); check(s, v, true, "counting_sort"); offs(o, v, nb, "counting_sort"); });
    else if (op == 1) { auto s = parlay::to_sequence(v); auto o = parlay::counting_sort_inplace(s, nb, g); check(s, v, true, "counting_sort_inplace"); offs(o, v, nb, "counting_sort_inplace"); }
    else if (op == 2) { std::vector<std::pair<uint32_t, int>> p(n); for (size_t i = 0; i < n; i++) p[i] = {v[i].key, v[i].id}; auto [s, o] = parlay::counting_sort_by_keys(p, nb); std::vector<Rec<uint32_t>> back(n); SIM_CHECK(s.size() == n, "length", "counting_sort_by_keys"); offs(o, v, nb, "counting_sort_by_keys"); for (size_t i = 0; i < n; i++) { SIM_CHECK((size_t)s[i] < n, "permutation", "value"); back[i] = v[s[i]]; } check(back, v, true, "counting_sort_by_keys"); }
    else if (op == 3) { std::vector<uint32_t> k(n), w; for (size_t i = 0; i < n; i++) k[i] = v[i].key; w = k; std::sort(w.begin(), w.end()); as_range2(k, rk, [&](auto& r) { auto [s, o] = parlay::counting_sort(r, nb); same(s, w, "order", "counting_sort of keys"); offs(o, v, nb, "counting_sort of keys"); }); auto z = parlay::to_sequence(k); auto o = parlay::counting_sort_inplace(z, nb); same(z, w, "order", "counting_sort_inplace of keys"); offs(o, v, nb, "counting_sort_inplace of keys"); }
    else { SIM_INTERNAL(auto sv = parlay::to_sequence(v); auto pr = parlay::internal::integer_sort_with_counts(parlay::make_slice(sv), g, nb); check(pr.first, v, true, "integer_sort_with_counts");) } }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(nested, 2) { with_sched([&] { size_t m = (size_t)sim::param("outer", 2, 8), len = (size_t)sim::param_log("inner", 1, sim::instrumented() ? 1500 : 10000); std::vector<std::vector<Rec<uint32_t>>> in(m); for (auto& v : in) { v.resize(len); for (size_t i = 0; i < len; i++) v[i] = {(uint32_t)sim::below(1 + len / 3), (int)i}; } std::vector<parlay::sequence<Rec<uint32_t>>> out(m); auto g = [](const Rec<uint32_t>& x) { return x.key; }; parlay::parallel_for(0, m, [&](size_t i) { auto sl = ptrs(in[i]); if (i % 2) out[i] = parlay::stable_integer_sort(sl, g); else { auto [s, o] = parlay::counting_sort(sl, len / 3 + 1, g); out[i] = std::move(s); } }, 1); for (size_t i = 0; i < m; i++) check(out[i], in[i], true, "nested integer sort"); }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
