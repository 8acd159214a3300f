// C16: comparison sorts and merge: sorted permutation of the input, stable where documented, on every schedule.
// PARTS: 7
#include "common.h"
#include <parlay/primitives.h>
using namespace hx;
namespace {
size_t sort_n() { int64_t cap = sim::instrumented() ? 18000 : 70000; int64_t k = sim::param("n", 0, 11), r; static const int64_t b[] = {1, 5, 16, 24, 64, 256, 1024, 2000, 4000, 8192}; if (k < 4) r = sim::param_log("len", 0, 200); else if (k < 7) r = b[sim::param("bound", 0, 9)] + sim::param("off", 0, 2) - 1; else if (k < 10) r = sim::param_log("len", 0, sim::instrumented() ? 3000 : 16000); else if (k == 10) r = 16384 + sim::param("off", 0, 2) - 1; else r = sim::param_log("len", 8000, cap); return (size_t)std::max<int64_t>(0, r); }
std::vector<long> keys(size_t n) { int d = (int)sim::param("dist", 0, 9); std::vector<long> k(n); long few = 1 + (long)sim::below(5); for (size_t i = 0; i < n; i++) switch (d) { case 0: k[i] = (long)(sim::rnd() % 1000003); break; case 1: k[i] = 7; break; case 2: k[i] = (long)sim::below(few); break; case 3: k[i] = (long)i; break; case 4: k[i] = (long)(n - i); break; case 5: k[i] = (long)std::min(i, n - i); break; case 6: k[i] = sim::chance(1, 50) ? (long)(sim::rnd() % n) : (long)i; break; case 7: k[i] = (long)(sim::rnd() % (1 + n / 3)); break; case 8: k[i] = sim::chance(9, 10) ? 5 : (long)(sim::rnd() % 1000); break; default: k[i] = (long)(i / 300 % 2 ? n - i : i); } return k; }
struct P8 { int key, id; }; struct P16 { long key; long id; }; struct P40 { long key; long id; char pad[24]; };
template <class T> T make(long k, long id) { T t{}; t.key = (decltype(t.key))k; t.id = (decltype(t.id))id; return t; }
struct byk { template <class A> bool operator()(const A& a, const A& b) const { return a.key < b.key; } }; struct byk_desc { template <class A> bool operator()(const A& a, const A& b) const { return b.key < a.key; } };
struct bymod { template <class A> bool operator()(const A& a, const A& b) const { return ((unsigned long)a.key & 15) < ((unsigned long)b.key & 15); } };
template <class T, class R, class C> void check_sorted(const R& r, const std::vector<T>& in, C less, bool stable, const char* what) {
  SIM_CHECK(parlay::size(r) == in.size(), "length", "%s returned %zu of %zu elements", what, (size_t)parlay::size(r), in.size()); size_t n = in.size(); std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) { size_t id = (size_t)r[i].id; SIM_CHECK(id < n && !seen[id] && r[i].key == in[id].key, "permutation", "%s: position %zu of %zu holds an element that is lost, duplicated or changed elsewhere", what, i, n); seen[id] = 1; }
  for (size_t i = 1; i < n; i++) { SIM_CHECK(!less(r[i], r[i - 1]), "order", "%s: positions %zu and %zu of %zu are out of order", what, i - 1, i, n); if (stable && !less(r[i - 1], r[i])) SIM_CHECK(r[i - 1].id < r[i].id, "stability", "%s: equivalent elements %ld and %ld swapped", what, (long)r[i].id, (long)r[i - 1].id); } }
template <class T, class C> void one(C less) {
  size_t n = sort_n(); auto k = keys(n); std::vector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = make<T>(k[i], (long)i); int op = (int)sim::param("op", 0, 4), rk = (int)sim::param("range", 0, 4);
  if (op == 0) as_range(v, rk, [&](auto& r) { check_sorted(parlay::sort(r, less), v, less, false, "sort"); });
  else if (op == 1) as_range(v, rk, [&](auto& r) { check_sorted(parlay::stable_sort(r, less), v, less, true, "stable_sort"); });
  else if (op == 2 || op == 3) { parlay::sequence<T> s(v.begin(), v.end()); bool part = sim::param("part", 0, 1); size_t a = part ? n / 6 : 0, b = part ? n - n / 9 : n; auto sl = s.cut(a, b); if (op == 2) parlay::sort_inplace(sl, less); else parlay::stable_sort_inplace(sl, less);
    for (size_t i = 0; i < n; i++) if (i < a || i >= b) SIM_CHECK(s[i].id == (decltype(s[i].id))i, "outside", "in-place sort changed position %zu outside [%zu,%zu)", i, a, b);
    std::vector<T> sub(v.begin() + a, v.begin() + b), got(s.begin() + a, s.begin() + b); for (auto& x : sub) x.id -= a; for (auto& x : got) x.id -= a; check_sorted(got, sub, less, op == 3, op == 2 ? "sort_inplace" : "stable_sort_inplace"); }
  else { auto s = v; if (sim::param("st", 0, 1)) { parlay::stable_sort_inplace(s, less); check_sorted(s, v, less, true, "stable_sort_inplace"); } else { parlay::sort_inplace(s, less); check_sorted(s, v, less, false, "sort_inplace"); } } }
template <class T> void dispatch() { with_sched([&] { switch (sim::param("less", 0, 2)) { case 0: one<T>(byk{}); break; case 1: one<T>(byk_desc{}); break; default: one<T>(bymod{}); } }); }
}
#if SIM_PART(1)
SIM_SCENARIO(pairs8, 4) { dispatch<P8>(); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(pairs16, 4) { dispatch<P16>(); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(structs40, 3) { dispatch<P40>(); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(plain_ints, 4) { with_sched([&] { size_t n = !sim::instrumented() && !together && sim::param("huge", 0, 199) == 199 ? ((size_t)1 << 22) + (size_t)sim::below(60000) : sort_n(); auto k = keys(n); std::vector<int> v(k.begin(), k.end()), w(v); std::sort(w.begin(), w.end()); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 3); if (op == 0) as_range(v, rk, [&](auto& r) { same(parlay::sort(r), w, "order", "sort"); }); else if (op == 1) as_range(v, rk, [&](auto& r) { same(parlay::stable_sort(r), w, "order", "stable_sort"); }); else if (op == 2) { auto s = parlay::to_sequence(v); parlay::sort_inplace(s); same(s, w, "order", "sort_inplace"); } else { parlay::stable_sort_inplace(v); same(v, w, "order", "stable_sort_inplace"); } }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(pointers, 2) { with_sched([&] { size_t n = sort_n(); auto k = keys(n); std::vector<P16> a(n); std::vector<P16*> v(n), w; for (size_t i = 0; i < n; i++) { a[i] = {k[i], (long)i}; v[i] = &a[i]; } w = v; auto less = [](const P16* x, const P16* y) { return x->key < y->key; }; std::stable_sort(w.begin(), w.end(), less); int op = (int)sim::param("op", 0, 2);
    if (op == 0) { auto r = parlay::sort(v, less); for (size_t i = 0; i < n; i++) SIM_CHECK(r[i]->key == w[i]->key, "order", "sort of pointers, position %zu", i); std::sort(r.begin(), r.end()); for (size_t i = 0; i < n; i++) SIM_CHECK(r[i] == &a[i], "permutation", "sort of pointers lost or duplicated one"); } else if (op == 1) same(parlay::stable_sort(v, less), w, "stability", "stable_sort of pointers"); else { parlay::stable_sort_inplace(v, less); same(v, w, "stability", "stable_sort_inplace of pointers"); } }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(strings, 2) { with_sched([&] { size_t n = std::min<size_t>(sort_n(), 5000); auto k = keys(n); std::vector<std::string> v(n), w; for (size_t i = 0; i < n; i++) v[i] = std::string(k[i] % 2 ? "" : "a long common prefix of strings ") + std::to_string(k[i]); w = v; std::sort(w.begin(), w.end()); int op = (int)sim::param("op", 0, 2); if (op == 0) same(parlay::sort(v), w, "order", "sort of strings"); else if (op == 1) same(parlay::stable_sort(v), w, "order", "stable_sort of strings"); else { auto s = parlay::to_sequence(v); if (sim::param("st", 0, 1)) parlay::stable_sort_inplace(s); else parlay::sort_inplace(s); same(s, w, "order", "sort_inplace of strings"); } }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(move_only, 2) { with_sched([&] { size_t n = sort_n(); if (sim::instrumented()) n = std::min<size_t>(n, 16500); auto k = keys(n); parlay::sequence<std::unique_ptr<P16>> s(n); for (size_t i = 0; i < n; i++) s[i].reset(new P16{k[i], (long)i}); auto less = [](const std::unique_ptr<P16>& x, const std::unique_ptr<P16>& y) { return x->key < y->key; }; bool st = sim::param("st", 0, 1); if (st) parlay::stable_sort_inplace(s, less); else parlay::sort_inplace(s, less); std::vector<P16> in(n), out(n); for (size_t i = 0; i < n; i++) { in[i] = {k[i], (long)i}; SIM_CHECK(s[i] != nullptr, "permutation", "an element was lost (null) at %zu", i); out[i] = *s[i]; } check_sorted(out, in, byk{}, st, "in-place sort of move-only elements"); }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(merge_, 5) {
  with_sched([&] { size_t cap = sim::instrumented() ? 9000 : 40000; auto ln = [&](const char* nm, const char* l) { int k = (int)sim::param(nm, 0, 3); return k == 0 ? (size_t)sim::param(l, 0, 3) : k == 1 ? (size_t)(1990 + sim::param(l, 0, 20)) : (size_t)sim::param_log(l, 0, (int64_t)cap); }; size_t na = ln("na", "la"), nb = ln("nb", "lb"); long rg = 1 + (long)sim::param_log("range_of_keys", 0, 100000); int shape = (int)sim::param("shape", 0, 3);
    std::vector<P16> a(na), b(nb), w; for (auto& x : a) x.key = shape == 1 ? (long)sim::below(rg) : shape == 2 ? (long)sim::below(rg) + rg : (long)sim::below(rg); for (auto& x : b) x.key = shape == 1 ? (long)sim::below(rg) + rg : (long)sim::below(rg); std::stable_sort(a.begin(), a.end(), byk{}); std::stable_sort(b.begin(), b.end(), byk{}); for (size_t i = 0; i < na; i++) a[i].id = (long)i; for (size_t i = 0; i < nb; i++) b[i].id = (long)(1000000 + i);
    std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), byk{}); auto eq = [&](auto&& r, const char* what) { SIM_CHECK(r.size() == w.size(), "length", "%s", what); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(r[i].key == w[i].key && r[i].id == w[i].id, r[i].key == w[i].key ? "stability" : "order", "%s: position %zu of %zu is wrong (%zu + %zu)", what, i, w.size(), na, nb); };
    int rk = (int)sim::param("range", 0, 4); as_range(a, rk, [&](auto& r) { eq(parlay::merge(r, b, byk{}), "merge"); }); if (sim::param("move", 0, 1)) { std::vector<P16> c(a), d(b); eq(parlay::internal::merge_move(parlay::make_slice(c.begin(), c.end()), parlay::make_slice(d.begin(), d.end()), byk{}), "merge_move"); } }); }
#endif

#if SIM_PART(7)
// the cache-oblivious transposes that sorts of 2^22 and more elements use, on smaller matrices
namespace {
struct TE { long key; std::unique_ptr<long> id; TE() : key(-1) {} TE(long k) : key(k), id(new long(k)) {} };
#ifndef SIM_NO_INTERNAL
template <class Tag, class T, class From, class Put> void block_trans(size_t rows, size_t cols, size_t len, Put put, From from) {
  std::vector<uint32_t> cnt(rows * cols + 1), dst(rows * cols); size_t n = 0; for (size_t i = 0; i < rows * cols; i++) { size_t l = len ? (size_t)sim::below(len + 1) : 0; if (sim::chance(1, 50)) l += (size_t)sim::below(9); cnt[i] = (uint32_t)n; n += l; } cnt[rows * cols] = (uint32_t)n;
  size_t o = 0; for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < rows; i++) { dst[j * rows + i] = (uint32_t)o; o += cnt[i * cols + j + 1] - cnt[i * cols + j]; }
  auto in = parlay::internal::uninitialized_sequence<T>(n), out = parlay::internal::uninitialized_sequence<T>(n); for (size_t i = 0; i < n; i++) put(&in[i], (long)i);
  parlay::internal::blockTrans<Tag, T*, T*, uint32_t*, uint32_t*>(in.begin(), out.begin(), cnt.data(), dst.data()).trans(rows, cols);
  for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) for (size_t k = cnt[i * cols + j], d = dst[j * rows + i]; k < cnt[i * cols + j + 1]; k++, d++) SIM_CHECK(from(out[d]) == (long)k, "transpose", "element %zu of block (%zu,%zu) of a %zu x %zu block matrix is not at position %zu", k, i, j, rows, cols, d);
  if constexpr (std::is_same_v<Tag, parlay::uninitialized_relocate_tag>) { for (auto& x : out) x.~T(); } else { for (auto& x : out) x.~T(); for (auto& x : in) x.~T(); }
}
#endif
}
#ifndef SIM_NO_INTERNAL
SIM_SCENARIO(transposes, 2) { with_sched([&] {
  size_t cap = sim::instrumented() ? 6000 : 60000, area = (size_t)sim::param_log("area", 1, (int64_t)cap), rows = (size_t)sim::param_log("rows", 1, (int64_t)area), cols = std::max<size_t>(1, area / rows); int op = (int)sim::param("op", 0, 4);
  if (op == 0) { std::vector<long> a(rows * cols); for (size_t i = 0; i < a.size(); i++) a[i] = (long)i * 3; std::vector<long> b(rows * cols, -1);
    parlay::internal::transpose<parlay::copy_assign_tag, long*, long*>(a.data(), b.data()).trans(rows, cols);
    for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) SIM_CHECK(b[j * rows + i] == a[i * cols + j], "transpose", "entry (%zu,%zu) of a %zu x %zu matrix", i, j, rows, cols); }
  else if (op == 1) { auto in = parlay::internal::uninitialized_sequence<TE>(rows * cols), out = parlay::internal::uninitialized_sequence<TE>(rows * cols); for (size_t i = 0; i < rows * cols; i++) new (&in[i]) TE((long)i);
    parlay::internal::transpose<parlay::uninitialized_move_tag, TE*, TE*>(in.begin(), out.begin()).trans(rows, cols);
    for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) { TE& e = out[j * rows + i]; SIM_CHECK(e.id && *e.id == (long)(i * cols + j) && !in[i * cols + j].id, "transpose", "entry (%zu,%zu) of a %zu x %zu matrix was not moved", i, j, rows, cols); }
    for (auto& x : out) x.~TE(); for (auto& x : in) x.~TE(); }
  else if (op == 2) block_trans<parlay::uninitialized_copy_tag, long>(rows, cols, 3, [](long* p, long i) { *p = i; }, [](long x) { return x; });
  else if (op == 3) block_trans<parlay::uninitialized_relocate_tag, TE>(rows, cols, 2, [](TE* p, long i) { new (p) TE(i); }, [](TE& e) { return e.id ? *e.id : -1; });
  else block_trans<parlay::uninitialized_move_tag, TE>(rows, cols, 1, [](TE* p, long i) { new (p) TE(i); }, [](TE& e) { return e.id ? *e.id : -1; });
}); }
#endif
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
