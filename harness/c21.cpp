// C21: delayed sequences equal their eager meaning, for every composition, way of consuming and handing over of the views.
// PARTS: 9
#include "common.h"
#include <parlay/delayed.h>
#include <parlay/primitives.h>
#include <list>
#include <optional>
using namespace hx;
namespace d = parlay::delayed;
namespace {
// an element that owns memory and knows its own address, so that reading a dead, moved or never constructed one is noticed; its operation is associative but not commutative
struct El {
  uint64_t a = 1, b = 0; const El* self; std::vector<uint64_t> heap;
  El() : self(this), heap(1, 1) {}
  El(uint64_t x, uint64_t y) : a(x), b(y), self(this), heap(1, x ^ y) {}
  El(const El& o) : a(o.a), b(o.b), self(this), heap(o.heap) { o.ok(); }
  El(El&& o) noexcept : a(o.a), b(o.b), self(this), heap(std::move(o.heap)) { if (o.self != &o) sim::fail("element", "moved from an object that does not exist"); }
  El& operator=(const El& o) { o.ok(); alive(); a = o.a; b = o.b; heap = o.heap; return *this; }
  El& operator=(El&& o) noexcept { o.alive(); alive(); a = o.a; b = o.b; heap = std::move(o.heap); return *this; }
  ~El() { alive(); self = nullptr; }
  void alive() const { SIM_CHECK(self == this, "element", "used an object that does not exist"); }
  void ok() const { alive(); SIM_CHECK(heap.size() == 1 && heap[0] == (a ^ b), "element", "read a moved-from or damaged object"); }
  bool operator==(const El& o) const { ok(); o.ok(); return a == o.a && b == o.b; }
};
struct Tiny { uint64_t a = 1, b = 0; Tiny() = default; Tiny(uint64_t x, uint64_t y) : a(x), b(y) {} void ok() const {} bool operator==(const Tiny& o) const { return a == o.a && b == o.b; } };
template <class E> struct Op { E operator()(const E& x, const E& y) const { x.ok(); y.ok(); return E(y.a * x.a, y.a * x.b + y.b); } };
template <class E> using Ref = std::vector<E>;
template <class E> uint64_t hsh(const E& e, uint64_t k) { e.ok(); return sim::mix(sim::mix(e.a, e.b), k); }
int density() { static const int64_t v[] = {0, 1, 2, 50, 99, 100}; return (int)sim::param_of("density", v); }
size_t spread() { static const int64_t v[] = {0, 1, 1, 2, 3, 5}; return (size_t)sim::param_of("spread", v); }
// ---- stages: each has the delayed view and the eager meaning
struct Map { uint64_t k = sim::rnd(); template <class E, class V> auto view(V&& v) const { return d::map(std::forward<V>(v), [k = k](const E& x) { x.ok(); return E(x.a + k, x.b * 3); }); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; for (auto& x : r) o.emplace_back(x.a + k, x.b * 3); return o; } };
struct Filter { uint64_t k = sim::rnd(); int den = density(); template <class E> bool keep(const E& x) const { return (int)(hsh(x, k) % 100) < den; } template <class E, class V> auto view(V&& v) const { return d::filter(std::forward<V>(v), [s = *this](const E& x) { return s.template keep<E>(x); }); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; for (auto& x : r) if (keep(x)) o.push_back(x); return o; } };
struct FilterOp { uint64_t k = sim::rnd(); int den = density(), mm = (int)sim::param("map_maybe", 0, 1); template <class E> std::optional<E> f(const E& x) const { uint64_t h = hsh(x, k); if ((int)(h % 100) < den) return std::make_optional(E(x.a ^ h, x.b)); return std::nullopt; }
  template <class E, class V> auto view(V&& v) const { return d::filter_op(std::forward<V>(v), [s = *this](const E& x) { return s.template f<E>(x); }); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; for (auto& x : r) if (auto y = f(x)) o.push_back(*y); return o; } };
struct ScanE { template <class E, class V> auto view(V&& v) const { auto [s, t] = d::scan(std::forward<V>(v), Op<E>(), E()); t.ok(); return std::move(s); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; E t; for (auto& x : r) { o.push_back(t); t = Op<E>()(t, x); } return o; } };
struct ScanI { template <class E, class V> auto view(V&& v) const { return d::scan_inclusive(std::forward<V>(v), Op<E>(), E()); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; E t; for (auto& x : r) { t = Op<E>()(t, x); o.push_back(t); } return o; } };
struct Flat { uint64_t k = sim::rnd(); size_t m = spread(); int den = density(); template <class E> size_t len(const E& x) const { uint64_t h = hsh(x, k); return (int)(h % 100) < den ? 0 : h / 100 % (m + 1); }
  template <class E, class V> auto view(V&& v) const { return d::flatten(d::map(std::forward<V>(v), [s = *this](const E& x) { return parlay::sequence<E>::from_function(s.template len<E>(x), [&](size_t i) { return E(x.a + i, x.b); }); })); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; for (auto& x : r) { size_t n = len(x); for (size_t i = 0; i < n; i++) o.emplace_back(x.a + i, x.b); } return o; } };
struct Zip { uint64_t k = sim::rnd(); int mode = (int)sim::param("zip", 0, 2); template <class E, class V> auto view(V&& v) const { size_t n = parlay::size(v); size_t m = mode == 0 ? n : mode == 1 ? n + 1 + k % 3000 : n - std::min<size_t>(n, k % (n + 1)); return d::zip_with([](const E& x, uint64_t y) { x.ok(); return E(x.a + y, x.b); }, std::forward<V>(v), d::tabulate(m, [k = k, m](size_t i) { SIM_CHECK(i < m, "out-of-bounds", "read element %zu of a range of %zu", i, m); return (i + 1) * k; })); }
  template <class E> Ref<E> ref(const Ref<E>& r) const { size_t n = r.size(); size_t m = mode == 0 ? n : mode == 1 ? n + 1 : n - std::min<size_t>(n, k % (n + 1)); Ref<E> o; for (size_t i = 0; i < std::min(n, m); i++) o.emplace_back(r[i].a + (i + 1) * k, r[i].b); return o; } };
struct Enum { template <class E, class V> auto view(V&& v) const { return d::map(d::enumerate(std::forward<V>(v)), [](auto&& t) { const E& x = std::get<1>(t); x.ok(); return E(x.a * 3 + std::get<0>(t), x.b); }); } template <class E> Ref<E> ref(const Ref<E>& r) const { Ref<E> o; for (size_t i = 0; i < r.size(); i++) o.emplace_back(r[i].a * 3 + i, r[i].b); return o; } };
// overwrite dead stack frames
__attribute__((noinline)) void clobber() { volatile char b[6000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)(i * 7 + 1); }
// ---- consumers
template <class E> void eq(const E& g, const Ref<E>& r, size_t i, const char* what) { SIM_CHECK(i < r.size(), "elements", "%s yields more than %zu elements", what, r.size()); SIM_CHECK(g == r[i], "elements", "%s: element %zu of %zu is wrong", what, i, r.size()); }
template <class E, class V> void once(V& v, const Ref<E>& r, int how) {
  size_t n = r.size(); SIM_CHECK(parlay::size(v) == n, "size", "size is %zu instead of %zu", (size_t)parlay::size(v), n);
  switch (how) {
    case 0: { auto s = d::to_sequence(v); SIM_CHECK(s.size() == n, "size", "to_sequence gives %zu elements instead of %zu", s.size(), n); for (size_t i = 0; i < n; i++) eq(s[i], r, i, "to_sequence"); break; }
    case 1: { size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) eq(E(*it), r, i, "iteration"); SIM_CHECK(i == n, "elements", "iteration ends after %zu of %zu elements", i, n); break; }
    case 2: { E t = d::reduce(v, Op<E>(), E()), w; for (auto& x : r) w = Op<E>()(w, x); SIM_CHECK(t == w, "reduce", "reduce over %zu elements", n); break; }
    case 3: { std::atomic<uint64_t> s{0}, c{0}; d::for_each(v, [&](const E& x) { s += hsh(x, 5); c++; }); uint64_t w = 0; for (auto& x : r) w += hsh(x, 5); SIM_CHECK(c == n, "for_each", "for_each visits %zu of %zu elements", (size_t)c, n); SIM_CHECK(s == w, "for_each", "for_each visits wrong elements (of %zu)", n); break; }
    case 4: { SIM_INTERNAL(namespace id = parlay::internal::delayed; size_t i = 0; size_t nb = id::num_blocks(v); for (size_t k = 0; k < nb; k++) { auto e = id::end_block(v, k); size_t c = 0; for (auto it = id::begin_block(v, k); it != e; it++, i++, c++) eq(E(*it), r, i, "block iteration"); SIM_CHECK(c > 0, "elements", "block %zu is empty", k); } SIM_CHECK(i == n, "elements", "block iteration ends after %zu of %zu elements", i, n);) break; }
    default: { auto it = v.begin(); if (n) { auto jt = it++; eq(E(*jt), r, 0, "post-increment"); if (n > 1) eq(E(*it), r, 1, "post-increment"); typename std::decay<decltype(it)>::type z; z = jt; eq(E(*z), r, 0, "assigned iterator"); auto kt = jt; SIM_CHECK(kt == jt && !(kt != jt), "iterator", "a copy of an iterator differs"); SIM_CHECK(jt != it, "iterator", "an incremented iterator compares equal"); } else SIM_CHECK(it == v.end(), "iterator", "an empty range has begin != end"); } } }
template <class E, class V> void consume(V& v, const Ref<E>& r) {
  int reps = 1 + (int)sim::param("consumers", 0, 1); for (int i = 0; i < reps; i++) once<E>(v, r, (int)sim::param("how", 0, 5));
  int ho = (int)sim::param("handover", 0, 3);
  if (ho == 1) { V w(v); clobber(); once<E>(w, r, (int)sim::param("how2", 0, 3)); once<E>(v, r, (int)sim::param("how3", 0, 3)); }
  else if (ho == 2) { auto p = std::make_unique<V>(v); { V x(std::move(*p)); p.reset(); clobber(); once<E>(x, r, (int)sim::param("how2", 0, 3)); } }
  else if (ho == 3) { V w(v); V x(v); w = x; once<E>(w, r, (int)sim::param("how2", 0, 3)); x = std::move(w); clobber(); once<E>(x, r, (int)sim::param("how3", 0, 3)); once<E>(v, r, (int)sim::param("how2", 0, 3)); } }
// a view is built in a frame that is gone when it is used
template <class E, class S1, class V> __attribute__((noinline)) auto build1(const S1& a, V&& v) { return a.template view<E>(std::forward<V>(v)); }
template <class E, class S1, class S2, class V> __attribute__((noinline)) auto build2(const S1& a, const S2& b, V&& v) { return b.template view<E>(a.template view<E>(std::forward<V>(v))); }
template <class E> Ref<E> source(size_t n) { Ref<E> r; r.reserve(n); for (size_t i = 0; i < n; i++) r.emplace_back(2 * sim::rnd() + 1, sim::rnd()); return r; }
size_t dn() { static const int64_t b[] = {0, 1, 2, 1999, 2000, 2001, 3999, 4000, 4001, 6000, 8001}; int64_t cap = sim::instrumented() ? 5000 : 12000; int64_t k = sim::param("n", 0, 5), r = k < 2 ? sim::param_log("len", 0, 100) : k < 5 ? b[sim::param("bound", 0, 10)] : sim::param_log("len", 0, cap); return (size_t)std::min(r, cap); }
template <class E, class S1> void one() { auto r = source<E>(dn()); S1 a; Ref<E> w; { sim::Quiet q; w = a.template ref<E>(r); }
  int k = (int)sim::param("source", 0, 2); if (k == 0) { auto v = build1<E>(a, r); clobber(); consume<E>(v, w); } else if (k == 1) { parlay::sequence<E> s(r.begin(), r.end()); auto v = build1<E>(a, std::move(s)); clobber(); consume<E>(v, w); } else { auto v = build1<E>(a, d::tabulate(r.size(), [&r](size_t i) { SIM_CHECK(i < r.size(), "out-of-bounds", "read element %zu of %zu", i, r.size()); return r[i]; })); clobber(); consume<E>(v, w); } }
template <class E, class S1, class S2> void two() { size_t n = dn(); auto r = source<E>(n); S1 a; S2 b; Ref<E> w; { sim::Quiet q; w = a.template ref<E>(r); if (w.size() > (sim::instrumented() ? 8000u : 20000u)) sim::inconclusive("too long"); w = b.template ref<E>(w); }
  if (sim::param("source", 0, 1) == 0) { auto v = build2<E>(a, b, r); clobber(); consume<E>(v, w); } else { auto v = build2<E>(a, b, d::tabulate(n, [&r](size_t i) { SIM_CHECK(i < r.size(), "out-of-bounds", "read element %zu of %zu", i, r.size()); return r[i]; })); clobber(); consume<E>(v, w); } }
template <class S1> void seconds() { switch (sim::param("second", 0, 6)) { case 0: two<Tiny, S1, Map>(); break; case 1: two<El, S1, Filter>(); break; case 2: two<El, S1, FilterOp>(); break; case 3: two<El, S1, ScanE>(); break; case 4: two<El, S1, ScanI>(); break; case 5: two<El, S1, Flat>(); break; default: two<El, S1, Zip>(); } }
// ---- flatten of stored ranges (by reference, owned, of views) with empty inner ranges in all places
template <class E> std::vector<size_t> lens(size_t cap) { int k = (int)sim::param("shape", 0, 5); size_t m = k == 3 ? (size_t)sim::param("rows", 0, 4) : sim::param("wide", 0, 4) == 4 ? (size_t)sim::param("rows", 1999, sim::instrumented() ? 2600 : 6500) : (size_t)sim::param_log("rows", 0, sim::instrumented() ? 3000 : 6000); std::vector<size_t> l(m); size_t t = 0; for (auto& x : l) { x = k == 0 ? sim::below(4) : k == 1 ? 0 : k == 2 ? (sim::chance(1, 50) ? sim::below(300) : 0) : k == 3 ? sim::below(4500) : k == 4 ? 1 : (sim::chance(1, 20) ? 2000 : sim::below(2)); if (t + x > cap) x = 0; t += x; } return l; }
template <class E> void flat_src() {
  auto l = lens<E>(sim::instrumented() ? 6000 : 14000); Ref<E> w; parlay::sequence<parlay::sequence<E>> s; for (size_t x : l) { parlay::sequence<E> in; for (size_t i = 0; i < x; i++) { w.emplace_back(2 * w.size() + 1, x); in.push_back(w.back()); } s.push_back(std::move(in)); }
  switch (sim::param("kind", 0, 6)) {
    case 0: { auto v = d::flatten(s); consume<E>(v, w); break; }
    case 1: { auto mk = [&] { auto t = s; return d::flatten(std::move(t)); }; auto v = mk(); clobber(); consume<E>(v, w); break; }
    case 2: { const auto& c = s; const auto v = d::flatten(c); once<E>(v, w, (int)sim::param("how", 0, 4)); break; }
    case 3: { auto v = d::map(d::flatten(d::map(s, [](parlay::sequence<E>& x) -> parlay::sequence<E>& { return x; })), [](E& x) -> E& { return x; }); consume<E>(v, w); break; } // references all the way
    case 4: { Ref<E> o; int kp = (int)sim::param("keep", 0, 2); auto keep = [kp](size_t z) { return kp == 0 ? z % 2 == 1 : kp == 1 ? z != 2 : z < 1900; }; for (size_t i = 0, p = 0; i < l.size(); p += l[i], i++) if (keep(l[i])) for (size_t j = 0; j < l[i]; j++) o.push_back(w[p + j]); auto mk = [&] { return d::flatten(d::filter(s, [keep](const parlay::sequence<E>& x) { return keep(x.size()); })); }; auto v = mk(); clobber(); consume<E>(v, o); break; }
    case 5: { auto all = [](const E&) { return true; }; auto mkz = [&](parlay::sequence<E>& x) { return d::zip(d::filter(x, all), x); }; std::vector<decltype(mkz(s[0]))> zs; size_t m = std::min<size_t>(l.size(), 60); zs.reserve(m); Ref<E> o; size_t p = 0; for (size_t i = 0; i < m; i++) { zs.push_back(mkz(s[i])); for (size_t j = 0; j < l[i]; j++) o.push_back(w[p++]); } // inner ranges that are block-iterable views
      auto v = d::map(d::flatten(zs), [](auto&& t) { SIM_CHECK(std::get<0>(t) == std::get<1>(t), "elements", "zip of a range with itself"); return E(std::get<0>(t)); }); clobber(); consume<E>(v, o); break; }
    default: { auto v = d::flatten(s); d::for_each(v, [](E& x) { x = E(x.a + 2, x.b); }); for (auto& x : w) x = E(x.a + 2, x.b); consume<E>(v, w); size_t p = 0; for (auto& in : s) for (auto& x : in) SIM_CHECK(x == w[p++], "write-through", "writing through a flattened view"); } } }
// writes through a filter reach exactly the selected elements; assigning views leaves the sources alone
void write_filter() { size_t n = dn(); auto r = source<Tiny>(n); auto w = r; int den = density(); uint64_t k = sim::rnd(); auto keep = [=](const Tiny& x) { return (int)(hsh(Tiny(1, x.b), k) % 100) < den; }; auto v = d::filter(r, keep); d::for_each(v, [](Tiny& x) { x.a++; }); for (auto& x : w) if (keep(x)) x.a++; SIM_CHECK(r == w, "write-through", "writing through a filtered view of %zu", n);
  auto r2 = source<Tiny>(dn()); auto w2 = r2; auto v2 = d::filter(r2, keep); Ref<Tiny> e; for (auto& x : w2) if (keep(x)) e.push_back(x); v = v2; SIM_CHECK(r == w && r2 == w2, "sources", "assigning a view changed the ranges it refers to"); once<Tiny>(v, e, (int)sim::param("how", 0, 3)); swap(v, v2); SIM_CHECK(r == w && r2 == w2, "sources", "swapping views changed the ranges they refer to");
  parlay::sequence<parlay::sequence<Tiny>> a(3), b(2); a[0].push_back(Tiny(1, 2)); b[1].push_back(Tiny(3, 4)); auto fa = d::flatten(a), fb = d::flatten(b); fa = fb; SIM_CHECK(a.size() == 3 && b.size() == 2 && a[0].size() == 1, "sources", "assigning a flatten view changed the ranges it refers to"); once<Tiny>(fa, Ref<Tiny>{Tiny(3, 4)}, 1); }
// zip of several views of different kinds and lengths
void zips() { size_t n = dn(), m = dn(); auto r = source<Tiny>(n), q = source<Tiny>(m); Filter f; auto fr = f.ref<Tiny>(r); ScanE s; auto sq = s.ref<Tiny>(q); size_t k = std::min({fr.size(), sq.size(), n}); int a = (int)sim::param("arity", 0, 3);
  if (a == 0) { auto v = d::map(d::zip(f.view<Tiny>(r), s.view<Tiny>(q), d::iota(n)), [](auto&& t) { return Tiny(std::get<0>(t).a + std::get<1>(t).b, std::get<2>(t)); }); Ref<Tiny> w; for (size_t i = 0; i < k; i++) w.emplace_back(fr[i].a + sq[i].b, i); consume<Tiny>(v, w); }
  else if (a == 1) { auto v = d::values_view(d::zip(r, q)); Ref<Tiny> w(q.begin(), q.begin() + (long)std::min(n, m)); consume<Tiny>(v, w); }
  else if (a == 2) { auto v = d::keys_view(d::zip(f.view<Tiny>(r), q)); Ref<Tiny> w(fr.begin(), fr.begin() + (long)std::min(fr.size(), m)); consume<Tiny>(v, w); }
  else { auto v = d::elements_view<1>(d::enumerate(f.view<Tiny>(r))); consume<Tiny>(v, fr); } }
// totals, eager shorthands, random access
void misc() { size_t n = dn(); auto r = source<Tiny>(n); std::vector<long> x(n); for (size_t i = 0; i < n; i++) x[i] = (long)(r[i].a % 1000); long tot = 0; for (long y : x) tot += y;
  switch (sim::param("op", 0, 6)) {
    case 0: { auto [s, t] = d::scan(x); SIM_CHECK(t == tot, "total", "total of scan over %zu", n); SIM_CHECK(s.get_total() == tot, "total", "get_total of scan over %zu", n); break; }
    case 1: { auto [s, t] = d::scan(x, parlay::maximum<long>()); long m = std::numeric_limits<long>::lowest(); auto g = d::to_sequence(s); for (size_t i = 0; i < n; i++) { SIM_CHECK(g[i] == m, "elements", "maximum scan at %zu", i); m = std::max(m, x[i]); } SIM_CHECK(t == m, "total", "maximum scan"); break; }
    case 2: { SIM_CHECK(d::reduce(x) == tot && d::reduce(d::filter(x, [](long) { return true; })) == tot && d::reduce(d::scan_inclusive(x), parlay::maximum<long>()) == (n ? tot : std::numeric_limits<long>::lowest()), "reduce", "reduce over %zu", n); break; }
    case 3: { auto v = d::map(d::zip(x, d::tabulate(n, [&](size_t i) { return i; })), [](auto&& t) { return std::get<0>(t) + (long)std::get<1>(t); }); SIM_CHECK(v.size() == n, "size", "random access zip"); for (size_t i = 0; i < n; i++) SIM_CHECK(v[i] == x[i] + (long)i && v.begin()[i] == v[i] && *(v.begin() + i) == v[i], "elements", "indexing at %zu of %zu", i, n); if (n) SIM_CHECK(v.front() == v[0] && v.back() == v[n - 1], "elements", "front and back"); try { v.at(n); sim::fail("at", "no exception for an index out of range"); } catch (const std::out_of_range&) {} break; }
    case 4: { std::vector<std::string> s(n); for (size_t i = 0; i < n; i++) s[i] = std::to_string(i); auto g = d::to_sequence<std::string>(d::filter(s, [](const std::string& q) { return q.size() % 2 == 0; })); size_t j = 0; for (auto& y : s) if (y.size() % 2 == 0) { SIM_CHECK(j < g.size() && g[j] == y, "elements", "to_sequence of strings"); j++; } SIM_CHECK(j == g.size(), "size", "to_sequence of strings"); for (size_t i = 0; i < n; i++) SIM_CHECK(s[i] == std::to_string(i), "sources", "a source element changed"); break; }
    case 5: { long arr[7] = {1, 2, 3, 4, 5, 6, 7}; auto g = d::to_sequence(d::scan_inclusive(arr)); SIM_CHECK(g.size() == 7 && g[6] == 28, "elements", "scan of an array"); auto h = d::to_sequence(d::map(d::filter(arr, [](long y) { return y > 2; }), [](long y) { return y * y; })); SIM_CHECK(h.size() == 5 && h[4] == 49, "elements", "filter of an array"); break; }
    default: { parlay::sequence<size_t> ids; auto v = d::filter_op(d::iota(n), [&](size_t i) -> std::optional<size_t> { SIM_CHECK(i < n, "out-of-bounds", "read %zu of %zu", i, n); if (x[i] & 1) return i; return std::nullopt; }); auto g = d::to_sequence(v); auto h = d::to_sequence<long>(v); size_t j = 0; for (size_t i = 0; i < n; i++) if (x[i] & 1) { SIM_CHECK(j < g.size() && g[j] == i && h[j] == (long)i, "elements", "odd positions"); j++; } SIM_CHECK(j == g.size(), "size", "odd positions"); } } }
// longer pipelines, moved about
template <class E> void deep() { size_t n = std::min<size_t>(dn(), 4001); auto r = source<E>(n); Map a; Filter b; ScanI c; Zip z; FilterOp f; Ref<E> w; int k = (int)sim::param("pipe", 0, 2); 
  if (k == 0) { w = c.ref<E>(b.ref<E>(a.ref<E>(r))); auto mk = [&] { return c.view<E>(b.view<E>(a.view<E>(r))); }; auto v = mk(); clobber(); consume<E>(v, w); }
  else if (k == 1) { w = z.ref<E>(f.ref<E>(c.ref<E>(b.ref<E>(r)))); auto mk = [&] { return z.view<E>(f.view<E>(c.view<E>(b.view<E>(r)))); }; auto v = mk(); clobber(); consume<E>(v, w); }
  else { w = a.ref<E>(b.ref<E>(z.ref<E>(b.ref<E>(a.ref<E>(r))))); auto mk = [&] { return a.view<E>(b.view<E>(z.view<E>(b.view<E>(a.view<E>(r))))); }; auto v = mk(); clobber(); consume<E>(v, w); } }
}
#if SIM_PART(1)
SIM_SCENARIO(single, 4) { with_sched([] { switch (sim::param("stage", 0, 7)) { case 0: one<El, Map>(); break; case 1: one<El, Filter>(); break; case 2: one<El, FilterOp>(); break; case 3: one<El, ScanE>(); break; case 4: one<El, ScanI>(); break; case 5: one<El, Flat>(); break; case 6: one<El, Zip>(); break; default: one<El, Enum>(); } }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(map_then, 2) { with_sched([] { seconds<Map>(); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(filter_then, 3) { with_sched([] { seconds<Filter>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(filter_op_then, 3) { with_sched([] { seconds<FilterOp>(); }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(scan_then, 3) { with_sched([] { seconds<ScanE>(); }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(scan_inclusive_then, 3) { with_sched([] { seconds<ScanI>(); }); }
#endif
#if SIM_PART(7)
SIM_SCENARIO(flatten_then, 3) { with_sched([] { seconds<Flat>(); }); }
#endif
#if SIM_PART(8)
SIM_SCENARIO(flatten_ranges, 5) { with_sched([] { flat_src<El>(); }); }
SIM_SCENARIO(write_through, 2) { with_sched([] { write_filter(); }); }
#endif
#if SIM_PART(9)
SIM_SCENARIO(zip_then, 3) { with_sched([] { zips(); }); }
SIM_SCENARIO(miscellany, 2) { with_sched([] { misc(); }); }
SIM_SCENARIO(long_pipelines, 3) { with_sched([] { deep<El>(); }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
