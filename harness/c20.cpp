// C20: tokens, map_tokens, split_at and map_split_at match the sequential definition.
// PARTS: 4
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/io.h>
using namespace hx;
namespace {
// texts with separators rare, common, only at block edges, everywhere or nowhere
std::vector<char> text(size_t n) {
  int d = (int)sim::param("text", 0, 7); std::vector<char> v(n); static const char sp[] = " \t\n\v\f\r"; auto s = [&] { return sp[sim::below(6)]; }; auto c = [&] { return (char)(sim::chance(1, 20) ? 128 + sim::below(128) : 'a' + sim::below(26)); };
  static const size_t edge[] = {0, 1023, 1024, 1025, 1998, 1999, 2000, 2001, 2047, 2048, 3999, 4000, 4001};
  for (size_t i = 0; i < n; i++) switch (d) { case 0: v[i] = c(); break; case 1: v[i] = s(); break; case 2: v[i] = sim::chance(1, 2) ? s() : c(); break; case 3: v[i] = sim::chance(1, 8) ? s() : c(); break; case 4: v[i] = sim::chance(1, 300) ? s() : c(); break; case 5: v[i] = sim::chance(1, 300) ? c() : s(); break; case 6: v[i] = i % 2 ? s() : c(); break; default: v[i] = c(); }
  if (d == 7 || d == 0) for (size_t e : edge) if (e < n && d == 7 && sim::chance(1, 2)) v[e] = s(); if (n && sim::chance(1, 3)) v[0] = s(); if (n && sim::chance(1, 3)) v[n - 1] = s(); if (n && sim::chance(1, 3)) v[n - 1] = c(); return v; }
using Pieces = std::vector<std::pair<size_t, size_t>>;
template <class V, class P> Pieces runs(const V& v, P sep) { Pieces r; size_t n = v.size(); for (size_t i = 0; i < n;) { if (sep(v[i])) { i++; continue; } size_t j = i; while (j < n && !sep(v[j])) j++; r.push_back({i, j}); i = j; } return r; }
bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
template <class G, class V> void pieces(const G& g, const V& v, const Pieces& w, const char* what) {
  SIM_CHECK(g.size() == w.size(), "piece-count", "%s: %zu pieces instead of %zu (length %zu)", what, (size_t)g.size(), w.size(), v.size());
  for (size_t i = 0; i < w.size(); i++) { SIM_CHECK(g[i].size() == w[i].second - w[i].first, "piece", "%s: piece %zu has %zu elements instead of %zu (length %zu)", what, i, (size_t)g[i].size(), w[i].second - w[i].first, v.size()); for (size_t j = 0; j < g[i].size(); j++) SIM_CHECK(g[i][j] == v[w[i].first + j], "piece", "%s: element %zu of piece %zu is wrong (length %zu)", what, j, i, v.size()); } }
size_t tn() { return sim::param("n-kind", 0, 3) == 0 ? length("n", {1, 2, 1023, 1024, 1999, 2000, 2001, 2047, 2048, 4000}, sim::instrumented() ? 6000 : 20000) : big_n("n"); }
// a returned value that knows when it is used before being constructed or left behind
struct Val { size_t b, e; Val* self; Val(size_t x, size_t y) : b(x), e(y), self(this) {} Val(const Val& o) : b(o.b), e(o.e), self(this) { SIM_CHECK(o.self == &o, "value", "a result was copied from a bad object"); } Val(Val&& o) : b(o.b), e(o.e), self(this) { SIM_CHECK(o.self == &o, "value", "a result was moved from a bad object"); } Val& operator=(const Val& o) { SIM_CHECK(self == this, "value", "assigned to a bad object"); b = o.b; e = o.e; return *this; } ~Val() { SIM_CHECK(self == this, "value", "destroyed a bad object"); self = nullptr; } };
template <class R, class P, class V> void map_check(R& r, const V& v, P pred, const Pieces& w, bool small, int mode, const char* what) {
  auto base = std::begin(r); size_t n = v.size(); auto run = [&](auto f) { if constexpr (std::is_same_v<P, std::nullptr_t>) { SIM_INTERNAL(if (small) return parlay::internal::map_tokens_small(r, f); else) return parlay::map_tokens(r, f); } else { SIM_INTERNAL(if (small) return parlay::internal::map_tokens_small(r, f, pred); else) return parlay::map_tokens(r, f, pred); } };
  if (mode == 0) { auto g = run([&](auto s) { return Val((size_t)(s.begin() - base), (size_t)(s.end() - base)); }); SIM_CHECK(g.size() == w.size(), "piece-count", "%s: %zu results instead of %zu (length %zu)", what, (size_t)g.size(), w.size(), n); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(g[i].b == w[i].first && g[i].e == w[i].second && g[i].self == &g[i], "piece", "%s: result %zu is for [%zu,%zu) instead of [%zu,%zu) of %zu", what, i, g[i].b, g[i].e, w[i].first, w[i].second, n); }
  else { std::vector<unsigned> calls(n + 1, 0); std::vector<size_t> end(n + 1, 0); std::atomic<unsigned> bad{0}; run([&](auto s) { size_t b = (size_t)(s.begin() - base), e = (size_t)(s.end() - base); if (b >= n || e > n || b >= e) { bad++; return; } __atomic_fetch_add(&calls[b], 1, __ATOMIC_RELAXED); end[b] = e; }); SIM_CHECK(bad == 0, "piece", "%s: applied to an empty or out-of-range piece", what); size_t tot = 0; for (auto c : calls) tot += c; SIM_CHECK(tot == w.size(), "applied-once", "%s: applied %zu times to %zu pieces (length %zu)", what, tot, w.size(), n); for (auto& x : w) SIM_CHECK(calls[x.first] == 1 && end[x.first] == x.second, "piece", "%s: [%zu,%zu) of %zu was applied %u times, up to %zu", what, x.first, x.second, n, calls[x.first], end[x.first]); } }
template <bool D> void tok() {
  size_t n = tn(); auto v = text(n); int rk = (int)sim::param("range", 0, 1), pr = (int)sim::param("pred", 0, 2);
  as_range2<D>(v, rk, [&](auto& r) { switch (pr) {
    case 0: pieces(parlay::tokens(r), v, runs(v, ws), "tokens"); break;
    case 1: { auto p = [](char c) { return c < 'm'; }; pieces(parlay::tokens(r, p), v, runs(v, p), "tokens(pred)"); break; }
    default: { auto p = [](char c) -> int { return ws(c) ? (unsigned char)c : 0; }; pieces(parlay::tokens(r, p), v, runs(v, ws), "tokens(int pred)"); } } }); }
template <bool D> void mtok() {
  size_t n = tn(); auto v = text(n); int rk = (int)sim::param("range", 0, 1), pr = (int)sim::param("pred", 0, 1), mode = (int)sim::param("mode", 0, 1); bool small = sim::param("small", 0, 3) == 0; auto p = [](char c) { return c < 'e'; }; auto w = pr ? runs(v, p) : runs(v, ws);
  as_range2<D>(v, rk, [&](auto& r) { if (pr) map_check(r, v, p, w, small, mode, "map_tokens(pred)"); else map_check(r, v, nullptr, w, small, mode, "map_tokens"); }); }
// elements that are not characters, and only passed by reference
struct El { int v; bool sep; std::string pay; El(int x, bool s) : v(x), sep(s), pay(std::to_string(x) + "-a-longer-payload-than-sso") {} El(const El&) = default; bool operator==(const El& o) const { return v == o.v && sep == o.sep && pay == o.pay; } };
std::vector<El> els(size_t n) { auto t = text(n); std::vector<El> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.emplace_back((int)i, ws(t[i])); return v; }
std::vector<char> flags(size_t n) { int d = (int)sim::param("flags", 0, 5); std::vector<char> f(n, 0); for (size_t i = 0; i < n; i++) f[i] = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? sim::chance(1, 2) : d == 3 ? sim::chance(1, 100) : d == 4 ? i + 1 == n : (i % 1024 == 1023 || i % 1024 == 0); if (d != 4 && n && sim::chance(1, 3)) f[n - 1] = !f[n - 1]; return f; }
template <class F> Pieces cuts(size_t n, const F& f) { Pieces r; size_t s = 0; for (size_t i = 0; i < n; i++) if (f[i]) { r.push_back({s, i + 1}); s = i + 1; } r.push_back({s, n}); return r; }
template <bool D> void split() {
  size_t n = tn(); auto f = flags(n); auto w = cuts(n, f); int el = (int)sim::param("element", 0, 2), rk = (int)sim::param("range", 0, 1), fk = (int)sim::param("flag-type", 0, 2);
  parlay::sequence<bool> fb(f.begin(), f.end()); std::vector<int> fi(n); for (size_t i = 0; i < n; i++) fi[i] = f[i] ? 1 + (int)sim::below(3) : 0; auto fd = parlay::delayed_seq<bool>(n, [&](size_t i) { return f[i] != 0; });
  auto go = [&](auto& r, const auto& v) { if (fk == 0) pieces(parlay::split_at(r, fb), v, w, "split_at"); else if (fk == 1) pieces(parlay::split_at(r, fi), v, w, "split_at(int flags)"); else pieces(parlay::split_at(r, fd), v, w, "split_at(delayed flags)"); };
  if (el == 0) { auto v = text(n); as_range2<D>(v, rk, [&](auto& r) { go(r, v); }); } else if (el == 1) { std::vector<long> v(n); for (size_t i = 0; i < n; i++) v[i] = (long)i * 3; as_range2<D>(v, rk, [&](auto& r) { go(r, v); }); } else { auto v = els(std::min<size_t>(n, 2500)); if (v.size() == n) go(v, v); } }
template <bool D> void msplit() {
  size_t n = tn(); auto f = flags(n); auto w = cuts(n, f); int rk = (int)sim::param("range", 0, 1); std::vector<long> v(n); for (size_t i = 0; i < n; i++) v[i] = (long)i;
  as_range2<D>(v, rk, [&](auto& r) { auto base = std::begin(r); std::atomic<size_t> calls{0}; auto g = parlay::map_split_at(r, f, [&](auto s) { calls++; return Val((size_t)(s.begin() - base), (size_t)(s.end() - base)); }); SIM_CHECK(g.size() == w.size(), "piece-count", "map_split_at: %zu results instead of %zu", (size_t)g.size(), w.size()); SIM_CHECK(calls == w.size(), "applied-once", "map_split_at: %zu calls for %zu pieces", (size_t)calls, w.size()); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(g[i].b == w[i].first && g[i].e == w[i].second, "piece", "map_split_at: result %zu is for [%zu,%zu) instead of [%zu,%zu)", i, g[i].b, g[i].e, w[i].first, w[i].second); }); }
}
#if SIM_PART(1)
SIM_SCENARIO(tokens, 6) { with_sched([] { tok<true>(); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(map_tokens, 6) { with_sched([] { mtok<true>(); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(split_at, 5) { with_sched([] { split<true>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(map_split_at, 3) { with_sched([] { msplit<true>(); }); }
SIM_SCENARIO(map_tokens_elements, 3) { with_sched([] { size_t n = std::min<size_t>(tn(), 3000); auto v = els(n); auto p = [](const El& e) { return e.sep; }; auto w = runs(v, p); map_check(v, v, p, w, sim::chance(1, 3), (int)sim::param("mode", 0, 1), "map_tokens(elements)"); }); }
SIM_SCENARIO(nested_tokens, 2) { with_sched([] { // words of lines: a tokenisation inside each piece
  size_t n = tn(); auto v = text(n); auto ln = [](char c) { return c == '\n' || c == '\t'; }; auto w = runs(v, ln); auto g = parlay::map_tokens(v, [](auto s) { return parlay::tokens(s); }, ln); SIM_CHECK(g.size() == w.size(), "piece-count", "lines: %zu instead of %zu", (size_t)g.size(), w.size());
  for (size_t i = 0; i < w.size(); i++) { std::vector<char> l(v.begin() + (long)w[i].first, v.begin() + (long)w[i].second); pieces(g[i], l, runs(l, ws), "words of a line"); } }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
