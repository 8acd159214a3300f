// C15: filter, pack, flatten and reordering primitives keep exactly the selected elements in the documented order.
#include "common.h"
#include <parlay/primitives.h>
using namespace hx;
namespace {
struct El { int v, id; bool operator==(const El& o) const { return v == o.v && id == o.id; } };
std::vector<El> data(size_t n, int range) { std::vector<El> v(n); for (size_t i = 0; i < n; i++) v[i] = El{(int)sim::below(range), (int)i}; return v; }
std::vector<char> flags_of(size_t n) { int d = (int)sim::param("density", 0, 6); std::vector<char> f(n); size_t a = sim::below(n + 1), b = sim::below(n + 1); for (size_t i = 0; i < n; i++) switch (d) { case 0: f[i] = 0; break; case 1: f[i] = sim::chance(1, 200); break; case 2: f[i] = sim::chance(1, 2); break; case 3: f[i] = !sim::chance(1, 200); break; case 4: f[i] = 1; break; case 5: f[i] = (i / 1024) % 2; break; default: f[i] = i >= std::min(a, b) && i < std::max(a, b); } return f; }
template <class T> struct Out { std::vector<T> a; size_t want; Out(size_t w, size_t extra, T s) : a(w + extra, s), want(w) {} };
}
SIM_SCENARIO(filter_pack, 8) {
  with_sched([&] { size_t n = big_n("n"); int rk = (int)sim::param("range", 0, 4), kind = (int)sim::param("op", 0, 8); auto v = data(n, 1000); auto fl = flags_of(n); std::vector<El> w; std::vector<size_t> wi; for (size_t i = 0; i < n; i++) if (fl[i]) { w.push_back(v[i]); wi.push_back(i); }
    std::vector<int> calls(n, 0); auto p = [&](const El& e) { calls[e.id]++; return (bool)fl[e.id]; }; size_t extra = (size_t)sim::param("extra", 0, 3) * 500; El sent{-9, -9};
    auto tail = [&](auto& o, size_t m, const char* what) { SIM_CHECK(m == w.size(), "length", "%s returned %zu, %zu selected", what, m, w.size()); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(o[i] == w[i], "content", "%s: element %zu wrong", what, i); for (size_t i = m; i < o.size(); i++) SIM_CHECK(o[i] == sent, "tail", "%s wrote position %zu, the result has %zu", what, i, m); };
    as_range(v, rk, [&](auto& r) {
      if (kind == 0) { same(parlay::filter(r, p), w, "content", "filter"); for (size_t i = 0; i < n; i++) SIM_CHECK(calls[i] == 1, "calls", "filter tested element %zu %d times", i, calls[i]); }
      else if (kind == 1) { std::vector<El> o(w.size() + extra, sent); size_t m = parlay::filter_into_uninitialized(r, o, p); tail(o, m, "filter_into_uninitialized"); }
      else if (kind == 2) same(parlay::pack(r, fl), w, "content", "pack");
      else if (kind == 3) { std::vector<El> o(w.size() + extra, sent); parlay::sequence<bool> b(fl.begin(), fl.end()); size_t m = parlay::pack_into_uninitialized(r, b, o); tail(o, m, "pack_into_uninitialized"); }
      else if (kind == 4) { auto b = parlay::delayed_seq<bool>(n, [&](size_t i) { return (bool)fl[i]; }); same(parlay::pack_index(b), wi, "content", "pack_index"); same(parlay::pack_index<int>(fl), wi, "content", "pack_index<int>"); }
      else if (kind == 5) same(parlay::map_maybe(r, [&](const El& e) -> std::optional<El> { if (fl[e.id]) return e; return std::nullopt; }), w, "content", "map_maybe");
      else if (kind == 6) same(parlay::remove_if(r, [&](const El& e) { return !fl[e.id]; }), w, "content", "remove_if");
      else if (kind == 7) { SIM_INTERNAL(auto s2 = parlay::internal::split_two(r, fl); std::vector<El> x; for (size_t i = 0; i < n; i++) if (!fl[i]) x.push_back(v[i]); size_t k = x.size(); x.insert(x.end(), w.begin(), w.end()); same(s2.first, x, "content", "split_two"); SIM_CHECK(s2.second == k, "length", "split_two count %zu instead of %zu", s2.second, k);) }
      else { SIM_INTERNAL(same(parlay::internal::filter_map(r, p, [](const El& e) { return e.id; }), wi, "content", "filter_map"); std::vector<El> o(w.size() + extra, sent); size_t m = parlay::internal::filter_out(parlay::make_slice(r), parlay::make_slice(o), p); tail(o, m, "filter_out");) } }); }); }
SIM_SCENARIO(remove_unique, 4) {
  with_sched([&] { size_t n = big_n("n"); int rk = (int)sim::param("range", 0, 4), rg = (int)sim::param("values", 1, 5); bool runs = sim::param("runs", 0, 1); std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = runs && i && !sim::chance(1, 60) ? v[i - 1] : (int)sim::below(rg); int x = (int)sim::below(rg); std::vector<int> w, u; for (size_t i = 0; i < n; i++) { if (v[i] != x) w.push_back(v[i]); if (!i || v[i] != v[i - 1]) u.push_back(v[i]); }
    as_range(v, rk, [&](auto& r) { same(parlay::remove(r, x), w, "content", "remove"); same(parlay::unique(r), u, "content", "unique"); same(parlay::unique(r, [](int a, int b) { return a == b; }), u, "content", "unique with predicate"); }); }); }
SIM_SCENARIO(flatten_, 6) {
  with_sched([&] { size_t m = (size_t)sim::param_log("outer", 0, sim::instrumented() ? 1500 : 6000); int shape = (int)sim::param("shape", 0, 3), kind = (int)sim::param("kind", 0, 4); size_t cap = sim::instrumented() ? 8000 : 60000, tot = 0; std::vector<std::vector<int>> v(m); std::vector<int> w;
    for (size_t i = 0; i < m; i++) { size_t l = shape == 0 ? sim::below(4) : shape == 1 ? (sim::chance(1, 8) ? sim::below(3000) : 0) : shape == 2 ? 1 : sim::below(40); if (tot + l > cap) l = 0; tot += l; for (size_t k = 0; k < l; k++) { v[i].push_back((int)(w.size())); w.push_back((int)w.size()); } }
    if (kind == 0) same(parlay::flatten(v), w, "content", "flatten(vectors)"); else if (kind == 1) { auto s = parlay::tabulate(m, [&](size_t i) { return parlay::sequence<int>(v[i].begin(), v[i].end()); }); same(parlay::flatten(s), w, "content", "flatten(sequences)"); for (size_t i = 0; i < m; i++) SIM_CHECK(s[i].size() == v[i].size(), "source", "flatten changed its argument"); }
    else if (kind == 2) { auto s = parlay::tabulate(m, [&](size_t i) { return parlay::sequence<int>(v[i].begin(), v[i].end()); }); same(parlay::flatten(std::move(s)), w, "content", "flatten(sequences&&)"); SIM_CHECK(s.empty(), "source", "flatten(&&) left %zu elements", s.size()); s.push_back(parlay::sequence<int>(3, 1)); SIM_CHECK(s.size() == 1, "source", "moved-from unusable"); }
    else if (kind == 3) { auto d = parlay::delayed_tabulate(m, [&](size_t i) { return parlay::sequence<int>(v[i].begin(), v[i].end()); }); same(parlay::flatten(d), w, "content", "flatten(delayed)"); }
    else { auto s = parlay::tabulate(m, [&](size_t i) { return parlay::short_sequence<char>(v[i].size(), (char)(v[i].empty() ? 0 : v[i][0])); }); auto f = parlay::flatten(s); SIM_CHECK(f.size() == tot, "length", "flatten(short) %zu of %zu", f.size(), tot); size_t k = 0; for (auto& x : v) for (size_t j = 0; j < x.size(); j++) SIM_CHECK(f[k++] == (char)x[0], "content", "flatten(short)"); } }); }
SIM_SCENARIO(reorder, 4) {
  with_sched([&] { size_t n = big_n("n"), n2 = (size_t)sim::param_log("n2", 0, 3000); int rk = (int)sim::param("range", 0, 4); auto v = data(n, 1 << 20); auto v2 = data(n2, 1 << 20); auto rev = v; std::reverse(rev.begin(), rev.end()); size_t t = n ? (size_t)sim::below(n + 1) : 0; auto rot = v; std::rotate(rot.begin(), rot.begin() + t, rot.end()); auto app = v; app.insert(app.end(), v2.begin(), v2.end());
    as_range(v, rk, [&](auto& r) { same(parlay::reverse(r), rev, "content", "reverse"); same(parlay::rotate(r, t), rot, "content", "rotate"); same(parlay::append(r, v2), app, "content", "append"); });
    auto s = parlay::to_sequence(v); parlay::reverse_inplace(s); same(s, rev, "content", "reverse_inplace"); auto sl = s.cut(n / 3, n); parlay::reverse_inplace(sl); std::reverse(rev.begin() + n / 3, rev.end()); same(s, rev, "content", "reverse_inplace on a slice"); }); }
SIM_SCENARIO(split_three_, 2) {
  with_sched([&] { size_t n = big_n("n"); auto v = data(n, 1000); std::vector<int> f(n); int bias = (int)sim::param("bias", 0, 3); for (auto& x : f) x = bias == 3 ? (int)sim::below(3) : sim::chance(9, 10) ? bias : (int)sim::below(3); std::vector<El> w; size_t c[3] = {0, 0, 0}; for (int k = 0; k < 3; k++) for (size_t i = 0; i < n; i++) if (f[i] == k) { w.push_back(v[i]); c[k]++; }
    SIM_INTERNAL(std::vector<El> o(n); auto r = parlay::internal::split_three<parlay::uninitialized_copy_tag>(parlay::make_slice(v.begin(), v.end()), parlay::make_slice(o.begin(), o.end()), f); SIM_CHECK(r.first == c[0] && r.second == c[1], "length", "split_three counts"); same(o, w, "content", "split_three");) }); }
SIM_SCENARIO(nested, 2) {
  with_sched([&] { size_t m = (size_t)sim::param("outer", 1, 6), n = big_n("n", 3000, 20000); std::vector<std::vector<El>> v; std::vector<int> mod(m); for (size_t k = 0; k < m; k++) { v.push_back(data(n, 10)); mod[k] = (int)sim::below(10); } auto res = parlay::tabulate(m, [&](size_t k) { return parlay::filter(v[k], [&](const El& e) { return e.v <= mod[k]; }); }, 1);
    auto all = parlay::flatten(res); std::vector<El> w; for (size_t k = 0; k < m; k++) for (auto& e : v[k]) if (e.v <= mod[k]) w.push_back(e); same(all, w, "content", "nested filter + flatten"); }); }
// predicates that claim elements (the breadth-first-search idiom): applied once to each element, so every key is selected exactly once
SIM_SCENARIO(claims, 4) {
  with_sched([&] { size_t n = big_n("n"), keys = 1 + (size_t)sim::param_log("keys", 0, 4000); int kind = (int)sim::param("op", 0, 4), rk = (int)sim::param("range", 0, 4); std::vector<int> v(n); for (auto& x : v) x = (int)sim::below(keys); std::vector<std::atomic<int>> claimed(keys); for (auto& c : claimed) c = 0; std::vector<char> present(keys, 0); size_t distinct = 0; for (int x : v) if (!present[x]) { present[x] = 1; distinct++; }
    std::atomic<size_t> calls{0}; auto p = [&](int x) { calls++; int e = 0; return claimed[x].compare_exchange_strong(e, 1); }; parlay::sequence<int> got;
    as_range(v, rk, [&](auto& r) { if (kind == 0) got = parlay::filter(r, p); else if (kind == 1) { got = parlay::sequence<int>(n + 1, -1); size_t m = parlay::filter_into_uninitialized(r, got, p); got.resize(m); } else if (kind == 2) got = parlay::remove_if(r, [&](int x) { return !p(x); }); else if (kind == 3) got = parlay::map_maybe(r, [&](int x) -> std::optional<int> { if (p(x)) return x; return std::nullopt; }); else got = parlay::filter(parlay::to_sequence(r), p); });
    SIM_CHECK(calls == n, "calls", "%zu calls of the predicate for %zu elements", (size_t)calls, n); SIM_CHECK(got.size() == distinct, "claimed", "%zu elements claimed, %zu distinct keys", got.size(), distinct); std::vector<char> seen(keys, 0); for (int x : got) { SIM_CHECK(x >= 0 && (size_t)x < keys && present[x] && !seen[x], "claimed", "key %d is wrong or twice in the result", x); seen[x] = 1; } }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
