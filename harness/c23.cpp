// C23: element objects are constructed and destroyed exactly once and never misused; nothing of theirs is leaked.
// PARTS: 11
#include "elements.h"
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include <parlay/alloc.h>
#include <parlay/internal/uninitialized_sequence.h>
#include <list>
using namespace hx; using namespace el; namespace d = parlay::delayed;
namespace {
using KW = std::pair<long, int>; using Ref = std::vector<KW>;
template <class E> size_t en() { size_t cap = std::is_same_v<E, Huge> ? 40 : sim::instrumented() ? 5000 : 20480; return std::min<size_t>(big_n("n", 5000, 20480), cap); }
Ref source(size_t n) { static const int64_t ms[] = {1, 2, 7, 100, 5000, 1 << 30}; uint64_t m = (uint64_t)sim::param_of("values", ms); Ref r(n); for (size_t i = 0; i < n; i++) r[i] = {(long)sim::below(m), (int)i}; return r; }
template <class E> parlay::sequence<E> mk(const Ref& r) { return parlay::tabulate(r.size(), [&](size_t i) { return E(r[i].first, r[i].second); }); }
template <class E, class S> void eq(const S& s, const Ref& r, const char* what) { SIM_CHECK((size_t)parlay::size(s) == r.size(), "size", "%s gives %zu elements instead of %zu", what, (size_t)parlay::size(s), r.size()); auto it = std::begin(s); for (size_t i = 0; i < r.size(); i++, ++it) SIM_CHECK((*it).key() == r[i].first && (*it).tag() == r[i].second, "value", "%s: element %zu of %zu is wrong", what, i, r.size()); }
template <class E, class S> void eqk(const S& s, Ref r, const char* what) { Ref g; for (const auto& x : s) g.push_back({x.key(), x.tag()}); for (size_t i = 1; i < g.size(); i++) SIM_CHECK(g[i - 1].first <= g[i].first, "order", "%s: not sorted at %zu of %zu", what, i, g.size()); std::sort(g.begin(), g.end()); std::sort(r.begin(), r.end()); SIM_CHECK(g == r, "value", "%s: the elements are not those of the input (%zu)", what, r.size()); }
auto bykey = [](const KW& a, const KW& b) { return a.first < b.first; };
Ref sorted(Ref r) { std::stable_sort(r.begin(), r.end(), bykey); return r; }
// one operation: objects and memory in use are the same before and after
template <class F> void op(const char* what, F&& f) { size_t l0 = g_reg.live; parlay::internal::get_default_allocator(); parlay::num_workers(); size_t u0 = parlay::internal::memory_usage().first; f(); SIM_CHECK(g_reg.live == l0, "leak", "%zu objects exist after %s, %zu before", g_reg.live, what, l0); size_t u1 = parlay::internal::memory_usage().first; SIM_CHECK(u1 == u0, "memory", "%zu bytes of sequences are in use after %s, %zu before", u1, what, u0); }
// operations that need no copies
template <class E> void moving() { size_t n = en<E>(); Ref r = source(n); int k = (int)sim::param("op", 0, 13); Scope sc; static const char* names[] = {"tabulate", "sort_inplace", "stable_sort_inplace", "integer_sort_inplace", "stable_integer_sort_inplace", "reverse_inplace", "append of a moved sequence", "flatten of a moved sequence", "pop_tail", "growing", "erasing", "moving through iterators", "assigning", "for_each"};
  op(names[k], [&] { auto s = mk<E>(r); const char* w = names[k]; switch (k) {
    case 0: { eq<E>(s, r, w); auto t = parlay::map(s, [](E& x) { return E(std::move(x)); }); eq<E>(t, r, w); auto u = parlay::sequence<E>::from_function(n, [&](size_t i) -> E&& { return std::move(t[i]); }, 1 + sim::below(50)); eq<E>(u, r, w); break; }
    case 1: parlay::sort_inplace(s, [](const E& a, const E& b) { return a.key() < b.key(); }); eqk<E>(s, r, w); break;
    case 2: parlay::stable_sort_inplace(s, [](const E& a, const E& b) { return a.key() < b.key(); }); eq<E>(s, sorted(r), w); break;
    case 3: if constexpr (!std::is_same_v<E, Huge>) { parlay::integer_sort_inplace(s, [](const E& a) { return (uint64_t)a.key(); }); eqk<E>(s, r, w); } break;
    case 4: if constexpr (!std::is_same_v<E, Huge>) { parlay::stable_integer_sort_inplace(s, [](const E& a) { return (uint32_t)a.key(); }); eq<E>(s, sorted(r), w); } break;
    case 5: parlay::reverse_inplace(s); std::reverse(r.begin(), r.end()); eq<E>(s, r, w); break;
    case 6: { Ref r2 = source(sim::below(n + 3)); auto t = mk<E>(r2); if (sim::chance(1, 2)) s.reserve(s.size() + sim::below(2 * t.size() + 1)); if (sim::chance(1, 6)) { s.clear(); r.clear(); } s.append(std::move(t)); r.insert(r.end(), r2.begin(), r2.end()); eq<E>(s, r, w); SIM_CHECK(t.size() == 0, "moved-from", "the sequence appended from is not empty"); break; }
    case 7: { parlay::sequence<parlay::sequence<E>> ss; Ref o; size_t p = 0; while (p < n) { size_t c = std::min<size_t>(n - p, sim::chance(1, 4) ? 0 : sim::chance(1, 10) ? sim::below(3000) : sim::below(20)); Ref q(r.begin() + (long)p, r.begin() + (long)(p + c)); ss.push_back(mk<E>(q)); p += c; } auto t = parlay::flatten(std::move(ss)); eq<E>(t, r, w); break; }
    case 8: { size_t c = sim::below(n + 1); auto t = s.pop_tail(c); Ref q(r.end() - (long)c, r.end()); r.resize(n - c); eq<E>(s, r, w); eq<E>(t, q, w); if (c && sim::chance(1, 2)) { s.append(std::move(t)); r.insert(r.end(), q.begin(), q.end()); eq<E>(s, r, w); } break; }
    case 9: { size_t c = 1 + sim::below(30); for (size_t i = 0; i < c; i++) { size_t at = sim::below(s.size() + 1); KW x{(long)i, -(int)i}; switch (sim::below(4)) { case 0: s.emplace_back(x.first, x.second); at = r.size(); break; case 1: s.push_back(E(x.first, x.second)); at = r.size(); break; case 2: { auto it = s.insert(s.begin() + (long)at, E(x.first, x.second)); SIM_CHECK(it == s.begin() + (long)at, "iterator", "insert returned another position"); break; } default: { auto it = s.emplace(s.begin() + (long)at, x.first, x.second); SIM_CHECK(it == s.begin() + (long)at, "iterator", "emplace returned another position"); } } r.insert(r.begin() + (long)at, x); } eq<E>(s, r, w); break; }
    case 10: { for (int i = 0; i < 8 && !r.empty(); i++) { if (sim::chance(1, 2)) { size_t at = sim::below(r.size()); s.erase(s.begin() + (long)at); r.erase(r.begin() + (long)at); } else { size_t a = sim::below(r.size() + 1), b = a + sim::below(r.size() - a + 1); if constexpr (std::is_copy_constructible_v<E>) { s.erase(s.begin() + (long)a, s.begin() + (long)b); r.erase(r.begin() + (long)a, r.begin() + (long)b); } } } eq<E>(s, r, w); if (!r.empty()) { s.pop_back(); r.pop_back(); } eq<E>(s, r, w); break; }
    case 11: { parlay::sequence<E> t(std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())); eq<E>(t, r, w); std::list<int> li; for (size_t i = 0; i < std::min<size_t>(n, 300); i++) li.push_back((int)i); parlay::sequence<E> u; u.append(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); eq<E>(u, r, w); break; }
    case 12: { auto t = std::move(s); SIM_CHECK(s.empty(), "moved-from", "a moved-from sequence is not empty"); Ref r2 = source(sim::below(50)); s = mk<E>(r2); swap(s, t); eq<E>(s, r, w); t = std::move(s); eq<E>(t, r, w); s = parlay::sequence<E>(5 + sim::below(2000)); for (auto& x : s) SIM_CHECK(x.key() == 0, "value", "default element"); break; }
    default: { parlay::for_each(s, [](E& x) { E y(std::move(x)); x = E(y.key() + 1, y.tag()); }); for (auto& x : r) x.first++; eq<E>(s, r, w); } } }); }
// operations that copy
template <class E> struct Add { E operator()(const E& a, const E& b) const { return E(a.key() + b.key(), a.tag() ^ b.tag()); } };
template <class E> void copying(int lo, int hi) { size_t n = en<E>(); Ref r = source(n); int k = (int)sim::param("op", lo, hi); Scope sc; static const char* names[] = {"sort", "stable_sort", "integer_sort", "merge", "filter", "pack", "filter_into", "filter_into_uninitialized", "remove_if", "unique", "reverse and rotate", "append", "flatten", "map_maybe", "random_shuffle", "pack_into", "reduce and scan", "kth_smallest", "map_tokens", "split_at", "remove_duplicates_ordered", "copying a sequence", "minimum", "rank", "delayed filter", "delayed scan", "delayed zip", "delayed flatten"};
  auto less = [](const E& a, const E& b) { return a.key() < b.key(); }; auto odd = [](const E& a) { return a.key() % 3 == 1; }; Ref ro; for (auto& x : r) if (x.first % 3 == 1) ro.push_back(x);
  op(names[k], [&] { auto s = mk<E>(r); const char* w = names[k]; switch (k) {
    case 0: { auto t = parlay::sort(s, less); eqk<E>(t, r, w); } break;
    case 1: { auto t = parlay::stable_sort(s, less); eq<E>(t, sorted(r), w); break; }
    case 2: if constexpr (!std::is_same_v<E, Huge>) { auto t = parlay::integer_sort(s, [](const E& a) { return (uint64_t)a.key(); }); eqk<E>(t, r, w); auto u = parlay::stable_integer_sort(s, [](const E& a) { return (uint32_t)a.key(); }); eq<E>(u, sorted(r), w); } break;
    case 3: { Ref a = sorted(source(sim::below(n + 1))), b = sorted(r); auto sa = mk<E>(a); auto sb = mk<E>(b); auto t = parlay::merge(sa, sb, less); Ref m; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(m), bykey); eq<E>(t, m, w); break; }
    case 4: { auto t = parlay::filter(s, odd); eq<E>(t, ro, w); break; }
    case 5: { auto fl = parlay::tabulate(n, [&](size_t i) -> bool { return r[i].first % 3 == 1; }); auto t = parlay::pack(s, fl); eq<E>(t, ro, w); break; }
    case 6: { parlay::internal::uninitialized_sequence<E> o(n); size_t m = parlay::filter_into(s, o, odd); SIM_CHECK(m == ro.size(), "size", "filter_into returns %zu instead of %zu", (size_t)m, ro.size()); for (size_t i = 0; i < m; i++) { SIM_CHECK(o[i].tag() == ro[i].second, "value", "%s: element %zu", w, i); std::destroy_at(&o[i]); } break; } // the old names write to uninitialised memory as well
    case 7: { parlay::internal::uninitialized_sequence<E> o(n); size_t m = parlay::filter_into_uninitialized(s, o, odd); SIM_CHECK(m == ro.size(), "size", "filter_into_uninitialized returns %zu instead of %zu", (size_t)m, ro.size()); for (size_t i = 0; i < m; i++) { SIM_CHECK(o[i].tag() == ro[i].second, "value", "%s: element %zu", w, i); std::destroy_at(&o[i]); } parlay::internal::uninitialized_sequence<E> q(3); q = std::move(o); SIM_CHECK(q.size() == n && o.size() == 0, "moved-from", "uninitialized_sequence"); parlay::internal::uninitialized_sequence<E> q2(std::move(q)); q2.swap(q); break; }
    case 8: { auto t = parlay::remove_if(s, odd); Ref q; for (auto& x : r) if (x.first % 3 != 1) q.push_back(x); eq<E>(t, q, w); break; }
    case 9: { auto t = parlay::unique(s, [](const E& a, const E& b) { return a.key() == b.key(); }); Ref q; for (auto& x : r) if (q.empty() || q.back().first != x.first) q.push_back(x); eq<E>(t, q, w); break; }
    case 10: { auto t = parlay::reverse(s); Ref q(r.rbegin(), r.rend()); eq<E>(t, q, w); if (n) { size_t c = sim::below(n); auto u = parlay::rotate(s, c); std::rotate(r.begin(), r.begin() + (long)c, r.end()); eq<E>(u, r, w); } break; }
    case 11: { Ref r2 = source(sim::below(3000) % (n + 10)); auto t = mk<E>(r2); auto u = parlay::append(s, t); Ref q = r; q.insert(q.end(), r2.begin(), r2.end()); eq<E>(u, q, w); s.append(t); eq<E>(s, q, w); s.append(3, E(1, 2)); for (int i = 0; i < 3; i++) q.push_back({1, 2}); eq<E>(s, q, w); eq<E>(t, r2, w); break; }
    case 12: { parlay::sequence<parlay::sequence<E>> ss; size_t p = 0; while (p < n) { size_t c = std::min<size_t>(n - p, sim::chance(1, 4) ? 0 : sim::chance(1, 10) ? sim::below(3000) : sim::below(20)); Ref q(r.begin() + (long)p, r.begin() + (long)(p + c)); ss.push_back(mk<E>(q)); p += c; } auto t = parlay::flatten(ss); eq<E>(t, r, w); auto u = parlay::flatten(parlay::delayed_tabulate(ss.size(), [&](size_t i) { return ss[i]; })); eq<E>(u, r, w); break; }
    case 13: { auto t = parlay::map_maybe(s, [&](const E& a) -> std::optional<E> { if (odd(a)) return a; return std::nullopt; }); eq<E>(t, ro, w); break; }
    case 14: { auto t = parlay::random_shuffle(s); Ref g; for (auto& x : t) g.push_back({x.key(), x.tag()}); std::sort(g.begin(), g.end()); std::sort(r.begin(), r.end()); SIM_CHECK(g == r, "value", "random_shuffle of %zu", n); break; }
    case 15: { auto fl = parlay::tabulate(n, [&](size_t i) -> bool { return r[i].first % 3 == 1; }); parlay::internal::uninitialized_sequence<E> u(ro.size()); size_t m = sim::chance(1, 2) ? parlay::pack_into_uninitialized(s, fl, u) : parlay::pack_into(s, fl, u); SIM_CHECK(m == ro.size(), "size", "pack_into returns %zu instead of %zu", m, ro.size()); for (size_t i = 0; i < ro.size(); i++) { SIM_CHECK(u[i].tag() == ro[i].second, "value", "%s: element %zu", w, i); std::destroy_at(&u[i]); } break; }
    case 16: { auto m = parlay::make_monoid(Add<E>(), E()); E t = parlay::reduce(s, m); Ref q; long a = 0; int b = 0; for (auto& x : r) { q.push_back({a, b}); a += x.first; b ^= x.second; } SIM_CHECK(t.key() == a && t.tag() == b, "value", "reduce of %zu", n); auto [p, u] = parlay::scan(s, m); eq<E>(p, q, "scan"); SIM_CHECK(u.key() == a, "value", "total of scan"); q.push_back({a, b}); q.erase(q.begin()); auto i = parlay::scan_inclusive(s, m); eq<E>(i, q, "scan_inclusive"); parlay::scan_inclusive_inplace(s, m); eq<E>(s, q, "scan_inclusive_inplace"); break; }
    case 17: if (n) { size_t c = sim::below(n); Ref q = sorted(r); E x = parlay::kth_smallest_copy(s, c, less); SIM_CHECK(x.key() == q[c].first, "value", "kth_smallest_copy(%zu of %zu)", c, n); auto it = parlay::kth_smallest(s, c, less); SIM_CHECK(it->key() == q[c].first, "value", "kth_smallest(%zu of %zu)", c, n); } break;
    case 18: { Ref q; for (size_t i = 0; i < n; i++) if (r[i].first % 3 != 1 && (i == 0 || r[i - 1].first % 3 == 1)) q.push_back({0, r[i].second}); for (size_t i = 0, j = (size_t)-1; i < n; i++) { if (r[i].first % 3 != 1) { if (i == 0 || r[i - 1].first % 3 == 1) j++; q[j].first += r[i].first; } } auto t = parlay::map_tokens(s, [](auto sl) { long a = 0; for (auto& x : sl) a += x.key(); return E(a, sl[0].tag()); }, odd); eq<E>(t, q, w); break; }
    case 19: { auto fl = parlay::tabulate(n, [&](size_t i) -> bool { return r[i].first % 3 == 1; }); auto t = parlay::split_at(s, fl); SIM_CHECK(t.size() == ro.size() + 1, "size", "split_at"); size_t p = 0; for (auto& x : t) for (auto& y : x) { SIM_CHECK(p < n && y.tag() == r[p].second, "value", "split_at"); p++; } SIM_CHECK(p == n, "size", "split_at"); break; }
    case 20: { auto t = parlay::remove_duplicates_ordered(s, less); Ref q; for (auto& x : sorted(r)) if (q.empty() || q.back().first != x.first) q.push_back(x); eq<E>(t, q, w); break; }
    case 21: { auto t = s; eq<E>(t, r, w); t = t; eq<E>(t, r, w); parlay::sequence<E> u(n, E(4, 5)); for (auto& x : u) SIM_CHECK(x.key() == 4 && x.tag() == 5, "value", "fill"); u = t; eq<E>(u, r, w); u.assign(s.begin(), s.end()); u.resize(n + 5, E(7, 7)); u.resize(n, E()); eq<E>(u, r, w); u.insert(u.begin() + (long)(n / 2), t.begin(), t.end()); Ref q = r; q.insert(q.begin() + (long)(n / 2), r.begin(), r.end()); eq<E>(u, q, w); auto v = parlay::to_sequence(parlay::make_slice(s)); eq<E>(v, r, w); std::vector<E> vec = s.to_vector(); eq<E>(vec, r, w); std::list<E> li(s.begin(), s.end()); parlay::sequence<E> x(li.begin(), li.end()); eq<E>(x, r, w); SIM_CHECK(x == v && !(x != v), "compare", "equal sequences compare unequal"); break; }
    case 22: if (n) { auto a = parlay::min_element(s, less); auto b = parlay::max_element(s, less); auto mm = parlay::minmax_element(s, less); Ref q = sorted(r); SIM_CHECK(a->key() == q[0].first && b->key() == q.back().first && mm.first->key() == q[0].first, "value", "min/max of %zu", n); } break;
    case 23: { auto t = parlay::rank(s, less); SIM_CHECK(t.size() == n, "size", "rank"); Ref q = sorted(r); for (size_t i = 0; i < n; i++) SIM_CHECK(q[t[i]].second == r[i].second, "value", "rank of element %zu of %zu", i, n); break; }
    case 24: { auto t = d::to_sequence(d::filter(s, odd)); eq<E>(t, ro, w); auto u = d::to_sequence(d::filter(std::move(t), [](const E&) { return true; })); eq<E>(u, ro, w); break; }
    case 25: { auto [p, tot] = d::scan(s, Add<E>(), E()); auto t = d::to_sequence(p); long a = 0; int b = 0; for (size_t i = 0; i < n; i++) { SIM_CHECK(t[i].key() == a && t[i].tag() == b, "value", "delayed scan at %zu of %zu", i, n); a += r[i].first; b ^= r[i].second; } SIM_CHECK(tot.key() == a, "value", "delayed scan total"); break; }
    case 26: { auto t = d::to_sequence(d::map(d::zip(s, s), [](auto&& p) { return E(std::get<0>(p).key(), std::get<1>(p).tag()); })); eq<E>(t, r, w); auto z = parlay::zip(s, parlay::iota(n)); for (size_t i = 0; i < n; i++) SIM_CHECK(std::get<0>(z[i]).tag() == r[i].second && std::get<1>(z[i]) == i, "value", "zip"); break; }
    default: { auto v = d::flatten(d::map(s, [](const E& x) { return parlay::sequence<E>((size_t)(x.key() % 3), x); })); auto t = d::to_sequence(v); Ref q; for (auto& x : r) for (int i = 0; i < x.first % 3; i++) q.push_back(x); eq<E>(t, q, w); } } }); }
// grouping: keys and values are tracked objects
template <class E> struct H { size_t operator()(const E& x) const { return (size_t)parlay::hash64((uint64_t)x.key()); } }; template <class E> struct Q { bool operator()(const E& a, const E& b) const { return a.key() == b.key(); } };
template <class E> void grouping() { size_t n = en<E>(); Ref r = source(n); int k = (int)sim::param("op", 0, 6); Scope sc; static const char* names[] = {"group_by_key", "group_by_key_ordered", "reduce_by_key", "histogram_by_key", "remove_duplicates", "group_by_index", "reduce_by_index"};
  std::vector<std::pair<long, Ref>> g; { Ref q = sorted(r); for (auto& x : q) { if (g.empty() || g.back().first != x.first) g.push_back({x.first, {}}); g.back().second.push_back(x); } } auto idx = [&](long key) { size_t i = (size_t)(std::lower_bound(g.begin(), g.end(), key, [](auto& a, long b) { return a.first < b; }) - g.begin()); SIM_CHECK(i < g.size() && g[i].first == key, "value", "%s: unknown key", names[k]); return i; };
  op(names[k], [&] { auto pr = parlay::tabulate(n, [&](size_t i) { return std::pair<E, E>(E(r[i].first, 0), E(r[i].first, r[i].second)); }); const char* w = names[k]; switch (k) {
    case 0: { auto t = parlay::group_by_key(pr, H<E>(), Q<E>()); SIM_CHECK(t.size() == g.size(), "size", "%s: %zu groups instead of %zu", w, t.size(), g.size()); for (auto& x : t) eq<E>(x.second, g[idx(x.first.key())].second, w); break; }
    case 1: { auto t = parlay::group_by_key_ordered(pr, [](const E& a, const E& b) { return a.key() < b.key(); }); SIM_CHECK(t.size() == g.size(), "size", "%s: %zu groups instead of %zu", w, t.size(), g.size()); for (size_t i = 0; i < g.size(); i++) { SIM_CHECK(t[i].first.key() == g[i].first, "value", "%s: key %zu", w, i); eq<E>(t[i].second, g[i].second, w); } break; }
    case 2: { auto t = parlay::reduce_by_key(pr, parlay::make_monoid(Add<E>(), E()), H<E>(), Q<E>()); SIM_CHECK(t.size() == g.size(), "size", "%s: %zu groups instead of %zu", w, t.size(), g.size()); for (auto& x : t) { auto& q = g[idx(x.first.key())]; long a = 0; int b = 0; for (auto& y : q.second) { a += y.first; b ^= y.second; } SIM_CHECK(x.second.key() == a && x.second.tag() == b, "value", "%s", w); } break; }
    case 3: { auto s = mk<E>(r); auto t = parlay::histogram_by_key(s, H<E>(), Q<E>()); SIM_CHECK(t.size() == g.size(), "size", "%s: %zu groups instead of %zu", w, t.size(), g.size()); for (auto& x : t) SIM_CHECK(x.second == g[idx(x.first.key())].second.size(), "value", "%s", w); break; }
    case 4: { auto s = mk<E>(r); auto t = parlay::remove_duplicates(s, H<E>(), Q<E>()); SIM_CHECK(t.size() == g.size(), "size", "%s: %zu instead of %zu", w, t.size(), g.size()); for (auto& x : t) idx(x.key()); break; }
    case 5: { size_t m = 1 + (size_t)sim::param_log("buckets", 0, 300); auto p2 = parlay::tabulate(n, [&](size_t i) { return std::pair<unsigned, E>((unsigned)((size_t)r[i].first % m), E(r[i].first, r[i].second)); }); auto t = parlay::group_by_index(p2, (unsigned)m); SIM_CHECK(t.size() == m, "size", "%s", w); std::vector<Ref> q(m); for (auto& x : r) q[(size_t)x.first % m].push_back(x); for (size_t i = 0; i < m; i++) eq<E>(t[i], q[i], w); break; }
    default: { size_t m = 1 + (size_t)sim::param_log("buckets", 0, 300); auto p2 = parlay::tabulate(n, [&](size_t i) { return std::pair<unsigned, E>((unsigned)((size_t)r[i].first % m), E(r[i].first, r[i].second)); }); auto t = parlay::reduce_by_index(p2, m, parlay::make_monoid(Add<E>(), E())); SIM_CHECK(t.size() == m, "size", "%s", w); std::vector<KW> q(m); for (auto& x : r) { auto& y = q[(size_t)x.first % m]; y.first += x.first; y.second ^= x.second; } for (size_t i = 0; i < m; i++) SIM_CHECK(t[i].key() == q[i].first && t[i].tag() == q[i].second, "value", "%s: bucket %zu", w, i); } } }); }
}
#if SIM_PART(1)
SIM_SCENARIO(moving_move_only, 4) { with_sched([] { moving<Mv>(); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(moving_relocatable, 3) { with_sched([] { moving<Tr>(); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(moving_huge, 2) { with_sched([] { moving<Huge>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(copying_a, 4) { with_sched([] { copying<Cp>(0, 7); }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(copying_b, 4) { with_sched([] { copying<Cp>(8, 20); }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(copying_c, 4) { with_sched([] { copying<Cp>(21, 27); }); }
#endif
#if SIM_PART(7)
SIM_SCENARIO(copying_relocatable, 6) { with_sched([] { copying<Tr>(0, 27); }); }
#endif
#if SIM_PART(8)
SIM_SCENARIO(copying_huge, 2) { with_sched([] { copying<Huge>(1, 21); }); }
#endif
#if SIM_PART(9)
SIM_SCENARIO(grouping_address, 3) { with_sched([] { grouping<Cp>(); }); }
#endif
#if SIM_PART(10)
SIM_SCENARIO(grouping_relocatable, 3) { with_sched([] { grouping<Tr>(); }); }
#endif
#if SIM_PART(11)
namespace {
struct Hold { long before = 4711; Cp c; Hold(Cp&& x) noexcept : c(std::move(x)) {} long key() const { return before == 4711 ? c.key() : -1; } int tag() const { return c.tag(); } }; // made from another type on relocation
// relocation from buffers, deques and lists, into the same and another type
template <class E, class To> void relocating() { size_t n = en<E>(); Ref r = source(n); Scope sc; op("uninitialized_relocate", [&] { parlay::internal::uninitialized_sequence<To> out(n); int k = (int)sim::param("from", 0, 3); 
  auto drop = [&] { eq<To>(out, r, "uninitialized_relocate"); for (auto& x : out) std::destroy_at(&x); };
  if (k == 0) { parlay::internal::uninitialized_sequence<E> in(n); for (size_t i = 0; i < n; i++) new (&in[i]) E(r[i].first, r[i].second); auto e = parlay::uninitialized_relocate(in.begin(), in.end(), out.begin()); SIM_CHECK(e == out.end(), "iterator", "uninitialized_relocate returns another position"); drop(); }
  else if (k == 1) { parlay::internal::uninitialized_sequence<E> in(n); for (size_t i = 0; i < n; i++) new (&in[i]) E(r[i].first, r[i].second); auto e = parlay::uninitialized_relocate_n(in.begin(), n, out.begin()); SIM_CHECK(e.first == in.end() && e.second == out.end(), "iterator", "uninitialized_relocate_n returns another position"); drop(); }
  else if (k == 2) { struct Slot { alignas(E) unsigned char b[sizeof(E)]; }; struct It { using value_type = E; using reference = E&; using pointer = E*; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag; std::deque<Slot>::iterator i; E& operator*() const { return *(E*)i->b; } E* operator->() const { return (E*)i->b; } E& operator[](std::ptrdiff_t d) const { return *(E*)i[d].b; } It& operator++() { ++i; return *this; } It operator++(int) { It t = *this; ++i; return t; } It& operator--() { --i; return *this; } It operator--(int) { It t = *this; --i; return t; } It& operator+=(std::ptrdiff_t d) { i += d; return *this; } It& operator-=(std::ptrdiff_t d) { i -= d; return *this; } It operator+(std::ptrdiff_t d) const { return It{i + d}; } It operator-(std::ptrdiff_t d) const { return It{i - d}; } std::ptrdiff_t operator-(const It& o) const { return i - o.i; } bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; } bool operator<(const It& o) const { return i < o.i; } bool operator>(const It& o) const { return o < *this; } bool operator<=(const It& o) const { return !(o < *this); } bool operator>=(const It& o) const { return !(*this < o); } };
    std::deque<Slot> dq(n); for (size_t i = 0; i < n; i++) new (dq[i].b) E(r[i].first, r[i].second); auto e = parlay::uninitialized_relocate(It{dq.begin()}, It{dq.end()}, out.begin()); SIM_CHECK(e == out.end(), "iterator", "uninitialized_relocate returns another position"); drop(); }
  else { std::list<std::aligned_storage_t<sizeof(E), alignof(E)>> li(n); size_t j = 0; for (auto& x : li) { new (&x) E(r[j].first, r[j].second); j++; } struct It { using value_type = E; using reference = E&; using pointer = E*; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag; typename std::list<std::aligned_storage_t<sizeof(E), alignof(E)>>::iterator i; E& operator*() const { return (E&)*i; } E* operator->() const { return (E*)&*i; } It& operator++() { ++i; return *this; } It operator++(int) { It t = *this; ++i; return t; } bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; } };
    auto e = parlay::uninitialized_relocate(It{li.begin()}, It{li.end()}, out.begin()); SIM_CHECK(e == out.end(), "iterator", "uninitialized_relocate returns another position"); drop(); } }); }
}
SIM_SCENARIO(relocation, 2) { with_sched([] { switch (sim::param("type", 0, 4)) { case 0: relocating<Cp, Cp>(); break; case 1: relocating<Tr, Tr>(); break; case 2: relocating<Huge, Huge>(); break; case 3: relocating<Mv, Mv>(); break; default: relocating<Cp, Hold>(); } }); }
#endif
