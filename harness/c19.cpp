// C19: searching and order-statistic primitives return the documented position.
// PARTS: 6
#include "common.h"
#include <parlay/primitives.h>
using namespace hx;
namespace {
// values with few, many or rare distinct entries; planted positions near block boundaries
std::vector<int> vals(size_t n) { int d = (int)sim::param("dist", 0, 6); std::vector<int> v(n); for (size_t i = 0; i < n; i++) switch (d) { case 0: v[i] = (int)sim::below(3); break; case 1: v[i] = 5; break; case 2: v[i] = (int)(sim::rnd() % 1000003); break; case 3: v[i] = (int)i; break; case 4: v[i] = (int)(n - i); break; case 5: v[i] = sim::chance(1, 200) ? 1 : 0; break; default: v[i] = (int)(i / 7); } return v; }
// a predicate true at a few positions: none, one, two close together, many
std::vector<char> marks(size_t n) { int d = (int)sim::param("marks", 0, 5); std::vector<char> m(n, 0); if (!n) return m; auto pos = [&] { static const size_t b[] = {0, 999, 1000, 1001, 2999, 3000, 3001, 6999, 7000, 999999}; return sim::chance(1, 2) ? b[sim::below(10)] % n : (size_t)sim::below(n); }; switch (d) { case 0: break; case 1: m[pos()] = 1; break; case 2: m[pos()] = 1; m[pos()] = 1; break; case 3: { size_t p = pos(); for (size_t i = p; i < n; i++) if (i == p || sim::chance(1, 2)) m[i] = 1; break; } case 4: m[n - 1] = 1; break; default: for (auto& x : m) x = sim::chance(1, 100); } return m; }
struct M { int v; char m; }; // element with a payload, no operators
template <class It, class R> void at(It it, R& r, size_t want, const char* what) { long g = (long)(it - std::begin(r)); SIM_CHECK(g == (long)want, "position", "%s returned position %ld instead of %zu (n=%zu)", what, g, want, (size_t)parlay::size(r)); }
size_t cap(size_t n) { return n; }
std::vector<M> elems(size_t n) { auto m = marks(n); std::vector<M> v(n); for (size_t i = 0; i < n; i++) v[i] = {(int)(i % 5), m[i]}; return v; }
template <bool D> void find_one() {
  size_t n = big_n("n"); auto v = elems(n); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 8); size_t first = n, cnt = 0; for (size_t i = 0; i < n; i++) if (v[i].m) { if (first == n) first = i; cnt++; }
  auto p = [](const M& x) { return x.m != 0; }; auto np = [](const M& x) { return x.m == 0; };
  as_range2<D>(v, rk, [&](auto& r) { switch (op) {
    case 0: at(parlay::find_if(r, p), r, first, "find_if"); break;
    case 1: at(parlay::find_if_not(r, np), r, first, "find_if_not"); break;
    case 2: SIM_CHECK(parlay::count_if(r, p) == cnt, "count", "count_if(%zu)", n); break;
    case 3: SIM_CHECK(parlay::any_of(r, p) == (cnt > 0), "quantifier", "any_of(%zu)", n); break;
    case 4: SIM_CHECK(parlay::all_of(r, np) == (cnt == 0), "quantifier", "all_of(%zu)", n); break;
    case 5: SIM_CHECK(parlay::none_of(r, p) == (cnt == 0), "quantifier", "none_of(%zu)", n); break;
    case 6: { bool w = std::is_partitioned(v.begin(), v.end(), p); SIM_CHECK(parlay::is_partitioned(r, p) == w, "partitioned", "is_partitioned(%zu), expected %d", n, w); break; }
    case 7: { bool w = std::is_partitioned(v.begin(), v.end(), np); SIM_CHECK(parlay::is_partitioned(r, np) == w, "partitioned", "is_partitioned(%zu), expected %d", n, w); break; }
    default: SIM_CHECK(parlay::all_of(r, p) == (cnt == n), "quantifier", "all_of(%zu)", n); } }); }
void find_int() {
  size_t n = big_n("n"); auto v = vals(n); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 2); int x = sim::chance(1, 4) ? -1 : n ? v[sim::below(n)] : 3;
  as_range2<true>(v, rk, [&](auto& r) { if (op == 0) at(parlay::find(r, x), r, (size_t)(std::find(v.begin(), v.end(), x) - v.begin()), "find"); else if (op == 1) SIM_CHECK(parlay::count(r, (long)x) == (size_t)std::count(v.begin(), v.end(), x), "count", "count(%zu)", n); else at(parlay::find(r, (long)x), r, (size_t)(std::find(v.begin(), v.end(), x) - v.begin()), "find(long)"); }); }
void first_of() { // predicates that are not symmetric, and different element types
  size_t n = big_n("n", 3000, 20000); auto v = elems(n); std::vector<int> w((size_t)sim::param_log("m", 0, sim::chance(1, 8) ? 1200 : 12)); for (auto& x : w) x = 100 + (int)sim::below(50); int key = w.empty() ? 0 : w[sim::below(w.size())]; auto p = [=](const M& a, int b) { return a.m && b == key; }; int rk = (int)sim::param("range", 0, 4);
  size_t want = (size_t)(std::find_first_of(v.begin(), v.end(), w.begin(), w.end(), p) - v.begin()); as_range2<true>(v, rk, [&](auto& r) { at(parlay::find_first_of(r, w, p), r, want, "find_first_of(pred)"); }); }
void first_of_eq() { size_t n = big_n("n", 3000, 20000); auto v = vals(n); std::vector<int> w((size_t)sim::param("m", 0, 8)); for (auto& x : w) x = sim::chance(1, 2) ? -1 - (int)sim::below(5) : n ? v[sim::below(n)] : 0; size_t want = (size_t)(std::find_first_of(v.begin(), v.end(), w.begin(), w.end()) - v.begin()); at(parlay::find_first_of(v, w), v, want, "find_first_of"); }
void adjacent() { size_t n = big_n("n"); auto mk = marks(n); std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = (int)i; int op = (int)sim::param("op", 0, 2), rk = (int)sim::param("range", 0, 4); for (size_t i = 1; i < n; i++) if (mk[i]) v[i] = v[i - 1];
  auto gt = [](int a, int b) { return a >= b; }; size_t w = (size_t)(std::adjacent_find(v.begin(), v.end()) - v.begin()); as_range2<true>(v, rk, [&](auto& r) { if (op == 0) at(parlay::adjacent_find(r), r, w, "adjacent_find"); else { size_t w2 = (size_t)(std::adjacent_find(v.begin(), v.end(), gt) - v.begin()); at(parlay::adjacent_find(r, gt), r, w2, "adjacent_find(pred)"); } }); }
// two ranges that differ at few positions
template <bool D> void two() {
  size_t n = big_n("n"); auto a = vals(n); auto b = a; auto mk = marks(n); for (size_t i = 0; i < n; i++) if (mk[i]) b[i] += sim::chance(1, 2) ? 1 : -1; int tr = (int)sim::param("trim", 0, 4); if (tr == 1) b.resize(n ? n - 1 : 0); else if (tr == 2) b.push_back(1); else if (tr == 3) b.resize(sim::below(n + 1)); else if (tr == 4) a.resize(sim::below(n + 1)); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 6);
  as_range2<D>(a, rk, [&](auto& r) { switch (op) {
    case 0: { auto w = std::mismatch(a.begin(), a.end(), b.begin(), b.end()); auto g = parlay::mismatch(r, b); at(g.first, r, (size_t)(w.first - a.begin()), "mismatch(first)"); at(g.second, b, (size_t)(w.second - b.begin()), "mismatch(second)"); break; }
    case 1: { auto le = [](int x, int y) { return x <= y; }; auto w = std::mismatch(a.begin(), a.end(), b.begin(), b.end(), le); auto g = parlay::mismatch(r, b, le); at(g.first, r, (size_t)(w.first - a.begin()), "mismatch(pred, first)"); at(g.second, b, (size_t)(w.second - b.begin()), "mismatch(pred, second)"); break; }
    case 2: SIM_CHECK(parlay::equal(r, b) == (a == b), "equal", "equal(%zu,%zu)", a.size(), b.size()); break;
    case 3: { auto le = [](int x, int y) { return x <= y; }; SIM_CHECK(parlay::equal(r, b, le) == std::equal(a.begin(), a.end(), b.begin(), b.end(), le), "equal", "equal(pred, %zu,%zu)", a.size(), b.size()); break; }
    case 4: { bool w = a < b; SIM_CHECK(parlay::lexicographical_compare(r, b) == w, "lexicographical", "lexicographical_compare(%zu,%zu), expected %d", a.size(), b.size(), w); break; }
    case 5: { auto gt = [](int x, int y) { return x / 2 > y / 2; }; bool w = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), gt); SIM_CHECK(parlay::lexicographical_compare(r, b, gt) == w, "lexicographical", "lexicographical_compare(greater, %zu,%zu), expected %d", a.size(), b.size(), w); break; }
    default: { parlay::sequence<int> x(a.begin(), a.end()), y(b.begin(), b.end()); SIM_CHECK((x < y) == (a < b) && (x == y) == (a == b) && (x != y) == (a != b), "sequence-compare", "sequence comparison of %zu and %zu elements", a.size(), b.size()); } } }); }
template <bool D> void patterns() {
  size_t n = big_n("n", 4000, 20000); std::vector<int> v(n); int al = 1 + (int)sim::below(3); for (auto& x : v) x = (int)sim::below(al); size_t m = sim::chance(1, 5) ? n + (size_t)sim::param("extra", 0, 4) : (size_t)sim::param("m", 0, 6); std::vector<int> p(m); int src = (int)sim::param("pattern", 0, 2); if (src == 0) for (auto& x : p) x = (int)sim::below(al); else if (m <= n) { size_t o = sim::below(n - m + 1); if (sim::chance(1, 3)) o = sim::chance(1, 2) ? 0 : n - m; for (size_t i = 0; i < m; i++) { if (src == 2) v[o + i] = 10 + (int)i; p[i] = v[o + i]; } } else for (size_t i = 0; i < m; i++) p[i] = i < n ? v[i] : 1;
  int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 3); auto ge = [](int a, int b) { return a >= b; };
  as_range2<D>(v, rk, [&](auto& r) { switch (op) { case 0: at(parlay::search(r, p), r, (size_t)(std::search(v.begin(), v.end(), p.begin(), p.end()) - v.begin()), "search"); break; case 1: at(parlay::find_end(r, p), r, (size_t)(std::find_end(v.begin(), v.end(), p.begin(), p.end()) - v.begin()), "find_end"); break;
    case 2: at(parlay::search(r, p, ge), r, (size_t)(std::search(v.begin(), v.end(), p.begin(), p.end(), ge) - v.begin()), "search(pred)"); break; default: at(parlay::find_end(r, p, ge), r, (size_t)(std::find_end(v.begin(), v.end(), p.begin(), p.end(), ge) - v.begin()), "find_end(pred)"); } }); }
template <bool D> void extremes() {
  size_t n = big_n("n"); auto v = vals(n); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 5); auto h = [](int a, int b) { return a / 3 < b / 3; };
  auto fmin = [&](auto c) { return (size_t)(std::min_element(v.begin(), v.end(), c) - v.begin()); }; auto fmax = [&](auto c) { return (size_t)(std::max_element(v.begin(), v.end(), c) - v.begin()); };
  as_range2<D>(v, rk, [&](auto& r) { switch (op) { case 0: at(parlay::min_element(r), r, fmin(std::less<>()), "min_element"); break; case 1: at(parlay::max_element(r), r, fmax(std::less<>()), "max_element"); break; case 2: at(parlay::min_element(r, h), r, fmin(h), "min_element(less)"); break; case 3: at(parlay::max_element(r, h), r, fmax(h), "max_element(less)"); break;
    case 4: { auto g = parlay::minmax_element(r); at(g.first, r, fmin(std::less<>()), "minmax_element(first)"); at(g.second, r, fmax(std::less<>()), "minmax_element(second)"); break; } default: { auto g = parlay::minmax_element(r, h); at(g.first, r, fmin(h), "minmax_element(less, first)"); at(g.second, r, fmax(h), "minmax_element(less, second)"); } } }); }
template <bool D> void sortedness() {
  size_t n = big_n("n"); auto mk = marks(n); std::vector<int> v(n); int st = (int)sim::param("step", 0, 2); for (size_t i = 0; i < n; i++) v[i] = (int)(st == 0 ? i : st == 1 ? i / 4 : 0); for (size_t i = 1; i < n; i++) if (mk[i]) v[i] = v[i - 1] - (int)sim::below(2) - (st == 2); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 3); auto gr = [](int a, int b) { return a > b; };
  as_range2<D>(v, rk, [&](auto& r) { switch (op) { case 0: SIM_CHECK(parlay::is_sorted(r) == std::is_sorted(v.begin(), v.end()), "sorted", "is_sorted(%zu)", n); break; case 1: at(parlay::is_sorted_until(r), r, (size_t)(std::is_sorted_until(v.begin(), v.end()) - v.begin()), "is_sorted_until"); break;
    case 2: { std::vector<int> rv(v.rbegin(), v.rend()); SIM_CHECK(parlay::is_sorted(rv, gr) == std::is_sorted(rv.begin(), rv.end(), gr), "sorted", "is_sorted(greater, %zu)", n); break; } default: { auto h = [](int a, int b) { return a / 2 < b / 2; }; at(parlay::is_sorted_until(r, h), r, (size_t)(std::is_sorted_until(v.begin(), v.end(), h) - v.begin()), "is_sorted_until(less)"); } } }); }
struct E { int k; long id; }; // no operator== or operator!=
std::vector<int> okeys(size_t n) { int d = (int)sim::param("dist", 0, 7); std::vector<int> v(n); int few = 1 + (int)sim::below(40), hot = (int)sim::below(1000); for (size_t i = 0; i < n; i++) switch (d) { case 0: v[i] = (int)(sim::rnd() % 1000003); break; case 1: v[i] = 5; break; case 2: v[i] = (int)sim::below(few); break; case 3: v[i] = (int)i; break; case 4: v[i] = sim::chance(6, 7) ? hot : (int)sim::below(1000); break; case 5: v[i] = sim::chance(9, 10) ? 0 : 1; break; case 6: v[i] = (int)(n - i) / 3; break; default: v[i] = sim::chance(1, 2) ? hot : sim::chance(1, 2) ? 999 : (int)sim::below(1000); } return v; }
size_t kn() { int64_t lim = sim::instrumented() ? 6000 : 60000, k = sim::param("n", 0, 7); int64_t r = k < 2 ? 1000 + sim::param("off", 0, 2) - 1 : k < 4 ? sim::param_log("len", 1, 300) : k < 6 ? sim::param_log("len", 900, 5000) : sim::param_log("len", 1, lim); return (size_t)std::max<int64_t>(1, r); }
template <bool D> void kth() {
  size_t n = kn(); auto key = okeys(n); int rk = (int)sim::param("range", 0, 4), op = (int)sim::param("op", 0, 3); size_t k = sim::chance(1, 4) ? (sim::chance(1, 2) ? 0 : n - 1) : (size_t)sim::below(n); bool desc = sim::param("desc", 0, 1); auto w = key; if (desc) std::nth_element(w.begin(), w.begin() + k, w.end(), std::greater<>()); else std::nth_element(w.begin(), w.begin() + k, w.end()); int want = w[k];
  auto ci = [&](int a, int b) { return desc ? b < a : a < b; }; auto ce = [&](const E& a, const E& b) { return desc ? b.k < a.k : a.k < b.k; };
  if (op < 2) as_range2<D>(key, rk, [&](auto& r) { if (op == 0) { int g = desc ? parlay::kth_smallest_copy(r, k, ci) : parlay::kth_smallest_copy(r, k); SIM_CHECK(g == want, "kth", "kth_smallest_copy(%zu of %zu) returned %d instead of %d", k, n, g, want); } else { auto it = desc ? parlay::kth_smallest(r, k, ci) : parlay::kth_smallest(r, k); long pos = (long)(it - std::begin(r)); SIM_CHECK(pos >= 0 && pos < (long)n, "kth", "kth_smallest returned position %ld of %zu", pos, n); SIM_CHECK(key[(size_t)pos] == want, "kth", "kth_smallest(%zu of %zu) returned an element of %d instead of %d", k, n, key[(size_t)pos], want); } });
  else { std::vector<E> v(n); for (size_t i = 0; i < n; i++) v[i] = {key[i], (long)i}; if (op == 2) { auto g = parlay::kth_smallest_copy(v, k, ce); SIM_CHECK(g.k == want && g.id >= 0 && (size_t)g.id < n && key[(size_t)g.id] == want, "kth", "kth_smallest_copy(struct, %zu of %zu) returned key %d instead of %d", k, n, g.k, want); } else { auto it = parlay::kth_smallest(v, k, ce); SIM_CHECK(it >= v.begin() && it < v.end() && it->k == want, "kth", "kth_smallest(struct, %zu of %zu)", k, n); } } }
void ranks() { size_t n = kn() - sim::below(2); auto key = okeys(n); int op = (int)sim::param("op", 0, 2); std::vector<size_t> p(n), w(n); for (size_t i = 0; i < n; i++) p[i] = i; bool desc = op == 1; std::stable_sort(p.begin(), p.end(), [&](size_t a, size_t b) { return desc ? key[b] < key[a] : key[a] < key[b]; }); for (size_t i = 0; i < n; i++) w[p[i]] = i;
  auto chk = [&](auto&& r, const char* what) { SIM_CHECK(r.size() == n, "rank", "%s: size", what); for (size_t i = 0; i < n; i++) SIM_CHECK((size_t)r[i] == w[i], "rank", "%s: element %zu of %zu has rank %zu instead of %zu", what, i, n, (size_t)r[i], w[i]); }; if (op == 0) chk(parlay::rank(key), "rank"); else if (op == 1) chk(parlay::rank(key, std::greater<>()), "rank(greater)"); else chk(parlay::rank<unsigned>(ptrs(key)), "rank<unsigned>"); }
}
#if SIM_PART(1)
SIM_SCENARIO(find, 5) { with_sched([] { find_one<true>(); }); }
SIM_SCENARIO(find_value, 3) { with_sched([] { find_int(); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(find_first_of, 3) { with_sched([] { first_of(); }); }
SIM_SCENARIO(find_first_of_eq, 1) { with_sched([] { first_of_eq(); }); }
SIM_SCENARIO(adjacent_find, 3) { with_sched([] { adjacent(); }); }
SIM_SCENARIO(pattern, 4) { with_sched([] { patterns<true>(); }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(two_ranges, 5) { with_sched([] { two<true>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(extreme, 4) { with_sched([] { extremes<true>(); }); }
SIM_SCENARIO(sorted, 4) { with_sched([] { sortedness<true>(); }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(kth_smallest, 6) { with_sched([] { kth<true>(); }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(rank, 3) { with_sched([] { ranks(); }); }
SIM_SCENARIO(nested_find, 1) { with_sched([] { // a search inside a search, from several iterations at once
  size_t rows = 1 + (size_t)sim::param("rows", 0, 40), n = big_n("n", 2500, 4000); auto mk = marks(n); long cap2 = sim::instrumented() ? 30000 : 100000; while (rows > 1 && rows * n > (size_t)cap2) rows--; size_t w = n; for (size_t i = 0; i < n; i++) if (mk[i]) { w = i; break; } std::vector<size_t> got(rows, ~size_t(0)); parlay::parallel_for(0, rows, [&](size_t r) { got[r] = (size_t)(parlay::find_if(mk, [](char c) { return c != 0; }) - mk.begin()); }, 1); for (size_t r = 0; r < rows; r++) SIM_CHECK(got[r] == w, "position", "nested find_if in row %zu returned %zu instead of %zu", r, got[r], w); }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
#endif
