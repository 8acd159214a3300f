// C14: tabulate/map/copy/iota/for_each/zip, reduce and scan equal their sequential definitions on every schedule.
#include "common.h"
#include <array>
#include <parlay/primitives.h>
#include <parlay/monoid.h>
using namespace hx;
namespace {
struct affm { using T = Aff; Aff identity{}; Aff operator()(const Aff& a, const Aff& b) const { return aff_op{}(a, b); } };
std::vector<Aff> affs(size_t n) { std::vector<Aff> v(n); for (auto& x : v) x = Aff{(sim::rnd() % 7) * 2 + 1, sim::rnd() % 100}; return v; }
std::vector<Seg> segs(size_t n) { std::vector<Seg> v(n); for (size_t i = 0; i < n; i++) v[i] = Seg{(long)i, (long)i + 1, false, false}; return v; }
template <class T> std::vector<T> ints(size_t n) { std::vector<T> v(n); for (auto& x : v) x = (T)(sim::rnd() % 2000) - (T)(std::is_signed_v<T> ? 1000 : 0); return v; }
struct SaveMonoid { using T = long; long identity = 0; static long f(long a, long b) { return a + b; } };
}
SIM_SCENARIO(tabulate_, 4) {
  with_sched([&] { size_t n = big_n("n"); int64_t gr = sim::param_log("gran", 0, 5000); int kind = (int)sim::param("kind", 0, 4); std::vector<unsigned char> calls(n, 0);
    auto f = [&](size_t i) { SIM_CHECK(i < n, "range", "tabulate called its function for %zu of %zu", i, n); calls[i]++; return (long)(i * 3 + 1); };
    auto chk = [&](auto&& s, const char* w) { SIM_CHECK(s.size() == n, "size", "%s: %zu of %zu", w, (size_t)s.size(), n); for (size_t i = 0; i < n; i++) { SIM_CHECK(s[i] == (decltype(+s[i]))(i * 3 + 1), "value", "%s: wrong element %zu", w, i); SIM_CHECK(calls[i] == 1, "once", "%s: function called %d times for %zu", w, calls[i], i); } };
    if (kind == 0) chk(parlay::tabulate(n, f, (size_t)gr), "tabulate"); else if (kind == 1) chk(parlay::tabulate<int>(n, f), "tabulate<T>"); else if (kind == 2) chk(parlay::sequence<long>::from_function(n, f, (size_t)gr), "from_function");
    else if (kind == 3) { auto d = parlay::delayed_tabulate(n, [&](size_t i) { return f(i); }); chk(parlay::to_sequence(d), "to_sequence(delayed)"); }
    else { parlay::short_sequence<long> s = parlay::short_sequence<long>::from_function(n, f); chk(s, "short from_function"); } }); }
SIM_SCENARIO(map_, 4) {
  with_sched([&] { size_t n = big_n("n"); int rk = (int)sim::param("range", 0, 4), kind = (int)sim::param("kind", 0, 5); auto v = ints<int>(n); std::vector<long> w(n); for (size_t i = 0; i < n; i++) w[i] = (long)v[i] * 5 + 2; std::vector<int> calls(n, 0);
    as_range(v, rk, [&](auto& r) {
      if (kind == 0) same(parlay::map(r, [](const int& x) { return (long)x * 5 + 2; }), w, "map", "map");
      else if (kind == 1) { std::vector<long> out(n); parlay::for_each(parlay::iota<size_t>(n), [&](size_t i) { out[i] = (long)r[i] * 5 + 2; calls[i]++; }); same(out, w, "for_each", "for_each over iota"); for (int c : calls) SIM_CHECK(c == 1, "once", "for_each %d times", c); }
      else if (kind == 2) { parlay::sequence<long> out(n, -7); parlay::copy(r, out); same(out, v, "copy", "copy"); }
      else if (kind == 3) { auto z = parlay::zip(r, w); SIM_CHECK(z.size() == n, "zip", "zip has %zu of %zu", z.size(), n); for (size_t i = 0; i < n; i++) SIM_CHECK(std::get<0>(z[i]) == v[i] && std::get<1>(z[i]) == w[i], "zip", "zip element %zu", i); }
      else if (kind == 4) same(parlay::to_sequence(parlay::delayed_map(r, [](int x) { return (long)x * 5 + 2; })), w, "map", "delayed_map");
      else { std::atomic<long> sum{0}; long want = 0; for (int x : v) want += x; parlay::for_each(r, [&](int x) { sum.fetch_add(x, std::memory_order_relaxed); }); SIM_CHECK(sum == want, "for_each", "for_each sum"); } });
    auto io = parlay::to_sequence(parlay::iota<unsigned>((unsigned)n)); for (size_t i = 0; i < n; i++) SIM_CHECK(io[i] == i, "iota", "iota[%zu]", i); }); }
SIM_SCENARIO(reduce_, 6) {
  with_sched([&] { size_t n = big_n("n", 6000, 150000); int rk = (int)sim::param("range", 0, 4), kind = (int)sim::param("monoid", 0, 10);
    if (kind <= 2) { auto v = affs(n); Aff w{}; for (auto& x : v) w = aff_op{}(w, x); as_range(v, rk, [&](auto& r) { Aff g = kind == 0 ? parlay::reduce(r, affm{}) : kind == 1 ? parlay::reduce(r, parlay::make_monoid(aff_op{}, Aff{})) : parlay::reduce(r, parlay::binary_op(aff_op{}, Aff{})); SIM_CHECK(g == w, "reduce", "reduction of %zu with a non-commutative operator is wrong", n); }); }
    else if (kind == 3) { auto v = segs(n); as_range(v, rk, [&](auto& r) { Seg g = parlay::reduce(r, parlay::make_monoid(seg_op{}, Seg{})); Seg w = n ? Seg{0, (long)n, false, false} : Seg{}; SIM_CHECK(g == w, "reduce", "reduction combined pieces out of order: [%ld,%ld) of %zu, bad %d", g.lo, g.hi, n, g.bad); }); }
    else if (kind == 4) { auto v = ints<long>(n); long w = 0; for (long x : v) w += x; as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r) == w, "reduce", "sum of %zu", n); }); }
    else if (kind == 5) { auto v = ints<int>(n); int w = std::numeric_limits<int>::lowest(), m = std::numeric_limits<int>::max(); for (int x : v) { w = std::max(w, x); m = std::min(m, x); } as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r, parlay::maximum<int>()) == w, "reduce", "max of %zu", n); SIM_CHECK(parlay::reduce(r, parlay::minimum<int>()) == m, "reduce", "min of %zu", n); }); }
    else if (kind == 6) { auto v = ints<int>(n); long w = 0; for (int x : v) w += x; as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r, SaveMonoid{}) == w, "reduce", "legacy monoid over %zu", n); SIM_CHECK(parlay::reduce(r, parlay::addm<long>()) == w, "reduce", "addm over %zu", n); }); }
    else if (kind == 7) { auto v = ints<unsigned>(n); unsigned x1 = 0, o1 = 0, a1 = ~0u; for (unsigned x : v) { x1 ^= x; o1 |= x; a1 &= x; } as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r, parlay::bit_xor<unsigned>()) == x1 && parlay::reduce(r, parlay::bit_or<unsigned>()) == o1 && parlay::reduce(r, parlay::bit_and<unsigned>()) == a1, "reduce", "bit monoids over %zu", n); }); }
    else if (kind == 10) { auto v = ints<long>(n); std::vector<std::pair<long, long>> p(n); std::vector<std::array<long, 3>> q(n); long sum = 0, mx = std::numeric_limits<long>::lowest(); std::array<long, 3> t{0, 0, 0}; for (size_t i = 0; i < n; i++) { p[i] = {v[i], v[i] * 7 % 1001}; q[i] = {v[i], v[i] * 3, (long)i}; sum += p[i].first; mx = std::max(mx, p[i].second); for (int k = 0; k < 3; k++) t[k] += q[i][k]; }
      as_range(p, rk, [&](auto& r) { auto g = parlay::reduce(r, parlay::pair_monoid(parlay::addm<long>(), parlay::maxm<long>())); SIM_CHECK(g.first == sum && g.second == mx, "reduce", "pair_monoid over %zu", n); }); SIM_CHECK((parlay::reduce(q, parlay::array_monoid<parlay::addm<long>, 3>(parlay::addm<long>())) == t), "reduce", "array_monoid over %zu", n); }
    else if (kind == 8) { n = std::min<size_t>(n, 3000); std::vector<std::string> v(n); std::string w; for (size_t i = 0; i < n; i++) { v[i] = std::string(1, (char)('a' + sim::rnd() % 26)); w += v[i]; } as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r, parlay::make_monoid([](auto&& a, auto&& b) { return a + b; }, std::string())) == w, "reduce", "string concatenation of %zu", n); }); }
    else { auto v = ints<uint64_t>(n); for (auto& x : v) x |= 1; uint64_t w = 1; for (auto x : v) w *= x; bool any = n > 0, all = true; as_range(v, rk, [&](auto& r) { SIM_CHECK(parlay::reduce(r, parlay::multiplies<uint64_t>()) == w, "reduce", "product of %zu", n); auto z = parlay::delayed_map(r, [](uint64_t x) { return x != 0; }); SIM_CHECK(parlay::reduce(z, parlay::logical_and<bool>()) == all && parlay::reduce(z, parlay::logical_or<bool>()) == any, "reduce", "logical monoids"); }); } }); }
SIM_SCENARIO(scan_, 8) {
  with_sched([&] { size_t n = big_n("n", 6000, 80000); int rk = (int)sim::param("range", 0, 4), kind = (int)sim::param("variant", 0, 9); bool num = sim::param("numeric", 0, 1);
    auto go = [&](auto v, auto m, auto op) { using T = typename decltype(v)::value_type; std::vector<T> ex(n), in(n); T t = m.identity; for (size_t i = 0; i < n; i++) { ex[i] = t; t = op(t, v[i]); in[i] = t; }
      if (kind < 4) as_range(v, rk, [&](auto& r) { if (kind == 0) { auto [s, tot] = parlay::scan(r, m); same(s, ex, "scan", "scan"); SIM_CHECK(tot == t, "total", "scan total of %zu", n); } else if (kind == 1) { same(parlay::scan_inclusive(r, m), in, "scan", "scan_inclusive"); } else if (kind == 2) { parlay::sequence<T> s(r.begin(), r.end()); auto tot = parlay::scan_inplace(s, m); same(s, ex, "scan", "scan_inplace"); SIM_CHECK(tot == t, "total", "scan_inplace total of %zu", n); } else { std::vector<T> s(r.begin(), r.end()); auto tot = parlay::scan_inclusive_inplace(s, m); same(s, in, "scan", "scan_inclusive_inplace"); SIM_CHECK(tot == t, "total", "scan_inclusive_inplace total of %zu", n); } });
      else if (kind == 4) { parlay::sequence<T> s(v.begin(), v.end()); size_t a = n / 5, b = n - n / 7; auto sl = s.cut(a, b); T tt = m.identity; std::vector<T> w(v); for (size_t i = a; i < b; i++) { T x = w[i]; w[i] = tt; tt = op(tt, x); } auto tot = parlay::scan_inplace(sl, m); same(s, w, "scan", "scan_inplace on a slice"); SIM_CHECK(tot == tt, "total", "scan_inplace total on a slice"); }
      else if (kind == 5) { parlay::sequence<T> s(v.begin(), v.end()); auto [o, tot] = parlay::scan(std::move(s), m); same(o, ex, "scan", "scan(&&)"); SIM_CHECK(tot == t, "total", "scan(&&) total"); }
      else if (kind == 6) { SIM_INTERNAL(parlay::sequence<T> s(v.begin(), v.end()); auto [o, tot] = parlay::internal::scan(std::move(s), m); same(o, ex, "scan", "internal::scan(&&)"); SIM_CHECK(tot == t, "total", "internal::scan(&&) total");) }
      else { auto [s, tot] = parlay::scan(v, m); same(s, ex, "scan", "scan"); SIM_CHECK(tot == t, "total", "scan total"); } };
    if (kind >= 8) { auto v = ints<long>(n); std::vector<long> ex(n), in(n); long t = 0; for (size_t i = 0; i < n; i++) { ex[i] = t; t += v[i]; in[i] = t; } parlay::sequence<long> s(v.begin(), v.end()); if (kind == 8) { auto [o, tot] = parlay::scan(s); same(o, ex, "scan", "scan (plus)"); SIM_CHECK(tot == t, "total", "scan total"); same(parlay::scan_inclusive(s), in, "scan", "scan_inclusive (plus)"); auto [o2, t2] = parlay::scan(s, parlay::addm<long>()); same(o2, ex, "scan", "scan (addm)"); SIM_CHECK(t2 == t, "total", "addm total"); } else { auto s2 = s; SIM_CHECK(parlay::scan_inplace(s) == t, "total", "scan_inplace total"); same(s, ex, "scan", "scan_inplace (plus)"); SIM_CHECK(parlay::scan_inclusive_inplace(s2) == t, "total", "scan_inclusive_inplace total"); same(s2, in, "scan", "scan_inclusive_inplace (plus)"); } }
    else if (num) { auto v = ints<long>(n); go(v, parlay::maximum<long>(), [](long a, long b) { return std::max(a, b); }); }
    else go(affs(n), affm{}, aff_op{}); }); }
// nested use and several calls at once; the result must not depend on where it runs
SIM_SCENARIO(nested, 3) {
  with_sched([&] { size_t m = (size_t)sim::param("outer", 1, 6), n = big_n("n", 3000, 20000); std::vector<Aff> got(m); std::vector<std::vector<Aff>> v; for (size_t k = 0; k < m; k++) v.push_back(affs(n + k));
    parlay::parallel_for(0, m, [&](size_t k) { auto s = parlay::scan(v[k], affm{}); Aff r = parlay::reduce(v[k], affm{}); SIM_CHECK(s.second == r, "total", "scan total and reduce differ"); got[k] = r; }, 1);
    for (size_t k = 0; k < m; k++) { Aff w{}; for (auto& x : v[k]) w = aff_op{}(w, x); SIM_CHECK(got[k] == w, "reduce", "nested reduce %zu", k); } }); }
// many calls on a few blocks each: a worker waiting inside one of them takes up another one
SIM_SCENARIO(many_calls, 8) {
  with_sched([&] { size_t m = (size_t)sim::param("calls", 3, 12), n = (size_t)(sim::param("blocks", 0, 3) ? sim::param("n", 2049, sim::instrumented() ? 4200 : 6000) : sim::param_log("len", 0, 9000)); int op = (int)sim::param("op", 0, 6); bool tree = sim::param("tree", 0, 1); std::vector<std::vector<long>> v; for (size_t k = 0; k < m; k++) v.push_back(ints<long>(n - n * k / 20));
    auto one = [&](size_t k) { auto& x = v[k]; size_t l = x.size(); int o = op == 6 ? (int)(k % 6) : op; std::vector<long> ex(l), in(l); long t = 0; for (size_t i = 0; i < l; i++) { ex[i] = t; t += x[i]; in[i] = t; }
      if (o == 0) { auto [s, tot] = parlay::scan(x); same(s, ex, "scan", "one of several scans at once"); SIM_CHECK(tot == t, "total", "total of one of several scans at once"); } else if (o == 1) same(parlay::scan_inclusive(x), in, "scan", "one of several inclusive scans at once");
      else if (o == 2) SIM_CHECK(parlay::reduce(x) == t, "reduce", "one of several sums at once"); else if (o == 3) { parlay::sequence<long> s(x.begin(), x.end()); SIM_CHECK(parlay::scan_inplace(s) == t, "total", "total of one of several scans in place at once"); same(s, ex, "scan", "one of several scans in place at once"); }
      else if (o == 4) { auto a = parlay::tabulate(l, [&](size_t i) { return Aff{(uint64_t)(x[i] | 1), (uint64_t)i}; }); Aff w{}; std::vector<Aff> e(l); for (size_t i = 0; i < l; i++) { e[i] = w; w = aff_op{}(w, a[i]); } auto [s, tot] = parlay::scan(a, affm{}); same(s, e, "scan", "one of several scans at once"); SIM_CHECK(tot == w && parlay::reduce(a, affm{}) == w, "total", "total of one of several scans at once"); }
      else { auto s = parlay::map(x, [](long y) { return 2 * y; }); for (size_t i = 0; i < l; i++) SIM_CHECK(s[i] == 2 * x[i], "map", "one of several maps at once"); } };
    if (!tree) parlay::parallel_for(0, m, one, 1); else { std::function<void(size_t, size_t)> go = [&](size_t lo, size_t hi) { if (hi - lo == 1) one(lo); else { size_t mid = (lo + hi) / 2; parlay::par_do([&] { go(lo, mid); }, [&] { go(mid, hi); }); } }; go(0, m); } }); }
SIM_SCENARIO(at_once_, 5) { at_once("at_once_"); }
