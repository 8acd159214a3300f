// C22: random permutations, shuffles and generators depend only on length, seed and index.
// PARTS: 2
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/random.h>
#include <random>
#include <set>
using namespace hx;
namespace {
size_t rn() { return length("n", {0, 1, 2, 8191, 8192, 8193, 10000}, sim::instrumented() ? 10000 : 40000); }
struct Big { size_t v; char pad[60]; Big(size_t x = 0) : v(x) {} bool operator==(size_t o) const { return v == o; } };
struct Ptr { std::unique_ptr<size_t> p; Ptr(size_t x = 0) : p(new size_t(x)) {} Ptr(const Ptr& o) : p(new size_t(*o.p)) {} Ptr& operator=(const Ptr& o) { *p = *o.p; return *this; } bool operator==(size_t o) const { return p && *p == o; } };
// what a call gave: for each position the index of the input element that is there
template <class S> std::vector<size_t> perm_of(const S& s, size_t n, const char* what) { SIM_CHECK((size_t)parlay::size(s) == n, "size", "%s gives %zu elements instead of %zu", what, (size_t)parlay::size(s), n); std::vector<size_t> r(n); std::vector<char> seen(n, 0); for (size_t i = 0; i < n; i++) { size_t x = (size_t)s[i]; SIM_CHECK(x < n && !seen[x], "permutation", "%s: element %zu of %zu is missing or twice", what, x, n); seen[x] = 1; r[i] = x; } return r; }
template <class T> void same_as(const parlay::sequence<T>& g, const std::vector<size_t>& w, const char* what) { SIM_CHECK(g.size() == w.size(), "size", "%s: %zu elements instead of %zu", what, g.size(), w.size()); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(g[i] == w[i], "determinism", "%s: position %zu of %zu differs from another execution with the same length and seed", what, i, w.size()); }
void again(size_t n, size_t seed, const std::vector<size_t>& w) {
  parlay::random r(seed); switch (sim::param("variant", 0, 6)) {
    case 0: same_as(parlay::random_permutation<size_t>(n, r), w, "random_permutation"); break;
    case 1: same_as(parlay::random_permutation<unsigned>((unsigned)n, r), w, "random_permutation(unsigned)"); break;
    case 2: { std::vector<Big> v; for (size_t i = 0; i < n; i++) v.emplace_back(i); same_as(parlay::random_shuffle(v, r), w, "random_shuffle(64 bytes)"); for (size_t i = 0; i < n; i++) SIM_CHECK(v[i].v == i, "source", "random_shuffle changed its input"); break; }
    case 3: { parlay::sequence<Ptr> v; for (size_t i = 0; i < n; i++) v.push_back(Ptr(i)); same_as(parlay::random_shuffle(v, r), w, "random_shuffle(owning)"); break; }
    case 4: { auto v = parlay::delayed_seq<size_t>(n, [](size_t i) { return i; }); same_as(parlay::random_shuffle(v, r), w, "random_shuffle(delayed)"); break; }
    case 5: { std::deque<long> v; for (size_t i = 0; i < n; i++) v.push_back((long)i); auto g = parlay::random_shuffle(v, r); parlay::sequence<size_t> h(g.begin(), g.end()); same_as(h, w, "random_shuffle(deque)"); break; }
    default: { parlay::sequence<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i; same_as(parlay::random_shuffle(parlay::make_slice(v), r), w, "random_shuffle(slice)"); } } }
size_t seed_() { int k = (int)sim::param("seed-kind", 0, 2); return k == 0 ? sim::below(3) : k == 1 ? ~(size_t)0 - sim::below(3) : (size_t)sim::rnd(); }
}
#if SIM_PART(1)
// the same length and seed under different schedulers, schedules, element types and places in the program
SIM_SCENARIO(permutation, 6) {
  size_t n = rn(), seed = seed_(); std::vector<size_t> w; { set_workers(1); std::thread t([&] { w = perm_of(parlay::random_permutation<size_t>(n, parlay::random(seed)), n, "random_permutation"); }); t.join(); }
  with_sched([&] { again(n, seed, w); if (sim::param("twice", 0, 1)) again(n, seed, w); }); }
SIM_SCENARIO(nested, 2) { with_sched([] { size_t n = std::min<size_t>(rn(), 9000), seed = seed_(), m = 2 + sim::below(3); std::vector<std::vector<size_t>> g(m); parlay::parallel_for(0, m, [&](size_t i) { g[i] = perm_of(parlay::random_permutation<size_t>(n, parlay::random(seed)), n, "nested random_permutation"); }, 1); for (auto& x : g) SIM_CHECK(x == g[0], "determinism", "random_permutation(%zu) differs between two parallel calls with the same seed", n); }); }
SIM_SCENARIO(threads, 2) { size_t n = std::min<size_t>(rn(), 9000), seed = seed_(); int m = (int)sim::param("threads", 2, 3); std::vector<std::vector<size_t>> g(m); { joiner j; for (int i = 0; i < m; i++) { j.go([&, i] { parlay::execute_with_scheduler(1 + (unsigned)i, [&] { g[i] = perm_of(parlay::random_permutation<size_t>(n, parlay::random(seed)), n, "random_permutation"); }); }); } } for (auto& x : g) SIM_CHECK(x == g[0], "determinism", "random_permutation(%zu) differs between threads with different numbers of workers", n); }
SIM_SCENARIO(small_support, 1) { with_sched([] { size_t n = 2 + sim::below(2), s0 = (size_t)sim::rnd(); std::set<std::vector<size_t>> seen; for (size_t s = 0; s < 400; s++) seen.insert(perm_of(parlay::random_permutation<size_t>(n, parlay::random(parlay::hash64(s0 + s))), n, "random_permutation")); SIM_CHECK(seen.size() == (n == 2 ? 2u : 6u), "support", "only %zu permutations of %zu elements in 400 seeds", seen.size(), n); }); }
#endif
#if SIM_PART(2)
// generators: the same value for the same seed and index from any task or thread
SIM_SCENARIO(generators, 3) { with_sched([] {
  size_t seed = seed_(), n = 1 + (size_t)sim::param_log("n", 0, 3000); const parlay::random_generator gen(seed); const parlay::random old(seed); std::vector<size_t> a(n), b(n), c(n), dd(n), e(n); std::vector<int> u(n), u2(n);
  parlay::parallel_for(0, n, [&](size_t i) { auto r = gen[i]; a[i] = r(); r(); e[i] = r(); b[i] = old[i]; c[i] = old.ith_rand(i); dd[i] = old.fork(i).rand(); auto q = gen[i]; std::uniform_int_distribution<int> d(0, 9); u[i] = d(q); }, 1 + sim::below(100));
  { sim::Quiet z; parlay::random_generator g2; g2.seed(seed); parlay::random o2(seed); for (size_t k = 0; k < n; k++) { size_t i = n - 1 - k; auto r = g2[i]; SIM_CHECK(r() == a[i], "generator", "stream %zu of seed %zu differs", i, seed); (void)r(); SIM_CHECK(r() == e[i], "generator", "third value of stream %zu of seed %zu differs", i, seed); SIM_CHECK(b[i] == o2[i] && c[i] == o2[i] && dd[i] == o2.fork(i).rand(), "generator", "value %zu of seed %zu differs", i, seed); auto q = g2[i]; std::uniform_int_distribution<int> d(0, 9); SIM_CHECK(u[i] == d(q), "generator", "distribution %zu differs", i); }
    std::set<size_t> sa(a.begin(), a.end()), sb(b.begin(), b.end()); SIM_CHECK(sa.size() == n && sb.size() == n, "distinct", "%zu distinct first values of %zu streams, %zu of %zu indices", sa.size(), n, sb.size(), n);
    if (n >= 1000) for (int bit = 0; bit < 64; bit++) { size_t x = 0, y = 0; for (size_t i = 0; i < n; i++) { x += a[i] >> bit & 1; y += b[i] >> bit & 1; } SIM_CHECK(x * 10 > n * 3 && x * 10 < n * 7 && y * 10 > n * 3 && y * 10 < n * 7, "bias", "bit %d is set in %zu and %zu of %zu values", bit, x, y, n); } } }); }
// one generator advanced step by step does not repeat itself, and copies continue alike
SIM_SCENARIO(stream, 1) { parlay::random_generator g((size_t)(sim::chance(1, 2) ? sim::below(3) : sim::rnd())); std::set<size_t> seen; for (int i = 0; i < 2000; i++) { auto h = g; size_t x = g(); SIM_CHECK(h() == x, "generator", "a copy gives another value"); SIM_CHECK(x >= parlay::random_generator::min() && x <= parlay::random_generator::max(), "generator", "value outside [min,max]"); SIM_CHECK(seen.insert(x).second, "distinct", "value repeated after %d steps", i); } auto r = parlay::random(5); SIM_CHECK(r.next().rand() == r.fork(0).rand(), "generator", "next"); }
#endif
