// C07: ThreadSpecific: one element per live thread, built once, found by iteration.
#include "common.h"
#include <parlay/thread_specific.h>
#include <set>
using namespace hx;
namespace {
struct Ctr { std::atomic<long> made{0}, gone{0}; std::atomic<int> per_id[128] = {}; };
struct El { Ctr* c; long id; long uses; unsigned magic; std::atomic<int> in{0};
  El(Ctr* c_, long i) : c(c_), id(i), uses(0), magic(0xE1E1u) { c->made++; if (i >= 0) { SIM_CHECK(i < 128, "bad-id", "element for id %ld", i); int k = c->per_id[i].fetch_add(1); SIM_CHECK(k == 0, "built-twice", "element for id %ld constructed %d times", i, k + 1); } }
  El(const El&) = delete; El& operator=(const El&) = delete;
  ~El() { SIM_CHECK(magic == 0xE1E1u, "bad-destroy", "destroying an element that is not alive (%x)", magic); magic = 0xDEADu; c->gone++; }
  void use(long expect_id) { SIM_CHECK(magic == 0xE1E1u, "not-built", "element used before construction or after destruction (%x)", magic); if (id >= 0) SIM_CHECK(id == expect_id, "wrong-element", "thread id %ld got the element built for id %ld", expect_id, id);
    int o = in.exchange(1, std::memory_order_relaxed); SIM_CHECK(o == 0, "shared", "element of id %ld used by two threads at once", id); uses++; sim::yield_point(); in.store(0, std::memory_order_relaxed); } };
using TS = parlay::ThreadSpecific<El>;
std::unique_ptr<TS> make(Ctr& c, bool by_id) { if (by_id) return std::unique_ptr<TS>(new TS([&c](size_t i) { return El(&c, (long)i); })); return std::unique_ptr<TS>(new TS([&c] { return El(&c, -1); })); }
void final_check(TS& ts, long want_uses, const std::vector<El*>& used) {
  std::set<El*> a, b; long ua = 0, ub = 0; ts.for_each([&](El& e) { SIM_CHECK(e.magic == 0xE1E1u, "not-built", "for_each visited an unconstructed element"); SIM_CHECK(a.insert(&e).second, "iteration", "for_each visits an element twice"); ua += e.uses; });
  for (auto& e : ts) { SIM_CHECK(e.magic == 0xE1E1u, "not-built", "iteration visited an unconstructed element"); SIM_CHECK(b.insert(&e).second, "iteration", "iteration visits an element twice"); ub += e.uses; }
  for (El* e : used) SIM_CHECK(a.count(e) && b.count(e), "iteration", "an element that a thread used was not visited");
  SIM_CHECK(ua == want_uses && ub == want_uses, "lost-update", "uses seen: for_each %ld, iteration %ld, made %ld", ua, ub, want_uses);
  SIM_CHECK(a.size() == parlay::num_thread_ids() && b.size() == a.size() && (size_t)(ts.end() - ts.begin()) == a.size(), "iteration", "sizes %zu %zu for %u ids", a.size(), b.size(), parlay::num_thread_ids());
  const TS& cts = ts; size_t k = 0; for (auto& e : cts) { (void)e; k++; } SIM_CHECK(k == a.size(), "iteration", "const iteration visits %zu of %zu", k, a.size());
  auto it = ts.begin(); for (size_t i = 0; i < a.size(); i++, ++it) SIM_CHECK(&*it == &ts.begin()[i] && (size_t)(it - ts.begin()) == i, "iteration", "random access disagrees at %zu", i);
}
// random access on an object that is still (partly) unallocated, and that nobody has iterated over
void jumps(TS& ts) {
  long n = parlay::num_thread_ids(); std::vector<El*> at(n, nullptr); auto it = ts.begin(); long pos = 0;
  for (int k = 0; k < 12; k++) { long to = (long)sim::below((uint64_t)n); unsigned how = (unsigned)sim::below(7); auto b = ts.begin();
    if (how == 0) it += to - pos; else if (how == 1) it -= pos - to; else if (how == 2) it = it + (to - pos); else if (how == 3) it = it - (pos - to); else if (how == 4) { while (pos < to) { if (pos % 2) ++it; else it++; pos++; } while (pos > to) { if (pos % 2) --it; else it--; pos--; } }
    else if (how == 5) { auto e = ts.end(); e -= n - to; using std::swap; swap(it, e); SIM_CHECK(e == b + pos, "iteration", "swapped iterator is not at %ld", pos); }
    else { El* e = &b[to]; if (at[to]) SIM_CHECK(at[to] == e, "iteration", "begin()[%ld] moved", to); else at[to] = e; it = b + to; }
    pos = to; El* e = &*it; SIM_CHECK(e->magic == 0xE1E1u, "not-built", "random access reached an element that was not built (%x)", e->magic); if (e->id >= 0) SIM_CHECK(e->id == to, "wrong-element", "position %ld holds the element of id %ld", to, e->id);
    if (at[to]) SIM_CHECK(at[to] == e, "iteration", "position %ld is another element than before", to); else at[to] = e;
    auto c = b + to; SIM_CHECK(c == it && !(c != it) && c <= it && c >= it && !(c < it) && !(c > it) && it - b == to && ts.end() - it == n - to, "iteration", "comparison of equal positions (%ld)", to);
    if (to > 0) { auto d = b + (long)sim::below((uint64_t)to); SIM_CHECK(d < it && d <= it && it > d && it >= d && d != it && !(it < d) && !(it <= d), "iteration", "order of iterators (%ld)", to); } }
  for (long i = 0; i < n; i++) if (at[i]) for (long k = i + 1; k < n; k++) SIM_CHECK(at[k] != at[i], "shared", "positions %ld and %ld are the same element", i, k);
}
}
SIM_SCENARIO(grow, 6) {
  int nt = (int)sim::param("threads", 1, 20); bool by_id = sim::param("by_id", 0, 1), hold = sim::param("hold", 0, 1); int objs = (int)sim::param("objects", 1, 3);
  Ctr c[3]; long uses = 0; 
  { std::vector<std::unique_ptr<TS>> ts; for (int i = 0; i < objs; i++) ts.push_back(make(c[i], by_id));
    std::vector<std::vector<El*>> used(objs, std::vector<El*>(nt, nullptr)); std::atomic<int> arrived{0}; std::vector<int> reps(nt); for (int& r : reps) r = (int)sim::below(4) + 1;
    { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { busy(t % 3);
        for (int o = 0; o < objs; o++) { El* e = &*(*ts[o]); used[o][t] = e; long id = parlay::my_thread_id();
          for (int r = 0; r < reps[t]; r++) { SIM_CHECK(&ts[o]->get() == e && ts[o]->operator->() == e, "unstable", "element moved"); const TS& k = *ts[o]; SIM_CHECK(&*k == e, "unstable", "const access differs"); e->use(id); } }
        if (hold) { arrived++; while (arrived.load() < nt) std::this_thread::yield(); for (int o = 0; o < objs; o++) SIM_CHECK(&*(*ts[o]) == used[o][t], "unstable", "element moved after other threads arrived"); } }); }
    for (int r : reps) uses += r;
    if (hold) for (int o = 0; o < objs; o++) { std::set<El*> s(used[o].begin(), used[o].end()); SIM_CHECK(s.size() == (size_t)nt, "shared", "%d live threads share %zu elements", nt, s.size()); }
    for (int o = 0; o < objs; o++) { std::vector<El*> u = used[o]; final_check(*ts[o], uses, u); }
  }
  for (int i = 0; i < objs; i++) SIM_CHECK(c[i].made == c[i].gone && c[i].made > 0, "leak", "object %d: %ld elements constructed, %ld destroyed", i, c[i].made.load(), c[i].gone.load());
}
// waves: threads exit and their ids (and elements) pass on; hand-over must be ordered
SIM_SCENARIO(reuse, 4) {
  int waves = (int)sim::param("waves", 1, 4); bool by_id = sim::param("by_id", 0, 1), lag = sim::param("lag", 0, 1); Ctr c; long uses = 0;
  { auto ts = make(c, by_id); std::unique_ptr<joiner> prev; std::vector<El*> used; std::vector<std::unique_ptr<std::vector<El*>>> all;
    for (int w = 0; w < waves; w++) { int nt = (int)sim::below(6) + 1; std::unique_ptr<joiner> j(new joiner); all.emplace_back(new std::vector<El*>(nt, nullptr)); auto* u = all.back().get();
      for (int t = 0; t < nt; t++) { uses++; j->go([&, t, u] { El* e = &*(*ts); (*u)[t] = e; e->use(parlay::my_thread_id()); }); }
      if (lag) prev = std::move(j); else j.reset(); }
    prev.reset(); for (auto& u : all) for (El* e : *u) used.push_back(e);
    final_check(*ts, uses, used); }
  SIM_CHECK(c.made == c.gone, "leak", "%ld constructed, %ld destroyed", c.made.load(), c.gone.load());
}
// objects created and destroyed while threads come and go; default construction; iteration creates missing chunks
SIM_SCENARIO(lifetimes, 2) {
  int nt = (int)sim::param("threads", 1, 12); int rounds = (int)sim::param("rounds", 1, 3);
  for (int r = 0; r < rounds; r++) {
    parlay::ThreadSpecific<long> z; std::atomic<int> arrived{0}; { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { *z += t + 1; arrived++; while (arrived.load() < nt) std::this_thread::yield(); }); }
    long s = 0; z.for_each([&](long& x) { s += x; }); SIM_CHECK(s == (long)nt * (nt + 1) / 2, "lost-update", "sum %ld of %d threads", s, nt);
    { Ctr c2; { auto fresh = make(c2, sim::chance(1, 2)); if (sim::chance(1, 2)) { joiner j; j.go([&] { (*fresh)->use(parlay::my_thread_id()); }); } jumps(*fresh); } SIM_CHECK(c2.made == c2.gone, "leak", "%ld constructed, %ld destroyed", c2.made.load(), c2.gone.load()); }
    Ctr c; { auto late = make(c, true); final_check(*late, 0, {}); auto it = late->begin(); it += (long)(late->end() - late->begin()); SIM_CHECK(it == late->end(), "iteration", "begin + n != end"); while (it != late->begin()) { --it; SIM_CHECK((*it).magic == 0xE1E1u, "not-built", "backwards iteration sees an unconstructed element"); } }
    SIM_CHECK(c.made == c.gone, "leak", "%ld constructed, %ld destroyed", c.made.load(), c.gone.load()); }
}
