// C12: atomic wait/notify.
#include "common.h"
#include <parlay/internal/atomic_wait.h>
using namespace hx;
namespace {
template <class T> struct Loc { alignas(64) std::atomic<T> a; explicit Loc(T v = 0) : a(v) {} };
}
// n waiters, one change, notify_all (or one notify_one per waiter)
template <class T> static void one_change() {
  int nw = (int)sim::param("waiters", 1, 6); bool all = sim::param("all", 0, 1); int delay = (int)sim::param("delay", 0, 40); sim::stop_timers(sim::param("timers_never_fire", 0, 1));
  Loc<T> x(7); std::atomic<int> back{0}; int data = 0;
  joiner j; for (int i = 0; i < nw; i++) { unsigned d = (unsigned)sim::below(30); j.go([&, d] { busy(d); parlay::atomic_wait(&x.a, (T)7); T v = x.a.load(); SIM_CHECK(v == 8, "returned-early", "atomic_wait returned but the value is still %ld", (long)v); SIM_CHECK(data == 5, "stale", "data written before the change is not visible"); back++; }); }
  busy(delay); data = 5; x.a.store(8); if (all) parlay::atomic_notify_all(&x.a); else for (int i = 0; i < nw; i++) parlay::atomic_notify_one(&x.a);
  j.join(); SIM_CHECK(back == nw, "lost-wakeup", "%d of %d", back.load(), nw);
}
SIM_SCENARIO(one_change_4, 2) { one_change<int>(); }
SIM_SCENARIO(one_change_8, 2) { one_change<long>(); }
SIM_SCENARIO(one_change_1, 1) { one_change<signed char>(); }
SIM_SCENARIO(one_change_2, 1) { one_change<unsigned short>(); }
// ping-pong between threads through one location, waiting with the previously seen value
template <class T> static void turns() {
  int nt = (int)sim::param("threads", 2, 4), rounds = (int)sim::param("rounds", 1, 8); sim::stop_timers(true); bool one = sim::param("one", 0, 1) && nt == 2;
  Loc<T> x(0); long shared = 0; joiner j;
  for (int t = 0; t < nt; t++) j.go([&, t] { for (int r = 0; r < rounds; r++) { T want = (T)(r * nt + t); for (;;) { T v = x.a.load(); if (v == want) break; parlay::atomic_wait(&x.a, v); SIM_CHECK(x.a.load() != v, "returned-early", "value unchanged after atomic_wait"); }
      SIM_CHECK(shared == (long)want, "stale", "shared %ld in turn %ld", shared, (long)want); shared++; x.a.store((T)(want + 1)); if (one) parlay::atomic_notify_one(&x.a); else parlay::atomic_notify_all(&x.a); } });
  j.join(); SIM_CHECK(shared == (long)nt * rounds, "lost-wakeup", "%ld turns", shared);
}
SIM_SCENARIO(turns_4, 3) { turns<int>(); }
SIM_SCENARIO(turns_8, 4) { turns<size_t>(); }
// counters that move on while waiters come and go: the notifier never stops short of the target (the scheduler's pattern)
SIM_SCENARIO(epochs, 5) {
  int nw = (int)sim::param("waiters", 1, 4), nn = (int)sim::param("notifiers", 1, 3), rounds = (int)sim::param("rounds", 1, 10); sim::stop_timers(true); Loc<size_t> x(0); std::atomic<int> finished{0}; size_t target = (size_t)nn * rounds; joiner j;
  for (int i = 0; i < nw; i++) j.go([&] { size_t v; while ((v = x.a.load()) < target) { parlay::atomic_wait(&x.a, v); size_t w = x.a.load(); SIM_CHECK(w != v, "returned-early", "atomic_wait returned while the value is still %zu", v); } finished++; });
  for (int i = 0; i < nn; i++) j.go([&] { for (int r = 0; r < rounds; r++) { x.a.fetch_add(1); parlay::atomic_notify_all(&x.a); busy(r % 3); } });
  j.join(); SIM_CHECK(finished == nw, "lost-wakeup", "%d of %d waiters finished", finished.load(), nw);
}
// the same wait value loaded right before waiting, many notifications in flight (wake_up_counter pattern), unrelated location in the same table slot
SIM_SCENARIO(colliding, 4) {
  int na = (int)sim::param("waiters_a", 1, 3), nb = (int)sim::param("waiters_b", 0, 3), rounds = (int)sim::param("rounds", 1, 6); sim::stop_timers(true); bool close = sim::param("same_slot", 0, 1);
  alignas(256) static char buf[1024]; auto* a = new (buf) std::atomic<size_t>(0); auto* b = new (buf + (close ? 256 : 8)) std::atomic<size_t>(0); joiner j; std::atomic<int> fin{0};
  auto waiter = [&](std::atomic<size_t>* p) { return [&, p] { size_t v; while ((v = p->load()) < (size_t)rounds) { parlay::atomic_wait(p, v); SIM_CHECK(p->load() != v, "returned-early", "value unchanged"); } fin++; }; };
  for (int i = 0; i < na; i++) j.go(waiter(a)); for (int i = 0; i < nb; i++) j.go(waiter(b));
  auto notifier = [&](std::atomic<size_t>* p, bool one, int n) { return [&, p, one, n] { for (int r = 0; r < rounds; r++) { p->fetch_add(1); if (one) for (int k = 0; k < n; k++) parlay::atomic_notify_one(p); else parlay::atomic_notify_all(p); sim::yield_point(); } }; };
  bool one = sim::param("one", 0, 1); j.go(notifier(a, one, na)); if (nb) j.go(notifier(b, one, nb));
  j.join(); SIM_CHECK(fin == na + nb, "lost-wakeup", "%d of %d", fin.load(), na + nb);
}
// no change: must not return (spurious wake-ups, notifications without change, changes elsewhere)
SIM_SCENARIO(no_change, 2) {
  int n = (int)sim::param("notifies", 1, 12); sim::stop_timers(sim::param("timers_never_fire", 0, 1)); int w = (int)sim::param("width", 0, 1); Loc<int> x(3); Loc<long> y(3); std::atomic<bool> changed{false}; std::atomic<int> back{0};
  joiner j; for (int i = 0; i < 2; i++) j.go([&] { if (w) parlay::atomic_wait(&y.a, 3L); else parlay::atomic_wait(&x.a, 3); SIM_CHECK(changed.load(), "returned-early", "atomic_wait returned before any change"); back++; });
  for (int i = 0; i < n; i++) { parlay::atomic_notify_all(&x.a); parlay::atomic_notify_all(&y.a); busy(i % 4); }
  changed.store(true); x.a.store(4); y.a.store(4); parlay::atomic_notify_all(&x.a); parlay::atomic_notify_all(&y.a); j.join();
}
