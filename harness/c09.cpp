// C09: nothing is reclaimed while in use, freed twice or hoarded without bound.
#include "common.h"
#include <parlay/internal/concurrency/hazptr_stack.h>
#include <parlay/thread_specific.h>
using namespace hx;
namespace {
std::atomic<long> alive{0}, total{0}, killed{0};
struct Obj { unsigned magic; long v; 
  explicit Obj(long x) : magic(0xA11CE), v(x) { alive++; total++; } Obj(Obj&& o) noexcept : magic(0xA11CE), v(o.v) { SIM_CHECK(o.magic == 0xA11CE, "use-after-destroy", "moving from a destroyed element (%x)", o.magic); alive++; total++; } Obj(const Obj&) = delete; Obj& operator=(Obj&&) = delete;
  ~Obj() { SIM_CHECK(magic == 0xA11CE, "destroyed-twice", "destroying an element that is not alive (%x)", magic); magic = 0xDEAD; alive--; killed++; } };
using Stack = parlay::internal::hazptr_stack<Obj>;
long limit(size_t in_stack) { long ids = parlay::num_thread_ids(); long thr = std::max(30L, ids); return (long)in_stack + ids * 2 * (thr + ids + 2); }
void end_check() { SIM_CHECK(alive.load() == 0, "leak", "%ld elements never destroyed (of %ld constructed)", alive.load(), total.load()); SIM_CHECK(total.load() == killed.load(), "leak", "constructed %ld, destroyed %ld", total.load(), killed.load());
  SIM_CHECK(sim::heap_live_blocks() == 0, "leak", "%llu heap blocks (%llu bytes) never freed", (unsigned long long)sim::heap_live_blocks(), (unsigned long long)sim::heap_live_bytes()); }
}
// many operations, few live elements: pending nodes stay bounded by the number of threads
SIM_SCENARIO(bounded, 4) {
  sim::at_end(end_check);
  int nt = (int)sim::param("threads", 1, 4), n = (int)sim::param_log("ops", 20, sim::instrumented() ? 400 : 1500), hold = (int)sim::param("prefill", 0, 6);
  Stack s; for (int i = 0; i < hold; i++) s.push(Obj(i)); std::atomic<long> worst{0};
  { joiner j; for (int t = 0; t < nt; t++) { uint64_t r = sim::rnd(); j.go([&, t, r]() mutable { for (int i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; if ((r >> 40) & 1) s.push(Obj(t)); { auto x = s.pop(); if (x) SIM_CHECK(x->magic == 0xA11CE, "use-after-destroy", "popped a destroyed element"); else s.push(Obj(i)); } 
        long a = alive.load(std::memory_order_relaxed); if (a > worst.load(std::memory_order_relaxed)) worst.store(a, std::memory_order_relaxed); } }); } }
  long a = alive.load(); size_t sz = s.size(); SIM_CHECK(a <= limit(sz), "unbounded", "%ld elements alive after all threads finished, %zu in the stack, %u thread ids (%d operations)", a, sz, parlay::num_thread_ids(), nt * n);
  // during the run, too: nothing is stalled for longer than a few operations, so twice the bound is generous
  SIM_CHECK(worst.load() <= 4 * limit((size_t)nt * n / 2 + hold), "unbounded", "up to %ld elements were alive", worst.load());
  s.clear(); SIM_CHECK(alive.load() <= limit(0), "unbounded", "%ld elements alive after clear", alive.load());
}
// threads exit with retired nodes pending; others take over their ids
SIM_SCENARIO(exits, 4) {
  sim::at_end(end_check);
  int waves = (int)sim::param("waves", 1, 6), nt = (int)sim::param("threads", 1, 5), n = (int)sim::param_log("ops", 1, 90);
  std::vector<std::unique_ptr<Stack>> ss; for (int i = 0; i < 2; i++) ss.emplace_back(new Stack);
  for (int w = 0; w < waves; w++) { joiner j; for (int t = 0; t < nt; t++) { unsigned pat = (unsigned)sim::below(4); j.go([&, pat, t] { Stack& s = *ss[(pat + t) % 2]; for (int i = 0; i < n; i++) { if (pat & 1) s.push(Obj(i)); auto x = s.pop(); if (!x) s.push(Obj(i)); if (pat & 2) (void)s.size(); } }); } }
  size_t in = ss[0]->size() + ss[1]->size(); SIM_CHECK(alive.load() <= limit(in), "unbounded", "%ld alive, %zu in the stacks, %u ids", alive.load(), in, parlay::num_thread_ids());
  ss[0].reset(); SIM_CHECK(alive.load() <= limit(ss[1]->size()), "leak", "%ld alive after destroying a stack", alive.load());
}
// readers and poppers race on very few nodes (re-use of addresses is likely): a freed node must never be touched
SIM_SCENARIO(hot, 6) {
  sim::at_end(end_check);
  int nt = (int)sim::param("threads", 2, 5), n = (int)sim::param_log("ops", 2, 120), pre = (int)sim::param("prefill", 0, 2); bool sizes = sim::param("sizes", 0, 1);
  Stack s; for (int i = 0; i < pre; i++) s.push(Obj(i));
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (int i = 0; i < n; i++) { s.push(Obj(t * 1000 + i)); if (sizes) (void)s.size(); auto x = s.pop(); if (x) SIM_CHECK(x->magic == 0xA11CE && x->v >= 0 && x->v < 100000, "use-after-destroy", "popped a destroyed element (%x, %ld)", x->magic, x->v); } }); }
  while (s.pop()) {} SIM_CHECK(alive.load() <= limit(0), "unbounded", "%ld alive", alive.load());
}
// enough retirements that scans really run while other threads hold announcements
SIM_SCENARIO(scans, 3) {
  sim::at_end(end_check);
  int nt = (int)sim::param("threads", 2, 4), n = (int)sim::param("ops", 32, 100); Stack s;
  { joiner j; j.go([&] { for (int i = 0; i < n; i++) { s.push(Obj(i)); s.push(Obj(i)); (void)s.pop(); (void)s.pop(); } });
    for (int t = 1; t < nt; t++) j.go([&] { for (int i = 0; i < n / 4; i++) { (void)s.size(); auto x = s.pop(); if (x) s.push(std::move(*x)); } }); }
  SIM_CHECK(alive.load() <= limit(s.size()), "unbounded", "%ld alive, %zu in the stack", alive.load(), s.size());
}

// destroying an object retires further objects (linked structures): the collector itself, with a re-entrant deleter
namespace {
struct CN { std::atomic<CN*> next{nullptr}; CN* child; long key; unsigned magic = 0xC0DE;
  CN(CN* c, long k) : child(c), key(k) { alive++; total++; }
  ~CN() { SIM_CHECK(magic == 0xC0DE, "destroyed-twice", "destroying a node that is not alive (%x)", magic); magic = 0xDEAD; alive--; killed++; }
  friend CN* intrusive_get_next(CN* n) { return n->next.load(std::memory_order_relaxed); }
  friend void intrusive_set_next(CN* n, CN* x) { n->next.store(x, std::memory_order_relaxed); } };
struct CDel; using CGC = parlay::internal::intrusive_acquire_retire<CN, CDel>;
struct CDel { CGC** gc; void operator()(CN* n) const; };
void CDel::operator()(CN* n) const { SIM_CHECK(n->magic == 0xC0DE, "destroyed-twice", "ejecting a node that is not alive (%x)", n->magic); CN* c = n->child; delete n; if (c) (*gc)->retire(c); }
}
SIM_SCENARIO(chains, 3) {
  sim::at_end(end_check);
  int nt = (int)sim::param("threads", 1, 4), n = (int)sim::param_log("ops", 4, 120), cells = (int)sim::param("cells", 1, 3), len = (int)sim::param("chain", 0, 5); bool overlap = sim::param("overlap", 0, 1);
  { CGC* p = nullptr; CGC gc(CDel{&p}); p = &gc; std::vector<std::atomic<CN*>> cell(cells);
    auto mk = [&](long k) { CN* c = nullptr; for (long i = (k * 7) % (len + 1); i >= 0; i--) c = new CN(c, k); return c; };
    for (int i = 0; i < cells; i++) cell[i].store(mk(i));
    { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { for (int i = 0; i < n; i++) { auto& c = cell[(size_t)(t + i) % cells];
          if ((i + t) % 3 == 0 || !overlap) { CN* o = c.exchange(mk(t * 1000 + i)); gc.retire(o); }
          else { CN* x = gc.acquire(c); SIM_CHECK(x->magic == 0xC0DE, "use-after-destroy", "a protected node was destroyed (%x)", x->magic); long k = x->key; sim::yield_point(); SIM_CHECK(x->magic == 0xC0DE && x->key == k, "use-after-destroy", "a protected node was destroyed while in use (%x)", x->magic);
                 if (i % 2) { CN* o = c.exchange(mk(k)); gc.retire(o); } gc.release(); } } }); }
    long a = alive.load(), lim = (cells + 2 * limit(0)) * (len + 2); SIM_CHECK(a <= lim, "unbounded", "%ld nodes alive after all threads finished (at most %ld expected)", a, lim);
    for (auto& c : cell) gc.retire(c.load()); }
  SIM_CHECK(alive.load() == 0, "leak", "%ld nodes left after the collector was destroyed", alive.load());
}
