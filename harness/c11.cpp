// C11: allocator accounting, boundedness, clear, allocation failure.
#include "common.h"
#include <parlay/alloc.h>
#include <deque>
using namespace hx;
extern "C" { uint64_t sim_static_phys = 64ull << 20; }   // default pool covers sizes up to 1 MB
namespace {
template <size_t N> struct Raw { unsigned char b[N]; };
void leaks() { SIM_CHECK(sim::heap_live_blocks() == 0, "leak", "%llu heap blocks (%llu bytes) still allocated after everything was freed and the process ended", (unsigned long long)sim::heap_live_blocks(), (unsigned long long)sim::heap_live_bytes()); }
struct TA { size_t size; void* (*get)(); void (*put)(void*); size_t (*used)(); size_t (*allocated)(); void (*finish)(); };
template <size_t N> TA ta() { using A = parlay::type_allocator<Raw<N>>; return {sizeof(Raw<N>), [] { return (void*)A::alloc(); }, [](void* p) { A::free((Raw<N>*)p); }, [] { return A::num_used_blocks(); }, [] { return A::num_allocated_blocks(); }, [] { A::finish(); }}; }
TA tas[] = {ta<8>(), ta<4096>(), ta<20000>(), ta<65536>(), ta<100000>(), ta<131072>(), ta<200000>(), ta<262080>(), ta<262081>(), ta<300000>()};
size_t list_len(size_t s) { size_t l = ((1 << 18) - 64 + s + 1) / s; return l ? l : 1; }
void stamp(void* p, size_t n, unsigned v) { memcpy(p, &v, 4); memcpy((char*)p + n - 4, &v, 4); }
void check(void* p, size_t n, unsigned v) { unsigned a, b; memcpy(&a, p, 4); memcpy(&b, (char*)p + n - 4, 4); SIM_CHECK(a == v && b == v, "corrupted", "live block changed"); }
std::pair<size_t, size_t> usage() { auto u = parlay::internal::memory_usage(); SIM_CHECK(u.second < (1ull << 40) && u.first < (1ull << 40), "accounting", "allocator reports %zu bytes used and %zu free: more used than allocated", u.first, u.second); return u; }
}
// exact count of used blocks at quiescence, under every history
// a block allocator of its own with short lists, so that lists move between threads all the time
SIM_SCENARIO(own_block, 4) {
  sim::at_end(leaks); size_t sizes[] = {1, 8, 24, 64, 136, 1000, 5000}; size_t size = sizes[sim::param("size", 0, 6)], ll = (size_t)sim::param("list", 1, 6), align = (size_t)1 << sim::param("align", 3, 8); int nt = (int)sim::param("threads", 1, 4), n = (int)sim::param_log("ops", 1, 60), rounds = (int)sim::param("rounds", 1, 3); size = (size + align - 1) / align * align; // as for every C++ type
  { parlay::internal::block_allocator a(size, align, 0, ll); size_t bs = a.get_block_size(), h0 = sim::heap_live_bytes(); SIM_CHECK(bs >= size && bs >= sizeof(void*), "accounting", "block size %zu for blocks of %zu bytes", bs, size);
    for (int r = 0; r < rounds; r++) { std::vector<std::vector<void*>> held(nt); std::vector<std::atomic<void*>> box(2); for (auto& b : box) b = nullptr; std::atomic<long> most{0}; std::atomic<long> cur{0};
      auto get = [&](unsigned v) { void* p = a.alloc(); SIM_CHECK(p && (uintptr_t)p % std::min<size_t>(align, bs) == 0, "misaligned", "block %p is not aligned to %zu", p, align); if (size >= 4) stamp(p, size, v); long c = ++cur; long m = most; while (c > m && !most.compare_exchange_weak(m, c)) {} return p; };
      auto put = [&](void* p, unsigned v) { if (size >= 4) check(p, size, v); cur--; a.free(p); };
      { joiner j; for (int t = 0; t < nt; t++) { uint64_t r = sim::rnd(); int keep = (int)sim::below(20); j.go([&, t, r, keep]() mutable { auto& h = held[t]; for (int i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; unsigned x = (unsigned)(r >> 40);
              if (x % 4 == 0) { void* in = get(7u); void* o = box[x / 4 % 2].exchange(in); if (o) put(o, 7u); }
              else if ((int)h.size() > keep || (x % 4 == 1 && !h.empty())) { put(h.back(), (unsigned)t + 50); h.pop_back(); } else h.push_back(get((unsigned)t + 50)); } }); } }
      size_t live = 0; for (auto& h : held) live += h.size(); for (auto& b : box) live += b.load() != nullptr;
      SIM_CHECK(a.num_used_blocks() == live, "accounting", "%zu blocks used, the allocator says %zu", live, a.num_used_blocks());
      size_t lim = (size_t)most.load() + (size_t)parlay::num_thread_ids() * 3 * (ll + 1) + (size_t)nt * ll; if (r == 0) SIM_CHECK(a.num_allocated_blocks() <= lim, "unbounded", "%zu blocks allocated, at most %ld used at a time (lists of %zu)", a.num_allocated_blocks(), most.load(), ll);
      SIM_CHECK(a.num_allocated_blocks() >= live && a.num_allocated_blocks() * bs <= sim::heap_live_bytes() - h0 + 1, "accounting", "%zu blocks allocated", a.num_allocated_blocks());
      if (live) { SIM_CHECK(!a.clear(), "clear", "clear succeeded with %zu blocks in use", live); SIM_CHECK(a.num_used_blocks() == live, "accounting", "the failed clear changed the number of used blocks to %zu (was %zu)", a.num_used_blocks(), live); }
      for (int t = 0; t < nt; t++) for (void* p : held[t]) put(p, (unsigned)t + 50); for (auto& b : box) if (b.load()) put(b.load(), 7u);
      SIM_CHECK(a.num_used_blocks() == 0, "accounting", "%zu blocks used, all were freed", a.num_used_blocks());
      if (sim::chance(1, 2)) { SIM_CHECK(a.clear(), "clear", "clear failed though all blocks were freed"); SIM_CHECK(a.num_allocated_blocks() == 0 && a.num_used_blocks() == 0, "accounting", "%zu blocks after clear", a.num_allocated_blocks()); } } }
}
SIM_SCENARIO(used_blocks, 4) {
  sim::at_end(leaks); int k = (int)sim::param("type", 0, 9), nt = (int)sim::param("threads", 1, 5), rounds = (int)sim::param("rounds", 1, 3), n = (int)sim::param_log("ops", 1, 120); TA& A = tas[k]; std::vector<std::vector<void*>> held(nt);
  for (int r = 0; r < rounds; r++) {
    std::vector<std::vector<char>> plan(nt); for (auto& p : plan) { int bias = (int)sim::below(4); for (int i = 0; i < n; i++) p.push_back((int)sim::below(5) > bias); } bool rot = sim::chance(1, 2);
    { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { auto& h = held[(t + (rot ? r : 0)) % nt]; for (char c : plan[t]) if (c || h.empty()) { if (h.size() < 40) { void* p = A.get(); stamp(p, A.size, (unsigned)(uintptr_t)p); h.push_back(p); } } else { void* p = h[h.size() / 2]; h.erase(h.begin() + h.size() / 2); check(p, A.size, (unsigned)(uintptr_t)p); A.put(p); } }); }
    size_t live = 0; for (auto& h : held) live += h.size();
    SIM_CHECK(A.used() == live, "accounting", "%zu blocks reported used, %zu are live", A.used(), live); SIM_CHECK(A.allocated() >= live, "accounting", "%zu allocated < %zu used", A.allocated(), live);
    if (sim::chance(1, 3)) { A.finish(); SIM_CHECK(A.used() == live, "accounting", "after clear: %zu blocks reported used, %zu live", A.used(), live); if (!live) SIM_CHECK(A.allocated() == 0, "accounting", "clear with nothing live leaves %zu blocks allocated", A.allocated()); for (auto& h : held) for (void* p : h) check(p, A.size, (unsigned)(uintptr_t)p); } }
  for (auto& h : held) for (void* p : h) A.put(p); SIM_CHECK(A.used() == 0, "accounting", "%zu used at the end", A.used());
  A.finish(); SIM_CHECK(A.allocated() == 0, "accounting", "%zu allocated after the final clear", A.allocated()); void* p = A.get(); stamp(p, A.size, 1); SIM_CHECK(A.used() == 1, "accounting", "after clear: used %zu", A.used()); A.put(p);
}
// bounded live set => bounded memory: producers and consumers, threads that come and go
SIM_SCENARIO(bounded, 4) {
  sim::at_end(leaks); int k = (int)sim::param("type", 1, 9), np = (int)sim::param("producers", 1, 2), nc = (int)sim::param("consumers", 1, 2), cap = (int)sim::param("cap", 1, 6); TA& A = tas[k]; size_t L = list_len(A.size); int n = (int)std::min<size_t>(12 * L * (np + nc) + 60, 900);
  struct Q { std::mutex m; std::deque<void*> q; } q; std::atomic<int> left{np * n}; size_t peak = (size_t)cap + np + nc;
  { joiner j; for (int t = 0; t < np; t++) j.go([&] { for (int i = 0; i < n; i++) { for (;;) { { std::lock_guard<std::mutex> g(q.m); if ((int)q.q.size() < cap) break; } std::this_thread::yield(); } void* p = A.get(); stamp(p, A.size, 7); std::lock_guard<std::mutex> g(q.m); q.q.push_back(p); } });
    for (int t = 0; t < nc; t++) j.go([&] { while (left.load() > 0) { void* p = nullptr; { std::lock_guard<std::mutex> g(q.m); if (!q.q.empty()) { p = q.q.front(); q.q.pop_front(); } } if (!p) { std::this_thread::yield(); continue; } check(p, A.size, 7); A.put(p); left--; } }); }
  size_t ids = parlay::num_thread_ids(), bound = peak + np + 3 * L * (ids + 1);
  SIM_CHECK(A.allocated() <= bound, "unbounded", "%zu blocks of %zu bytes allocated for at most %zu live ones (%zu threads, %d operations)", A.allocated(), A.size, peak, ids, np * n);
  SIM_CHECK(A.used() == 0, "accounting", "%zu used", A.used());
}
SIM_SCENARIO(bounded_seq, 2) {   // one thread allocates, a later one frees, again and again
  sim::at_end(leaks); int k = (int)sim::param("type", 2, 9), rounds = (int)sim::param("rounds", 1, 25), batch = (int)sim::param("batch", 1, 30); TA& A = tas[k]; size_t L = list_len(A.size);
  for (int r = 0; r < rounds; r++) { std::vector<void*> v; std::thread a([&] { for (int i = 0; i < batch; i++) v.push_back(A.get()); }); a.join(); auto f = [&] { for (void* p : v) A.put(p); }; if (r % 2) f(); else { std::thread b(f); b.join(); } }
  size_t ids = parlay::num_thread_ids(); SIM_CHECK(A.allocated() <= batch + 3 * L * (ids + 1), "unbounded", "%zu blocks allocated for at most %d live ones after %d rounds (lists of %zu)", A.allocated(), batch, rounds, L); SIM_CHECK(A.used() == 0, "accounting", "%zu used", A.used());
}
// the default pool: large and small, through allocator<T> and p_malloc, with memory_clear
SIM_SCENARIO(pool, 5) {
  sim::at_end(leaks); int nt = (int)sim::param("threads", 1, 4), n = (int)sim::param_log("ops", 1, 50), rounds = (int)sim::param("rounds", 1, 3); int fam = (int)sim::param("family", 0, 2), big = (int)sim::param("big", 0, 3); bool many = sim::param("many", 0, 7) == 0; size_t lim = many ? 60 : 5; if (many) { nt = (nt + 1) / 2; n = 40 + 3 * n; } auto base = usage(); parlay::allocator<char> ac;
  struct B { char* p; size_t n; bool pm; }; std::vector<std::vector<B>> held(nt);
  auto pick = [&] { if (many && big) return 300000 + sim::below(200000); size_t s = big ? ((size_t)150000 << sim::below(5)) - 30 + sim::below(60) : 8 + sim::below(5000); if (big == 3) s = ((size_t)1 << (17 + sim::below(4))) - 70 + sim::below(140); return s; };
  for (int r = 0; r < rounds; r++) {
    { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { auto& h = held[(t + r) % nt]; for (int i = 0; i < n; i++) { uint64_t x; size_t s; { sim::Quiet q; x = sim::rnd(); s = pick(); }
          if (h.size() < lim && (many ? x % 8 != 0 : x % 2 == 1)) { B b{nullptr, s, fam == 2 ? (x >> 8) % 2 == 0 : fam == 1}; b.p = b.pm ? (char*)parlay::p_malloc(s) : ac.allocate(s); stamp(b.p, b.n, (unsigned)b.n); h.push_back(b); }
          else if (!h.empty()) { B b = h.back(); h.pop_back(); check(b.p, b.n, (unsigned)b.n); if (b.pm) parlay::p_free(b.p); else ac.deallocate(b.p, b.n); }
          if (x % 64 == 9) parlay::internal::memory_clear(); } }); }
    size_t want = 0; for (auto& h : held) for (auto& b : h) want += b.n; auto u = usage();
    SIM_CHECK(u.first >= base.first + want, "accounting", "%zu bytes reported used, at least %zu are live", u.first - base.first, want); SIM_CHECK(u.first - base.first <= 2 * want + 4096 * (size_t)nt * 8, "accounting", "%zu bytes reported used, only %zu are live", u.first - base.first, want);
    if (sim::chance(1, 2)) { parlay::internal::memory_clear(); auto u2 = usage(); SIM_CHECK(u2.first == u.first, "accounting", "memory_clear changed the used bytes from %zu to %zu", u.first, u2.first); SIM_CHECK(u2.second <= u.second, "accounting", "memory_clear increased free memory"); for (auto& h : held) for (auto& b : h) check(b.p, b.n, (unsigned)b.n); } }
  for (auto& h : held) for (auto& b : h) if (b.pm) parlay::p_free(b.p); else ac.deallocate(b.p, b.n);
  auto u = usage(); SIM_CHECK(u.first == base.first, "accounting", "%zd bytes reported used although everything was freed", (ssize_t)(u.first - base.first));
  parlay::internal::memory_clear(); u = usage(); SIM_CHECK(u.first == base.first, "accounting", "%zd bytes used after memory_clear", (ssize_t)(u.first - base.first)); SIM_CHECK(u.first + u.second <= sim::heap_live_bytes() + 65536, "accounting", "%zu bytes reported used or in reserve after memory_clear, only %zu are held from the system", u.first + u.second, (size_t)sim::heap_live_bytes());
}
// large blocks: freed ones are re-used (bounded), and given back by memory_clear
SIM_SCENARIO(large_reuse, 2) {
  sim::at_end(leaks); int nt = (int)sim::param("threads", 1, 3), n = (int)sim::param("ops", 2, 40); size_t s = 300000 + sim::below(200000); parlay::allocator<char> ac; size_t h0 = sim::heap_live_bytes();
  { joiner j; for (int t = 0; t < nt; t++) j.go([&] { for (int i = 0; i < n; i++) { char* p = ac.allocate(s - i); stamp(p, s - i, 3); sim::yield_point(); check(p, s - i, 3); ac.deallocate(p, s - i); } }); }
  size_t h1 = sim::heap_live_bytes(); SIM_CHECK(h1 - h0 <= (size_t)nt * (600000) + 200000, "unbounded", "%zu bytes held after %d allocations of %zu with at most %d live", h1 - h0, n * nt, s, nt);
  parlay::internal::memory_clear(); size_t h2 = sim::heap_live_bytes(); SIM_CHECK(h2 + s <= h1, "unbounded", "memory_clear returned nothing (%zu -> %zu)", h1, h2);
}
// allocation failure: std::bad_alloc comes out, nothing is lost, everything still works
SIM_SCENARIO(alloc_failure, 4) {
  sim::at_end(leaks); int k = (int)sim::param("type", 0, 9), n = (int)sim::param_log("ops", 1, 80), nf = (int)sim::param("fail_at", 0, 3), nt = (int)sim::param("threads", 1, 3); TA& A = tas[k]; int fam = (int)sim::param("family", 0, 2); parlay::allocator<char> ac; auto base = usage(); size_t used0 = A.used(), alloc0 = A.allocated(); std::atomic<long> failed{0}; (void)alloc0;
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { struct B { void* p; size_t n; int f; }; std::vector<B> h; h.reserve(200);
      for (int i = 0; i < n; i++) { uint64_t x; { sim::Quiet q; x = sim::rnd(); } if (x % 3 && h.size() < 60) { size_t s = fam == 0 ? A.size : (x >> 20) % 3 ? 300000 + (x >> 24) % 900000 : 16 + (x >> 24) % 3000; bool arm = x % 4 == 1; if (arm) sim::alloc_fail_after(nf); void* p = nullptr; bool threw = false;
          try { p = fam == 0 ? A.get() : fam == 1 ? (void*)ac.allocate(s) : parlay::p_malloc(s); } catch (const std::bad_alloc&) { threw = true; }
          bool fired = arm && sim::alloc_fail_fired(); sim::alloc_fail_after(-1); if (threw) { failed++; SIM_CHECK(fired, "accounting", "bad_alloc without a failed allocation"); } else { SIM_CHECK(p, "null", "null block"); stamp(p, s, (unsigned)s); h.push_back({p, s, fam}); } }
        else if (!h.empty()) { B b = h.back(); h.pop_back(); check(b.p, b.n, (unsigned)b.n); if (fam == 0) A.put(b.p); else if (fam == 1) ac.deallocate((char*)b.p, b.n); else parlay::p_free(b.p); } }
      for (B& b : h) { check(b.p, b.n, (unsigned)b.n); if (fam == 0) A.put(b.p); else if (fam == 1) ac.deallocate((char*)b.p, b.n); else parlay::p_free(b.p); } }); }
  auto u = usage(); SIM_CHECK(u.first == base.first, "accounting", "%zd bytes reported used after %ld failed allocations and all blocks freed", (ssize_t)(u.first - base.first), failed.load()); SIM_CHECK(A.used() == used0, "accounting", "%zu blocks reported used after %ld failed allocations", A.used(), failed.load());
  A.finish(); SIM_CHECK(A.used() == 0 && A.allocated() == 0, "accounting", "after clear: %zu used, %zu allocated", A.used(), A.allocated());
}
