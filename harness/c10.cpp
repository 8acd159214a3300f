// C10: allocators never hand out overlapping, undersized or misaligned memory; contents survive until freed.
#include "common.h"
#include <parlay/alloc.h>
#include <map>
using namespace hx;
extern "C" { uint64_t sim_static_phys = 64ull << 20; }   // default pool covers sizes up to 1 MB, larger requests go to the system
namespace {
struct Live { std::map<uintptr_t, size_t> m;             // oracle: intervals that are live now (callers hold a Quiet)
  void add(void* p, size_t n) { uintptr_t a = (uintptr_t)p; if (!n) n = 1; auto it = m.lower_bound(a); if (it != m.end()) SIM_CHECK(a + n <= it->first, "overlap", "block [%lx,+%zu) overlaps live block [%lx,+%zu)", a, n, it->first, it->second);
    if (it != m.begin()) { --it; SIM_CHECK(it->first + it->second <= a, "overlap", "block [%lx,+%zu) overlaps live block [%lx,+%zu)", a, n, it->first, it->second); } m[a] = n; }
  void del(void* p) { m.erase((uintptr_t)p); } };
Live* live;
struct Blk { unsigned char* p = nullptr; size_t n = 0, align = 1; unsigned char tag = 0; int kind = 0; };
size_t span(size_t n) { return sim::instrumented() ? 24 : 512; }
void fill(Blk& b) { size_t k = std::min(b.n, span(b.n)); for (size_t i = 0; i < k; i++) b.p[i] = (unsigned char)(b.tag + i); for (size_t i = 0; i < k; i++) b.p[b.n - 1 - i] = (unsigned char)(b.tag ^ 0x5a); if (b.n > 4096) for (size_t i = 4096; i < b.n - k; i += sim::instrumented() ? 65536 : 4096) b.p[i] = b.tag; }
void verify(Blk& b) { size_t k = std::min(b.n, span(b.n)); for (size_t i = 0; i < k; i++) SIM_CHECK(b.p[b.n - 1 - i] == (unsigned char)(b.tag ^ 0x5a), "corrupted", "byte %zu of a live block of %zu changed", b.n - 1 - i, b.n);
  if (b.n >= 2 * k) for (size_t i = 0; i < k; i++) SIM_CHECK(b.p[i] == (unsigned char)(b.tag + i), "corrupted", "byte %zu of a live block of %zu changed", i, b.n);
  if (b.n > 4096) for (size_t i = 4096; i < b.n - k; i += sim::instrumented() ? 65536 : 4096) SIM_CHECK(b.p[i] == b.tag, "corrupted", "byte %zu of a live block of %zu changed", i, b.n); }
template <size_t N, size_t A> struct alignas(A) Raw { unsigned char b[N]; };
template <class T> struct Al { static constexpr size_t A = alignof(T), S = sizeof(T); static void* get(size_t n) { return parlay::allocator<T>().allocate(n); } static void put(void* p, size_t n) { parlay::allocator<T>().deallocate((T*)p, n); } };
template <class T> struct Ty { static void* get() { return parlay::type_allocator<T>::alloc(); } static void put(void* p) { parlay::type_allocator<T>::free((T*)p); } };
using B1 = Raw<1, 1>; using B8 = Raw<8, 8>; using B24 = Raw<24, 8>; using B4k = Raw<4096, 64>; using B64k = Raw<65536, 128>; using B100k = Raw<100000, 4>; using B200k = Raw<200000, 16>; using B300k = Raw<300032, 32>; using A256 = Raw<256, 256>; using A4096 = Raw<8192, 4096>; using B131k = Raw<131072, 64>; using B262k = Raw<262081, 1>;
struct KindT { size_t size, align; void* (*get)(); void (*put)(void*); };
template <class T> KindT kt() { return {sizeof(T), alignof(T), Ty<T>::get, Ty<T>::put}; }
KindT types[] = {kt<B1>(), kt<B8>(), kt<B24>(), kt<B4k>(), kt<B64k>(), kt<B100k>(), kt<B200k>(), kt<B300k>(), kt<A256>(), kt<A4096>(), kt<B131k>(), kt<B262k>()};
struct KindA { size_t size, align; void* (*get)(size_t); void (*put)(void*, size_t); };
template <class T> KindA ka() { return {Al<T>::S, Al<T>::A, Al<T>::get, Al<T>::put}; }
KindA allocs[] = {ka<char>(), ka<int>(), ka<B24>(), ka<Raw<64, 64>>(), ka<Raw<128, 128>>(), ka<A256>(), ka<A4096>(), ka<Raw<12, 4>>()};
size_t pick_size(size_t hi) { size_t s; switch (sim::below(4)) { case 0: s = sim::below(300); break; case 1: { s = (size_t)1 << sim::below(21); s += sim::below(5); s = s > 2 ? s - 2 : 0; break; } case 2: { unsigned k = (unsigned)sim::below(20); s = sim::below((size_t)2 << k); break; } default: s = 1000 + sim::below(48); } return std::min(s, hi); }
// kind: 0..99 type_allocator index, 100.. parlay::allocator, 200 p_malloc
Blk get(int fam, int focus) { Blk b; b.tag = (unsigned char)sim::rnd();
  if (fam == 0) { int k = focus >= 0 ? focus % 12 : (int)sim::below(12); b.kind = k; b.n = types[k].size; b.align = types[k].align; b.p = (unsigned char*)types[k].get(); }
  else if (fam == 1) { int k = (int)sim::below(8); size_t cnt = pick_size(1200000) / allocs[k].size; b.kind = 100 + k; b.n = cnt * allocs[k].size; b.align = allocs[k].align; b.p = (unsigned char*)allocs[k].get(cnt); }
  else { b.kind = 200; b.n = pick_size(1500000); b.align = focus >= 0 && sim::chance(1, 2) ? (size_t)1 << sim::below(13) : 16; b.p = (unsigned char*)(b.align == 16 ? parlay::p_malloc(b.n) : parlay::p_malloc(b.n, b.align)); }
  SIM_CHECK(b.p != nullptr, "null", "null block"); SIM_CHECK(!b.n || (uintptr_t)b.p % b.align == 0, "misaligned", "block %p of %zu bytes is not aligned to %zu (kind %d)", (void*)b.p, b.n, b.align, b.kind);
  if (b.n) { { sim::Quiet q; live->add(b.p, b.n); } fill(b); } return b; }
void put(Blk b) { if (b.n) { verify(b); sim::Quiet q; live->del(b.p); }
  if (b.kind < 100) types[b.kind].put(b.p); else if (b.kind < 200) allocs[b.kind - 100].put(b.p, b.n / allocs[b.kind - 100].size); else parlay::p_free(b.p); }
void leaks() { SIM_CHECK(sim::heap_live_blocks() == 0, "leak", "%llu heap blocks (%llu bytes) still allocated after everything was freed and the process ended", (unsigned long long)sim::heap_live_blocks(), (unsigned long long)sim::heap_live_bytes()); }
// threads allocate, keep, pass on through mailboxes, free blocks of others
void churn(int fam) {
  sim::at_end(leaks);
  int nt = (int)sim::param("threads", 1, 5), n = (int)sim::param_log("ops", 1, fam == 0 ? 150 : 60), keep = (int)sim::param("keep", 0, 8), focus = (int)sim::param("focus", -1, 11); bool pass = sim::param("pass_on", 0, 1); int clear = (int)sim::param("clear", 0, 3);
  live = new Live;
  { std::vector<std::atomic<Blk*>> mail(4); for (auto& m : mail) m = nullptr;
    joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { std::vector<Blk> mine;
      for (int i = 0; i < n; i++) { uint64_t r; { sim::Quiet q; r = sim::rnd(); }
        if (pass && r % 3 == 0) { Blk* in = nullptr; if (!mine.empty()) { in = new Blk(mine.back()); mine.pop_back(); } Blk* o = mail[(r >> 8) % 4].exchange(in, std::memory_order_acq_rel); if (o) { put(*o); delete o; } }
        else if ((int)mine.size() > keep || (r % 5 == 1 && !mine.empty())) { size_t k = (r >> 16) % mine.size(); std::swap(mine[k], mine.back()); put(mine.back()); mine.pop_back(); }
        else mine.push_back(get(fam, focus));
        if (clear == 3 && r % 16 == 5) parlay::internal::memory_clear(); }
      for (auto& b : mine) put(b); }); 
    j.join(); for (auto& m : mail) { Blk* o = m.load(); if (o) { put(*o); delete o; } } }
  SIM_CHECK(live->m.empty(), "oracle", "harness kept %zu blocks", live->m.size()); delete live;
}
}
SIM_SCENARIO(types_, 4) { churn(0); }
SIM_SCENARIO(allocators, 3) { churn(1); }
SIM_SCENARIO(p_malloc_, 3) { churn(2); }
// create/destroy run constructors and destructors exactly once
namespace { struct Tr { static inline std::atomic<long> c{0}, d{0}; long a; char pad[20000]; Tr(int x, int y) : a(x * 1000 + y) { c++; } Tr() : a(-1) { c++; } ~Tr() { SIM_CHECK(a != -999, "destroyed-twice", "destructor ran twice"); a = -999; d++; } }; }
SIM_SCENARIO(create_destroy, 2) {
  int nt = (int)sim::param("threads", 1, 4), n = (int)sim::param_log("ops", 1, 60); using A = parlay::type_allocator<Tr>;
  { joiner j; for (int t = 0; t < nt; t++) j.go([&, t] { std::vector<Tr*> v; for (int i = 0; i < n; i++) { Tr* p = i % 3 == 2 ? A::create() : A::create(t, i); SIM_CHECK(p->a == (i % 3 == 2 ? -1 : t * 1000 + i), "not-constructed", "object not constructed as asked"); v.push_back(p); if (i % 4 == 3) { A::destroy(v[v.size() / 2]); v.erase(v.begin() + v.size() / 2); } } for (auto* p : v) { SIM_CHECK(p->a != -999, "destroyed-twice", "live object destroyed"); A::destroy(p); } }); }
  SIM_CHECK(Tr::c == (long)nt * n && Tr::d == Tr::c, "not-once", "%ld constructed, %ld destroyed, %d created", Tr::c.load(), Tr::d.load(), nt * n);
  SIM_CHECK(A::num_used_blocks() == 0, "accounting", "%zu blocks used", A::num_used_blocks());
}
