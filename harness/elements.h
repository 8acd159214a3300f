// Element types whose every construction, use and destruction is checked against a registry of the objects that exist.
#pragma once
#include "common.h"
namespace el {
#define EL_RAW __attribute__((no_sanitize("thread"), noinline))
// open-addressing table: address -> 1 live, 2 moved from. Not instrumented: it is no part of the program under test.
struct Registry {
  static constexpr size_t N = 1 << 19; struct Slot { uintptr_t a; uint32_t gen; uint32_t st; };
  Slot* s; uint32_t gen; size_t live; uint64_t made, copies, moves;
  EL_RAW static size_t h(uintptr_t a) { return (size_t)((a * 0x9e3779b97f4a7c15ull) >> 45); }
  EL_RAW size_t find(uintptr_t a) { size_t i = h(a); while (s[i].gen == gen && s[i].a != a) i = (i + 1) & (N - 1); return i; }
  EL_RAW int get(const void* p) { size_t i = find((uintptr_t)p); return s[i].gen == gen ? (int)s[i].st : 0; }
  EL_RAW void set(const void* p, int st) { size_t i = find((uintptr_t)p); s[i].st = (uint32_t)st; }
  EL_RAW void add(const void* p, int st) { if (live > N / 2) sim::inconclusive("too many objects"); size_t i = find((uintptr_t)p); s[i].a = (uintptr_t)p; s[i].gen = gen; s[i].st = (uint32_t)st; live++; made++; }
  EL_RAW void del(const void* p) { size_t i = find((uintptr_t)p), j = i; live--; s[i].gen = 0; for (;;) { j = (j + 1) & (N - 1); if (s[j].gen != gen) return; size_t k = h(s[j].a); if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; s[i] = s[j]; s[j].gen = 0; i = j; } }
  EL_RAW void start() { gen++; live = 0; made = copies = moves = 0; }
};
inline Registry::Slot g_slots[Registry::N]; inline Registry g_reg{g_slots, 0, 0, 0, 0, 0};
// call at the start of a scenario; the destructor checks that nothing is left
struct Scope { Scope() { g_reg.start(); } void none(const char* what) { SIM_CHECK(g_reg.live == 0, "leak", "%zu objects still exist after %s", g_reg.live, what); } ~Scope() { if (g_reg.live) sim::fail("leak", "%zu objects still exist at the end", g_reg.live); sim::probe("elements", g_reg.made); } };
[[noreturn]] inline void bad(const char* what) { sim::fail("element", "%s", what); }
// an object bound to its address: not trivially relocatable
template <bool Copy> struct Obj {
  long v; int w;
  void born(int st = 1) { if (g_reg.get(this)) bad("an object is constructed where another one still exists"); g_reg.add(this, st); }
  int alive(const char* op) const { int st = g_reg.get(this); if (!st) bad(op); return st; }
  void ok() const { if (alive("an object that does not exist is read") != 1) bad("an object that was moved from is read"); }
  explicit Obj(long x = 0, int y = 0) : v(x), w(y) { born(); }
  Obj(const Obj& o) : v(o.v), w(o.w) { static_assert(Copy); o.ok(); born(); }
  Obj(Obj&& o) noexcept : v(o.v), w(o.w) { o.ok(); born(); g_reg.set(&o, 2); o.v = -77; }
  Obj& operator=(const Obj& o) { static_assert(Copy); o.ok(); alive("an object that does not exist is assigned to"); v = o.v; w = o.w; g_reg.set(this, 1); return *this; }
  Obj& operator=(Obj&& o) noexcept { if (&o == this) { alive("an object that does not exist is assigned to itself"); return *this; } o.ok(); alive("an object that does not exist is assigned to"); v = o.v; w = o.w; g_reg.set(this, 1); g_reg.set(&o, 2); o.v = -77; return *this; }
  ~Obj() { alive("an object that does not exist is destroyed"); g_reg.del(this); v = -99; }
  long key() const { ok(); return v; } int tag() const { ok(); return w; }
  bool operator<(const Obj& o) const { return key() < o.key(); } bool operator==(const Obj& o) const { return key() == o.key() && w == o.w; } bool operator!=(const Obj& o) const { return !(*this == o); }
};
using Cp = Obj<true>;
// the same without copy operations, for generic code that asks the traits
struct Mv : Obj<true> { using B = Obj<true>; explicit Mv(long x = 0, int y = 0) : B(x, y) {} Mv(const Mv&) = delete; Mv& operator=(const Mv&) = delete; Mv(Mv&&) noexcept = default; Mv& operator=(Mv&&) noexcept = default; };
// owns a heap cell; may be relocated by copying its bytes. Pad makes it big.
template <size_t Pad> struct Rel {
  struct Cell { long v; int w; }; Cell* c; char pad[Pad];
  static Cell* make(long x, int y) { Cell* p = new Cell{x, y}; if (g_reg.get(p)) bad("heap cell"); g_reg.add(p, 1); return p; }
  static void drop(Cell* p) { if (!p) return; if (g_reg.get(p) != 1) bad("an object is destroyed twice"); g_reg.del(p); p->v = -99; delete p; }
  void ok() const { if (!c) bad("an object that was moved from is read"); if (g_reg.get(c) != 1) bad("an object that does not exist is read"); if (Pad >= 4096 && pad[Pad - 1] != (char)c->v) bad("an object is damaged"); }
  void seal() { pad[0] = (char)c->v; pad[Pad - 1] = (char)c->v; }
  explicit Rel(long x = 0, int y = 0) : c(make(x, y)) { seal(); }
  Rel(const Rel& o) : c((o.ok(), make(o.c->v, o.c->w))) { seal(); }
  Rel(Rel&& o) noexcept : c((o.ok(), o.c)) { seal(); o.c = nullptr; }
  Rel& operator=(const Rel& o) { o.ok(); if (&o == this) return *this; Cell* n = make(o.c->v, o.c->w); drop(c); c = n; seal(); return *this; }
  Rel& operator=(Rel&& o) noexcept { if (&o == this) return *this; o.ok(); drop(c); c = o.c; o.c = nullptr; seal(); return *this; }
  ~Rel() { drop(c); c = (Cell*)0x5151; }
  long key() const { ok(); return c->v; } int tag() const { ok(); return c->w; }
  bool operator<(const Rel& o) const { return key() < o.key(); } bool operator==(const Rel& o) const { return key() == o.key() && tag() == o.tag(); } bool operator!=(const Rel& o) const { return !(*this == o); }
};
using Tr = Rel<8>; using Huge = Rel<9000>;
}
template <> struct parlay::is_trivially_relocatable<el::Tr> : std::true_type {};
template <> struct parlay::is_trivially_relocatable<el::Huge> : std::true_type {};
