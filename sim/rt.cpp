// Deterministic-simulation runtime for parlaylib.
//
// Harnesses are compiled with clang's ThreadSanitizer *instrumentation* but linked without the
// ThreadSanitizer runtime: this file supplies the __tsan_* callbacks, so every atomic operation (and, in the
// full build, every plain load and store) of the real library code is a point where this runtime is in control.
// Every simulated thread is a fiber of one kernel thread with its own TLS block; pthreads, futexes, clocks,
// sleeping, allocation and file I/O are interposed. All choices come from one PRNG or from a replay file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdexcept>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <immintrin.h>
#include <asm/prctl.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;
#define RT_NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC() ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------ raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long raw3(long n, long a = 0, long b = 0, long c = 0) { return raw6(n, a, b, c, 0, 0, 0); }
[[noreturn]] static void raw_exit(int c) { for (;;) raw3(SYS_exit_group, c); }

// ------------------------------------------------------------------------------------------------ constants
static constexpr int MAXT = 96;
static constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 4ull << 30;
static constexpr uintptr_t STACK_SZ = 8ull << 20, STACKS = ARENA + ARENA_SZ;
static constexpr uintptr_t REGION_SZ = ARENA_SZ + MAXT * STACK_SZ;
static constexpr uintptr_t SH_CELL = 0x200000000000ull;   // 4 cells (32 bytes) per 8-byte granule
static constexpr uintptr_t SH_PC = 0x280000000000ull;     // 4 x u32 per granule (record mode only)
static constexpr uintptr_t SH_ALLOC = 0x180000000000ull;  // 1 byte per granule of the heap arena
extern "C" char __data_start, _end;

enum Kind : u8 { K_SCHED = 1, K_BLOCK, K_DELAY, K_SPUR, K_CLOCK, K_IO, K_WAKE, K_PLAIN, K_YIELD, NKIND };
struct Dec { u64 op; i64 val; uint16_t tid; u8 kind; };

enum Fault { F_PREEMPT, F_PLAIN_PREEMPT, F_STALL, F_STOREDELAY, F_SPURIOUS_WAKE, F_CLOCK_JUMP, F_CLOCK_FREEZE, F_TIMER_JUMP,
             F_TIMEOUT, F_WAKE_REORDER, F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_ALLOC_FAIL, F_PRIO_CHANGE, F_ADDR_REUSE, NFAULT };
static const char* fault_names[NFAULT] = {"preemption", "preemption_at_plain_access", "thread_stall", "store_buffer_delay",
  "spurious_wakeup", "clock_jump", "clock_freeze", "time_jump_to_timer", "timeout_fired", "wake_reorder", "short_read",
  "short_write", "eintr", "alloc_failure", "priority_change", "address_reuse"};

struct Params { char name[24]; i64 val, lo, hi; };
struct Result {
  int status; // 0 unfinished, 1 ok, 2 violation, 3 inconclusive
  char kind[48], msg[6000], scenario[48];
  u64 hash, ihash, steps, now, switches, plain, allocs; u64 faults[NFAULT];
  int nparams; Params params[64]; u64 ndec; int dec_overflow; int threads; u32 npairs;
};
struct Shared {
  Result r;
  int nprobe; char pname[96][56]; u64 pcount[96];
  int nkf; char kfname[64][96]; u64 kfhits[64];
  u8 pairs[1 << 16]; u64 npairs;
  u64 nstates, state_set[1 << 18]; // distinct abstract states
  u64 fatal_sig;
};
static constexpr u64 MAXDEC = 4u << 20;
static Shared* S; static Dec* S_dec;

// ------------------------------------------------------------------------------------------------ PRNG
struct Rng { u64 s; void seed(u64 x) { s = x * 0x9e3779b97f4a7c15ull + 0x1234567; next(); next(); }
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; } bool chance(u64 a, u64 b) { return below(b) < a; } };

// ------------------------------------------------------------------------------------------------ state
struct SBEnt { uintptr_t a; u64 v; u64 due; u32* vc; u8 sz; };
struct Dtor { void (*f)(void*); void* o; };
enum St : u8 { UNUSED, RUNNABLE, BLOCKED, DONE };
struct Fiber {
  int tid; St st; bool detached, joined; uintptr_t sp, fs; u64 op, pop;
  void* (*fn)(void*); void* arg; void* ret;
  u32 vc[MAXT], acq[MAXT], rel[MAXT]; bool has_acq, has_rel; int vcn;
  SBEnt sb[64]; int sbh, sbn;
  uintptr_t waddr; u8 wkind; u64 deadline; bool timed, is_sleep; int wret; u64 wseq;
  Dtor dt[512]; int ndt; int prio; u64 stalled; i64 alloc_fail; bool alloc_fired; int quiet;
  const Dec* dp; const Dec* de; const Dec* pp; const Dec* pe; // replay cursors
  uintptr_t lastpc;
};
struct Cfg { int policy; u64 p_den; u64 quantum; u64 adv_steps; u64 step_ns; int pct_d; u64 pct_len; u64 spin_limit;
  u64 delay_num, delay_max; u64 plain_den; u64 stall_den, stall_len; u64 spur_den; int clock_mode; u64 wake_den; int reuse; u8 fill; bool fillrnd; bool races; u64 io_den; };
static struct G {
  bool on, replay, record, full, trace, quiet_log; Fiber* cur; int nthr; i64 countdown; u64 step, now, runlen, min_due, fair_budget, next_policy, quantum;
  bool fair; bool stop_timers, io; u64 wseq; u64 next_timer; i64 plain_cd; unsigned hw; u64 phys; u64 seed, sseed; Cfg c;
  u64 pct_points[32]; int pct_n, pct_i; int low_prio; u64 next_stall;
  u64 live_bytes, live_blocks, total_allocs; int live; u64 clock_skip; bool slab_ready; u64 hash, ihash; bool in_fail; u64 last_change;
} g;
static Fiber fibers[MAXT];
static Rng r_sched, r_data, r_param, r_cfg;
static uintptr_t tls_pool[MAXT]; static int tls_n; static bool have_fsgsbase;
static i64 ov[64]; static bool ov_set[64]; static int ov_n;
static const char *env_stderr, *env_norace; static sim::Scenario* scen_list; static sim::Scenario* cur_scen;
static void (*run_main)();

static Dec* rp_dec; static u64 rp_n; // replay decisions (in zygote memory)

static inline uintptr_t rd_fs() { uintptr_t v; if (have_fsgsbase) { asm volatile("rdfsbase %0" : "=r"(v)); return v; } raw3(SYS_arch_prctl, ARCH_GET_FS, (long)&v); return v; }
static inline void wr_fs(uintptr_t v) { if (have_fsgsbase) asm volatile("wrfsbase %0" ::"r"(v)); else raw3(SYS_arch_prctl, ARCH_SET_FS, (long)v); }

// ------------------------------------------------------------------------------------------------ verdicts
static void finish(int status, const char* kind, const char* msg) {
  Result& r = S->r; r.status = status; snprintf(r.kind, sizeof r.kind, "%s", kind); snprintf(r.msg, sizeof r.msg, "%s", msg);
  r.hash = g.hash; r.ihash = g.ihash; r.steps = g.step; r.now = g.now; r.allocs = g.total_allocs; r.threads = g.nthr;
  raw_exit(0);
}
static void describe_threads(char* b, size_t n);
static uintptr_t last_pc() { return g.cur ? g.cur->lastpc : 0; }
[[noreturn]] static void vfail(const char* tag, const char* fmt, va_list ap) {
  if (g.in_fail) raw_exit(3);
  g.in_fail = true; g.on = false;
  static char buf[6000]; int k = vsnprintf(buf, 3000, fmt, ap); if (k < 0) k = 0; if (k > 2999) k = 2999;
  describe_threads(buf + k, sizeof buf - k);
  finish(2, tag, buf); __builtin_unreachable();
}
[[noreturn]] static void rt_fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] static void rt_fail(const char* tag, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(tag, fmt, ap); }
static void describe_threads(char* b, size_t n) {
  int k = snprintf(b, n, "\n  at step %llu, simulated time %lluns, thread %d, phase %s\n", (unsigned long long)g.step, (unsigned long long)g.now,
                   g.cur ? g.cur->tid : -1, g.fair ? "fair" : "adversarial");
  for (int i = 0; i < g.nthr && k < (int)n - 120 && i < 12; i++) { Fiber& f = fibers[i];
    k += snprintf(b + k, n - k, "  T%d %s%s op=%llu pc=0x%lx wait=0x%lx pending_stores=%d\n", i,
      f.st == RUNNABLE ? "runnable" : f.st == BLOCKED ? "blocked" : "done", f.timed ? "(timed)" : "", (unsigned long long)f.op, (unsigned long)f.lastpc, (unsigned long)(f.st == BLOCKED ? f.waddr : 0), f.sbn); }
}

// ------------------------------------------------------------------------------------------------ vector clocks
static char* slab_cur; static char* slab_end;
static void* slab(size_t n) { n = (n + 15) & ~15ull; if (slab_cur + n > slab_end) { size_t m = n > (8u << 20) ? n : (8u << 20);
    long p = raw6(SYS_mmap, 0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p < 0 && p > -4096) rt_fail("sim-oom", "slab"); slab_cur = (char*)p; slab_end = slab_cur + m; }
  void* r = slab_cur; slab_cur += n; return r; }
struct Sync { uintptr_t a; u32* c; int n; };
static Sync* smap; static u64 smap_cap, smap_n;
static u32* vc_free[MAXT + 1];
static u32* vc_alloc() { u32* p = (u32*)vc_free[0]; if (p) { vc_free[0] = *(u32**)p; } else p = (u32*)slab(MAXT * 4); return p; }
static void vc_release(u32* p) { *(u32**)p = vc_free[0]; vc_free[0] = p; }
static Sync* sync_find(uintptr_t a, bool create) {
  if (!smap) { smap_cap = 1 << 12; smap = (Sync*)slab(smap_cap * sizeof(Sync)); memset((void*)smap, 0, smap_cap * sizeof(Sync)); }
  u64 h = (a * 0x9e3779b97f4a7c15ull) >> 20;
  for (u64 i = h & (smap_cap - 1);; i = (i + 1) & (smap_cap - 1)) { if (smap[i].a == a) return &smap[i]; if (!smap[i].a) break; }
  if (!create) return nullptr;
  if (smap_n * 2 >= smap_cap) { Sync* o = smap; u64 oc = smap_cap; smap_cap *= 4; smap = (Sync*)slab(smap_cap * sizeof(Sync)); memset((void*)smap, 0, smap_cap * sizeof(Sync));
    for (u64 j = 0; j < oc; j++) if (o[j].a) { u64 k = ((o[j].a * 0x9e3779b97f4a7c15ull) >> 20) & (smap_cap - 1); while (smap[k].a) k = (k + 1) & (smap_cap - 1); smap[k] = o[j]; } }
  u64 i = h & (smap_cap - 1); while (smap[i].a) i = (i + 1) & (smap_cap - 1);
  smap_n++; smap[i].a = a; smap[i].c = nullptr; smap[i].n = 0; return &smap[i];
}
static inline void vjoin(u32* d, const u32* s, int n) { for (int i = 0; i < n; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void hb_acquire(uintptr_t a) { if (!g.full) return; Sync* s = sync_find(a, false); if (s && s->c) vjoin(g.cur->vc, s->c, s->n); }
static void hb_set(uintptr_t a, const u32* v, int n) { Sync* s = sync_find(a, true); if (!s->c) s->c = vc_alloc(); memcpy(s->c, v, n * 4); s->n = n; }
static void hb_join_into(uintptr_t a, const u32* v, int n) { Sync* s = sync_find(a, true); if (!s->c) { s->c = vc_alloc(); s->n = 0; }
  if (s->n < n) { memset(s->c + s->n, 0, (n - s->n) * 4); s->n = n; } vjoin(s->c, v, n); }
static void hb_clear(uintptr_t a) { Sync* s = sync_find(a, false); if (s && s->c) s->n = 0; }
static inline void epoch_inc(Fiber* t) { t->vc[t->tid]++; }
static void hb_release(uintptr_t a) { if (!g.full) return; hb_join_into(a, g.cur->vc, g.nthr); epoch_inc(g.cur); }

// ------------------------------------------------------------------------------------------------ recording / replay
static inline void log_dec(Kind k, u64 op, i64 v) {
  if (!g.record) return; u64 n = S->r.ndec; if (n >= MAXDEC) { S->r.dec_overflow = 1; return; }
  S_dec[n] = Dec{op, v, (uint16_t)g.cur->tid, (u8)k}; S->r.ndec = n + 1;
}
static bool replay_get(Kind k, u64 op, i64* v) { // decisions are consumed in order per thread
  Fiber* t = g.cur; const Dec*& p = k == K_PLAIN ? t->pp : t->dp; const Dec* e = k == K_PLAIN ? t->pe : t->de;
  while (p < e && p->op < op) p++;
  for (const Dec* q = p; q < e && q->op == op; q++) if (q->kind == k) { *v = q->val; return true; }
  return false;
}
// generic non-scheduling decision: returns the PRNG's value (recorded) or the replayed one
template <class F> static inline i64 decide(Kind k, i64 dflt, F gen) {
  if (g.replay) { i64 v; return replay_get(k, g.cur->op, &v) ? v : dflt; }
  if (g.fair || g.cur->quiet) return dflt;
  i64 v = gen(); if (v != dflt) log_dec(k, g.cur->op, v); return v;
}

// ------------------------------------------------------------------------------------------------ store buffer (x86-TSO)
static inline void mem_store(uintptr_t a, u8 sz, u64 v) {
  switch (sz) { case 1: *(volatile u8*)a = (u8)v; break; case 2: *(volatile uint16_t*)a = (uint16_t)v; break; case 4: *(volatile u32*)a = (u32)v; break; default: *(volatile u64*)a = v; } }
static void sb_pop(Fiber* t) {
  SBEnt& e = t->sb[t->sbh]; t->sbh = (t->sbh + 1) & 63; t->sbn--; mem_store(e.a, e.sz, e.v);
  if (g.full) { if (e.vc) { hb_set(e.a, e.vc, g.nthr); vc_release(e.vc); } else hb_clear(e.a); }
}
static void recompute_due() { u64 m = ~0ull; for (int i = 0; i < g.nthr; i++) if (fibers[i].sbn) { u64 d = fibers[i].sb[fibers[i].sbh].due; if (d < m) m = d; } g.min_due = m; }
static void drain(Fiber* t) { if (!t->sbn) return; while (t->sbn) sb_pop(t); recompute_due(); }
static void drain_due() { for (int i = 0; i < g.nthr; i++) { Fiber* t = &fibers[i]; while (t->sbn && t->sb[t->sbh].due <= g.step) sb_pop(t); } recompute_due(); }
static bool sb_overlap(Fiber* t, uintptr_t a, size_t n) { for (int i = 0; i < t->sbn; i++) { SBEnt& e = t->sb[(t->sbh + i) & 63]; if (e.a < a + n && a < e.a + e.sz) return true; } return false; }

// ------------------------------------------------------------------------------------------------ fibers and scheduling
extern "C" void sim_switch(uintptr_t* save, uintptr_t to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static inline bool is_run(int i) { return fibers[i].st == RUNNABLE; }
static int rr_next(int from) { for (int k = 1; k <= g.nthr; k++) { int i = (from + k) % g.nthr; if (is_run(i)) return i; } return -1; }
static void set_countdown() {
  if (g.replay) { g.countdown = 1; return; }
  u64 m = g.quantum > g.runlen ? g.quantum - g.runlen : 1;
  if (!g.fair) { u64 d = g.next_policy > g.step ? g.next_policy - g.step : 1; if (d < m) m = d; d = g.c.adv_steps > g.step ? g.c.adv_steps - g.step : 1; if (d < m) m = d; }
  if (g.min_due != ~0ull) { u64 d = g.min_due > g.step ? g.min_due - g.step : 1; if (d < m) m = d; }
  if (g.next_timer != ~0ull) { u64 d = g.next_timer > g.now ? (g.next_timer - g.now + g.c.step_ns - 1) / g.c.step_ns : 1; if (d < m) m = d ? d : 1; }
  g.countdown = (i64)m;
}
static void recompute_timer() { u64 m = ~0ull; for (int i = 0; i < g.nthr; i++) { Fiber& f = fibers[i]; if (f.st == BLOCKED && f.timed && !(g.stop_timers && !f.is_sleep) && f.deadline < m) m = f.deadline; } g.next_timer = m; }
static void make_runnable(Fiber* f, int wret) { f->st = RUNNABLE; f->wret = wret; f->timed = false; if (!g.replay && !g.fair && g.c.policy == 1) g.next_policy = g.step; g.countdown = 1; }
static void fire_timers() {
  for (int i = 0; i < g.nthr; i++) { Fiber& f = fibers[i]; if (f.st == BLOCKED && f.timed && f.deadline <= g.now && !(g.stop_timers && !f.is_sleep)) { if (!f.is_sleep) S->r.faults[F_TIMEOUT]++; make_runnable(&f, ETIMEDOUT); } }
  recompute_timer();
}
static void switch_to(int to, uintptr_t pc) {
  Fiber* a = g.cur; Fiber* b = &fibers[to]; g.runlen = 0;
  if (a == b) { set_countdown(); return; }
  S->r.switches++; g.ihash = (g.ihash ^ ((u64)to << 56 | (pc & 0xffffffffffull))) * 0x100000001b3ull; g.ihash ^= g.ihash >> 29;
  u32 pr = (u32)(((pc * 0x9e3779b1u) ^ (b->lastpc * 0x85ebca6bu)) >> 7) & 0xffff; if (!S->pairs[pr]) { S->pairs[pr] = 1; S->npairs++; }
  if (g.trace) { char buf[200]; int n = snprintf(buf, sizeof buf, "step %llu t=%lluns: T%d(op %llu pc 0x%lx) -> T%d(op %llu pc 0x%lx)\n", (unsigned long long)g.step, (unsigned long long)g.now, a->tid, (unsigned long long)a->op, (unsigned long)pc, to, (unsigned long long)b->op, (unsigned long)b->lastpc); raw3(SYS_write, 1, (long)buf, n); }
  g.cur = b; set_countdown();
  wr_fs(b->fs); sim_switch(&a->sp, b->sp);
  // resumed
}
static u64 geom(u64 den) { if (den <= 1) return 1; u64 k = 1 + r_sched.below(2 * den - 1); return k; }
static int pick_policy(int dflt) { // PRNG policy: choose among runnable threads
  int c[MAXT], n = 0;
  for (int i = 0; i < g.nthr; i++) if (is_run(i) && fibers[i].stalled <= g.step) c[n++] = i;
  if (!n) { for (int i = 0; i < g.nthr; i++) if (is_run(i)) c[n++] = i; if (!n) return dflt; }
  if (g.c.policy == 1) { int b = c[0]; for (int i = 1; i < n; i++) if (fibers[c[i]].prio > fibers[b].prio) b = c[i]; return b; }
  return c[r_sched.below(n)];
}
static void policy_tick() { // advance policy state: priority change points and stalls
  if (g.c.policy == 1) {
    while (g.pct_i < g.pct_n && g.pct_points[g.pct_i] <= g.step) { g.pct_i++; g.cur->prio = g.low_prio--; S->r.faults[F_PRIO_CHANGE]++; }
    if (g.runlen >= g.c.spin_limit) g.cur->prio = g.low_prio--;
    u64 nx = g.pct_i < g.pct_n ? g.pct_points[g.pct_i] : ~0ull; u64 sp = g.step + g.c.spin_limit; g.next_policy = nx < sp ? nx : sp;
  } else g.next_policy = g.step + geom(g.c.p_den);
  if (g.c.stall_den && g.step >= g.next_stall) { g.next_stall = g.step + geom(g.c.stall_den); int v = (int)r_sched.below(g.nthr); if (is_run(v)) { fibers[v].stalled = g.step + geom(g.c.stall_len); S->r.faults[F_STALL]++; } }
}
static void enter_fair() { g.fair = true; g.quantum = 64; g.c.step_ns = 40; for (int i = 0; i < g.nthr; i++) { fibers[i].stalled = 0; drain(&fibers[i]); } }
static void check_phase() {
  if (!g.fair && g.step >= g.c.adv_steps) enter_fair();
  if (g.fair && g.step > g.c.adv_steps + g.fair_budget)
    rt_fail("no-progress", "run did not finish within %llu steps of a fair, fault-free schedule", (unsigned long long)g.fair_budget);
  if (g.next_timer <= g.now) fire_timers();
  if (g.min_due <= g.step) drain_due();
}
static RT_NOINLINE void sched_slow(uintptr_t pc) {
  check_phase(); Fiber* t = g.cur; t->lastpc = pc;
  bool expire = g.runlen >= g.quantum; int dflt = expire ? rr_next(t->tid) : t->tid; int to = dflt;
  if (g.replay) { i64 v; if (replay_get(K_SCHED, t->op, &v) && v >= 0 && v < g.nthr && is_run((int)v)) to = (int)v; }
  else if (!g.fair && (expire || g.step >= g.next_policy)) {
    policy_tick(); to = pick_policy(dflt); if (to != dflt) { log_dec(K_SCHED, t->op, to); if (to != t->tid) S->r.faults[F_PREEMPT]++; } }
  if (to == t->tid) { if (expire) g.runlen = 0; set_countdown(); return; }
  switch_to(to, pc);
}
static inline void sched_point(uintptr_t pc) {
  if (UNLIKELY(!g.on) || g.cur->quiet) return;
  Fiber* t = g.cur; t->op++; g.step++; g.now += g.c.step_ns; g.runlen++; 
  if (LIKELY(--g.countdown > 0)) return;
  sched_slow(pc);
}
// current thread gives up the processor; it may or may not be runnable
static void reschedule(Kind k, uintptr_t pc) {
  Fiber* t = g.cur; t->lastpc = pc; check_phase();
  for (;;) {
    int dflt = rr_next(t->tid);
    if (dflt < 0) { // nobody runnable: jump simulated time to the next timer
      for (int i = 0; i < g.nthr; i++) drain(&fibers[i]);
      recompute_timer();
      if (g.next_timer == ~0ull) rt_fail("deadlock", "no thread can run and no timer is pending%s", g.stop_timers ? " (timeouts disabled: a wake-up was lost)" : "");
      if (g.next_timer > g.now) { g.now = g.next_timer; S->r.faults[F_TIMER_JUMP]++; }
      fire_timers(); continue; }
    int to = dflt;
    if (g.replay) { i64 v; if (replay_get(k, t->op, &v) && v >= 0 && v < g.nthr && is_run((int)v)) to = (int)v; }
    else if (!g.fair) { if (k == K_YIELD && g.c.policy == 1) t->prio = g.low_prio--; policy_tick(); to = pick_policy(dflt); if (to != dflt) log_dec(k, t->op, to); }
    switch_to(to, pc); return;
  }
}
static inline void bump() { Fiber* t = g.cur; t->op++; g.step++; g.now += g.c.step_ns; }
// block on an address; returns 0 when woken, ETIMEDOUT, or EINTR for an injected spurious wake-up
static int block_on(u8 kind, uintptr_t addr, bool timed, u64 deadline, bool sleep, bool may_spur, uintptr_t pc) {
  Fiber* t = g.cur; drain(t);
  if (t->quiet) rt_fail("harness", "blocking call inside a quiet region");
  if (may_spur && decide(K_SPUR, 0, [] { return (i64)(g.c.spur_den && r_sched.chance(1, g.c.spur_den)); })) { S->r.faults[F_SPURIOUS_WAKE]++; bump(); reschedule(K_YIELD, pc); return EINTR; }
  t->st = BLOCKED; t->waddr = addr; t->wkind = kind; t->timed = timed; t->deadline = deadline; t->is_sleep = sleep; t->wseq = ++g.wseq; t->wret = 0;
  if (timed) recompute_timer();
  bump(); reschedule(K_BLOCK, pc);
  return t->wret;
}
static int wake_on(u8 kind, uintptr_t addr, int n) {
  int woken = 0;
  while (woken < n) {
    int c[MAXT], m = 0;
    for (int i = 0; i < g.nthr; i++) { Fiber& f = fibers[i]; if (f.st == BLOCKED && f.wkind == kind && f.waddr == addr) c[m++] = i; }
    if (!m) break;
    int b = 0; for (int i = 1; i < m; i++) if (fibers[c[i]].wseq < fibers[c[b]].wseq) b = i;
    if (n < m && woken == 0 && g.c.wake_den) { int d = b; b = (int)decide(K_WAKE, d, [&] { return (i64)(r_sched.chance(1, g.c.wake_den) ? r_sched.below(m) : d); }); if (b >= m || b < 0) b = d; if (b != d) S->r.faults[F_WAKE_REORDER]++; }
    make_runnable(&fibers[c[b]], 0); woken++;
  }
  if (woken) recompute_timer();
  return woken;
}
enum { W_FUTEX = 1, W_MUTEX, W_COND, W_JOIN, W_GUARD, W_SLEEP, W_ONCE, W_RW, W_SEM };

static void run_dtors(Fiber* t) { while (t->ndt) { Dtor d = t->dt[--t->ndt]; d.f(d.o); } }
static void fiber_done(Fiber* t);
static void fiber_entry() {
  Fiber* t = g.cur;
  t->ret = t->fn(t->arg);
  fiber_done(t);
}
extern "C" { __attribute__((weak)) uint64_t sim_static_phys = 8ull << 30; }
static Dtor static_dt[1024]; static int n_static_dt; static void (*end_cb[16])(); static int n_end_cb;
// main has returned and its thread_local objects are gone: run the destructors of function-local statics built in this run (as exit() would)
static void run_static_dtors(Fiber* t) {
  for (int i = 1; i < g.nthr; i++) if (fibers[i].st != DONE && fibers[i].st != UNUSED) return; // detached threads still running: process exit would kill them
  while (n_static_dt) { Dtor d = static_dt[--n_static_dt]; d.f(d.o); }
  run_dtors(t); t->quiet++; for (int i = 0; i < n_end_cb; i++) end_cb[i](); t->quiet--;
}
static void fiber_done(Fiber* t) {
  run_dtors(t); if (t->tid == 0) run_static_dtors(t); sched_point(PC());
  drain(t); if (g.full) { hb_join_into((uintptr_t)&t->ret, t->vc, g.nthr); epoch_inc(t); }
  g.live--; t->st = DONE; wake_on(W_JOIN, (uintptr_t)t, MAXT);
  if (t->tid == 0) { if (g.live > 0) { Fiber* x = nullptr; for (int i = 1; i < g.nthr; i++) if (fibers[i].st != DONE && fibers[i].st != UNUSED && !fibers[i].detached) x = &fibers[i];
      if (x) rt_fail("thread-leak", "main thread finished (and ran its thread-exit destructors) while T%d was never joined", x->tid); } }
  if (g.live == 0) { finish(1, "ok", ""); }
  bump(); reschedule(K_BLOCK, PC()); __builtin_unreachable();
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
  if (g.nthr >= MAXT || g.nthr >= tls_n) finish(3, "sim-threads", "too many simulated threads in one run");
  Fiber* f = &fibers[g.nthr]; f->tid = g.nthr; g.nthr++; g.live++;
  f->st = RUNNABLE; f->fs = tls_pool[f->tid]; f->fn = fn; f->arg = arg; f->alloc_fail = -1;
  uintptr_t top = STACKS + (f->tid + 1) * STACK_SZ - 64; top &= ~63ull;
  uintptr_t* sp = (uintptr_t*)top; *--sp = 0; *--sp = 0; *--sp = 0; // alignment + null return address
  *--sp = (uintptr_t)fiber_entry; for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = (uintptr_t)sp;
  if (g.cur && g.full) { memcpy(f->vc, g.cur->vc, sizeof f->vc); }
  f->vc[f->tid] = 1;
  if (!g.replay) { f->prio = 1000 + (int)r_sched.below(1000000); }
  if (g.replay) { // decisions are sorted by (tid, plain?, op)
    const Dec* p = rp_dec; const Dec* e = rp_dec + rp_n; while (p < e && (p->tid < f->tid)) p++; f->dp = p; while (p < e && p->tid == f->tid && p->kind != K_PLAIN) p++; f->de = p; f->pp = p; while (p < e && p->tid == f->tid) p++; f->pe = p; }
  return f;
}

// ------------------------------------------------------------------------------------------------ shadow memory
static uintptr_t gl_lo, gl_hi, gl_cells, gl_pcs;
static inline u64* cells_of(uintptr_t a, u32** pcs) {
  if (a - ARENA < REGION_SZ) { uintptr_t o = (a - ARENA) & ~7ull; *pcs = (u32*)(SH_PC + o * 2); return (u64*)(SH_CELL + o * 4); }
  if (a - gl_lo < gl_hi - gl_lo) { uintptr_t o = (a & ~7ull) - (gl_lo & ~7ull); *pcs = (u32*)(gl_pcs + o * 2); return (u64*)(gl_cells + o * 4); }
  return nullptr;
}
static void describe_addr(uintptr_t a, char* b, size_t n);
static RT_NOINLINE void report_race(uintptr_t a, bool w, bool at, uintptr_t pc, u64 c, u32 opc) {
  char d[300]; describe_addr(a, d, sizeof d);
  rt_fail("race", "data race on %s: %s%s by T%d at pc 0x%lx is not ordered after %s%s by T%d at pc 0x%x", d, at ? "atomic " : "", w ? "write" : "read", g.cur->tid, (unsigned long)pc,
          (c & 2) ? "atomic " : "", (c & 1) ? "write" : "read", (int)((c >> 24) & 0xff), opc);
}
static inline void race_check(uintptr_t a, u32 mask, bool w, bool at, uintptr_t pc) {
  Fiber* t = g.cur; if (UNLIKELY(t->quiet)) return; // oracle code: never preempted, its own data is not the subject
  u32* pcs; u64* cell = cells_of(a, &pcs); if (!cell) return;
  u64 me = ((u64)t->vc[t->tid] << 32) | ((u64)t->tid << 24) | ((u64)mask << 16) | (at ? 2 : 0) | (w ? 1 : 0);
  int slot = -1, empty = -1;
  for (int i = 0; i < 4; i++) { u64 c = cell[i]; if (c == me) return; if (!c) { if (empty < 0) empty = i; continue; }
    u32 om = (c >> 16) & 0xff, ot = (c >> 24) & 0xff;
    if (ot == (u32)t->tid) { if (om == mask && ((me & 1) >= (c & 1)) && ((me & 2) <= (c & 2))) slot = i; continue; }
    if (!(om & mask)) continue;
    if (!((c | me) & 1)) continue;           // two reads
    if ((c & 2) && (me & 2)) continue;       // two atomics
    if ((u32)(c >> 32) <= t->vc[ot]) { if (om == mask && ((me & 1) >= (c & 1)) && w && !at) slot = i; continue; }
    report_race(a, w, at, pc, c, g.record ? pcs[i] : 0); }
  if (slot < 0) slot = empty >= 0 ? empty : (int)((a >> 3) + t->vc[t->tid]) & 3;
  cell[slot] = me; if (g.record) pcs[slot] = (u32)pc;
}
static inline void race_range(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
  if (!n) return;
  uintptr_t e = a + n;
  while (a < e) { uintptr_t b = (a & ~7ull) + 8; if (b > e) b = e; u32 lo = a & 7, cnt = (u32)(b - a); race_check(a, ((1u << cnt) - 1) << lo, w, at, pc); a = b; }
}

// ------------------------------------------------------------------------------------------------ heap
// Chunk layout: [base][pad][16-byte header][user bytes][red zone]; addresses depend only on the call sequence.
struct Chunk { uintptr_t base, user; u64 cap, size; u32 next; u8 st; int tid; }; // st: 1 live, 2 free
static Chunk* chunks; static u32 nchunks; static constexpr u32 MAXCH = 16u << 20;
static uintptr_t brk_; static bool heap_ready; static u32 flist[256]; static u32 fq_head[256], fq_tail[256], fq_len[256];
struct Hdr { u32 id, magic; u64 size; };
static constexpr u32 MAGIC = 0x51AB1E5Du;
static void* map_at(uintptr_t a, size_t n, int extra = 0) { long p = raw6(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0) | extra, -1, 0);
  if (p < 0 && p > -4096) { const char m[] = "sim: mmap failed\n"; raw3(SYS_write, 2, (long)m, sizeof m - 1); raw_exit(97); } return (void*)p; }
static void heap_init() {
  if (heap_ready) return; heap_ready = true;
  map_at(ARENA, REGION_SZ); map_at(SH_CELL, REGION_SZ * 4); map_at(SH_PC, REGION_SZ * 2); map_at(SH_ALLOC, ARENA_SZ / 8);
  chunks = (Chunk*)map_at(0, (size_t)MAXCH * sizeof(Chunk)); nchunks = 1; brk_ = ARENA + 4096;
}
static int cap_class(u64& cap) { // rounds cap up to its class
  if (cap <= 2048) { cap = (cap + 31) & ~31ull; return (int)(cap / 32); }
  int lg = 63 - __builtin_clzll(cap); u64 q = 1ull << (lg - 2); cap = (cap + q - 1) & ~(q - 1); lg = 63 - __builtin_clzll(cap); q = 1ull << (lg - 2);
  return 64 + (lg - 10) * 4 + (int)((cap >> (lg - 2)) & 3); }
static void shadow_alloc(uintptr_t u, u64 n, u8 tail) { // mark [u,u+n) addressable
  u8* s = (u8*)(SH_ALLOC + (u - ARENA) / 8); memset(s, 8, n / 8); if (n & 7) s[n / 8] = n & 7; else s[n / 8] = tail; s[n / 8 + 1] = 0xFA; }
static void shadow_poison(uintptr_t u, u64 n, u8 v) { memset((u8*)(SH_ALLOC + (u - ARENA) / 8), v, (n + 7) / 8); }
static void clear_cells(uintptr_t u, u64 n) {
  if (!g.full) return; uintptr_t a = u & ~7ull, e = (u + n + 7) & ~7ull; u64* c = (u64*)(SH_CELL + (a - ARENA) * 4); u64 bytes = (e - a) * 4;
  if (bytes > (1u << 18)) { uintptr_t p0 = ((uintptr_t)c + 4095) & ~4095ull, p1 = ((uintptr_t)c + bytes) & ~4095ull; memset(c, 0, p0 - (uintptr_t)c); raw3(SYS_madvise, p0, p1 - p0, MADV_DONTNEED); memset((void*)p1, 0, (uintptr_t)c + bytes - p1); }
  else memset(c, 0, bytes); }
static void mark_write(uintptr_t u, u64 n) { // allocation and deallocation count as writes by the current thread
  if (!g.full || !g.on || !g.c.races || n > 65536) return; race_range(u, n, true, false, 1); }
static void fill(uintptr_t u, u64 n, u8 v) { memset((void*)u, v, n); }
static bool in_main; // the zygote's own allocations stay out of the simulated heap, so every run starts from the same heap state
static void* host_alloc(u64 size, u64 align) { static char* c; static char* e; size = (size + 31) & ~15ull; if (align < 16) align = 16;
  if (!c || c + size + align > e) { u64 m = size + align > (16u << 20) ? size + align : (16u << 20); c = (char*)map_at(0, m); e = c + m; }
  uintptr_t u = ((uintptr_t)c + 16 + align - 1) & ~(align - 1); *(u64*)(u - 8) = size; c = (char*)(u + size); return (void*)u; }
static void* heap_alloc(u64 size, u64 align) {
  if (in_main && !g.on) return host_alloc(size, align);
  heap_init(); if (align < 16) align = 16;
  if (size > ARENA_SZ / 2) return nullptr;
  u64 cap = size + align + 64; int cls = cap_class(cap); u32 id = 0;
  u64 qd = g.c.reuse == 0 ? 0 : g.c.reuse == 1 ? 48 : ~0ull;
  if (flist[cls] && fq_len[cls] > qd) { // FIFO when quarantining, LIFO otherwise
    if (g.c.reuse == 0) { id = fq_tail[cls]; /* LIFO: need stack */ }
    id = flist[cls]; flist[cls] = chunks[id].next; fq_len[cls]--; if (!flist[cls]) fq_tail[cls] = 0; if (g.on) S->r.faults[F_ADDR_REUSE]++; }
  if (!id) { if (nchunks >= MAXCH || brk_ + cap > ARENA + ARENA_SZ) { if (g.on) finish(3, "sim-oom", "simulated heap exhausted"); return nullptr; }
    id = nchunks++; chunks[id].base = brk_; chunks[id].cap = cap; brk_ += cap; }
  Chunk& c = chunks[id]; uintptr_t u = (c.base + 32 + align - 1) & ~(align - 1); c.user = u; c.size = size; c.st = 1; c.tid = g.cur ? g.cur->tid : 0;
  Hdr* h = (Hdr*)(u - 16); h->id = id; h->magic = MAGIC; h->size = size;
  clear_cells(u, size); shadow_alloc(u, size, 0xFA);
  if (g.on) { u64 n = size > (1u << 20) ? (1u << 20) : size; if (g.c.fillrnd) { u64 x = (u64)id * 0x9e3779b97f4a7c15ull ^ g.seed; for (u64 i = 0; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *(u64*)(u + i) = x; } } else fill(u, n, g.c.fill); }
  fill(u + size, 16, 0xFA); mark_write(u, size);
  g.live_bytes += size; g.live_blocks++; g.total_allocs++;
  return (void*)u;
}
static void heap_free(void* p, uintptr_t pc) {
  if (!p) return; uintptr_t u = (uintptr_t)p; if (u - ARENA >= ARENA_SZ) { if (g.on && !(u >> 40 == 0x7f || u >> 40 == 0x7e || u >> 40 == 0x7d)) rt_fail("bad-free", "free of a pointer that is not a heap block (0x%lx) at pc 0x%lx", (unsigned long)u, (unsigned long)pc); return; }
  u8 sh = (u & 15) ? 0 : 1; Hdr* h = (Hdr*)(u - 16);
  if (!sh || h->id == 0 || h->id >= nchunks || chunks[h->id].user != u || h->magic != MAGIC) {
    char d[300]; describe_addr(u, d, sizeof d); if (g.on) rt_fail("bad-free", "free of an invalid or overwritten block (%s) at pc 0x%lx", d, (unsigned long)pc); return; }
  Chunk& c = chunks[h->id]; if (c.st != 1) { if (g.on) rt_fail("double-free", "block 0x%lx (%llu bytes) freed twice, pc 0x%lx", (unsigned long)u, (unsigned long long)c.size, (unsigned long)pc); return; }
  if (h->size != c.size) rt_fail("heap-overflow", "header of block 0x%lx overwritten", (unsigned long)u);
  for (int i = 0; i < 16; i++) if (((u8*)u)[c.size + i] != 0xFA) rt_fail("heap-overflow", "bytes after a %llu-byte block were overwritten (offset +%d), found at free, pc 0x%lx", (unsigned long long)c.size, i, (unsigned long)pc);
  mark_write(u, c.size);
  if (g.on) { fill(u, c.size > 65536 ? 65536 : c.size, 0xDD); }
  shadow_poison(u, c.size ? c.size : 1, 0xFD); c.st = 2; g.live_bytes -= c.size; g.live_blocks--;
  u64 cap = c.cap; int cls = cap_class(cap); u32 id = h->id;
  if (g.c.reuse == 0) { c.next = flist[cls]; if (!flist[cls]) fq_tail[cls] = id; flist[cls] = id; }
  else { c.next = 0; if (flist[cls]) chunks[fq_tail[cls]].next = id; else flist[cls] = id; fq_tail[cls] = id; }
  fq_len[cls]++;
}
static Chunk* chunk_of(uintptr_t a) { if (a - ARENA >= ARENA_SZ) return nullptr; u32 lo = 1, hi = nchunks; while (lo + 1 < hi) { u32 m = (lo + hi) / 2; if (chunks[m].base <= a) lo = m; else hi = m; } if (lo >= nchunks || chunks[lo].base > a || a >= chunks[lo].base + chunks[lo].cap) return nullptr; return &chunks[lo]; }
static void describe_addr(uintptr_t a, char* b, size_t n) {
  Chunk* c = chunk_of(a);
  if (c) snprintf(b, n, "address 0x%lx (offset %ld in a %s %llu-byte heap block)", (unsigned long)a, (long)(a - c->user), c->st == 1 ? "live" : "freed", (unsigned long long)c->size);
  else if (a >= STACKS && a < STACKS + MAXT * STACK_SZ) snprintf(b, n, "address 0x%lx (stack of T%d)", (unsigned long)a, (int)((a - STACKS) / STACK_SZ));
  else if (a >= gl_lo && a < gl_hi) { snprintf(b, n, "global 0x%lx", (unsigned long)a); }
  else snprintf(b, n, "address 0x%lx", (unsigned long)a);
}
static RT_NOINLINE void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  char d[300]; describe_addr(a, d, sizeof d); Chunk* c = chunk_of(a);
  rt_fail(c && c->st == 2 ? "use-after-free" : "heap-overflow", "%zu-byte %s outside any live block: %s, pc 0x%lx", n, w ? "write" : "read", d, (unsigned long)pc); }
static inline bool byte_ok(uintptr_t a) { u8 s = *(u8*)(SH_ALLOC + (a - ARENA) / 8); return s == 8 || (s < 8 && (a & 7) < s); }
static inline void addr_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (a - ARENA >= ARENA_SZ || !n) return;
  u8 s = *(u8*)(SH_ALLOC + (a - ARENA) / 8);
  if (LIKELY(s == 8 && (a & 7) + n <= 8)) return;
  if (!byte_ok(a)) bad_access(a, n, w, pc);
  if (!byte_ok(a + n - 1)) bad_access(a + n - 1, n, w, pc);
  if (n > 16) for (uintptr_t x = (a & ~7ull) + 8; x + 8 <= a + n; x += 8) if (*(u8*)(SH_ALLOC + (x - ARENA) / 8) != 8) bad_access(x, n, w, pc);
}

// ------------------------------------------------------------------------------------------------ plain accesses
static RT_NOINLINE void plain_preempt(uintptr_t pc) {
  Fiber* t = g.cur;
  if (g.replay) { i64 v; if (t->pp < t->pe && replay_get(K_PLAIN, t->pop, &v) && v >= 0 && v < g.nthr && is_run((int)v)) { t->lastpc = pc; switch_to((int)v, pc); } return; }
  g.plain_cd = (i64)geom(g.c.plain_den); if (g.fair) { g.plain_cd = 1ll << 40; return; }
  int to = pick_policy(t->tid); if (to == t->tid) return;
  log_dec(K_PLAIN, t->pop, to); S->r.faults[F_PLAIN_PREEMPT]++; t->lastpc = pc; switch_to(to, pc);
}
static inline void plain_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (UNLIKELY(!g.on)) return; Fiber* t = g.cur;
  addr_check(a, n, w, pc);
  if (UNLIKELY(t->sbn) && sb_overlap(t, a, n)) drain(t);
  if (g.c.plain_den && !t->quiet) { t->pop++; if (g.replay ? t->pp < t->pe : --g.plain_cd <= 0) plain_preempt(pc); }
  if (g.c.races) { u32 lo = a & 7; if (LIKELY(lo + n <= 8)) race_check(a, ((1u << n) - 1) << lo, w, false, pc); else race_range(a, n, w, false, pc); }
}
extern "C" {
void __tsan_init() {}
#define RW(n) \
  void __tsan_read##n(void* a) { plain_access((uintptr_t)a, n, false, PC()); } void __tsan_write##n(void* a) { plain_access((uintptr_t)a, n, true, PC()); } \
  void __tsan_unaligned_read##n(void* a) { plain_access((uintptr_t)a, n, false, PC()); } void __tsan_unaligned_write##n(void* a) { plain_access((uintptr_t)a, n, true, PC()); } \
  void __tsan_volatile_read##n(void* a) { plain_access((uintptr_t)a, n, false, PC()); } void __tsan_volatile_write##n(void* a) { plain_access((uintptr_t)a, n, true, PC()); } \
  void __tsan_read_write##n(void* a) { plain_access((uintptr_t)a, n, true, PC()); } void __tsan_unaligned_read_write##n(void* a) { plain_access((uintptr_t)a, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain_access((uintptr_t)p, 8, true, PC()); else plain_access((uintptr_t)p, 8, false, PC()); }
void __tsan_vptr_read(void** p) { plain_access((uintptr_t)p, 8, false, PC()); }
void __tsan_read_range(void* a, size_t n) { plain_access((uintptr_t)a, n, false, PC()); }
void __tsan_write_range(void* a, size_t n) { plain_access((uintptr_t)a, n, true, PC()); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
static void range_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!g.on || !n) return; addr_check(a, n, w, pc); Fiber* t = g.cur; if (t->sbn && sb_overlap(t, a, n)) drain(t); if (g.full && g.c.races) race_range(a, n, w, false, pc); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range_access((uintptr_t)s, n, false, PC()); range_access((uintptr_t)d, n, true, PC()); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range_access((uintptr_t)s, n, false, PC()); range_access((uintptr_t)d, n, true, PC()); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range_access((uintptr_t)d, n, true, PC()); return memset(d, c, n); }
}

// ------------------------------------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void hmix(u64 v) { g.hash = (g.hash ^ v) * 0x100000001b3ull; g.hash ^= g.hash >> 31; }
static inline void at_shadow(uintptr_t a, unsigned n, bool w, uintptr_t pc) {
  addr_check(a, n, w, pc); if (g.full && g.c.races) { if (n == 16) race_range(a, 16, w, true, pc); else race_check(a, ((1u << n) - 1) << (a & 7), w, true, pc); } }
static void at_acquire(uintptr_t a, int mo) {
  if (!g.full) return; Sync* s = sync_find(a, false); if (!s || !s->c || !s->n) return; Fiber* t = g.cur;
  if (is_acq(mo)) vjoin(t->vc, s->c, s->n); else { vjoin(t->acq, s->c, s->n); t->has_acq = true; } }
static void at_release_store(uintptr_t a, int mo) { if (!g.full) return; Fiber* t = g.cur; if (is_rel(mo)) { hb_set(a, t->vc, g.nthr); epoch_inc(t); } else if (t->has_rel) hb_set(a, t->rel, g.nthr); else hb_clear(a); }
static void at_release_rmw(uintptr_t a, int mo) { if (!g.full) return; Fiber* t = g.cur; if (is_rel(mo)) { hb_join_into(a, t->vc, g.nthr); epoch_inc(t); } else if (t->has_rel) hb_join_into(a, t->rel, g.nthr); }
template <class T> static inline T a_load(const volatile T* p, int mo, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p; if (UNLIKELY(!g.on)) return *p;
  sched_point(pc); Fiber* t = g.cur; at_shadow(a, sizeof(T), false, pc);
  if (t->sbn) for (int i = t->sbn - 1; i >= 0; i--) { SBEnt& e = t->sb[(t->sbh + i) & 63]; if (e.a < a + sizeof(T) && a < e.a + e.sz) { if (e.a == a && e.sz == sizeof(T)) { T v = (T)e.v; hmix((u64)v + pc); return v; } drain(t); break; } }
  T v = *p; at_acquire(a, mo); hmix((u64)v + pc * 3 + ((u64)t->tid << 56)); return v;
}
template <class T> static inline void a_store(volatile T* p, T v, int mo, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p; if (UNLIKELY(!g.on)) { *p = v; return; }
  sched_point(pc); Fiber* t = g.cur; at_shadow(a, sizeof(T), true, pc); hmix((u64)v + pc * 5 + ((u64)t->tid << 56));
  if (sizeof(T) <= 8 && mo != __ATOMIC_SEQ_CST && g.full && (g.c.delay_num || t->sbn) && !t->quiet) {
    bool own_stack = a - STACKS - (uintptr_t)t->tid * STACK_SZ < STACK_SZ;
    u64 delay = own_stack ? 0 : (u64)decide(K_DELAY, 0, [] { return (i64)(r_sched.chance(g.c.delay_num, 16) ? 1 + r_sched.below(g.c.delay_max) : 0); });
    if (!own_stack && (delay || t->sbn)) {
      if (t->sbn == 64) drain(t);
      u64 due = g.step + delay; if (t->sbn) { u64 ld = t->sb[(t->sbh + t->sbn - 1) & 63].due; if (due < ld) due = ld; }
      u32* vc = nullptr; if (is_rel(mo)) { vc = vc_alloc(); memcpy(vc, t->vc, MAXT * 4); epoch_inc(t); } else if (t->has_rel) { vc = vc_alloc(); memcpy(vc, t->rel, MAXT * 4); }
      t->sb[(t->sbh + t->sbn) & 63] = SBEnt{a, (u64)v, due, vc, (u8)sizeof(T)}; t->sbn++; S->r.faults[F_STOREDELAY]++;
      if (due < g.min_due) { g.min_due = due; set_countdown(); }
      return; }
  }
  drain(t); *p = v; at_release_store(a, mo);
}
template <class T, class F> static inline T a_rmw(volatile T* p, int mo, uintptr_t pc, F f) {
  uintptr_t a = (uintptr_t)p; if (UNLIKELY(!g.on)) { T o = *p; *p = f(o); return o; }
  sched_point(pc); Fiber* t = g.cur; drain(t); at_shadow(a, sizeof(T), true, pc);
  T o = *p; at_acquire(a, mo); *p = f(o); at_release_rmw(a, mo); hmix((u64)o + pc * 7 + ((u64)t->tid << 56)); return o;
}
template <class T> static inline T a_cas(volatile T* p, T c, T v, int mo, int fmo, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p; if (UNLIKELY(!g.on)) { T o = *p; if (o == c) *p = v; return o; }
  sched_point(pc); Fiber* t = g.cur; drain(t); at_shadow(a, sizeof(T), true, pc);
  T o = *p; hmix((u64)o + pc * 11 + ((u64)t->tid << 56));
  if (o == c) { at_acquire(a, mo); *p = v; at_release_rmw(a, mo); } else at_acquire(a, fmo);
  return o;
}
extern "C" {
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC()); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC()); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [v](T o) { return (T)~(o & v); }); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f, PC()); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { T o = a_cas<T>(a, *c, v, mo, f, PC()); if (o == *c) return 1; *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { T o = a_cas<T>(a, *c, v, mo, f, PC()); if (o == *c) return 1; *c = o; return 0; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64) AT(128, u128)
void __tsan_atomic_thread_fence(int mo) {
  if (!g.on) return; sched_point(PC()); Fiber* t = g.cur; if (mo == __ATOMIC_SEQ_CST) drain(t);
  if (g.full) { if (is_acq(mo) && t->has_acq) vjoin(t->vc, t->acq, g.nthr); if (is_rel(mo)) { memcpy(t->rel, t->vc, sizeof t->rel); t->has_rel = true; epoch_inc(t); } } }
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------ interposed: memory
static void* new_impl(size_t n, size_t al, bool nothrow) {
  if (g.on) { sched_point(PC()); Fiber* t = g.cur; drain(t);
    if (t->alloc_fail >= 0 && t->alloc_fail-- == 0) { t->alloc_fail = -1; t->alloc_fired = true; S->r.faults[F_ALLOC_FAIL]++; if (nothrow) return nullptr; throw std::bad_alloc(); } }
  void* p = heap_alloc(n ? n : 1, al); if (!p && !nothrow) throw std::bad_alloc(); return p;
}
static void del_impl(void* p, uintptr_t pc) { if (!p) return; if (g.on) { sched_point(pc); drain(g.cur); } heap_free(p, pc); }
void* operator new(size_t n) { return new_impl(n, 16, false); }
void* operator new[](size_t n) { return new_impl(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, true); }
void operator delete(void* p) noexcept { del_impl(p, PC()); }
void operator delete[](void* p) noexcept { del_impl(p, PC()); }
void operator delete(void* p, size_t) noexcept { del_impl(p, PC()); }
void operator delete[](void* p, size_t) noexcept { del_impl(p, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, PC()); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { del_impl(p, PC()); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { del_impl(p, PC()); }
extern "C" {
void* malloc(size_t n) { if (g.on) { sched_point(PC()); drain(g.cur); } return heap_alloc(n ? n : 1, 16); }
void free(void* p) { if (p && (uintptr_t)p - ARENA < ARENA_SZ) { if (g.on) { sched_point(PC()); drain(g.cur); } heap_free(p, PC()); } }
void* calloc(size_t a, size_t b) { if (g.on) { sched_point(PC()); drain(g.cur); } size_t n = a * b; void* p = heap_alloc(n ? n : 1, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); void* q = malloc(n); if (!q) return nullptr; u64 o = (uintptr_t)p - ARENA < ARENA_SZ ? ((Hdr*)((uintptr_t)p - 16))->size : *(u64*)((uintptr_t)p - 8); memcpy(q, p, o < n ? o : n); free(p); return q; }
void* aligned_alloc(size_t al, size_t n) { if (g.on) { sched_point(PC()); drain(g.cur); } return heap_alloc(n ? n : 1, al); }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = aligned_alloc(al, n); return *r ? 0 : ENOMEM; }
}

// ------------------------------------------------------------------------------------------------ interposed: threads
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static Fiber* fiber_of(pthread_t p) { for (int i = 0; i < g.nthr; i++) if (fibers[i].fs == (uintptr_t)p) return &fibers[i]; return nullptr; }
static int mutex_lock(pthread_mutex_t* m, bool tr, uintptr_t pc) {
  int* w = (int*)m; int kind = ((int*)m)[4] & 3; int me = g.cur->tid + 1;
  sched_point(pc); drain(g.cur);
  while (w[0]) { if (w[0] == me && kind == PTHREAD_MUTEX_RECURSIVE) { w[1]++; return 0; } if (tr) return EBUSY; block_on(W_MUTEX, (uintptr_t)m, false, 0, false, false, pc); }
  w[0] = me; if (kind == PTHREAD_MUTEX_RECURSIVE) w[1] = 1; hb_acquire((uintptr_t)m); return 0;
}
static int mutex_unlock(pthread_mutex_t* m, uintptr_t pc) {
  int* w = (int*)m; int kind = ((int*)m)[4] & 3; sched_point(pc); drain(g.cur);
  if (kind == PTHREAD_MUTEX_RECURSIVE && --w[1] > 0) return 0;
  hb_release((uintptr_t)m); w[0] = 0; wake_on(W_MUTEX, (uintptr_t)m, 1); return 0;
}
static u64 to_ns(const timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
static constexpr u64 EPOCH0 = 1000000000ull * 100000; // simulated clocks start here
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 dl, uintptr_t pc) {
  mutex_unlock(m, pc); int r = block_on(W_COND, (uintptr_t)c, timed, dl, false, true, pc); mutex_lock(m, false, pc); return r == EINTR ? 0 : r; }
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!g.on) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(th, at, fn, arg);
  sched_point(PC()); drain(g.cur); Fiber* f = new_fiber(fn, arg); if (g.full) epoch_inc(g.cur); *th = (pthread_t)f->fs; g.countdown = 1; if (g.c.policy == 1) g.next_policy = g.step; return 0; }
int pthread_join(pthread_t th, void** ret) {
  if (!g.on) return real<int (*)(pthread_t, void**)>("pthread_join")(th, ret);
  sched_point(PC()); Fiber* f = fiber_of(th); if (!f) return ESRCH; while (f->st != DONE) block_on(W_JOIN, (uintptr_t)f, false, 0, false, false, PC());
  hb_acquire((uintptr_t)&f->ret); f->joined = true; if (ret) *ret = f->ret; return 0; }
int pthread_detach(pthread_t th) { Fiber* f = fiber_of(th); if (f) f->detached = true; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!g.on) return 0; return mutex_lock(m, false, PC()); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!g.on) return 0; return mutex_lock(m, true, PC()); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g.on) return 0; return mutex_unlock(m, PC()); }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0, PC()); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { u64 d = to_ns(t); return cond_wait(c, m, true, d > EPOCH0 ? d - EPOCH0 : 0, PC()); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { u64 d = to_ns(t); return cond_wait(c, m, true, d > EPOCH0 ? d - EPOCH0 : 0, PC()); }
int pthread_cond_signal(pthread_cond_t* c) { if (!g.on) return 0; sched_point(PC()); drain(g.cur); wake_on(W_COND, (uintptr_t)c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g.on) return 0; sched_point(PC()); drain(g.cur); wake_on(W_COND, (uintptr_t)c, MAXT); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { int* w = (int*)m; sched_point(PC()); drain(g.cur); while (w[0] < 0) block_on(W_RW, (uintptr_t)m, false, 0, false, false, PC()); w[0]++; hb_acquire((uintptr_t)m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { int* w = (int*)m; sched_point(PC()); drain(g.cur); while (w[0] != 0) block_on(W_RW, (uintptr_t)m, false, 0, false, false, PC()); w[0] = -1; hb_acquire((uintptr_t)m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { int* w = (int*)m; sched_point(PC()); drain(g.cur); hb_release((uintptr_t)m); if (w[0] < 0) w[0] = 0; else w[0]--; wake_on(W_RW, (uintptr_t)m, MAXT); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) { if (!g.on) { if (!*o) { *o = 2; fn(); } return 0; } sched_point(PC()); drain(g.cur); while (*o == 1) block_on(W_ONCE, (uintptr_t)o, false, 0, false, false, PC()); hb_acquire((uintptr_t)o); if (*o == 2) return 0; *o = 1; fn(); drain(g.cur); hb_release((uintptr_t)o); *o = 2; wake_on(W_ONCE, (uintptr_t)o, MAXT); return 0; }
int __cxa_guard_acquire(u64* gd) { volatile u8* b = (volatile u8*)gd; if (!g.on) { if (b[0]) return 0; b[1] = 1; return 1; }
  sched_point(PC()); drain(g.cur); while (!b[0] && b[1]) block_on(W_GUARD, (uintptr_t)gd, false, 0, false, false, PC());
  if (b[0]) { hb_acquire((uintptr_t)gd); return 0; } b[1] = 1; return 1; }
void __cxa_guard_release(u64* gd) { volatile u8* b = (volatile u8*)gd; if (!g.on) { b[0] = 1; b[1] = 0; return; } sched_point(PC()); drain(g.cur); hb_release((uintptr_t)gd); b[0] = 1; b[1] = 0; wake_on(W_GUARD, (uintptr_t)gd, MAXT); }
void __cxa_guard_abort(u64* gd) { volatile u8* b = (volatile u8*)gd; if (!g.on) { b[1] = 0; return; } drain(g.cur); b[1] = 0; wake_on(W_GUARD, (uintptr_t)gd, MAXT); }
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) noexcept { if (!g.on || !g.cur) return 0; Fiber* t = g.cur; if (t->ndt == 512) rt_fail("sim-limit", "too many thread-exit destructors"); t->dt[t->ndt++] = Dtor{f, o}; return 0; }
int __cxa_atexit(void (*f)(void*), void* o, void*) noexcept { if (!g.on || !g.cur) return 0; if (n_static_dt == 1024) rt_fail("sim-limit", "too many static destructors"); static_dt[n_static_dt++] = Dtor{f, o}; return 0; }
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* d) { return __cxa_thread_atexit(f, o, d); }
int sched_yield() noexcept { if (!g.on || g.cur->quiet) return 0; bump(); reschedule(K_YIELD, PC()); return 0; }
unsigned sleep(unsigned s);
static void do_sleep(u64 ns, uintptr_t pc) { if (!g.on || g.cur->quiet) return; block_on(W_SLEEP, 0, true, g.now + ns, true, false, pc); }
int nanosleep(const timespec* t, timespec*) { do_sleep(to_ns(t), PC()); return 0; }
int clock_nanosleep(clockid_t, int fl, const timespec* t, timespec*) { u64 n = to_ns(t); if (fl & TIMER_ABSTIME) n = n > EPOCH0 + g.now ? n - EPOCH0 - g.now : 0; do_sleep(n, PC()); return 0; }
int usleep(useconds_t u) { do_sleep((u64)u * 1000, PC()); return 0; }
unsigned sleep(unsigned s) { do_sleep((u64)s * 1000000000ull, PC()); return 0; }
static u64 clock_read(uintptr_t pc) {
  if (!g.on) { return 0; } if (!g.cur->quiet) sched_point(pc);
  switch (g.c.clock_mode) { // 0: steps only, 1: +jitter, 2: occasional large jump, 3: frozen
    case 1: { i64 j = decide(K_CLOCK, 0, [] { return (i64)r_sched.below(4000); }); g.now += j; break; }
    case 2: { i64 j = decide(K_CLOCK, 0, [] { return r_sched.chance(1, 8) ? (i64)r_sched.below(3000000000ull) : (i64)0; }); g.now += j; if (j) S->r.faults[F_CLOCK_JUMP]++; break; }
    case 3: { if (g.fair) break; S->r.faults[F_CLOCK_FREEZE]++; hmix(7); return 0; }
    default: break; }
  if (g.next_timer <= g.now) g.countdown = 1;
  hmix(g.now); return g.now; }
int clock_gettime(clockid_t, timespec* t) noexcept { u64 n = clock_read(PC()) + EPOCH0; t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
int gettimeofday(timeval* t, void*) noexcept { u64 n = clock_read(PC()) + EPOCH0; t->tv_sec = n / 1000000000ull; t->tv_usec = (n % 1000000000ull) / 1000; return 0; }
time_t time(time_t* t) noexcept { time_t v = (time_t)((clock_read(PC()) + EPOCH0) / 1000000000ull); if (t) *t = v; return v; }
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration((i64)(clock_read(PC()) + EPOCH0))); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration((i64)(clock_read(PC()) + EPOCH0))); }
unsigned std::thread::hardware_concurrency() noexcept { return g.hw; }

static long futex(u32* a, int op, u32 val, const timespec* to, uintptr_t pc) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point(pc); drain(g.cur); addr_check((uintptr_t)a, 4, false, pc);
    hmix(*a + pc); if (*(volatile u32*)a != val) { errno = EAGAIN; return -1; }
    u64 dl = 0; if (to) { u64 n = to_ns(to); dl = cmd == FUTEX_WAIT ? g.now + n : (n > EPOCH0 ? n - EPOCH0 : 0); }
    sim::probe("futex_wait_blocked");
    int r = block_on(W_FUTEX, (uintptr_t)a, to != nullptr, dl, false, true, pc);
    if (r) { errno = r; return -1; } return 0; }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) { sched_point(pc); drain(g.cur); int n = (int)val; int w = wake_on(W_FUTEX, (uintptr_t)a, n > MAXT ? MAXT : n); if (w) sim::probe("futex_wake_woke"); return w; }
  rt_fail("sim-limit", "unsupported futex operation %d", cmd);
}
extern "C" long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && g.on) return futex((u32*)a, (int)b, (u32)c, (const timespec*)d, PC());
  if (n == SYS_clock_gettime && g.on) return clock_gettime((clockid_t)a, (timespec*)b);
  if (n == SYS_gettid && g.on) return 1000 + g.cur->tid;
  if (n == SYS_getrandom && g.on) { u8* p = (u8*)a; for (long i = 0; i < b; i++) p[i] = (u8)r_data.next(); return b; }
  long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
extern "C" long sysconf(int name) noexcept {
  static long (*rs)(int) = nullptr; if (name == _SC_PHYS_PAGES) return (long)((g.phys ? g.phys : sim_static_phys) / 4096); if (name == _SC_PAGESIZE) return 4096;
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return g.hw ? g.hw : 4;
  if (!rs) rs = real<long (*)(int)>("sysconf"); return rs(name); }
extern "C" pid_t gettid() noexcept { return g.on ? 1000 + g.cur->tid : (pid_t)raw3(SYS_gettid); }
extern "C" int sched_getcpu() noexcept { return g.on ? g.cur->tid % 4 : 0; }

// ------------------------------------------------------------------------------------------------ interposed: file I/O
static long io_ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static long io_plan(size_t n, uintptr_t, Fault f) { // -1: EINTR, otherwise the number of bytes allowed
  i64 v = decide(K_IO, 0, [&]() -> i64 { if (!g.c.io_den || !r_sched.chance(1, g.c.io_den)) return 0; if (r_sched.chance(1, 4)) return -1; return (i64)(1 + r_sched.below(n)); });
  if (v == -1) { S->r.faults[F_EINTR]++; return -1; } if (v <= 0 || (size_t)v >= n) return (long)n; S->r.faults[f]++; return v; }
extern "C" {
ssize_t read(int fd, void* p, size_t n) { if (g.on && g.io && fd > 2 && n) { sched_point(PC()); drain(g.cur); long k = io_plan(n, 0, F_SHORT_READ); if (k < 0) { errno = EINTR; return -1; } n = k; }
  ssize_t r = io_ret(raw3(SYS_read, fd, (long)p, n)); if (g.on && r > 0 && g.full) range_access((uintptr_t)p, r, true, PC()); return r; }
ssize_t write(int fd, const void* p, size_t n) { if (g.on && g.io && fd > 2 && n) { sched_point(PC()); drain(g.cur); long k = io_plan(n, 0, F_SHORT_WRITE); if (k < 0) { errno = EINTR; return -1; } n = k; } return io_ret(raw3(SYS_write, fd, (long)p, n)); }
static ssize_t sim_pread(int fd, void* p, size_t n, off_t o, uintptr_t pc) { if (g.on && g.io && fd > 2 && n) { sched_point(pc); drain(g.cur); long k = io_plan(n, 0, F_SHORT_READ); if (k < 0) { errno = EINTR; return -1; } n = k; }
  ssize_t r = io_ret(raw6(SYS_pread64, fd, (long)p, n, o, 0, 0)); if (g.on && r > 0 && g.full) range_access((uintptr_t)p, r, true, pc); return r; }
static ssize_t sim_pwrite(int fd, const void* p, size_t n, off_t o, uintptr_t pc) { if (g.on && g.io && fd > 2 && n) { sched_point(pc); drain(g.cur); long k = io_plan(n, 0, F_SHORT_WRITE); if (k < 0) { errno = EINTR; return -1; } n = k; } return io_ret(raw6(SYS_pwrite64, fd, (long)p, n, o, 0, 0)); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return sim_pread(fd, p, n, o, PC()); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return sim_pread(fd, p, n, o, PC()); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return sim_pwrite(fd, p, n, o, PC()); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return sim_pwrite(fd, p, n, o, PC()); }
ssize_t readv(int fd, const iovec* v, int c) { ssize_t done = 0; // one possibly short read per segment; stops at the first short one
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return done ? done : r; done += r; if ((size_t)r < v[i].iov_len) break; } return done; }
ssize_t writev(int fd, const iovec* v, int c) { if (g.on && g.io && fd > 2 && c) { sched_point(PC()); drain(g.cur); size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len; long k = tot ? io_plan(tot, 0, F_SHORT_WRITE) : 0; if (k < 0) { errno = EINTR; return -1; }
    if ((size_t)k < tot) { ssize_t done = 0; for (int i = 0; i < c && k > 0; i++) { size_t m = v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k; if (!m) continue; ssize_t r = io_ret(raw3(SYS_write, fd, (long)v[i].iov_base, m)); if (r < 0) return done ? done : r; done += r; k -= (long)m; } return done; } }
  return io_ret(raw3(SYS_writev, fd, (long)v, c)); }
__attribute__((noreturn)) void abort() noexcept { if (g.on) rt_fail("abort", "abort() called (uncaught exception, std::terminate or an internal error) pc 0x%lx", (unsigned long)PC()); raw_exit(134); }
__attribute__((noreturn)) void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept { if (g.on) rt_fail("assert", "assertion `%s' failed at %s:%u (%s)", e, f, l, fn); raw_exit(134); }
__attribute__((noreturn)) void exit(int c) noexcept { if (g.on) rt_fail("exit", "exit(%d) called", c); raw_exit(c); }
}

// ------------------------------------------------------------------------------------------------ sim:: API
namespace sim {
uint64_t rnd() { return r_data.next(); }
static int64_t param_v(const char* name, i64 lo, i64 hi, i64 v) {
  Result& r = S->r; int i = r.nparams; if (i < ov_n && ov_set[i]) v = ov[i]; if (v < lo) v = lo; if (v > hi) v = hi;
  if (i < 64) { snprintf(r.params[i].name, 24, "%s", name); r.params[i].val = v; r.params[i].lo = lo; r.params[i].hi = hi; r.nparams = i + 1; }
  hmix((u64)v); g.ihash = (g.ihash ^ (u64)v) * 0x100000001b3ull; return v; }
int64_t param(const char* name, i64 lo, i64 hi) { return param_v(name, lo, hi, lo + (i64)r_param.below((u64)(hi - lo) + 1)); }
int64_t param_log(const char* name, i64 lo, i64 hi) { u64 span = (u64)(hi - lo) + 1; int bits = 64 - __builtin_clzll(span); u64 m = 1ull << r_param.below(bits + 1); if (m > span) m = span; return param_v(name, lo, hi, lo + (i64)r_param.below(m)); }
[[noreturn]] void fail(const char* tag, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(tag, fmt, ap); }
[[noreturn]] void inconclusive(const char* why) { finish(3, "inconclusive", why); __builtin_unreachable(); }
bool known_finding(const char* key) { for (int i = 0; i < S->nkf; i++) if (!strcmp(S->kfname[i], key)) { S->kfhits[i]++; return true; } return false; }
void probe(const char* name, uint64_t n) { if (g.replay) return; int i = 0; for (; i < S->nprobe; i++) if (!strcmp(S->pname[i], name)) { S->pcount[i] += n; return; } if (i < 96) { snprintf(S->pname[i], 56, "%s", name); S->pcount[i] = n; S->nprobe++; } }
uint64_t step() { return g.step; } uint64_t now_ns() { return g.now; } int tid() { return g.cur ? g.cur->tid : 0; } int live_threads() { return g.live; }
void state(uint64_t h) { if (!h) h = 1; u64 m = (1 << 18) - 1; u64 i = (h * 0x9e3779b97f4a7c15ull >> 30) & m; for (int k = 0; k < 64; k++, i = (i + 1) & m) { if (S->state_set[i] == h) return; if (!S->state_set[i]) { S->state_set[i] = h; S->nstates++; return; } } }
void yield_point() { sched_point(PC()); }
void no_faults_begin() { drain(g.cur); g.cur->quiet++; } void no_faults_end() { g.cur->quiet--; }
void set_hw_concurrency(unsigned n) { g.hw = n; } void set_phys_mem(uint64_t b) { g.phys = b; }
void io_faults(bool on) { g.io = on; }
void alloc_fail_after(int64_t n) { g.cur->alloc_fail = n; g.cur->alloc_fired = false; } bool alloc_fail_fired() { return g.cur->alloc_fired; }
void stop_timers(bool on) { g.stop_timers = on; recompute_timer(); g.countdown = 1; }
void at_end(void (*f)()) { if (n_end_cb < 16) end_cb[n_end_cb++] = f; }
void budget(uint64_t n) { g.fair_budget = n; }
uint64_t heap_live_bytes() { return g.live_bytes; } uint64_t heap_live_blocks() { return g.live_blocks; } uint64_t heap_total_allocs() { return g.total_allocs; }
void note_read(const void* p, size_t n) { range_access((uintptr_t)p, n, false, PC()); } void note_write(const void* p, size_t n) { range_access((uintptr_t)p, n, true, PC()); }
bool instrumented() { return g.full; }
Scenario* scenarios() { return scen_list; }
Scenario::Scenario(const char* n, void (*f)(), int w) : name(n), fn(f), weight(w), next(nullptr) { Scenario** p = &scen_list; while (*p) p = &(*p)->next; *p = this; }
}

// ------------------------------------------------------------------------------------------------ one run (child side)
static void on_signal(int sig, siginfo_t* si, void* uc) {
  uintptr_t ip = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGPROF) { static u64 last = ~0ull; static int n; if (g.step == last && ++n >= 8) { g.in_fail = false; rt_fail("hang", "no scheduling point reached for a long stretch of straight-line execution, pc 0x%lx", (unsigned long)ip); } if (g.step != last) n = 0; last = g.step;
    static int tot; if (++tot > 25) { finish(3, "cpu-limit", "run exceeded its CPU limit"); } return; }
  if (g.in_fail) raw_exit(3);
  rt_fail("crash", "signal %d at pc 0x%lx, address 0x%lx", sig, (unsigned long)ip, (unsigned long)si->si_addr);
}
static void* main_body(void*) { cur_scen->fn(); return nullptr; }
static bool g_full_default;
static void draw_cfg(u64 seed) {
  r_cfg.seed(seed ^ 0xc0ffee); Cfg& c = g.c; c = Cfg();
  c.policy = r_cfg.chance(1, 3) ? 1 : 0; static const u64 dens[] = {1, 2, 4, 16, 64, 256, 1024, 8192}; c.p_den = dens[r_cfg.below(8)];
  static const u64 qs[] = {20, 100, 500, 2000}; c.quantum = qs[r_cfg.below(4)];
  static const u64 adv[] = {500, 3000, 20000, 100000, 500000}; c.adv_steps = adv[r_cfg.below(5)];
  static const u64 sn[] = {1, 5, 20, 100, 1000, 10000, 50000}; c.step_ns = sn[r_cfg.below(7)];
  c.pct_d = 1 + (int)r_cfg.below(12); static const u64 pl[] = {100, 1000, 10000, 100000}; c.pct_len = pl[r_cfg.below(4)]; c.spin_limit = 200 + r_cfg.below(3000);
  c.delay_num = r_cfg.chance(1, 2) ? 0 : 1 + r_cfg.below(15); static const u64 dm[] = {5, 50, 500, 5000}; c.delay_max = dm[r_cfg.below(4)];
  c.plain_den = r_cfg.chance(1, 2) ? 0 : (r_cfg.chance(1, 2) ? 20 : 500);
  c.stall_den = r_cfg.chance(1, 3) ? 500 + r_cfg.below(5000) : 0; c.stall_len = 100 + r_cfg.below(20000);
  c.spur_den = r_cfg.chance(1, 3) ? 2 + r_cfg.below(10) : 0; c.clock_mode = (int)r_cfg.below(4); c.wake_den = r_cfg.chance(1, 2) ? 2 : 0;
  c.reuse = (int)r_cfg.below(3); static const u8 fl[] = {0x00, 0xFF, 0xCB, 0x01}; c.fill = fl[r_cfg.below(4)]; c.fillrnd = r_cfg.chance(1, 3); c.io_den = 2 + r_cfg.below(6);
  c.races = true;
}
[[noreturn]] static void child_run(u64 seed, u64 sseed) {
  { int nul = (int)raw3(SYS_open, (long)"/dev/null", O_WRONLY); if (!g.trace) raw3(SYS_dup2, nul, 1); if (!env_stderr) raw3(SYS_dup2, nul, 2); }
  draw_cfg(seed); g.seed = seed; r_sched.seed(sseed ^ 0x5ced); r_data.seed(seed ^ 0xda7a); r_param.seed(seed ^ 0x9a9a);
  if (env_norace) g.c.races = !(*env_norace == '1');
  g.full = g_full_default; g.hash = 14695981039346656037ull; g.ihash = g.hash; g.step = 0; g.now = 0; g.runlen = 0; g.min_due = ~0ull; g.next_timer = ~0ull; g.fair = false; g.fair_budget = 20000000; g.quantum = g.c.quantum;
  g.hw = 4; g.phys = 256ull << 20; g.plain_cd = 1; g.low_prio = 999; g.next_policy = 0; g.next_stall = 0; g.live = 0; g.nthr = 0; g.cur = nullptr;
  g.live_bytes = 0; g.live_blocks = 0; g.total_allocs = 0;
  if (g.c.policy == 1) { g.pct_n = g.c.pct_d; for (int i = 0; i < g.pct_n; i++) g.pct_points[i] = 1 + r_sched.below(g.c.pct_len); for (int i = 0; i < g.pct_n; i++) for (int j = i + 1; j < g.pct_n; j++) if (g.pct_points[j] < g.pct_points[i]) { u64 t = g.pct_points[i]; g.pct_points[i] = g.pct_points[j]; g.pct_points[j] = t; } }
  stack_t ss; ss.ss_sp = map_at(0, 1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGTRAP}) sigaction(s, &sa, nullptr);
  itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval; setitimer(ITIMER_PROF, &tv, nullptr);
  Fiber* m = new_fiber(main_body, nullptr); set_countdown(); g.cur = m; g.on = true;
  static uintptr_t host_sp; wr_fs(m->fs); sim_switch(&host_sp, m->sp); __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------ zygote (parent side)
struct Spec { u64 seed, sseed; bool record, replay, trace; };
static Result res;
static void run_one(const Spec& sp) {
  memset((void*)&S->r, 0, sizeof(Result)); g.record = sp.record; g.replay = sp.replay; g.trace = sp.trace;
  long pid = raw3(SYS_fork);
  if (pid == 0) { child_run(sp.seed, sp.sseed); }
  if (pid < 0) { fprintf(stderr, "fork failed\n"); raw_exit(98); }
  int st; long w; do { w = raw6(SYS_wait4, pid, (long)&st, 0, 0, 0, 0); } while (w == -EINTR);
  res = S->r; snprintf(res.scenario, sizeof res.scenario, "%s", cur_scen->name);
  if (res.status == 0) { // died without reporting
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { res.status = 3; snprintf(res.kind, sizeof res.kind, "killed"); }
    else { res.status = 2; snprintf(res.kind, sizeof res.kind, "crash"); snprintf(res.msg, sizeof res.msg, "child died without a report (wait status 0x%x)", st); } }
}
static void* park(void* p) { *(uintptr_t*)p = (uintptr_t)pthread_self(); asm volatile("" ::: "memory"); static int w = 0; __atomic_add_fetch(&w, 0, __ATOMIC_SEQ_CST); __atomic_add_fetch(&tls_n, 1, __ATOMIC_SEQ_CST); static int never = 0; for (;;) raw6(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0, 0, 0); return nullptr; }
static double wall() { timespec t; raw3(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 seed_of(u64 base, u64 i) { Rng r; r.seed(base * 0x2545F4914F6CDD1Dull + i); return r.next() >> 1; }
static sim::Scenario* pick_scenario(u64 seed, const char* force) {
  if (force) { for (auto* s = scen_list; s; s = s->next) if (!strcmp(s->name, force)) return s; fprintf(stderr, "no scenario %s\n", force); raw_exit(96); }
  int tot = 0; for (auto* s = scen_list; s; s = s->next) tot += s->weight; Rng r; r.seed(seed ^ 0x5ce4); int k = (int)r.below(tot); for (auto* s = scen_list; s; s = s->next) { if (k < s->weight) return s; k -= s->weight; } return scen_list; }
static void jstr(FILE* o, const char* s) { fputc('"', o); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c == '\n') fputs("\\n", o); else if (c < 32) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }
static int cmp_dec(const void* a, const void* b) { const Dec* x = (const Dec*)a; const Dec* y = (const Dec*)b; if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1; int px = x->kind == K_PLAIN, py = y->kind == K_PLAIN; if (px != py) return px - py; if (x->op != y->op) return x->op < y->op ? -1 : 1; return (int)x->kind - (int)y->kind; }
static void write_replay(const char* path, u64 seed, u64 sseed, bool use_dec, u64 total_dec) {
  FILE* f = fopen(path, "w"); if (!f) { fprintf(stderr, "cannot write %s\n", path); return; }
  fprintf(f, "# parlaylib deterministic-simulation replay file\nscenario %s\nseed %llu\nsseed %llu\nmode %s\nkind %s\nhash %016llx\n", cur_scen->name, (unsigned long long)seed, (unsigned long long)sseed, use_dec ? "decisions" : "seed", res.kind, (unsigned long long)res.hash);
  for (int i = 0; i < res.nparams; i++) fprintf(f, "param %d %lld # %s in [%lld,%lld]\n", i, (long long)res.params[i].val, res.params[i].name, (long long)res.params[i].lo, (long long)res.params[i].hi);
  if (use_dec) { static const char* kn[] = {"", "preempt", "block", "storedelay", "spurious", "clock", "io", "wake", "plainpreempt", "yield"};
    fprintf(f, "# %llu scheduling/fault decisions kept of %llu recorded: kind thread op value\n", (unsigned long long)rp_n, (unsigned long long)total_dec);
    for (u64 i = 0; i < rp_n; i++) fprintf(f, "d %d %d %llu %lld # %s\n", rp_dec[i].kind, rp_dec[i].tid, (unsigned long long)rp_dec[i].op, (long long)rp_dec[i].val, kn[rp_dec[i].kind]); }
  fprintf(f, "# %s\n", "violation:"); for (char* p = res.msg; *p;) { char* e = strchr(p, '\n'); if (!e) e = p + strlen(p); fprintf(f, "#   %.*s\n", (int)(e - p), p); p = *e ? e + 1 : e; }
  fclose(f);
}
static bool read_replay(const char* path, u64* seed, u64* sseed, bool* dec, char* kind, u64* hash, char* scen) {
  FILE* f = fopen(path, "r"); if (!f) return false; char line[4096]; rp_n = 0; *hash = 0; *dec = false; scen[0] = 0; ov_n = 0;
  while (fgets(line, sizeof line, f)) { unsigned long long a, b; long long v; int i, k; char s[64];
    if (sscanf(line, "scenario %47s", s) == 1) strcpy(scen, s); else if (sscanf(line, "seed %llu", &a) == 1) *seed = a; else if (sscanf(line, "sseed %llu", &a) == 1) *sseed = a;
    else if (sscanf(line, "mode %20s", s) == 1) *dec = !strcmp(s, "decisions"); else if (sscanf(line, "kind %47s", s) == 1) strcpy(kind, s); else if (sscanf(line, "hash %llx", &a) == 1) *hash = a;
    else if (sscanf(line, "param %d %lld", &i, &v) == 2) { if (i < 64) { ov[i] = v; ov_set[i] = true; if (i >= ov_n) ov_n = i + 1; } }
    else if (sscanf(line, "d %d %d %llu %lld", &k, &i, &b, &v) == 4) { rp_dec[rp_n++] = Dec{b, v, (uint16_t)i, (u8)k}; } }
  fclose(f); qsort(rp_dec, rp_n, sizeof(Dec), cmp_dec); return true;
}
static void minimise(u64 seed, u64 sseed, const char* kind, const char* out, double budget) {
  double t0 = wall(); char k0[48]; snprintf(k0, sizeof k0, "%s", kind); u64 tries = 0;
  auto left = [&] { return wall() - t0 < budget; };
  // 1. shrink workload parameters (several schedule seeds per candidate)
  run_one({seed, sseed, false, false, false}); Result best = res; u64 bss = sseed;
  auto setov = [&](const Result& r) { ov_n = r.nparams; for (int i = 0; i < ov_n; i++) { ov[i] = r.params[i].val; ov_set[i] = true; } };
  setov(best);
  bool progress = true;
  while (progress && wall() - t0 < budget * 0.5) { progress = false;
    for (int i = 0; i < best.nparams && wall() - t0 < budget * 0.5; i++) {
      i64 lo = best.params[i].lo, cur = best.params[i].val; if (cur == lo) continue;
      i64 cands[3] = {lo, lo + (cur - lo) / 2, cur - 1};
      for (int ci = 0; ci < 3; ci++) { if (cands[ci] >= cur) continue; if (ci && cands[ci] == cands[ci - 1]) continue; bool ok = false;
        for (int r = 0; r < 6 && !ok && wall() - t0 < budget * 0.5; r++) { setov(best); ov[i] = cands[ci]; u64 ss = r == 0 ? bss : seed_of(bss, r); run_one({seed, ss, false, false, false}); tries++;
          if (res.status == 2 && !strcmp(res.kind, k0)) { ok = true; best = res; bss = ss; } }
        if (ok) { progress = true; break; } } } }
  setov(best); sseed = bss;
  // 2. record the decisions, then ddmin
  run_one({seed, sseed, true, false, false}); u64 total = S->r.ndec; bool of = S->r.dec_overflow; (void)of;
  if (res.status != 2 || S->r.dec_overflow) { write_replay(out, seed, sseed, false, total); return; }
  Dec* all = (Dec*)map_at(0, (total + 1) * sizeof(Dec)); memcpy((void*)all, S_dec, total * sizeof(Dec)); Result rec = res;
  qsort(all, total, sizeof(Dec), cmp_dec); memcpy((void*)rp_dec, all, total * sizeof(Dec)); rp_n = total;
  run_one({seed, sseed, false, true, false});
  if (res.status != 2 || strcmp(res.kind, k0)) { fprintf(stderr, "replay mismatch: recorded %s at step %llu, replay status %d kind %s step %llu\n", rec.kind, (unsigned long long)rec.steps, res.status, res.kind, (unsigned long long)res.steps); res = rec; write_replay(out, seed, sseed, false, total); return; }
  Result cur = res; u64 n = total, gran = 2;
  { rp_n = 0; run_one({seed, sseed, false, true, false}); if (res.status == 2 && !strcmp(res.kind, k0)) { n = 0; cur = res; } }
  while (n > 0 && left()) { u64 ch = (n + gran - 1) / gran; bool red = false;
    for (u64 st = 0; st < n && left(); st += ch) { u64 e = st + ch < n ? st + ch : n; memcpy((void*)rp_dec, all, st * sizeof(Dec)); memcpy((void*)(rp_dec + st), all + e, (n - e) * sizeof(Dec)); rp_n = n - (e - st);
      run_one({seed, sseed, false, true, false}); tries++;
      if (res.status == 2 && !strcmp(res.kind, k0)) { cur = res; memmove((void*)(all + st), all + e, (n - e) * sizeof(Dec)); n -= e - st; red = true; if (gran > 2) gran--; st -= 0; break; } }
    if (!red) { if (ch <= 1) break; gran = gran * 2 < n ? gran * 2 : n; } }
  memcpy((void*)rp_dec, all, n * sizeof(Dec)); rp_n = n; run_one({seed, sseed, false, true, false});
  if (res.status != 2) { res = cur; }
  write_replay(out, seed, sseed, true, total);
  printf("{\"minimised\":true,\"tries\":%llu,\"decisions\":%llu,\"recorded\":%llu}\n", (unsigned long long)tries, (unsigned long long)n, (unsigned long long)total);
}
static void print_params(const Result& r) { printf("\"params\":{"); for (int i = 0; i < r.nparams; i++) printf("%s\"%d:%s\":%lld", i ? "," : "", i, r.params[i].name, (long long)r.params[i].val); printf("}"); }

int main(int argc, char** argv) {
  int per = (int)raw3(SYS_personality, 0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) { raw3(SYS_personality, per | ADDR_NO_RANDOMIZE); setenv("SIM_NOASLR_TRIED", "1", 1); execv("/proc/self/exe", argv); }
  env_stderr = getenv("SIM_STDERR"); env_norace = getenv("SIM_NORACE"); clearenv(); // runs do not depend on the environment they are started in
  const char* scen = nullptr; const char* replay = nullptr; const char* out = nullptr; const char* known = nullptr; const char* hout = nullptr; u64 base = 1, from = 0, count = ~0ull, stride = 1; double tlim = 10, minb = 30; bool mini = false, list = false, trace = false, one = false, verbose = false, hashes = false; u64 oneseed = 0;
  for (int i = 1; i < argc; i++) { auto is = [&](const char* s) { return !strcmp(argv[i], s); };
    if (is("--seed")) base = strtoull(argv[++i], 0, 10); else if (is("--from")) from = strtoull(argv[++i], 0, 10); else if (is("--count")) count = strtoull(argv[++i], 0, 10); else if (is("--stride")) stride = strtoull(argv[++i], 0, 10);
    else if (is("--time")) tlim = atof(argv[++i]); else if (is("--scenario")) scen = argv[++i]; else if (is("--replay")) replay = argv[++i]; else if (is("--out")) out = argv[++i]; else if (is("--minimise")) mini = true; else if (is("--minbudget")) minb = atof(argv[++i]);
    else if (is("--list")) list = true; else if (is("--trace")) trace = true; else if (is("--one")) { one = true; oneseed = strtoull(argv[++i], 0, 10); } else if (is("--known")) known = argv[++i]; else if (is("--verbose")) verbose = true; else if (is("--hashes")) hashes = true; else if (is("--hashout")) hout = argv[++i];
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 95; } }
  if (list) { for (auto* s = scen_list; s; s = s->next) printf("%s %d\n", s->name, s->weight); fflush(stdout); return 0; }
#ifdef SIM_FULL
  g_full_default = true;
#endif
  in_main = true; have_fsgsbase = getauxval(AT_HWCAP2) & 2;
  heap_init();
  S = (Shared*)raw6(SYS_mmap, 0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  S_dec = (Dec*)raw6(SYS_mmap, 0, MAXDEC * sizeof(Dec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rp_dec = (Dec*)map_at(0, MAXDEC * sizeof(Dec));
  gl_lo = (uintptr_t)&__data_start & ~7ull; gl_hi = ((uintptr_t)&_end + 7) & ~7ull; gl_cells = (uintptr_t)map_at(0, (gl_hi - gl_lo) * 4 + 64); gl_pcs = (uintptr_t)map_at(0, (gl_hi - gl_lo) * 2 + 64);
  if (known) { FILE* f = fopen(known, "r"); char l[256]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\r\n")] = 0; if (*l && S->nkf < 64) snprintf(S->kfname[S->nkf++], 96, "%s", l); } if (f) fclose(f); }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 10);
  for (int i = 0; i < MAXT; i++) { pthread_t th; int before = __atomic_load_n(&tls_n, __ATOMIC_SEQ_CST); if (pthread_create(&th, &at, park, &tls_pool[i])) { fprintf(stderr, "pthread_create failed\n"); return 94; } while (__atomic_load_n(&tls_n, __ATOMIC_SEQ_CST) == before) raw3(SYS_sched_yield); }
  fflush(stdout);
  if (replay) { u64 seed, ss, hash; bool dec; char kind[64] = "", sc[64]; if (!read_replay(replay, &seed, &ss, &dec, kind, &hash, sc)) { fprintf(stderr, "cannot read %s\n", replay); return 93; }
    cur_scen = pick_scenario(seed, sc); run_one({seed, ss, true, dec, trace});
    printf("{\"status\":%d,\"scenario\":\"%s\",\"kind\":\"%s\",\"hash\":\"%016llx\",\"expected_kind\":\"%s\",\"expected_hash\":\"%016llx\",\"msg\":", res.status, sc, res.kind, (unsigned long long)res.hash, kind, (unsigned long long)hash); jstr(stdout, res.msg); printf("}\n"); fflush(stdout); raw_exit(res.status == 2 ? 1 : 0); }
  if (one) { cur_scen = pick_scenario(oneseed, scen);
    if (mini) { run_one({oneseed, oneseed, false, false, false}); if (res.status != 2) { printf("{\"status\":%d}\n", res.status); fflush(stdout); raw_exit(0); } char k[48]; strcpy(k, res.kind); minimise(oneseed, oneseed, k, out, minb); fflush(stdout); raw_exit(1); }
    run_one({oneseed, oneseed, verbose, false, trace}); printf("{\"status\":%d,\"scenario\":\"%s\",\"kind\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"ndec\":%llu,", res.status, cur_scen->name, res.kind, (unsigned long long)res.hash, (unsigned long long)res.steps, (unsigned long long)res.switches, (unsigned long long)res.ndec); print_params(res); printf(",\"msg\":"); jstr(stdout, res.msg); printf("}\n"); fflush(stdout); raw_exit(res.status == 2 ? 1 : 0); }
  // batch
  double t0 = wall(); u64 runs = 0, ok = 0, inc = 0, steps = 0, simns = 0, sw = 0, allocs = 0; u64 faults[NFAULT] = {0}, frun[NFAULT] = {0}; FILE* hf = hout ? fopen(hout, "wb") : nullptr; int viol = 0; u64 maxthr = 0;
  struct Ps { u64 runs, steps; } ps[64] = {}; char incw[200] = "";
  for (u64 i = from; runs < count && wall() - t0 < tlim; i += stride) { u64 seed = seed_of(base, i); cur_scen = pick_scenario(seed, scen); run_one({seed, seed, false, false, false}); runs++;
    int si = 0; for (auto* s = scen_list; s != cur_scen; s = s->next) si++; ps[si & 63].runs++; ps[si & 63].steps += res.steps;
    steps += res.steps; simns += res.now; sw += res.switches; allocs += res.allocs; if ((u64)res.threads > maxthr) maxthr = res.threads; for (int k = 0; k < NFAULT; k++) { faults[k] += res.faults[k]; frun[k] += res.faults[k] > 0; }
    if (hf) { u64 h[2] = {res.ihash, res.switches}; fwrite(h, 8, 2, hf); }
    if (hashes) printf("{\"h\":%llu,\"seed\":%llu,\"hash\":\"%016llx\",\"steps\":%llu,\"st\":%d}\n", (unsigned long long)i, (unsigned long long)seed, (unsigned long long)res.hash, (unsigned long long)res.steps, res.status);
    if (verbose) { printf("run %llu seed %llu %s st=%d steps=%llu sw=%llu t=%lluns\n", (unsigned long long)i, (unsigned long long)seed, cur_scen->name, res.status, (unsigned long long)res.steps, (unsigned long long)res.switches, (unsigned long long)res.now); fflush(stdout); }
    if (res.status == 1) ok++;
    else if (res.status == 3) { inc++; snprintf(incw, sizeof incw, "%s/%s", cur_scen->name, res.kind); }
    else { viol++; printf("{\"violation\":true,\"index\":%llu,\"seed\":%llu,\"scenario\":\"%s\",\"kind\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,", (unsigned long long)i, (unsigned long long)seed, cur_scen->name, res.kind, (unsigned long long)res.hash, (unsigned long long)res.steps); print_params(res); printf(",\"msg\":"); jstr(stdout, res.msg); printf("}\n"); fflush(stdout); break; } }
  if (hf) fclose(hf);
  printf("{\"summary\":true,\"runs\":%llu,\"ok\":%llu,\"inconclusive\":%llu,\"inconclusive_last\":\"%s\",\"violations\":%d,\"steps\":%llu,\"sim_ns\":%llu,\"switches\":%llu,\"allocs\":%llu,\"max_threads\":%llu,\"wall\":%.3f,\"pairs\":%llu,\"states\":%llu,\"faults\":{", (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)inc, incw, viol, (unsigned long long)steps, (unsigned long long)simns, (unsigned long long)sw, (unsigned long long)allocs, (unsigned long long)maxthr, wall() - t0, (unsigned long long)S->npairs, (unsigned long long)S->nstates);
  for (int k = 0; k < NFAULT; k++) printf("%s\"%s\":[%llu,%llu]", k ? "," : "", fault_names[k], (unsigned long long)faults[k], (unsigned long long)frun[k]);
  printf("},\"probes\":{"); for (int i = 0; i < S->nprobe; i++) printf("%s\"%s\":%llu", i ? "," : "", S->pname[i], (unsigned long long)S->pcount[i]);
  printf("},\"known\":{"); bool fst = true; for (int i = 0; i < S->nkf; i++) if (S->kfhits[i]) { printf("%s\"%s\":%llu", fst ? "" : ",", S->kfname[i], (unsigned long long)S->kfhits[i]); fst = false; }
  printf("},\"scenarios\":{"); { int si = 0; for (auto* s = scen_list; s; s = s->next, si++) printf("%s\"%s\":[%llu,%llu]", si ? "," : "", s->name, (unsigned long long)ps[si & 63].runs, (unsigned long long)ps[si & 63].steps); }
  printf("}}\n"); fflush(stdout); raw_exit(viol ? 1 : 0);
}
