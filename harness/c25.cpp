// C25: file input and output and file mappings transfer exactly the right bytes, with short transfers and interruptions injected.
// PARTS: 2
#include <cerrno>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#if SIM_PARTNO == 2  // the portable file_map, under a name of its own
#define PARLAY_USE_FALLBACK_FILE_MAP
#define file_map file_map_portable
#endif
#include "common.h"
#include <parlay/io.h>
#include <sstream>
#include <fstream>
using namespace hx;
// ---- the mappings the process holds
struct Maps { struct M { char* p; size_t n; }; M m[64]; int k; long opened, closed; };
Maps& maps();
namespace {
using FM = parlay::file_map; using Ref = std::string;
// an anonymous file: nothing outside the process is written
struct File { int fd; std::string path; File() { fd = (int)syscall(SYS_memfd_create, "c25", 0u); if (fd < 0) sim::inconclusive("no memfd"); path = "/proc/self/fd/" + std::to_string(fd); }
  explicit File(const Ref& r) : File() { put(r); } File(const File&) = delete; ~File() { syscall(SYS_close, fd); }
  void put(const Ref& r) { syscall(SYS_ftruncate, fd, 0L); size_t k = 0; while (k < r.size()) { long g = syscall(SYS_pwrite64, fd, r.data() + k, r.size() - k, (long)k); if (g <= 0) sim::inconclusive("pwrite"); k += (size_t)g; } }
  Ref get() const { struct stat sb; char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd); if (::stat(link, &sb) != 0) sim::inconclusive("stat"); Ref r((size_t)sb.st_size, 'x'); size_t k = 0; while (k < r.size()) { long g = syscall(SYS_pread64, fd, r.data() + k, r.size() - k, (long)k); if (g <= 0) sim::inconclusive("pread"); k += (size_t)g; } return r; } };
int free_fd() { int d = (int)syscall(SYS_dup, 2); syscall(SYS_close, d); return d; }
size_t len() { static const size_t edge[] = {0, 1, 2, 511, 512, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12288, 16384, 65535, 65536}; size_t hi = sim::instrumented() ? 20000 : 80000; switch (sim::below(4)) { case 0: return std::min(hi, edge[sim::below(18)]); case 1: return sim::below(40); case 2: return sim::below(3000); default: return sim::below(hi); } }
Ref content(size_t n) { Ref r(n, 0); int how = (int)sim::below(4); uint64_t x = sim::rnd() | 1; for (auto& c : r) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = how == 0 ? (char)x : how == 1 ? "\r\n\t \0\x1a\xff"[x % 7] : how == 2 ? (char)('a' + x % 26) : (char)(x % 3 ? 'a' + x % 3 : ' '); } return r; }
template <class R> void eq(const R& s, const Ref& r, const char* what) { SIM_CHECK((size_t)s.size() == r.size(), "size", "%s: %zu bytes instead of %zu", what, (size_t)s.size(), r.size()); size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) SIM_CHECK(*it == r[i], "bytes", "%s: byte %zu of %zu is %d instead of %d", what, i, r.size(), (int)*it, (int)r[i]); SIM_CHECK(i == r.size(), "size", "%s: iteration ends after %zu of %zu", what, i, r.size()); sim::probe("bytes", r.size()); }
void read_some(const File& f, const Ref& r) {
  size_t n = r.size(); bool nul = sim::chance(1, 3); int how = (int)sim::below(5); size_t st = 0, en = 0;
  if (how == 1) st = sim::below(n + 4); if (how == 2) en = sim::below(n + 4); if (how == 3) { st = sim::below(n + 4); en = st + sim::below(n + 8 > st ? n + 8 - st : 3); } if (how == 4) { st = n + sim::below(5); en = 1 + sim::below(n + 9); } // 4: a start past the end
  auto s = how == 0 && !nul ? parlay::chars_from_file(f.path) : how == 0 ? parlay::chars_from_file(f.path, nul) : how == 1 ? parlay::chars_from_file(f.path, nul, (std::streamoff)st) : parlay::chars_from_file(f.path, nul, (std::streamoff)st, (std::streamoff)en);
  size_t b = std::min(st, n), e = en == 0 ? n : std::min(en, n); Ref w = b < e ? r.substr(b, e - b) : Ref(); if (nul) w += '\0'; eq(s, w, how == 0 ? "chars_from_file" : how == 4 ? "chars_from_file, start past the end" : "chars_from_file of a part"); }
void write_some(const File& f, const Ref& r) { auto s = parlay::chars::from_function(r.size(), [&](size_t i) { return r[i]; }); switch (sim::below(4)) {
    case 0: { parlay::chars_to_file(s, f.path); eq(f.get(), r, "chars_to_file"); break; }
    case 1: { { std::ofstream o(f.path, std::ios::binary); size_t k = sim::below(r.size() + 1); parlay::chars_to_stream(s.subseq(0, k), o); o << s.subseq(k, r.size()); SIM_CHECK(bool(o), "stream", "the stream failed"); } eq(f.get(), r, "chars_to_stream and <<"); break; }
    case 2: { std::ostringstream o; o << s << s; eq(o.str(), r + r, "<< to a string stream"); f.get(); const_cast<File&>(f).put(r); break; }
    default: { std::ostringstream o; parlay::chars_to_stream(s, o); eq(o.str(), r, "chars_to_stream"); parlay::chars_to_file(s, f.path); eq(f.get(), r, "chars_to_file"); } } }
// ---- writing and reading back, sequential and by several tasks, each with a file of its own or all reading one
[[maybe_unused]] void transfer() { set_workers(1 + (int)sim::param("P", 0, 3)); size_t k = 1 + (size_t)sim::param("files", 0, 5); bool io = sim::param("io_faults", 0, 2) != 0; int fd0 = free_fd();
  { std::vector<std::unique_ptr<File>> f; std::vector<Ref> r; for (size_t i = 0; i < k; i++) { f.push_back(std::make_unique<File>()); r.push_back(content(len())); if (sim::chance(1, 2)) f[i]->put(content(len())); }
    sim::io_faults(io); int rounds = 1 + (int)sim::below(3);
    with_sched([&] { for (int z = 0; z < rounds; z++) { if (sim::chance(1, 2)) parlay::parallel_for(0, k, [&](size_t i) { write_some(*f[i], r[i]); read_some(*f[i], r[i]); }, 1); else for (size_t i = 0; i < k; i++) write_some(*f[i], r[i]);
        parlay::parallel_for(0, 2 * k, [&](size_t i) { read_some(*f[i % k], r[i % k]); }, 1); for (size_t i = 0; i < k; i++) { eq(f[i]->get(), r[i], "the file after reading"); r[i] = content(len()); } } });
    sim::io_faults(false); }
  SIM_CHECK(free_fd() == fd0, "descriptors", "file descriptors left open"); }
template <class T, class = void> struct has_close : std::false_type {}; template <class T> struct has_close<T, std::void_t<decltype(std::declval<T&>().close())>> : std::true_type {};
template <class T> void close_it(T& m) { if constexpr (has_close<T>::value) m.close(); }
// ---- a history of mappings
struct MapHist { std::vector<std::unique_ptr<File>> f; std::vector<Ref> r; struct Slot { std::unique_ptr<FM> m; Ref w; bool open = false; }; std::vector<Slot> s; Maps start;
  MapHist() { start = maps(); size_t k = 1 + sim::below(4); for (size_t i = 0; i < k; i++) { r.push_back(content(len())); f.push_back(std::make_unique<File>(r[i])); } s.resize(4); }
  size_t live() { size_t q = 0; for (auto& x : s) if (x.m && x.open && !x.w.empty()) q++; return q; }
  void check(Slot& x, const char* what) { if (!x.m) return; const FM& m = *x.m; eq(m, x.w, what); SIM_CHECK(m.empty() == x.w.empty(), "empty", "%s: empty() is %d for %zu bytes", what, (int)m.empty(), x.w.size()); if (!x.w.empty()) { size_t i = sim::below(x.w.size()); SIM_CHECK(m[i] == x.w[i], "bytes", "%s: operator[]", what); } }
  void step() { size_t i = sim::below(4), j = (i + 1 + sim::below(3)) % 4; Slot &a = s[i], &b = s[j]; size_t q = sim::below(f.size()); const char* what = "";
    switch (sim::below(8)) {
      case 0: what = "opening"; a.m.reset(); a.m = std::make_unique<FM>(f[q]->path); a.w = r[q]; a.open = true; break;
      case 1: what = "move construction"; if (b.m) { a.m.reset(); a.m = std::make_unique<FM>(std::move(*b.m)); a.w = b.w; a.open = b.open; b.w.clear(); b.open = false; } break;
      case 2: what = "move assignment"; if (a.m && b.m) { *a.m = std::move(*b.m); a.w = b.w; a.open = b.open; b.w.clear(); b.open = false; } break;
      case 3: what = "assignment of a new mapping"; if (a.m) { *a.m = FM(f[q]->path); a.w = r[q]; a.open = true; } break;
      case 4: what = "swap"; if (a.m && b.m) { if (sim::chance(1, 2)) a.m->swap(*b.m); else { using std::swap; swap(*a.m, *b.m); } std::swap(a.w, b.w); std::swap(a.open, b.open); } break;
      case 5: what = "destruction"; a.m.reset(); a.w.clear(); a.open = false; break;
      case 6: what = "close"; if (has_close<FM>::value && a.m) { close_it(*a.m); a.w.clear(); a.open = false; } break;
      default: what = "use by the algorithms"; if (a.m) { const FM& m = *a.m; auto c = parlay::to_sequence(m); eq(c, a.w, "to_sequence of a mapping"); auto d = parlay::map(m, [](char x) { return (char)(x + 1); }); for (size_t k = 0; k < d.size(); k++) SIM_CHECK(d[k] == (char)(a.w[k] + 1), "bytes", "map over a mapping"); auto sp = [](char x) { return x == ' ' || x == '\n'; }; auto t = parlay::tokens(m, sp); std::vector<Ref> w; Ref cur; for (char x : a.w) if (sp(x)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += x; if (!cur.empty()) w.push_back(cur); SIM_CHECK(t.size() == w.size(), "size", "tokens of a mapping: %zu instead of %zu", t.size(), w.size()); for (size_t k = 0; k < w.size(); k++) eq(t[k], w[k], "tokens of a mapping"); }
    }
    check(a, what); if (sim::chance(1, 2)) check(b, what); if (has_close<FM>::value) SIM_CHECK(maps().k - start.k == (int)live(), "mappings", "after %s: %d files are mapped, %zu file_maps are open", what, maps().k - start.k, live()); } };
[[maybe_unused]] void mappings() { set_workers(1 + (int)sim::param("P", 0, 2)); int steps = (int)sim::param_log("steps", 1, 40); bool io = sim::param("io_faults", 0, 2) != 0; int fd0 = free_fd(); int k0 = maps().k;
  { MapHist h; sim::io_faults(io); with_sched([&] { for (int i = 0; i < steps; i++) h.step(); }); h.s.clear(); sim::io_faults(false); }
  SIM_CHECK(maps().k == k0, "mappings", "%d files are still mapped", maps().k - k0); SIM_CHECK(free_fd() == fd0, "descriptors", "file descriptors left open"); }
// several tasks map, read and release the same file
[[maybe_unused]] void shared_file() { set_workers(2 + (int)sim::param("P", 0, 2)); int fd0 = free_fd(); int k0 = maps().k; { Ref r = content(len()); File f(r); sim::io_faults(sim::chance(1, 2)); with_sched([&] { FM whole(f.path); parlay::parallel_for(0, 1 + sim::below(8), [&](size_t i) { if (i % 3 == 0) eq(whole, r, "a mapping shared by tasks"); else if (i % 3 == 1) { FM m(f.path); eq(m, r, "a mapping of a task"); FM n = std::move(m); eq(n, r, "a moved mapping"); } else read_some(f, r); }, 1); }); sim::io_faults(false); }
  SIM_CHECK(maps().k == k0, "mappings", "%d files are still mapped", maps().k - k0); SIM_CHECK(free_fd() == fd0, "descriptors", "file descriptors left open"); }
}
#if SIM_PART(1)
Maps& maps() { static Maps m; return m; }
__attribute__((no_sanitize("thread"))) static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long r; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
extern "C" {
__attribute__((no_sanitize("thread"))) void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { if (fd >= 0) sim::yield_point(); long r = raw(SYS_mmap, (long)a, (long)n, prot, flags, fd, off); if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; } if (fd >= 0) { Maps& m = maps(); if (m.k < 64) m.m[m.k++] = {(char*)r, n}; m.opened++; } return (void*)r; }
__attribute__((no_sanitize("thread"))) int munmap(void* a, size_t n) noexcept { Maps& m = maps(); for (int i = 0; i < m.k; i++) if (m.m[i].p == a) { sim::yield_point(); if (m.m[i].p == a && m.m[i].n != n) sim::fail("munmap", "a mapping of %zu bytes is unmapped with a length of %zu", m.m[i].n, n); break; }
  int hit = -1; for (int i = 0; i < m.k; i++) if (m.m[i].p == a) hit = i; if (hit >= 0) { m.m[hit] = m.m[--m.k]; m.closed++; } else if (m.opened) { sim::fail("munmap", "unmaps %zu bytes at an address that is not mapped", n); } long r = raw(SYS_munmap, (long)a, (long)n); if (r < 0) { errno = (int)-r; return -1; } return 0; }
}
SIM_SCENARIO(write_and_read, 4) { transfer(); }
SIM_SCENARIO(mapping_history, 5) { mappings(); }
SIM_SCENARIO(shared_by_tasks, 2) { shared_file(); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(portable_history, 3) { mappings(); }
SIM_SCENARIO(portable_shared_by_tasks, 1) { shared_file(); }
#endif
