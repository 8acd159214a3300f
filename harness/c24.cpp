// C24: a sequence behaves as a vector under every history of operations, including failing allocations.
// PARTS: 6
#include "elements.h"
#include <parlay/primitives.h>
#include <list>
#include <string>
#include <sstream>
#include <iterator>
using namespace hx; using namespace el;
namespace {
// ---- an allocator that fails on demand and checks what it gets back
struct Blocks { EL_RAW static int64_t& arm() { static int64_t a; return a; } EL_RAW static size_t& live() { static size_t n; return n; } EL_RAW static bool fails() { int64_t& a = arm(); if (a <= 0) return false; return --a == 0; } EL_RAW static void got(bool in) { if (in) live()++; else live()--; } EL_RAW static void reset() { arm() = 0; live() = 0; } };
template <class T> struct Fail { using value_type = T; Fail() = default; template <class U> Fail(const Fail<U>&) noexcept {}
  T* allocate(size_t n) { if (Blocks::fails()) { sim::probe("bad_alloc"); throw std::bad_alloc(); } if (n > (size_t(1) << 30) / sizeof(T)) throw std::bad_alloc(); size_t a = alignof(T) < 16 ? 16 : alignof(T); char* p = (char*)::operator new(n * sizeof(T) + a, std::align_val_t(a)); *(size_t*)p = n; Blocks::got(true); return (T*)(p + a); }
  void deallocate(T* q, size_t n) { size_t a = alignof(T) < 16 ? 16 : alignof(T); SIM_CHECK(q, "deallocate", "null is given back"); char* p = (char*)q - a; SIM_CHECK(*(size_t*)p == n, "deallocate", "a block of %zu is given back as one of %zu", *(size_t*)p, n); *(size_t*)p = ~(size_t)0; Blocks::got(false); ::operator delete(p, std::align_val_t(a)); }
  bool operator==(const Fail&) const { return true; } bool operator!=(const Fail&) const { return false; } };
// ---- element types: mk makes the value from a number, num gives it back
struct Aligned { alignas(64) long v; Aligned(long x = 0) : v(x) { ok(); } Aligned(const Aligned& o) : v(o.v) { ok(); } Aligned& operator=(const Aligned& o) { ok(); v = o.v; return *this; } void ok() const { if ((uintptr_t)this % 64) bad("an element is not aligned"); } };
struct alignas(256) Aligned2 { long v; Aligned2(long x = 0) : v(x) { ok(); } Aligned2(const Aligned2& o) : v(o.v) { ok(); } Aligned2& operator=(const Aligned2& o) { ok(); v = o.v; return *this; } void ok() const { if ((uintptr_t)this % 256) bad("an element is not aligned"); } };
struct Any { long v; Any(long x = 0) : v(x) {} Any(const void*) : v(-1000) {} }; // a pointer converts to it, as to bool or std::any
struct Pod3 { unsigned char a, b, c; };
inline long num(int x) { return x; } inline long num(char x) { return x; } inline long num(const Cp& x) { return x.key(); } inline long num(const Tr& x) { return x.key(); } inline long num(const Huge& x) { return x.key(); } inline long num(const Aligned& x) { x.ok(); return x.v; } inline long num(const Aligned2& x) { x.ok(); return x.v; } inline long num(const Any& x) { return x.v; } inline long num(const std::string& x) { return x.empty() ? -1 : std::stol(x); } inline long num(const Pod3& p) { return p.a; } inline long num(bool b) { return b; } inline long num(uint64_t x) { return (long)x; }
template <class T> long val() { long x = (long)sim::below(90); return std::is_same_v<T, bool> ? x & 1 : x; }
template <class T> T mk(long x) { if constexpr (std::is_same_v<T, std::string>) return x == -1 ? std::string() : x % 2 ? std::to_string(x) : std::string(40, '0') + std::to_string(x); else if constexpr (std::is_same_v<T, Pod3>) return Pod3{(unsigned char)x, 0, 0}; else return T((T)x); }
template <class T> bool has_eq = !std::is_same_v<T, Aligned> && !std::is_same_v<T, Aligned2> && !std::is_same_v<T, Any> && !std::is_same_v<T, Pod3>;
using Ref = std::vector<long>;
template <class S> void check(const S& s, const Ref& r, const char* what) {
  SIM_CHECK(s.size() == r.size(), "size", "%s: size %zu instead of %zu", what, (size_t)s.size(), r.size()); SIM_CHECK(s.empty() == r.empty(), "size", "%s: empty()", what); SIM_CHECK(s.capacity() >= s.size(), "capacity", "%s: capacity %zu below size %zu", what, s.capacity(), s.size());
  for (size_t i = 0; i < r.size(); i++) SIM_CHECK(num(s[i]) == r[i], "elements", "%s: element %zu of %zu is %ld instead of %ld", what, i, r.size(), num(s[i]), r[i]); }
template <class S> void views(const S& s, const Ref& r) { size_t n = r.size(), i = 0; for (auto& x : s) SIM_CHECK(i < n && num(x) == r[i++], "elements", "iteration"); SIM_CHECK(i == n, "elements", "iteration ends after %zu of %zu", i, n); for (auto it = s.rbegin(); it != s.rend(); ++it) SIM_CHECK(num(*it) == r[--i], "elements", "reverse iteration"); SIM_CHECK(i == 0 && s.cend() - s.cbegin() == (long)n && s.data() + n == s.end(), "elements", "iterators");
  for (auto it = s.crbegin(); it != s.crend(); ++it) i++; SIM_CHECK(i == n, "elements", "crbegin"); try { (void)s.at(n + sim::below(3)); sim::fail("at", "no exception for an index out of range"); } catch (const std::out_of_range&) {} if (n) { size_t k = sim::below(n); SIM_CHECK(num(s.at(k)) == r[k] && num(s.front()) == r[0] && num(s.back()) == r[n - 1], "elements", "at, front, back"); }
  size_t a = sim::below(n + 1), b = a + sim::below(n - a + 1); auto eq = [&](const auto& q, size_t lo, size_t hi, const char* w) { SIM_CHECK((size_t)q.size() == hi - lo, "size", "%s", w); size_t j = lo; for (const auto& x : q) SIM_CHECK(num(x) == r[j++], "elements", "%s", w); };
  eq(s.head(a), 0, a, "head"); eq(s.tail(a), n - a, n, "tail"); eq(s.cut(a, b), a, b, "cut"); eq(s.subseq(a, b), a, b, "subseq"); eq(s.substr(a), a, n, "substr"); eq(s.substr(a, b - a), a, b, "substr"); auto v = s.to_vector(); SIM_CHECK(v.size() == n, "size", "to_vector gives %zu of %zu elements", v.size(), n); for (size_t j = 0; j < n; j++) SIM_CHECK(num(v[j]) == r[j], "elements", "to_vector"); auto t = parlay::to_sequence(s); check(t, r, "to_sequence"); auto t2 = parlay::to_short_sequence(s.cut(a, b)); check(t2, Ref(r.begin() + (long)a, r.begin() + (long)b), "to_short_sequence"); }
// a single-pass iterator over numbers
template <class T> struct In { using value_type = T; using reference = T; using pointer = const T*; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; const Ref* r; size_t i; size_t* used; T operator*() const { SIM_CHECK(*used == i, "input-iterator", "a position of a single-pass range is read again"); return mk<T>((*r)[i]); } In& operator++() { ++i; ++*used; return *this; } struct Proxy { T v; T operator*() { return std::move(v); } }; Proxy operator++(int) { Proxy p{**this}; ++*this; return p; } bool operator==(const In& o) const { return i == o.i; } bool operator!=(const In& o) const { return i != o.i; } };
size_t few() { return sim::chance(1, 30) ? sim::below(sim::instrumented() ? 3000 : 6000) : sim::chance(1, 3) ? sim::below(40) : sim::below(6); }
template <class T> Ref vals(size_t n) { Ref r(n); for (auto& x : r) x = val<T>(); return r; }
template <class T> std::vector<T> tvec(const Ref& r) { std::vector<T> v; v.reserve(r.size()); for (long x : r) v.push_back(mk<T>(x)); return v; }
template <class T> std::deque<T> tdeq(const Ref& r) { std::deque<T> v; for (long x : r) v.push_back(mk<T>(x)); return v; }
template <class T> std::list<T> tlist(const Ref& r) { std::list<T> v; for (long x : r) v.push_back(mk<T>(x)); return v; }
// ---- the history
template <class S> struct Hist {
  using T = typename S::value_type; static constexpr bool failing = !std::is_same_v<typename S::allocator_type, parlay::internal::sequence_default_allocator<T>>; static constexpr size_t K = 3;
  S s[K]; Ref r[K]; size_t cap; int fails;
  Hist() : cap(std::is_same_v<T, Huge> ? 60 : sim::instrumented() ? 4000 : 9000), fails(failing ? (int)sim::param("fails", 0, 2) : 0) {}
  // run f on s[i]; if memory runs out, s[i] has to be as before (or, with basic, at least valid)
  template <class F> bool attempt(size_t i, const char* what, bool basic, F&& f) {
    if (fails && sim::chance(1, fails == 1 ? 8 : 2)) Blocks::arm() = 1 + (int64_t)sim::below(3);
    try { f(); Blocks::arm() = 0; return true; } catch (const std::bad_alloc&) { bool fired = failing && Blocks::arm() == 0; Blocks::arm() = 0; SIM_CHECK(fired, "bad_alloc", "%s: memory ran out", what); if (basic) { Ref q; for (auto& x : s[i]) q.push_back(num(x)); r[i] = q; } else check(s[i], r[i], what); return false; } }
  void at(size_t i, size_t got, size_t want, const char* what) { SIM_CHECK(got == want, "iterator", "%s returns position %zu instead of %zu", what, got, want); (void)i; }
  void step() {
    size_t i = sim::below(K), j = (i + 1 + sim::below(K - 1)) % K; S& a = s[i]; Ref& m = r[i]; size_t n = m.size(), p = sim::below(n + 1); size_t room = n < cap ? cap - n : 0; size_t c = std::min(few(), room); long x = val<T>(); auto B = [&] { return a.begin(); }; bool own = n && sim::chance(1, 2); size_t o = n ? sim::below(n) : 0; if (own) x = m[o]; // own: the argument is an element of the sequence itself
    auto ins = [&](size_t pos, const Ref& q) { m.insert(m.begin() + (long)pos, q.begin(), q.end()); }; size_t used = 0; int kind = (int)sim::below(6);
    auto iters = [&](const Ref& q, auto&& f) { switch (kind) { case 0: { auto v = tvec<T>(q); if constexpr (std::is_same_v<T, bool>) f(v.begin(), v.end()); else f(v.data(), v.data() + v.size()); break; } case 1: { auto v = tlist<T>(q); f(v.begin(), v.end()); break; } case 2: f(In<T>{&q, 0, &used}, In<T>{&q, q.size(), &used}); break; case 3: { auto v = parlay::delayed_seq<T>(q.size(), [&q](size_t k) { return mk<T>(q[k]); }); f(v.begin(), v.end()); break; } case 4: { auto v = tdeq<T>(q); f(v.begin(), v.end()); break; } default: { S v = S::from_function(q.size(), [&q](size_t k) { return mk<T>(q[k]); }); f(v.begin(), v.end()); } } };
    switch (sim::below(30)) {
      case 0: if (room) { T t = mk<T>(x); if (attempt(i, "push_back", false, [&] { auto it = own ? a.push_back(a[o]) : sim::chance(1, 2) ? a.push_back(t) : a.push_back(mk<T>(x)); at(i, (size_t)(it - B()), n, "push_back"); })) m.push_back(x); } break;
      case 1: if (room && attempt(i, "emplace_back", false, [&] { auto it = own ? a.emplace_back(a[o]) : a.emplace_back(mk<T>(x)); at(i, (size_t)(it - B()), n, "emplace_back"); })) m.push_back(x); break;
      case 2: if (room && attempt(i, "insert", false, [&] { T t = mk<T>(x); auto it = own ? a.insert(B() + (long)p, a[o]) : sim::chance(1, 2) ? a.insert(B() + (long)p, t) : a.insert(B() + (long)p, mk<T>(x)); at(i, (size_t)(it - B()), p, "insert"); })) m.insert(m.begin() + (long)p, x); break;
      case 3: if (room && attempt(i, "emplace", false, [&] { auto it = own ? a.emplace(B() + (long)p, a[o]) : a.emplace(B() + (long)p, mk<T>(x)); at(i, (size_t)(it - B()), p, "emplace"); })) m.insert(m.begin() + (long)p, x); break;
      case 4: if (attempt(i, "insert n copies", false, [&] { T t = mk<T>(x); auto it = own ? a.insert(B() + (long)p, c, a[o]) : a.insert(B() + (long)p, c, t); at(i, (size_t)(it - B()), p, "insert n copies"); })) ins(p, Ref(c, x)); break;
      case 5: { Ref q = vals<T>(c); iters(q, [&](auto f, auto l) { if (attempt(i, "insert of a range", false, [&] { auto it = a.insert(B() + (long)p, f, l); at(i, (size_t)(it - B()), p, "insert of a range"); })) ins(p, q); }); break; }
      case 6: { Ref q = vals<T>(c); if constexpr (!std::is_same_v<T, Any>) { auto v = tvec<T>(q); if (attempt(i, "insert of a container", false, [&] { auto it = a.insert(B() + (long)p, v); at(i, (size_t)(it - B()), p, "insert of a container"); })) ins(p, q); } break; }
      case 7: { T t1 = mk<T>(x), t2 = mk<T>(3 % 2); if (room > 2 && attempt(i, "insert of a list", false, [&] { auto it = a.insert(B() + (long)p, {t1, t2}); at(i, (size_t)(it - B()), p, "insert of a list"); })) ins(p, Ref{x, 1}); break; }
      case 8: { Ref q = vals<T>(c); S v; for (long y : q) v.push_back(mk<T>(y)); if (attempt(i, "insert of a moved sequence", false, [&] { auto it = a.insert(B() + (long)p, std::move(v)); at(i, (size_t)(it - B()), p, "insert of a moved sequence"); })) { ins(p, q); check(v, Ref(), "the sequence moved from"); } else check(v, q, "the sequence not inserted"); break; }
      case 9: if (n && p < n && attempt(i, "erase", false, [&] { auto it = a.erase(B() + (long)p); at(i, (size_t)(it - B()), p, "erase"); })) m.erase(m.begin() + (long)p); break;
      case 10: { size_t e = p + sim::below(n - p + 1); if (attempt(i, "erase of a range", false, [&] { auto it = a.erase(B() + (long)p, B() + (long)e); at(i, (size_t)(it - B()), p, "erase of a range"); })) m.erase(m.begin() + (long)p, m.begin() + (long)e); break; }
      case 11: if (attempt(i, "append n copies", false, [&] { T t = mk<T>(x); auto it = own ? a.append(c, a[o]) : a.append(c, t); at(i, (size_t)(it - B()), n, "append n copies"); })) ins(n, Ref(c, x)); break;
      case 12: { Ref q = vals<T>(c); iters(q, [&](auto f, auto l) { if (attempt(i, "append of a range", kind == 2, [&] { auto it = a.append(f, l); at(i, (size_t)(it - B()), n, "append of a range"); })) ins(n, q); }); break; }
      case 13: { Ref q = vals<T>(c); auto v = tdeq<T>(q); if (attempt(i, "append of a container", false, [&] { a.append(v); })) ins(n, q); break; }
      case 14: { if (r[j].size() <= room && attempt(i, "append of a moved sequence", false, [&] { a.append(std::move(s[j])); })) { ins(n, r[j]); r[j].clear(); check(s[j], r[j], "the sequence moved from"); } else check(s[j], r[j], "the sequence not appended"); break; }
      case 15: if (n) { a.pop_back(); m.pop_back(); } break;
      case 16: { size_t k = sim::chance(1, 2) ? p : n + c; if (attempt(i, "resize", false, [&] { T t = mk<T>(x); if (own) a.resize(k, a[o]); else a.resize(k, t); })) m.resize(k, x); break; }
      case 17: { size_t k = sim::below(2 * n + 20); size_t c0 = a.capacity(); if (attempt(i, "reserve", false, [&] { a.reserve(k); })) SIM_CHECK(a.capacity() >= k && a.capacity() >= c0, "capacity", "capacity %zu after reserve(%zu), %zu before", a.capacity(), k, c0); const T* d = a.data(); size_t room2 = a.capacity() - n; if (room2 && n < cap) { a.push_back(mk<T>(x)); m.push_back(x); SIM_CHECK(a.data() == d, "capacity", "push_back within the capacity moved the elements"); } break; }
      case 18: a.clear(); m.clear(); break;
      case 19: if (attempt(i, "copy assignment", false, [&] { a = s[j]; })) m = r[j]; break;
      case 20: a = std::move(s[j]); m = r[j]; r[j].clear(); check(s[j], r[j], "the sequence moved from"); break;
      case 21: { S& same = a; if (attempt(i, "self-assignment", false, [&] { a = same; })) {} break; }
      case 22: if (sim::chance(1, 2)) a.swap(s[j]); else { using std::swap; swap(a, s[j]); } m.swap(r[j]); break;
      case 23: { Ref q = vals<T>(c); int w = (int)sim::below(4); if (w == 0) { iters(q, [&](auto f, auto l) { if (attempt(i, "assign of a range", true, [&] { a.assign(f, l); })) m = q; }); } else if (w == 1) { T t = mk<T>(x); if (attempt(i, "assign n copies", true, [&] { a.assign(c, t); })) m = Ref(c, x); } else if (w == 2) { auto v = tvec<T>(q); if (attempt(i, "assign of a container", true, [&] { a.assign(v); })) m = q; } else { T t = mk<T>(x); if (attempt(i, "assign of a list", true, [&] { if (c & 1) a = {t, t, t}; else a.assign({t, t, t}); })) m = Ref(3, x); } break; }
      case 24: { size_t k = n - p; if (attempt(i, "pop_tail", false, [&] { S t = sim::chance(1, 2) ? a.pop_tail(k) : a.pop_tail(B() + (long)p); Ref q(m.begin() + (long)p, m.end()); m.resize(p); check(t, q, "the tail"); })) {} break; }
      case 25: { size_t w = sim::below(5); Ref q = vals<T>(c); Ref nm; bool made = false; if (attempt(i, "construction", false, [&] { if (w == 0) { S t(c); made = true; check(t, Ref(c, num(T())), "S(n)"); nm = Ref(c, num(T())); swap(a, t); } else if (w == 1) { T v = mk<T>(x); S t(c, v); made = true; nm = Ref(c, x); swap(a, t); } else if (w == 2) { iters(q, [&](auto f, auto l) { S t(f, l); made = true; nm = q; swap(a, t); }); } else if (w == 3) { T v = mk<T>(x); S t{v, v}; made = true; nm = Ref(2, x); swap(a, t); } else { S t = S::from_function(c, [&](size_t k) { return mk<T>(q[k]); }); made = true; nm = q; swap(a, t); } })) { SIM_CHECK(made, "construct", "nothing made"); m = nm; } break; }
      case 26: { S t(std::move(a)); check(a, Ref(), "the sequence moved from"); check(t, m, "the moved sequence"); if (sim::chance(1, 2)) a = std::move(t); else m.clear(); break; }
      case 27: if constexpr (!std::is_same_v<T, Aligned> && !std::is_same_v<T, Aligned2> && !std::is_same_v<T, Any> && !std::is_same_v<T, Pod3>) { bool e = a == s[j]; SIM_CHECK(e == (m == r[j]) && (a != s[j]) == !e, "compare", "== of %zu and %zu elements", n, r[j].size()); if (!e || 1) { if constexpr (!std::is_same_v<T, std::string>) SIM_CHECK((a < s[j]) == (m < r[j]), "compare", "< of %zu and %zu elements", n, r[j].size()); } if (attempt(j, "copy", false, [&] { S t(a); SIM_CHECK(t == a && !(t != a) && !(t < a), "compare", "a copy differs"); if (n) { t[o] = mk<T>(m[o] == 1 ? 0 : 1); if (sim::chance(1, 2)) t[n - 1] = mk<T>(m[n - 1] == 1 ? 0 : 1); SIM_CHECK(!(t == a), "compare", "sequences that differ at %zu of %zu compare equal", o, n); check(a, m, "the original of a changed copy"); } })) {} } break;
      case 28: { // more than can exist
        int w = (int)sim::below(4); size_t huge = w & 1 ? ~(size_t)0 / (sizeof(T) + (sizeof(T) == 1)) + 1 - sim::below(3) : ~(size_t)0 - sim::below(40); bool threw = false; Blocks::arm() = 0; try { if (sim::chance(1, 3)) { S t(huge); } else if (sim::chance(1, 2)) a.reserve(huge); else a.resize(huge, mk<T>(x)); } catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { threw = true; } SIM_CHECK(threw, "length", "no exception for %zu elements", huge); check(a, m, "the sequence after a failed request"); break; }
      default: views(a, m); } 
    check(a, m, "the sequence"); if (sim::chance(1, 4)) check(s[j], r[j], "the other sequence"); }
};
template <class S> void history() { Scope sc; Blocks::reset(); { Hist<S> h; int n = 1 + (int)sim::param_log("steps", 0, sim::instrumented() ? 60 : 200); for (int i = 0; i < n; i++) h.step(); for (size_t i = 0; i < h.K; i++) { check(h.s[i], h.r[i], "at the end"); views(h.s[i], h.r[i]); } } SIM_CHECK(Blocks::live() == 0, "leak", "%zu blocks of memory were not given back", Blocks::live()); }
template <class T> using Q = parlay::sequence<T>; template <class T> using QF = parlay::sequence<T, Fail<T>>; template <class T> using SS = parlay::short_sequence<T>; template <class T> using SF = parlay::short_sequence<T, Fail<T>>;
}
#if SIM_PART(1)
SIM_SCENARIO(ints, 3) { with_sched([] { if (sim::param("alloc", 0, 1)) history<QF<int>>(); else history<Q<int>>(); }); }
#endif
#if SIM_PART(2)
SIM_SCENARIO(short_sequences, 4) { with_sched([] { switch (sim::param("type", 0, 2)) { case 0: history<SF<char>>(); break; case 1: history<SF<Pod3>>(); break; default: history<SS<uint64_t>>(); } }); }
#endif
#if SIM_PART(3)
SIM_SCENARIO(objects, 4) { with_sched([] { if (sim::param("alloc", 0, 1)) history<QF<Cp>>(); else history<Q<Cp>>(); }); }
#endif
#if SIM_PART(4)
SIM_SCENARIO(relocatable_objects, 3) { with_sched([] { switch (sim::param("type", 0, 2)) { case 0: history<QF<Tr>>(); break; case 1: history<Q<Tr>>(); break; default: history<QF<Huge>>(); } }); }
#endif
#if SIM_PART(5)
SIM_SCENARIO(strings, 3) { with_sched([] { switch (sim::param("type", 0, 2)) { case 0: history<QF<std::string>>(); break; case 1: history<Q<bool>>(); break; default: history<SF<std::string>>(); } }); }
#endif
#if SIM_PART(6)
SIM_SCENARIO(odd_types, 3) { with_sched([] { switch (sim::param("type", 0, 3)) { case 0: history<Q<Aligned>>(); break; case 1: history<Q<Aligned2>>(); break; case 2: history<QF<Any>>(); break; default: history<QF<Any>>(); } }); }
#endif
