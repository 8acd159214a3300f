#pragma once
// Self-checking operations covering the whole library, from which C27 and C28 put random programs together.
// Every operation works on data of its own, derived from a key, and compares what the library gives with a sequential reference.
#include "common.h"
#include <parlay/primitives.h>
#include <map>
#include <numeric>
#include <set>
namespace prog {
using namespace hx;
struct Op { const char* name; void (*f)(size_t n, uint64_t k); Op* next; };
Op*& ops(); // defined in programs.h's owner part
struct RegOp { Op o; RegOp(const char* n, void (*f)(size_t, uint64_t)) : o{n, f, nullptr} { Op** p = &ops(); while (*p) p = &(*p)->next; *p = &o; } };
#define OP(nm) static void op_##nm(size_t n, uint64_t k); static ::prog::RegOp reg_##nm(#nm, op_##nm); static void op_##nm([[maybe_unused]] size_t n, [[maybe_unused]] uint64_t k)
inline uint64_t X(uint64_t k, size_t i) { return sim::mix(k, i); }
template <class T = long> parlay::sequence<T> data(size_t n, uint64_t k, uint64_t range) { return parlay::tabulate(n, [=](size_t i) { return (T)(X(k, i) % range); }); }
template <class T = long> std::vector<T> ref(size_t n, uint64_t k, uint64_t range) { std::vector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = (T)(X(k, i) % range); return v; }
template <class A, class B> void eq(const A& a, const B& b, const char* what) { same(a, b, "result", what); }
#define EQ(a, b, what) do { auto va_ = (a); auto vb_ = (b); SIM_CHECK(va_ == vb_, "result", "%s: %ld instead of %ld", what, (long)(va_), (long)(vb_)); } while (0)
inline std::string word(uint64_t x) { std::string s = std::to_string(x); return x % 3 ? s : std::string(30, 'x') + s; }
inline size_t size_for(size_t big) { size_t r = sim::below(20); size_t hi = sim::instrumented() ? big : 3 * big; return r < 8 ? sim::below(12) : r < 14 ? sim::below(200) : r < 19 ? sim::below(hi / 6 + 1) : sim::below(hi); }
struct List { std::vector<Op*> v; List() { for (Op* o = ops(); o; o = o->next) v.push_back(o); } Op* pick() const { return v[sim::below(v.size())]; } };
} // namespace prog
