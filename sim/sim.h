// Deterministic simulation core: one seed (or one recorded choice trace) is
// one exactly repeatable execution.  Every choice of a run goes through
// sim::draw(); the log, the oracle and the counters never draw.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------
// uniform in [0, n); 0 is always the simplest alternative ("no fault").
uint32_t draw(uint32_t n);
inline int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
// signed value with |v| <= mag; 0 simplest, then +1, -1, +2, ...
inline int around(int mag) {
  uint32_t v = draw(2 * (uint32_t)mag + 1);
  return (v & 1) ? (int)(v / 2 + 1) : -(int)(v / 2);
}
// true with probability num/den; shrinks to false
inline bool chance(uint32_t num, uint32_t den) { return den - num <= draw(den); }
// generic real in (lo, hi): never a "knife edge" such as lo, hi or a half
inline double real(double lo, double hi) {
  const uint32_t N = 1u << 20;
  return lo + (hi - lo) * ((double)draw(N) + 0.3717) / (double)N;
}
// real around zero; shrinks towards 0
inline double sreal(double mag) {
  const uint32_t N = 1u << 20;
  uint32_t v = draw(N);
  double m = mag * ((double)(v >> 1) + 0.3717) / (double)(N >> 1);
  return (v & 1) ? m : -m;
}
template <typename T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
// weighted choice: index i with probability w[i]/sum
int weighted(const std::vector<int> &w);

struct Span { Span(); ~Span(); };   // a unit the shrinker may delete

// ---- recording -----------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash(uint64_t v);              // into the log hash, no text
inline void hashd(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); hash(u); }
uint64_t log_hash();
void state(uint64_t h);             // a visited abstract state
void fault(const char *kind, uint64_t n = 1);   // a fault that really fired
void probe(const char *name, uint64_t n = 1);   // a rare condition reached
void step(uint64_t n = 1);
void advance(double seconds);       // simulated time
double now();
void nontrivial();                  // this run exercised the property

// ---- verdicts ------------------------------------------------------------
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void checked(uint64_t n = 1);       // oracle evaluations made
// expect(cond, class, fmt, ...)
#define EXPECT(cond, cls, ...) do { ::sim::checked(); if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
[[noreturn]] void finish_ok();      // ends the run early, successfully
// run fn in a forked child with private memory; returns what fn wrote
std::vector<uint8_t> isolated(const std::function<void(std::vector<uint8_t> &)> &fn);

void set_quiet_death();   // from now on aborts of this process are its exit status 134, not a failure of the run
void die_if_failed();     // a forked child already recorded a failure

// assertion hook: when set, called instead of reporting a violation
using AssertHook = void (*)(const char *expr, const char *file, unsigned line);
extern AssertHook assert_hook;
// prefix for the class of crashes (asserts, sanitizer reports, exceptions)
void phase(const char *name);

// ---- allocation faults ---------------------------------------------------
// arms: the k-th (1-based) operator new from now throws std::bad_alloc.
struct AllocFault {
  explicit AllocFault(uint64_t kth);   // 0 = do not arm, just count
  ~AllocFault();
  bool fired() const;
  uint64_t count() const;              // allocations since construction
  void disarm();
};
void set_live_cap(size_t bytes);       // exceeding it throws bad_alloc; 0 = off
size_t live_bytes();
// seeds handed to std::random_device (deterministic interposition)
void set_entropy(uint32_t base);
uint64_t entropy_reads();

// ---- scenarios -----------------------------------------------------------
struct Scenario { const char *name; void (*fn)(); Scenario *next; Scenario(const char *, void (*)()); };
#define SCENARIO(ident, name) \
  static void scen_##ident(); \
  static ::sim::Scenario reg_##ident{name, &scen_##ident}; \
  static void scen_##ident()

std::string scratch();                 // private directory of this run

}  // namespace sim
#endif
