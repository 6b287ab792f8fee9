// Deterministic simulation core: one integer seed -> one plan -> one execution.
//
// A Plan is a list of steps (operations and faults) plus configuration values.  Executing a plan is
// a pure function of the plan and the code under test: the only randomness is Rng, seeded from the
// plan; the allocator hands out memory filled from the plan's own pattern; the wall clock is not
// visible.  Worlds (sim/worlds/*.cpp) provide generate() and execute(); main.cpp searches seeds,
// gates and minimises violations and replays plan files.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim
{
struct Rng {
  uint64_t s;
  // the seed is mixed first: neighbouring seeds must not give shifted copies of one stream
  explicit Rng(uint64_t seed = 1) : s(seed + 0xD1B54A32D192ED03ull)
  {
    uint64_t a = next(), b = next();
    s = a ^ (b << 1);
    next();
  }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a + 1))); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * u(); }
  bool chance(double p) { return u() < p; }
  double gauss()
  {
    double a = u(), b = u();
    if (a < 1e-300)
      a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <typename T>
  const T &pick(const std::vector<T> &v)
  {
    return v[below(v.size())];
  }
};

struct Step {
  std::string op;
  long fail = 0;  // the fail-th allocation made by this step fails (0: none)
  std::vector<double> a;
  Step() {}
  Step(const std::string &o, std::vector<double> args = {}, long f = 0) : op(o), fail(f), a(args) {}
  double arg(size_t i, double dflt = 0) const { return i < a.size() ? a[i] : dflt; }
  long iarg(size_t i, long dflt = 0) const { return i < a.size() ? std::lround(a[i]) : dflt; }
};

struct Plan {
  std::map<std::string, double> cfg;
  std::vector<Step> steps;
  double get(const std::string &k, double d = 0) const
  {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  std::string text() const;
  static Plan parse(const std::string &txt);
};

struct Violation {
  std::string prop, cls, msg;
};
struct EndRun {
};  // run ends quietly (known finding, unrecoverable foreign violation)

// Per-run context; also aggregates counters over the runs of a worker.
struct Ctx {
  std::string active;                        // property under check, or "all"
  std::map<std::string, bool> known;         // violation classes listed as known findings
  std::map<std::string, uint64_t> counters;  // ops, probes ("probe:x"), faults ("fault:x")
  std::map<std::string, uint64_t> known_hits;
  std::map<std::string, uint64_t> foreign;
  std::unordered_set<uint64_t> states;
  uint64_t states_total = 0;
  double sim_time = 0;
  uint64_t hash = 1469598103934665603ull;
  uint64_t run_interesting = 0;  // bumped by worlds when a run did something non-trivial
  bool trace = false;            // print observations (replay mode)
  size_t step = 0;

  void reset_run()
  {
    hash = 1469598103934665603ull;
    run_interesting = 0;
    step = 0;
  }
  void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
  void fault(const std::string &k, uint64_t n = 1) { counters["fault:" + k] += n; }
  void probe(const std::string &k, uint64_t n = 1)
  {
    counters["probe:" + k] += n;
    run_interesting += n;
  }
  void mix(uint64_t v)
  {
    hash ^= v + 0x9E3779B97F4A7C15ull + (hash << 6) + (hash >> 2);
    hash *= 1099511628211ull;
  }
  void obs(double d)
  {
    uint64_t v;
    if (d == 0)
      d = 0;
    std::memcpy(&v, &d, 8);
    mix(v);
  }
  void obs(const std::string &s)
  {
    for (char c : s)
      mix(static_cast<unsigned char>(c));
    mix(s.size());
  }
  void state(uint64_t h)
  {
    ++states_total;
    if (states.size() < 400000)
      states.insert(h);
  }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // Does the active property care?
  bool on(const char *prop) const { return active == "all" || active == prop; }
  void fail(const std::string &prop, const std::string &cls, const char *fmt, ...)
      __attribute__((format(printf, 4, 5)));
};

#define SIM_CHECK(ctx, prop, cls, cond, ...)                                                                           \
  do {                                                                                                                 \
    if (!(cond))                                                                                                       \
      (ctx).fail(prop, cls, __VA_ARGS__);                                                                              \
  } while (0)

// ---- allocation seam -------------------------------------------------------------------------
// All operator new and (where linked with --wrap) malloc calls of the world go through here.
namespace mem
{
void arm(long nth);          // the nth counted allocation from now on throws / returns null (0: disarm)
long disarm();               // returns number of allocations seen since arm()
bool fired();                // did the armed failure fire since arm()
void set_fill(uint32_t pat); // pattern for fresh memory
void shuffle(uint64_t seed); // other than 0: fresh small blocks lie in seeded order (not in worlds with their own heap)
void dirty_stack(uint64_t seed);  // leaves seeded numbers where the next call's locals will lie
extern int suspended;        // above 0: armed failures wait (inside parallel regions an exception cannot be caught)
extern size_t cap_bytes;     // a single allocation above this fails as out-of-memory
}

// Runs f with the step's allocation failure armed. Returns true if f completed, false if it threw
// bad_alloc because of an injected failure.
template <typename F>
bool with_alloc_fault(Ctx &ctx, long nth, F f)
{
  if (nth <= 0) {
    f();
    return true;
  }
  mem::arm(nth);
  try {
    f();
  } catch (const std::bad_alloc &) {
    bool fd = mem::fired();
    mem::disarm();
    if (!fd)
      throw;
    ctx.fault("alloc_failure");
    return false;
  } catch (...) {
    mem::disarm();
    throw;
  }
  bool fd = mem::fired();
  mem::disarm();
  if (fd)
    ctx.fault("alloc_failure_absorbed");
  return true;
}

// ---- world interface (implemented once per binary) ---------------------------------------------
const char *world_name();
Plan world_generate(uint64_t seed, const std::string &prop, const std::string &tier);
void world_execute(const Plan &plan, Ctx &ctx);
std::string world_describe();  // which components are real, which are stubs
int world_cpu_limit();         // CPU seconds a single run may use before it counts as a hang
bool world_fork_each();        // run each seed in its own forked process

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline uint64_t hmix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h * 1099511628211ull;
}
}  // namespace sim
