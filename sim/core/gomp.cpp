#include "gomp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include "sim.h"

// ---- fibers -------------------------------------------------------------------------------------
extern "C" void simomp_switch(void **save, void *load);
asm(R"(
.text
.globl simomp_switch
.type simomp_switch,@function
simomp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simomp_switch,.-simomp_switch
)");
extern "C" void *__cxa_get_globals();

namespace simomp
{
namespace
{
struct EhGlobals {
  void *caught = nullptr;
  unsigned uncaught = 0;
};
const size_t kStack = 4u << 20;
std::vector<char *> g_stacks;
char *new_stack()
{
  if (!g_stacks.empty()) {
    char *s = g_stacks.back();
    g_stacks.pop_back();
    return s;
  }
  void *p = mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    abort();
  return static_cast<char *>(p);
}
struct Ull {
  unsigned long long v;
};
// a work-sharing construct; the n-th one of a team is shared by all its threads
struct Share {
  bool init = false;
  bool ull = false, up = true;
  long long s = 0, e = 0, inc = 1, chunk = 0, next = 0;
  int kind = 0;  // 0 static 1 dynamic 2 guided
  unsigned sections = 0, next_section = 1;
  bool single_taken = false;
  void *copy = nullptr;
  std::vector<long long> pos;
  int ended = 0;
};
struct Team;
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  EhGlobals eh;
  unsigned id = 0;
  bool done = false;
  long share = -1;
  unsigned long long barrier = 0;
  const void *waiting = nullptr;  // lock it waits for
  Team *team = nullptr;
};
struct Team {
  std::vector<Fiber> f;
  std::deque<Share> shares;
  unsigned n = 1;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  unsigned long long barrier_gen = 0;
  unsigned at_barrier = 0;
  unsigned finished = 0;
  Team *outer = nullptr;
  Fiber *outer_fiber = nullptr;
};
Config g_cfg;
Stats g_st;
sim::Rng g_rng(1);
size_t g_decision = 0;
Team *g_team = nullptr;
Fiber *g_cur = nullptr;
void *g_main_sp = nullptr;
EhGlobals g_main_eh;
int g_limit = 0;  // omp_set_num_threads
std::unordered_map<const void *, Fiber *> g_locks;
bool g_in_runtime = false;

void put_eh(const EhGlobals &e)
{
  auto *g = static_cast<EhGlobals *>(__cxa_get_globals());
  g->caught = e.caught;
  g->uncaught = e.uncaught;
}
EhGlobals get_eh()
{
  auto *g = static_cast<EhGlobals *>(__cxa_get_globals());
  EhGlobals e;
  e.caught = g->caught;
  e.uncaught = g->uncaught;
  return e;
}
bool runnable(const Fiber &f)
{
  if (f.done || f.barrier > g_team->barrier_gen)
    return false;
  if (f.waiting) {
    auto it = g_locks.find(f.waiting);
    if (it != g_locks.end() && it->second)
      return false;
  }
  return true;
}
// next fiber to run, nullptr: none can run
Fiber *choose(bool include_current)
{
  Fiber *c[128];
  size_t n = 0;
  for (auto &f : g_team->f)
    if ((include_current || &f != g_cur) && runnable(f) && n < 128)
      c[n++] = &f;
  if (!n)
    return nullptr;
  Fiber *r = c[g_rng.below(n)];
  return r;
}
void jump(Fiber *to)
{
  if (to == g_cur)
    return;
  ++g_st.switches;
  g_st.schedule_hash = sim::hmix(g_st.schedule_hash, to->id * 1000003ull + (g_st.points & 0xffffffff));
  Fiber *from = g_cur;
  from->eh = get_eh();
  g_cur = to;
  put_eh(to->eh);
  simomp_switch(&from->sp, to->sp);
}
void leave()  // the current fiber is done or blocked
{
  Fiber *n = choose(false);
  if (n) {
    jump(n);
    return;
  }
  if (g_team->finished == g_team->n) {
    Fiber *from = g_cur;
    g_cur = nullptr;
    put_eh(g_main_eh);
    simomp_switch(&from->sp, g_main_sp);
    return;
  }
  if (runnable(*g_cur))
    return;
  fprintf(stderr, "deadlock of simulated threads\n");
  abort();
}
void maybe_switch(double p)
{
  if (!g_cur || g_team->n < 2)
    return;
  ++g_st.points;
  if (!g_rng.chance(p))
    return;
  Fiber *n = choose(false);
  if (n)
    jump(n);
}
void body()
{
  Team *t = g_team;
  try {
    t->fn(t->data);
  } catch (...) {
    fprintf(stderr, "exception leaves a parallel region\n");
    abort();
  }
  g_cur->done = true;
  ++t->finished;
  // threads waiting at a barrier do not wait for finished ones in valid programs
  leave();
  abort();
}
void run_team(void (*fn)(void *), void *data, unsigned want, std::function<void(Team &)> prep = nullptr)
{
  struct Quiet {
    Quiet() { ++sim::mem::suspended; }
    ~Quiet() { --sim::mem::suspended; }
  } quiet;
  Team t;
  unsigned n = want ? want : unsigned(g_limit > 0 ? g_limit : int(g_cfg.procs));
  if (n > 64)
    n = 64;
  if (g_team)
    n = 1;  // nested regions get one thread
  unsigned req = n;
  if (n > g_cfg.granted)
    n = g_cfg.granted < 1 ? 1 : g_cfg.granted;
  if (n < req && !g_team)
    ++g_st.reduced;
  t.n = n;
  t.fn = fn;
  t.data = data;
  if (n > g_st.max_team)
    g_st.max_team = n;
  ++g_st.regions;
  g_st.threads += n;
  if (g_team || n == 1) {
    // one thread: no fiber needed
    t.outer = g_team;
    t.outer_fiber = g_cur;
    t.f.resize(1);
    t.f[0].team = &t;
    if (prep)
      prep(t);
    g_team = &t;
    g_cur = &t.f[0];
    fn(data);
    g_team = t.outer;
    g_cur = t.outer_fiber;
    return;
  }
  t.f.resize(n);
  if (prep)
    prep(t);
  for (unsigned i = 0; i < n; ++i) {
    Fiber &f = t.f[i];
    f.id = i;
    f.team = &t;
    f.stack = new_stack();
    uintptr_t top = (reinterpret_cast<uintptr_t>(f.stack) + kStack) & ~uintptr_t(63);
    void **sp = reinterpret_cast<void **>(top);
    *--sp = nullptr;  // keeps the stack aligned as after a call
    *--sp = reinterpret_cast<void *>(&body);
    for (int k = 0; k < 6; ++k)
      *--sp = nullptr;
    f.sp = sp;
  }
  g_team = &t;
  g_main_eh = get_eh();
  Fiber *first = g_rng.chance(g_cfg.run_first) ? &t.f[g_rng.below(n)] : &t.f[0];
  g_cur = first;
  put_eh(first->eh);
  simomp_switch(&g_main_sp, first->sp);
  g_team = nullptr;
  g_cur = nullptr;
  for (auto &f : t.f)
    g_stacks.push_back(f.stack);
}
Share &enter_share()
{
  static Share solo;
  if (!g_cur) {
    solo = Share();
    return solo;
  }
  ++g_cur->share;
  while (long(g_team->shares.size()) <= g_cur->share)
    g_team->shares.emplace_back();
  return g_team->shares[size_t(g_cur->share)];
}
Share &this_share()
{
  static Share solo;
  return g_cur && g_cur->share >= 0 ? g_team->shares[size_t(g_cur->share)] : solo;
}
unsigned tid()
{
  return g_cur ? g_cur->id : 0;
}
unsigned tn()
{
  return g_team ? g_team->n : 1;
}
void init_loop(Share &s, int kind, long long a, long long b, long long inc, long long chunk)
{
  if (s.init)
    return;
  s.init = true;
  s.kind = kind;
  s.s = s.next = a;
  s.e = b;
  s.inc = inc;
  s.chunk = chunk > 0 ? chunk : 0;
  s.pos.assign(tn(), 0);
}
// iterations are counted, so that direction and signedness do not matter
bool next_chunk(Share &s, long long &a, long long &b)
{
  if (s.pos.empty())
    s.pos.assign(tn(), 0);
  unsigned long long total = 0;
  if (s.inc > 0 ? s.e > s.s : s.e < s.s) {
    unsigned long long span = s.inc > 0 ? (unsigned long long)(s.e - s.s) : (unsigned long long)(s.s - s.e);
    unsigned long long st = s.inc > 0 ? (unsigned long long)s.inc : (unsigned long long)(-s.inc);
    total = (span + st - 1) / st;
  }
  unsigned long long from, to;
  if (s.kind == 0) {
    unsigned t = tid(), n = tn();
    if (s.chunk == 0) {
      if (s.pos[t]++)
        return false;
      unsigned long long q = total / n, r = total % n;
      from = t < r ? t * (q + 1) : t * q + r;
      to = from + q + (t < r);
    } else {
      unsigned long long k = (unsigned long long)s.pos[t]++ * n + t;
      from = k * (unsigned long long)s.chunk;
      to = from + (unsigned long long)s.chunk;
    }
  } else {
    maybe_switch(g_cfg.sync_rate);
    from = (unsigned long long)s.next;
    if (s.pos[0] == 0 && s.next == s.s)
      from = 0, s.pos[0] = 1, s.next = 0;
    unsigned long long c = s.chunk ? (unsigned long long)s.chunk : 1;
    if (s.kind == 2 && total > from) {
      unsigned long long g = (total - from + tn() - 1) / tn();
      c = g > c ? g : c;
    }
    to = from + c;
    s.next = (long long)(to < total ? to : total);
    ++g_st.dynamic_chunks;
  }
  if (to > total)
    to = total;
  if (from >= to)
    return false;
  a = s.s + (long long)from * s.inc;
  b = s.s + (long long)to * s.inc;
  if (to == total)
    b = s.e;
  return true;
}
void barrier()
{
  if (!g_cur || g_team->n < 2)
    return;
  ++g_st.barriers;
  if (++g_team->at_barrier == g_team->n) {
    g_team->at_barrier = 0;
    ++g_team->barrier_gen;
    for (auto &f : g_team->f)
      f.barrier = 0;
    maybe_switch(g_cfg.sync_rate);
    return;
  }
  g_cur->barrier = g_team->barrier_gen + 1;
  leave();
}
void lock(const void *l)
{
  if (!g_cur || g_team->n < 2) {
    return;
  }
  maybe_switch(g_cfg.sync_rate);
  while (true) {
    auto &o = g_locks[l];
    if (!o) {
      o = g_cur;
      g_cur->waiting = nullptr;
      return;
    }
    g_cur->waiting = l;
    leave();
    g_cur->waiting = nullptr;
  }
}
void unlock(const void *l)
{
  if (!g_cur || g_team->n < 2)
    return;
  g_locks[l] = nullptr;
  maybe_switch(g_cfg.sync_rate);
}

// ---- recording of shared accesses -----------------------------------------------------------------
struct Word {
  uint64_t region = 0;
  uint8_t readers = 0, writers = 0;
};
bool g_record = false;
std::unordered_map<uintptr_t, Word> g_words;
std::unordered_set<uintptr_t> g_conf;
}  // namespace

bool only_conflicting = false;
void configure(const Config &c)
{
  g_cfg = c;
  g_st = Stats();
  g_rng = sim::Rng(c.seed);
  g_limit = 0;
  g_locks.clear();
}
Stats &stats()
{
  return g_st;
}
bool in_region()
{
  return g_cur && g_team->n > 1;
}
void sync_point()
{
  maybe_switch(g_cfg.sync_rate);
}
void record_accesses(bool on)
{
  g_record = on;
}
size_t conflicting()
{
  return g_conf.size();
}
void clear_record()
{
  g_words.clear();
  g_conf.clear();
}
void access(void *addr, size_t n, bool write)
{
  if (!g_cur || g_team->n < 2 || g_in_runtime)
    return;
  uintptr_t a = reinterpret_cast<uintptr_t>(addr) >> 3;
  ++g_st.accesses;
  if (g_record) {
    g_in_runtime = true;
    uintptr_t e = (reinterpret_cast<uintptr_t>(addr) + (n ? n - 1 : 0)) >> 3;
    if (e - a > 4096)
      e = a + 4096;
    for (uintptr_t w = a; w <= e; ++w) {
      Word &x = g_words[w];
      if (x.region != g_st.regions) {
        x.region = g_st.regions;
        x.readers = x.writers = 0;
      }
      uint8_t bit = uint8_t(1u << (g_cur->id & 7));
      (write ? x.writers : x.readers) |= bit;
      uint8_t all = x.readers | x.writers;
      if (x.writers && (all & uint8_t(all - 1)))
        g_conf.insert(w);
    }
    g_in_runtime = false;
  }
  if (g_cfg.switch_rate <= 0)
    return;
  if (only_conflicting) {
    bool hit = false;
    uintptr_t e = (reinterpret_cast<uintptr_t>(addr) + (n ? n - 1 : 0)) >> 3;
    for (uintptr_t w = a; w <= e && w < a + 64 && !hit; ++w)
      hit = g_conf.count(w) > 0;
    if (!hit)
      return;
  }
  maybe_switch(g_cfg.switch_rate);
}
}  // namespace simomp

using namespace simomp;
#define API extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;
typedef void (*fn_t)(void *);

API void GOMP_parallel(fn_t fn, void *data, unsigned n, unsigned) { run_team(fn, data, n); }
API unsigned GOMP_parallel_reductions(fn_t fn, void *data, unsigned n, unsigned)
{
  run_team(fn, data, n);
  return n;
}
API void GOMP_barrier() { barrier(); }
API bool GOMP_barrier_cancel()
{
  barrier();
  return false;
}
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }
static char g_crit, g_atomic, g_ordered;
API void GOMP_critical_start() { lock(&g_crit); }
API void GOMP_critical_end() { unlock(&g_crit); }
API void GOMP_critical_name_start(void **p) { lock(p); }
API void GOMP_critical_name_end(void **p) { unlock(p); }
API void GOMP_atomic_start() { lock(&g_atomic); }
API void GOMP_atomic_end() { unlock(&g_atomic); }
API void GOMP_ordered_start() { lock(&g_ordered); }
API void GOMP_ordered_end() { unlock(&g_ordered); }

static bool loop_start(int kind, long a, long b, long inc, long chunk, long *ia, long *ib)
{
  Share &s = enter_share();
  init_loop(s, kind, a, b, inc, chunk);
  long long x, y;
  if (!next_chunk(s, x, y))
    return false;
  *ia = long(x);
  *ib = long(y);
  return true;
}
static bool loop_next(long *ia, long *ib)
{
  long long x, y;
  if (!next_chunk(this_share(), x, y))
    return false;
  *ia = long(x);
  *ib = long(y);
  return true;
}
static bool uloop_start(int kind, bool up, ull a, ull b, ull inc, ull chunk, ull *ia, ull *ib)
{
  Share &s = enter_share();
  (void)up;
  init_loop(s, kind, (long long)a, (long long)b, (long long)inc, (long long)chunk);
  long long x, y;
  if (!next_chunk(s, x, y))
    return false;
  *ia = ull(x);
  *ib = ull(y);
  return true;
}
static bool uloop_next(ull *ia, ull *ib)
{
  long long x, y;
  if (!next_chunk(this_share(), x, y))
    return false;
  *ia = ull(x);
  *ib = ull(y);
  return true;
}
#define LOOP(NAME, KIND)                                                                                        \
  API bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long *x, long *y)                          \
  {                                                                                                             \
    return loop_start(KIND, a, b, i, c, x, y);                                                                  \
  }                                                                                                             \
  API bool GOMP_loop_##NAME##_next(long *x, long *y) { return loop_next(x, y); }                               \
  API bool GOMP_loop_ull_##NAME##_start(bool u, ull a, ull b, ull i, ull c, ull *x, ull *y)                    \
  {                                                                                                             \
    return uloop_start(KIND, u, a, b, i, c, x, y);                                                              \
  }                                                                                                             \
  API bool GOMP_loop_ull_##NAME##_next(ull *x, ull *y) { return uloop_next(x, y); }                            \
  API void GOMP_parallel_loop_##NAME(fn_t fn, void *d, unsigned n, long a, long b, long i, long c, unsigned)   \
  {                                                                                                             \
    run_team(fn, d, n, [&](Team &t) {                                                                           \
      t.shares.emplace_back();                                                                                  \
      Share &s = t.shares.back();                                                                               \
      s.init = true;                                                                                            \
      s.kind = KIND;                                                                                            \
      s.s = s.next = a;                                                                                         \
      s.e = b;                                                                                                  \
      s.inc = i;                                                                                                \
      s.chunk = c > 0 ? c : 0;                                                                                  \
      s.pos.assign(t.n, 0);                                                                                     \
      for (auto &f : t.f)                                                                                       \
        f.share = 0;                                                                                            \
    });                                                                                                         \
  }
LOOP(static, 0)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
LOOP(ordered_static, 0)
LOOP(ordered_dynamic, 1)
LOOP(ordered_guided, 2)
#define RLOOP(NAME)                                                                                             \
  API bool GOMP_loop_##NAME##_start(long a, long b, long i, long *x, long *y)                                  \
  {                                                                                                             \
    return loop_start(1, a, b, i, 1, x, y);                                                                     \
  }                                                                                                             \
  API bool GOMP_loop_##NAME##_next(long *x, long *y) { return loop_next(x, y); }                               \
  API bool GOMP_loop_ull_##NAME##_start(bool u, ull a, ull b, ull i, ull *x, ull *y)                           \
  {                                                                                                             \
    return uloop_start(1, u, a, b, i, 1, x, y);                                                                 \
  }                                                                                                             \
  API bool GOMP_loop_ull_##NAME##_next(ull *x, ull *y) { return uloop_next(x, y); }                            \
  API void GOMP_parallel_loop_##NAME(fn_t fn, void *d, unsigned n, long a, long b, long i, unsigned f)         \
  {                                                                                                             \
    GOMP_parallel_loop_dynamic(fn, d, n, a, b, i, 1, f);                                                        \
  }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
API void GOMP_loop_end() { barrier(); }
API void GOMP_loop_end_nowait() {}
API bool GOMP_loop_end_cancel()
{
  barrier();
  return false;
}
API bool GOMP_single_start()
{
  Share &s = enter_share();
  maybe_switch(0.5);
  if (s.single_taken)
    return false;
  s.single_taken = true;
  return true;
}
API void *GOMP_single_copy_start()
{
  Share &s = enter_share();
  if (!s.single_taken) {
    s.single_taken = true;
    return nullptr;
  }
  barrier();
  return s.copy;
}
API void GOMP_single_copy_end(void *p)
{
  this_share().copy = p;
  barrier();
}
static unsigned section_next(Share &s)
{
  maybe_switch(0.5);
  return s.next_section <= s.sections ? s.next_section++ : 0;
}
API unsigned GOMP_sections_start(unsigned n)
{
  Share &s = enter_share();
  s.sections = n;
  return section_next(s);
}
API unsigned GOMP_sections_next() { return section_next(this_share()); }
API void GOMP_parallel_sections(fn_t fn, void *d, unsigned n, unsigned count, unsigned)
{
  run_team(fn, d, n, [&](Team &t) {
    t.shares.emplace_back();
    t.shares.back().sections = count;
    for (auto &f : t.f)
      f.share = 0;
  });
}
API void GOMP_sections_end() { barrier(); }
API void GOMP_sections_end_nowait() {}
API bool GOMP_sections_end_cancel()
{
  barrier();
  return false;
}
API void GOMP_task(fn_t fn, void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
  if (cpy) {
    std::vector<char> b(size_t(size + align));
    char *p = reinterpret_cast<char *>((reinterpret_cast<uintptr_t>(b.data()) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
    cpy(p, data);
    fn(p);
  } else
    fn(data);
}
API void GOMP_taskwait() {}
API void GOMP_taskyield() { maybe_switch(0.5); }
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() {}

API int omp_get_thread_num() { return int(tid()); }
API int omp_get_num_threads() { return int(tn()); }
API int omp_get_max_threads() { return g_limit > 0 ? g_limit : int(g_cfg.procs); }
API void omp_set_num_threads(int n) { g_limit = n; }
API int omp_in_parallel() { return in_region(); }
API int omp_get_num_procs() { return int(g_cfg.procs); }
API void omp_set_dynamic(int) {}
API int omp_get_dynamic() { return 1; }
API void omp_set_nested(int) {}
API int omp_get_nested() { return 0; }
API int omp_get_level() { return g_team ? 1 : 0; }
API int omp_get_thread_limit() { return int(g_cfg.granted); }
API double omp_get_wtime()
{
  static double t = 0;
  return t += 1e-6;
}
API double omp_get_wtick() { return 1e-9; }
API void omp_init_lock(void *) {}
API void omp_destroy_lock(void *) {}
API void omp_set_lock(void *l) { lock(l); }
API void omp_unset_lock(void *l) { unlock(l); }
API int omp_test_lock(void *l)
{
  if (!g_cur)
    return 1;
  maybe_switch(g_cfg.sync_rate);
  auto &o = g_locks[l];
  if (o)
    return 0;
  o = g_cur;
  return 1;
}
API void omp_init_nest_lock(void *) {}
API void omp_destroy_nest_lock(void *) {}
API void omp_set_nest_lock(void *l)
{
  auto it = g_locks.find(l);
  if (it != g_locks.end() && it->second && it->second == g_cur)
    return;
  lock(l);
}
API void omp_unset_nest_lock(void *l) { unlock(l); }
