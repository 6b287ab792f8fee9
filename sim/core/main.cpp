// Seed search, violation gate, minimiser and replay for one world.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <new>
#include <sstream>
#include "sim.h"

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options()
{
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:"
         "max_allocation_size_mb=1024:malloc_context_size=4:fast_unwind_on_malloc=1:quarantine_size_mb=16:"
         "alloc_dealloc_mismatch=0:symbolize=0:"
         "use_madv_dontdump=0";
}
#endif

namespace sim
{
namespace mem
{
size_t cap_bytes = size_t(1) << 30;
int suspended = 0;
static long g_left = 0, g_seen = 0;
static bool g_armed = false, g_fired = false;
static uint32_t g_fill = 0xA5A5A5A5u;
static bool g_do_fill = true;
void arm(long nth)
{
  g_left = nth;
  g_seen = 0;
  g_fired = false;
  g_armed = nth > 0;
}
long disarm()
{
  g_armed = false;
  return g_seen;
}
bool fired()
{
  return g_fired;
}
void set_fill(uint32_t p)
{
  g_fill = p;
}
// true: this allocation must fail
bool hit(size_t n)
{
  if (n > cap_bytes)
    return true;
  if (!g_armed || suspended > 0)
    return false;
  ++g_seen;
  if (--g_left == 0) {
    g_fired = true;
    g_armed = false;  // one failure per arming
    return true;
  }
  return false;
}
void fill(void *p, size_t n)
{
  if (!g_do_fill)
    return;
  if (n > 65536)
    n = 65536;
  uint32_t *w = static_cast<uint32_t *>(p);
  for (size_t i = 0; i < n / 4; ++i)
    w[i] = g_fill;
}
}  // namespace mem

std::string Plan::text() const
{
  std::ostringstream o;
  char b[64];
  for (auto &c : cfg) {
    snprintf(b, sizeof b, "%.17g", c.second);
    o << "cfg " << c.first << " " << b << "\n";
  }
  for (auto &s : steps) {
    o << "step " << s.op << " " << s.fail;
    for (double d : s.a) {
      snprintf(b, sizeof b, " %.17g", d);
      o << b;
    }
    o << "\n";
  }
  return o.str();
}
Plan Plan::parse(const std::string &txt)
{
  Plan p;
  std::istringstream in(txt);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "cfg") {
      std::string name, v;
      l >> name >> v;
      p.cfg[name] = strtod(v.c_str(), nullptr);
    } else if (k == "step") {
      Step s;
      l >> s.op >> s.fail;
      std::string v;
      while (l >> v)
        s.a.push_back(strtod(v.c_str(), nullptr));
      p.steps.push_back(s);
    }
  }
  return p;
}
void Ctx::log(const char *f, ...)
{
  if (!trace)
    return;
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  fprintf(stderr, "[step %zu] %s\n", step, b);
}
void Ctx::fail(const std::string &prop, const std::string &cls, const char *f, ...)
{
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  std::string key = prop + ":" + cls;
  if (known.count(key)) {
    known_hits[key]++;
    return;
  }
  if (active != "all" && prop != active) {
    foreign[key]++;
    return;
  }
  throw Violation{prop, cls, fmt("at step %zu: %s", step, b)};
}
}  // namespace sim

using namespace sim;

// ---- allocation seam ---------------------------------------------------------------------------
#ifndef SIM_OWN_HEAP
extern "C" void *__real_malloc(size_t);
// With a shuffle seed, small blocks come in seeded order from pools, so that the order of objects in memory
// is not the order in which they were made.
static uint64_t g_shuffle = 0;
static void *g_pool[65][32];
static void *raw_alloc(size_t n)
{
  if (!g_shuffle || n == 0 || n > 1024)
    return __real_malloc(n);
  size_t k = (n + 15) / 16;
  g_shuffle = g_shuffle * 6364136223846793005ull + 1442695040888963407ull;
  void *&slot = g_pool[k][g_shuffle >> 59];
  void *next = __real_malloc(16 * k);
  if (!next)
    return nullptr;
  if (!slot)
    slot = __real_malloc(16 * k);
  std::swap(slot, next);
  return next;
}
void sim::mem::shuffle(uint64_t seed)
{
  g_shuffle = seed;
}
extern "C" void *__wrap_malloc(size_t n)
{
  if (sim::mem::hit(n))
    return nullptr;
  void *p = raw_alloc(n);
  if (p)
    sim::mem::fill(p, n);
  return p;
}
static void *new_impl(size_t n)
{
  if (sim::mem::hit(n))
    throw std::bad_alloc();
  void *p = raw_alloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  sim::mem::fill(p, n);
  return p;
}
void *operator new(size_t n)
{
  return new_impl(n);
}
void *operator new[](size_t n)
{
  return new_impl(n);
}
void operator delete(void *p) noexcept
{
  free(p);
}
void operator delete[](void *p) noexcept
{
  free(p);
}
void operator delete(void *p, size_t) noexcept
{
  free(p);
}
void operator delete[](void *p, size_t) noexcept
{
  free(p);
}
static void *aligned_impl(size_t n, std::align_val_t al)
{
  if (sim::mem::hit(n))
    throw std::bad_alloc();
  void *p = nullptr;
  if (posix_memalign(&p, size_t(al) < sizeof(void *) ? sizeof(void *) : size_t(al), n ? n : 1))
    throw std::bad_alloc();
  sim::mem::fill(p, n);
  return p;
}
void *operator new(size_t n, std::align_val_t al)
{
  return aligned_impl(n, al);
}
void *operator new[](size_t n, std::align_val_t al)
{
  return aligned_impl(n, al);
}
void operator delete(void *p, std::align_val_t) noexcept
{
  free(p);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
  free(p);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept
{
  free(p);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept
{
  free(p);
}
#endif

static double now_s()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

__attribute__((noinline)) static void scribble_stack(uint32_t pat)
{
  volatile uint32_t a[65536];
  for (size_t i = 0; i < 65536; ++i)
    a[i] = pat;
  __asm__ volatile("" ::"r"(a) : "memory");
}

struct Outcome {
  enum Kind { OK, VIOL, CRASH, HANG } kind = OK;
  std::string prop, cls, msg;
  uint64_t hash = 0;
};

static void set_cpu_limit(int secs)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// Runs the plan in this process.
static Outcome run_here(const Plan &plan, Ctx &ctx)
{
  Outcome o;
  ctx.reset_run();
  uint32_t pat = static_cast<uint32_t>(plan.get("memfill", 0xA5A5A5A5u));
  mem::set_fill(pat);
  scribble_stack(pat);
  try {
    world_execute(plan, ctx);
  } catch (const Violation &v) {
    o.kind = Outcome::VIOL;
    o.prop = v.prop;
    o.cls = v.cls;
    o.msg = v.msg;
  } catch (const EndRun &) {
  } catch (const std::exception &e) {
    o.kind = Outcome::VIOL;
    o.prop = ctx.active;
    o.cls = "unexpected_exception";
    o.msg = fmt("at step %zu: exception escaped: %s", ctx.step, e.what());
  }
  mem::disarm();
  o.hash = ctx.hash;
  return o;
}

static std::string esc(const std::string &s)
{
  std::string r;
  for (char c : s)
    r += (c == '\n' || c == '\t') ? ' ' : c;
  return r;
}
static void write_outcome(int fd, const Outcome &o)
{
  std::string s = fmt("%d\t%016llx\t", int(o.kind), (unsigned long long)o.hash) + esc(o.prop) + "\t" + esc(o.cls) +
                  "\t" + esc(o.msg) + "\n";
  size_t off = 0;
  while (off < s.size()) {
    ssize_t w = write(fd, s.data() + off, s.size() - off);
    if (w <= 0)
      break;
    off += w;
  }
}
static bool parse_outcome(const std::string &s, Outcome &o)
{
  std::vector<std::string> f;
  std::string cur;
  for (char c : s) {
    if (c == '\t' || c == '\n') {
      f.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  if (f.size() < 5)
    return false;
  o.kind = Outcome::Kind(atoi(f[0].c_str()));
  o.hash = strtoull(f[1].c_str(), nullptr, 16);
  o.prop = f[2];
  o.cls = f[3];
  o.msg = f[4];
  return true;
}

static std::string g_prop = "all", g_tier = "quick";
static std::map<std::string, bool> g_known;

struct Shared {
  volatile uint64_t seed;
  volatile uint64_t runs;
  volatile uint64_t step;
  volatile int in_run;
};
static Shared *g_sh = nullptr;

static Outcome status_outcome(int st)
{
  Outcome o;
  o.prop = g_prop;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGVTALRM || WTERMSIG(st) == SIGALRM)) {
    o.kind = Outcome::HANG;
    o.cls = "hang";
    o.msg = "the run did not finish within its step budget (endless loop)";
  } else {
    o.kind = Outcome::CRASH;
    o.cls = "crash";
    o.msg = WIFSIGNALED(st) ? fmt("process died from signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                            : fmt("process exited with status %d", WEXITSTATUS(st));
  }
  return o;
}

static bool g_trace = false;

static void quiet_child()
{
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) {
    dup2(n, 1);
    if (!g_trace)
      dup2(n, 2);
  }
}

// Runs a plan in a forked child and reports what happened.
static Outcome run_forked(const Plan &plan)
{
  int pfd[2];
  if (pipe(pfd))
    exit(3);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0)
    exit(3);
  if (pid == 0) {
    close(pfd[0]);
    quiet_child();
    set_cpu_limit(world_cpu_limit());
    Ctx ctx;
    ctx.active = g_prop;
    ctx.known = g_known;
    ctx.trace = g_trace;
    Outcome o = run_here(plan, ctx);
    write_outcome(pfd[1], o);
    _exit(0);
  }
  close(pfd[1]);
  std::string s;
  char b[4096];
  ssize_t r;
  while ((r = read(pfd[0], b, sizeof b)) > 0)
    s.append(b, r);
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && parse_outcome(s, o))
    return o;
  return status_outcome(st);
}

static bool same_class(const Outcome &a, const Outcome &b)
{
  return a.kind == b.kind && a.cls == b.cls && a.prop == b.prop;
}

static Plan minimise(Plan p, const Outcome &target, double budget_s, int &tries)
{
  double t0 = now_s();
  auto still = [&](const Plan &q) {
    ++tries;
    return same_class(run_forked(q), target);
  };
  auto timeleft = [&] { return now_s() - t0 < budget_s; };
  bool progress = true;
  while (progress && timeleft()) {
    progress = false;
    // drop chunks of steps
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1 && timeleft(); chunk /= 2) {
      for (size_t i = 0; i < p.steps.size() && timeleft();) {
        Plan q = p;
        size_t e = std::min(p.steps.size(), i + chunk);
        q.steps.erase(q.steps.begin() + i, q.steps.begin() + e);
        if (still(q)) {
          p = q;
          progress = true;
        } else
          i += chunk;
      }
      if (chunk == 1)
        break;
    }
    // drop faults
    for (size_t i = 0; i < p.steps.size() && timeleft(); ++i)
      if (p.steps[i].fail) {
        Plan q = p;
        q.steps[i].fail = 0;
        if (still(q)) {
          p = q;
          progress = true;
        } else if (p.steps[i].fail > 1) {
          q.steps[i].fail = 1;
          if (still(q)) {
            p = q;
            progress = true;
          }
        }
      }
    // zero fault-rate style configuration
    for (auto &c : p.cfg) {
      if (c.second == 0 || c.first == "memfill")
        continue;
      if (c.first.compare(0, 2, "f_") == 0) {
        Plan q = p;
        q.cfg[c.first] = 0;
        if (still(q)) {
          p = q;
          progress = true;
          break;
        }
      }
    }
    // simplify arguments
    for (size_t i = 0; i < p.steps.size() && timeleft(); ++i)
      for (size_t j = 0; j < p.steps[i].a.size() && timeleft(); ++j) {
        double v = p.steps[i].a[j];
        if (v == 0)
          continue;
        double cands[3] = {0, std::floor(v), std::round(v * 10) / 10};
        for (double c : cands)
          if (c != v) {
            Plan q = p;
            q.steps[i].a[j] = c;
            if (still(q)) {
              p = q;
              progress = true;
              break;
            }
          }
      }
    if (tries > 6000)
      break;
  }
  return p;
}

static void write_replay(const std::string &path, const Plan &p, const Outcome &o, uint64_t seed, size_t orig_steps)
{
  std::ofstream f(path);
  f << "# world " << world_name() << "\n";
  f << "# property " << o.prop << "\n# class " << o.cls << "\n# kind " << int(o.kind) << "\n";
  f << "# hash " << fmt("%016llx", (unsigned long long)o.hash) << "\n";
  f << "# seed " << seed << "\n# message " << esc(o.msg) << "\n";
  f << "# minimised from " << orig_steps << " to " << p.steps.size() << " steps\n";
  f << p.text();
}

static void dump_stats(const std::string &path, const Ctx &ctx, uint64_t runs, uint64_t nontriv, bool append)
{
  std::ofstream f(path, append ? std::ios::app : std::ios::trunc);
  f << "runs " << runs << "\nnontrivial " << nontriv << "\nsim_time " << fmt("%.6f", ctx.sim_time) << "\n";
  f << "states_total " << ctx.states_total << "\n";
  for (auto &c : ctx.counters)
    f << "c " << c.first << " " << c.second << "\n";
  for (auto &c : ctx.foreign)
    f << "foreign " << c.first << " " << c.second << "\n";
  for (auto &c : ctx.known_hits)
    f << "known " << c.first << " " << c.second << "\n";
}
static void dump_states(const std::string &path, const Ctx &ctx, bool append)
{
  std::ofstream f(path, (append ? std::ios::app : std::ios::trunc) | std::ios::binary);
  for (uint64_t h : ctx.states)
    f.write(reinterpret_cast<const char *>(&h), 8);
}

int main(int argc, char **argv)
{
  // identical addresses in every process
  if (!getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0)
      execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> opt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) {
      std::string v = (i + 1 < argc && std::string(argv[i + 1]).compare(0, 2, "--") != 0) ? argv[++i] : "1";
      opt[a.substr(2)] = v;
    }
  }
  if (opt.count("prop"))
    g_prop = opt["prop"];
  if (opt.count("tier"))
    g_tier = opt["tier"];
  if (opt.count("trace"))
    g_trace = true;
  if (opt.count("known")) {
    std::istringstream ks(opt["known"]);
    std::string k;
    while (std::getline(ks, k, ','))
      g_known[k] = true;
  }
  if (opt.count("describe")) {
    std::cout << world_describe() << "\n";
    return 0;
  }
  if (opt.count("gen")) {
    std::cout << world_generate(strtoull(opt["gen"].c_str(), nullptr, 10), g_prop, g_tier).text();
    return 0;
  }
  if (opt.count("hashes")) {  // print the trace hash of seeds a..b, for determinism checks
    uint64_t a = strtoull(opt["hashes"].c_str(), nullptr, 10), n = strtoull(opt["n"].c_str(), nullptr, 10);
    for (uint64_t s = a; s < a + n; ++s) {
      Outcome o = run_forked(world_generate(s, g_prop, g_tier));
      printf("%llu %016llx %d %s\n", (unsigned long long)s, (unsigned long long)o.hash, int(o.kind), o.cls.c_str());
    }
    return 0;
  }
  if (opt.count("replay") || opt.count("seed")) {
    Plan p;
    if (opt.count("seed"))
      p = world_generate(strtoull(opt["seed"].c_str(), nullptr, 10), g_prop, g_tier);
    else {
      std::ifstream f(opt["replay"]);
      std::stringstream ss;
      ss << f.rdbuf();
      p = Plan::parse(ss.str());
    }
    if (opt.count("nofork")) {
      Ctx ctx;
      ctx.active = g_prop;
      ctx.known = g_known;
      ctx.trace = g_trace;
      Outcome o = run_here(p, ctx);
      write_outcome(1, o);
      dump_stats("/dev/stdout", ctx, 1, ctx.run_interesting > 0, true);
      return o.kind == Outcome::OK ? 0 : 1;
    }
    Outcome o = run_forked(p);
    write_outcome(1, o);
    return o.kind == Outcome::OK ? 0 : 1;
  }
  // --- search ---
  // --base S --worker i --workers n --time T --out PREFIX [--max N]
  uint64_t base = strtoull(opt["base"].c_str(), nullptr, 10);
  uint64_t wi = strtoull(opt["worker"].c_str(), nullptr, 10);
  uint64_t wn = std::max<uint64_t>(1, strtoull(opt["workers"].c_str(), nullptr, 10));
  double T = atof(opt["time"].c_str());
  std::string out = opt["out"];
  uint64_t maxruns = opt.count("max") ? strtoull(opt["max"].c_str(), nullptr, 10) : ~0ull;
  double t0 = now_s();
  g_sh = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset((void *)g_sh, 0, sizeof(Shared));
  std::remove((out + ".stats").c_str());
  std::remove((out + ".states").c_str());
  uint64_t k = 0;
  const uint64_t batch = world_fork_each() ? 1 : 500;
  bool found = false;
  Outcome fo;
  uint64_t fseed = 0;
  uint64_t total_done = 0;
  int unreproducible = 0;
  std::ofstream info(out + ".found");
  while (now_s() - t0 < T && total_done < maxruns) {
    found = false;
    int pfd[2];
    if (pipe(pfd))
      return 3;
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      quiet_child();
      Ctx ctx;
      ctx.active = g_prop;
      ctx.known = g_known;
      uint64_t nontriv = 0, runs = 0;
      for (uint64_t j = 0; j < batch && (now_s() - t0 < T || (j == 0 && k == 0)); ++j) {
        uint64_t seed = base + wi + (k + j) * wn;
        g_sh->seed = seed;
        g_sh->in_run = 1;
        Plan p = world_generate(seed, g_prop, g_tier);
        set_cpu_limit(world_cpu_limit());
        Outcome o = run_here(p, ctx);
        set_cpu_limit(0);
        g_sh->in_run = 0;
        ++runs;
        g_sh->runs = g_sh->runs + 1;
        if (ctx.run_interesting)
          ++nontriv;
        if (o.kind != Outcome::OK) {
          write_outcome(pfd[1], o);
          break;
        }
      }
      dump_stats(out + ".stats", ctx, runs, nontriv, true);
      dump_states(out + ".states", ctx, true);
      _exit(0);
    }
    close(pfd[1]);
    std::string s;
    char b[4096];
    ssize_t r;
    while ((r = read(pfd[0], b, sizeof b)) > 0)
      s.append(b, r);
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      found = true;
      fo = status_outcome(st);
      fseed = g_sh->seed;
    } else if (!s.empty() && parse_outcome(s, fo)) {
      found = true;
      fseed = g_sh->seed;
    }
    k += batch;
    total_done += batch;
    if (!found)
      continue;
    // gate: the same seed, alone in a fresh process, twice. A finding that does not come back is no violation;
    // the search goes on (and the check ends with an error if nothing reproducible turns up)
    Plan p = world_generate(fseed, g_prop, g_tier);
    Outcome a = run_forked(p), b2 = run_forked(p);
    if (!same_class(a, b2) || a.hash != b2.hash || !same_class(a, fo)) {
      info << "seed " << fseed << " unreproducible first=" << fo.cls << " again=" << a.cls << "/" << b2.cls << " hashes "
           << fmt("%016llx %016llx", (unsigned long long)a.hash, (unsigned long long)b2.hash) << " msg " << esc(fo.msg)
           << "\n";
      info.flush();
      if (++unreproducible >= 50)
        return 4;
      continue;
    }
    int tries = 0;
    double mb = opt.count("minimise") ? atof(opt["minimise"].c_str()) : 40;
    Plan q = minimise(p, a, mb, tries);
    Outcome fin = run_forked(q);
    if (!same_class(fin, a)) {
      q = p;
      fin = a;
    }
    write_replay(out + ".replay", q, fin, fseed, p.steps.size());
    info << "class " << fin.cls << "\nmsg " << esc(fin.msg) << "\nreplay " << out << ".replay\nsteps " << p.steps.size()
         << " -> " << q.steps.size() << "\ntries " << tries << "\n";
    return 1;
  }
  return unreproducible ? 4 : 0;
}

namespace sim
{
namespace mem
{
__attribute__((noinline, no_sanitize("address"))) void dirty_stack(uint64_t seed)
{
  volatile uint64_t buf[4096];
  Rng r(seed);
  for (size_t i = 0; i < 4096; ++i) {
    // plausible numbers: a double of moderate size, a small count or raw bits
    double d = r.real(-1000, 1000);
    uint64_t v = r.next();
    if (i % 4 < 2)
      std::memcpy(&v, &d, 8);
    else if (i % 4 == 2)
      v = r.below(1000);
    buf[i] = v;
  }
}
}  // namespace mem
}  // namespace sim
