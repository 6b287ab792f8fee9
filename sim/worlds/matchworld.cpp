// matchworld: the real scan matchers on simulated laser scans.  The matchers' worker threads are
// fibers of one thread (core/gomp.cpp); every memory access of the compiled code is a place where
// the seeded scheduler may switch between them (the code is compiled with thread-sanitizer
// instrumentation whose hooks, below, belong to the simulator).
//  kind 0  the same registration under many schedules and teams (C15)
//  kind 1  long histories of registrations on one matcher, interrupted by lack of memory (C23)
//  kind 2  scans which are moved copies of their reference (C24)
#include <algorithm>
#include <atomic>
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <streambuf>
#include <vector>
#include <omp.h>
#include <src/ndt/ndt_cell.cpp>
#include <ndt_gslam/registration/correlative_estimation2d.h>
#include <ndt_gslam/registration/d2d_ndt2d.h>
#include <ndt_gslam/registration/d2d_ndt2d_robust.h>
#include <ndt_gslam/registration/ndt2d.h>
#include "../core/gomp.h"
#include "../core/sim.h"
#include "lidar.h"

using namespace sim;
namespace
{
const char *P15 = "C15", *P23 = "C23", *P24 = "C24";
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix4f M4;
typedef pcl::PointXYZ Pt;
typedef pcl::PointCloud<Pt> Cloud;
typedef slamuk::NDTGrid2D<slamuk::NDTCell, Pt> Grid;

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
struct Mute {
  NullBuf nb;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&nb)), b(std::cerr.rdbuf(&nb)) {}
  ~Mute()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
M4 mat(const V3 &p)
{
  M4 m = M4::Identity();
  m(0, 0) = m(1, 1) = float(std::cos(p(2)));
  m(1, 0) = float(std::sin(p(2)));
  m(0, 1) = -m(1, 0);
  m(0, 3) = float(p(0));
  m(1, 3) = float(p(1));
  return m;
}
V3 vec(const M4 &m)
{
  return V3(m(0, 3), m(1, 3), std::atan2(double(m(1, 0)), double(m(0, 0))));
}
double nang(double a)
{
  return std::remainder(a, 2 * M_PI);
}

enum Which { CORR = 0, D2D = 1, ROBUST = 2, P2D = 3 };
const char *kName[] = {"correlative", "d2d", "robust", "p2d"};
struct Settings {
  int which = 0, threads = 2, layers = 4;
  double cell = 0.25, step = 0.1, outlier = 0.5, limit = 0.4, trange = 2, rrange = 0.8, cstep = 0.25;
  int maxit = 10;
  bool grids = false;
};
struct Input {
  Cloud::Ptr cloud;
  Grid::ConstPtr grid;
};
struct Result {
  bool thrown = false, converged = false;
  M4 t = M4::Identity();
  double quality = 0;
  bool has_quality = false;
  Cloud out;
};
// a matcher of any kind behind one face
struct Matcher {
  virtual ~Matcher() {}
  virtual void settings(const Settings &s) = 0;
  virtual void limit(double l) = 0;
  virtual void source(const Input &i, bool grid) = 0;
  virtual void target(const Input &i, bool grid) = 0;
  virtual Result run(const M4 &guess) = 0;
};
struct CorrMatcher : Matcher {
  pcl::CorrelativeEstimation<Pt, Pt> m;
  void settings(const Settings &s) override
  {
    m.setCoarseStep(float(s.cstep));
    m.setTranslationRange(float(s.trange));
    m.setRotationRange(float(s.rrange));
    m.enableMultithreading(unsigned(s.threads));
  }
  void limit(double) override {}
  void source(const Input &i, bool) override { m.setInputSource(i.cloud); }
  void target(const Input &i, bool) override { m.setInputTarget(i.cloud); }
  Result run(const M4 &g) override
  {
    Result r;
    m.align(r.out, g);
    r.converged = m.hasConverged();
    r.t = m.getFinalTransformation();
    return r;
  }
};
struct D2dMatcher : Matcher {
  pcl::D2DNormalDistributionsTransform2D<Pt, Pt> m;
  void settings(const Settings &s) override
  {
    m.setNumLayers(size_t(s.layers));
    m.setCellSize(float(s.cell));
    m.setStepSize(s.step);
    m.setOulierRatio(s.outlier);
    m.setMaximumIterations(s.maxit);
    m.enableMultithreading(unsigned(s.threads));
  }
  void limit(double) override {}
  void source(const Input &i, bool grid) override
  {
    if (grid)
      m.setInputSource(i.grid);
    else
      m.setInputSource(Cloud::ConstPtr(i.cloud));
  }
  void target(const Input &i, bool grid) override
  {
    if (grid)
      m.setInputTarget(i.grid);
    else
      m.setInputTarget(Cloud::ConstPtr(i.cloud));
  }
  Result run(const M4 &g) override
  {
    Result r;
    m.align(r.out, g);
    r.converged = m.hasConverged();
    r.t = m.getFinalTransformation();
    return r;
  }
};
struct RobustMatcher : Matcher {
  pcl::D2DNormalDistributionsTransform2DRobust<Pt, Pt> m;
  void settings(const Settings &s) override
  {
    m.setNumLayers(size_t(s.layers));
    m.setCellSize(float(s.cell));
    m.setStepSize(s.step);
    m.setOulierRatio(s.outlier);
    m.setTranslationRange(float(s.trange));
    m.setRotationRange(float(s.rrange));
    m.enableMultithreading(unsigned(s.threads));
    m.setRejectionLimit(float(s.limit));
  }
  void limit(double l) override { m.setRejectionLimit(float(l)); }
  void source(const Input &i, bool) override { m.setInputSource(i.grid); }
  void target(const Input &i, bool) override { m.setInputTarget(i.grid); }
  Result run(const M4 &g) override
  {
    Result r;
    m.align(r.out, g);
    r.converged = m.hasConverged();
    r.t = m.getFinalTransformation();
    r.quality = m.getAlignmentQuality();
    r.has_quality = true;
    return r;
  }
};
struct P2dMatcher : Matcher {
  pcl::NormalDistributionsTransform2DEx<Pt, Pt> m;
  void settings(const Settings &s) override
  {
    m.setNumLayers(size_t(s.layers));
    m.setCellSize(float(s.cell));
    m.setStepSize(s.step);
    m.setOulierRatio(s.outlier);
    m.setMaximumIterations(s.maxit);
  }
  void limit(double) override {}
  void source(const Input &i, bool) override { m.setInputSource(Cloud::ConstPtr(i.cloud)); }
  void target(const Input &i, bool grid) override
  {
    if (grid)
      m.setInputTarget(i.grid);
    else
      m.setInputTarget(Cloud::ConstPtr(i.cloud));
  }
  Result run(const M4 &g) override
  {
    Result r;
    m.align(r.out, g);
    r.converged = m.hasConverged();
    r.t = m.getFinalTransformation();
    return r;
  }
};
std::unique_ptr<Matcher> make(const Settings &s)
{
  std::unique_ptr<Matcher> m;
  switch (s.which) {
    case CORR: m.reset(new CorrMatcher); break;
    case D2D: m.reset(new D2dMatcher); break;
    case ROBUST: m.reset(new RobustMatcher); break;
    default: m.reset(new P2dMatcher); break;
  }
  m->settings(s);
  return m;
}

// scans: 0 room, 1 points on a regular lattice, 2 a few scattered points, 3 nothing, 4 half blind
struct Scene {
  lidar::World room;
  Settings s;
  Scene(const Plan &p) : room(uint64_t(p.get("room", 1)), int(p.get("inner", 3)), p.get("extent", 6))
  {
    s.which = int(p.get("which", 0));
    s.threads = std::max(1, int(p.get("threads", 2)));
    s.layers = std::max(1, int(p.get("layers", 2)));
    s.cell = p.get("cell", 0.25);
    s.step = p.get("stepsize", 0.1);
    s.outlier = p.get("outlier", 0.5);
    s.limit = p.get("limit", 0.4);
    s.trange = p.get("trange", 1);
    s.rrange = p.get("rrange", 0.5);
    s.cstep = p.get("cstep", 0.25);
    s.maxit = int(p.get("maxit", 10));
    s.grids = p.get("grids", 0) > 0;
  }
  Input scan(const Step &st) const
  {
    Rng r(uint64_t(st.arg(5)) + 5);
    V3 pose(st.arg(0), st.arg(1), st.arg(2));
    int style = int(st.iarg(3)), rays = int(st.iarg(4, 200));
    double noise = st.arg(6, 0.01);
    Cloud::Ptr c(new Cloud);
    if (style == 0 || style == 4) {
      auto v = room.scan(pose, rays, 30, noise, r);
      size_t n = style == 4 ? v.size() / 2 : v.size();
      for (size_t i = 0; i < n; ++i)
        c->push_back(Pt(float(v[i](0)), float(v[i](1)), 0));
    } else if (style == 1) {
      int n = 2 + int(r.below(4));
      double d = 0.5 + 0.25 * double(r.below(4));
      for (int i = -n; i <= n; ++i)
        for (int j = -1; j <= 1; j += 2)
          for (int k = 0; k < 1 + rays / 100; ++k)
            c->push_back(Pt(float(i * d + pose(0) + 0.01 * k), float(j * d + pose(1) + noise * r.gauss()), 0));
    } else if (style == 2) {
      int n = 1 + int(r.below(8));
      for (int i = 0; i < n; ++i)
        c->push_back(Pt(float(r.real(-3, 3)), float(r.real(-3, 3)), 0));
    }
    Input in;
    in.cloud = c;
    in.grid = grid_of(c, s.cell);
    return in;
  }
  static Grid::ConstPtr grid_of(const Cloud::Ptr &c, double cell)
  {
    Grid *g = new Grid();
    Grid::ConstPtr gp(g);
    g->setCellSize(float(cell));
    g->initializeSimple(*c);
    return gp;
  }
};

bool finite(const M4 &m)
{
  return m.allFinite();
}
// largest difference of two results' motions in metres and radians; infinite when the flags differ
double differ(const Result &a, const Result &b)
{
  if (a.converged != b.converged)
    return std::numeric_limits<double>::infinity();
  if (!a.converged)
    return 0;
  V3 d = vec(a.t) - vec(b.t);
  double r = std::max({std::fabs(d(0)), std::fabs(d(1)), std::fabs(nang(d(2))), std::fabs(a.quality - b.quality)});
  return r == r ? r : std::numeric_limits<double>::infinity();
}
bool same(const Result &a, const Result &b)
{
  if (a.converged != b.converged)
    return false;
  if (!a.converged)
    return a.quality == b.quality;
  if (!(a.t == b.t) || !(a.quality == b.quality) || a.out.size() != b.out.size())
    return false;
  for (size_t i = 0; i < a.out.size(); ++i)
    if (!(a.out[i].x == b.out[i].x && a.out[i].y == b.out[i].y))
      return false;
  return true;
}
std::string show(const Result &r)
{
  V3 v = vec(r.t);
  return fmt("%s (%.6f %.6f %.6f) quality %.6f", r.converged ? "converged" : "not converged", v(0), v(1), v(2), r.quality);
}
simomp::Config plain(unsigned granted)
{
  simomp::Config c;
  c.granted = granted;
  c.switch_rate = 0;
  c.sync_rate = 0;
  c.run_first = 0;
  return c;
}

struct Sim {
  Ctx &ctx;
  Scene sc;
  Input src, tgt;
  bool have_src = false, have_tgt = false;
  std::unique_ptr<Matcher> live;
  Settings cur;
  bool preempting = false;
  explicit Sim(const Plan &p, Ctx &c) : ctx(c), sc(p) { cur = sc.s; }

  Result fresh(const Settings &s, const V3 &guess, const simomp::Config &c, bool count = true)
  {
    simomp::configure(c);
    preempting = c.switch_rate > 0;
    auto m = make(s);
    m->source(src, s.grids);
    m->target(tgt, s.grids);
    Result r = m->run(mat(guess));
    if (count)
      tally();
    return r;
  }
  void tally()
  {
    auto &st = simomp::stats();
    ctx.count("parallel_regions", st.regions);
    if (preempting)
      ctx.fault("thread_preemption", st.switches);
    if (st.reduced)
      ctx.fault("fewer_threads_granted", st.reduced);
    ctx.count("schedule_points", st.points);
  }
  // does the result change this much when the guess changes by next to nothing?
  bool ill_conditioned(const Settings &s, const V3 &guess, const Result &ref)
  {
    for (int k = 0; k < 6; ++k) {
      V3 g = guess;
      g(k % 3) += (k < 3 ? 1 : -1) * (k % 3 == 2 ? 1e-6 : 4e-6);
      Result r = fresh(s, g, plain(1), false);
      if (differ(r, ref) > 1e-3)
        return true;
    }
    return false;
  }
  // a converged alignment is a finite planar rigid motion which was applied to the scan
  void judge(const char *prop, const Result &r, const V3 &guess)
  {
    if (!r.converged)
      return;
    SIM_CHECK(ctx, prop, "not-finite", finite(r.t), "the %s matcher converged to a transformation which is not finite", kName[cur.which]);
    double det = double(r.t(0, 0)) * r.t(1, 1) - double(r.t(0, 1)) * r.t(1, 0);
    SIM_CHECK(ctx, prop, "not-rigid",
              std::fabs(det - 1) < 1e-3 && std::fabs(r.t(0, 0) - r.t(1, 1)) < 1e-4 && std::fabs(r.t(0, 1) + r.t(1, 0)) < 1e-4 && std::fabs(r.t(2, 3)) < 1e-4 &&
                  r.t(3, 3) == 1,
              "the %s matcher converged to a transformation which is no planar motion", kName[cur.which]);
    const Cloud &in = cur.which == D2D && cur.grids ? *src.grid->getMeans() : cur.which == ROBUST ? *src.grid->getMeans() : *src.cloud;
    SIM_CHECK(ctx, prop, "output-cloud", r.out.size() == in.size(), "the aligned cloud has %zu points, the scan %zu", r.out.size(), in.size());
    for (size_t i = 0; i < in.size(); ++i) {
      double x = double(r.t(0, 0)) * in[i].x + double(r.t(0, 1)) * in[i].y + r.t(0, 3);
      double y = double(r.t(1, 0)) * in[i].x + double(r.t(1, 1)) * in[i].y + r.t(1, 3);
      SIM_CHECK(ctx, prop, "output-cloud", std::hypot(x - r.out[i].x, y - r.out[i].y) < 1e-3 * (1 + std::hypot(x, y)),
                "point %zu of the aligned cloud is at (%.4f %.4f), the returned motion takes it to (%.4f %.4f)", i, r.out[i].x, r.out[i].y, x, y);
    }
    ctx.probe("converged");
    if (cur.which == CORR) {
      // the search looks around the guess
      M4 d = r.t * mat(guess).inverse();
      V3 v = vec(d);
      SIM_CHECK(ctx, prop, "outside-search", std::fabs(v(0)) <= cur.trange + 1e-2 && std::fabs(v(1)) <= cur.trange + 1e-2 && std::fabs(v(2)) <= cur.rrange + 1e-2,
                "the correlative estimate is (%.3f %.3f %.3f) away from the guess, the search range is %.3f m and %.3f rad", v(0), v(1), v(2), cur.trange, cur.rrange);
    }
    if (cur.which == ROBUST) {
      SIM_CHECK(ctx, prop, "below-threshold", r.quality >= cur.limit - 1e-6, "the robust matcher converged with a score of %.4f, the threshold is %.4f", r.quality,
                cur.limit);
      // so many points of the moved scan must lie near the target
      auto &tg = *tgt.grid->getMeans();
      size_t near = 0;
      for (auto &p : r.out.points)
        for (auto &q : tg.points)
          if (std::max(std::fabs(p.x - q.x), std::fabs(p.y - q.y)) <= 4 * cur.cell) {
            ++near;
            break;
          }
      SIM_CHECK(ctx, prop, "no-overlap", double(near) >= cur.limit * double(tg.size()) - 1e-6,
                "the robust matcher converged, but only %zu points of the moved scan lie near one of the %zu target points (threshold %.3f)", near, tg.size(), cur.limit);
      ctx.probe("robust_accepted");
    }
  }
  void observe(const Result &r)
  {
    ctx.mix(r.converged);
    if (!r.converged)
      return;
    for (int i = 0; i < 16; ++i)
      ctx.obs(double(r.t(i)));
    ctx.obs(r.quality);
  }

  // ---- kind 0 ----
  bool ref_known = false;
  V3 ref_guess = V3::Zero();
  Result ref1, reft;  // one thread; the full team, one after the other
  size_t conflicts = 0;
  void sched(const Step &st)
  {
    if (!have_src || !have_tgt)
      return;
    V3 g(st.arg(0), st.arg(1), st.arg(2));
    if (!ref_known || g != ref_guess) {
      ref1 = fresh(cur, g, plain(1));
      simomp::clear_record();
      simomp::record_accesses(true);
      reft = fresh(cur, g, plain(64));
      simomp::record_accesses(false);
      conflicts = simomp::conflicting();
      ref_known = true;
      ref_guess = g;
      observe(ref1);
      observe(reft);
      judge(P15, ref1, g);
      compare(ref1, reft, g, fmt("with %d threads", cur.threads), true);
      ctx.log("one thread %s; team %s; shared words %zu", show(ref1).c_str(), show(reft).c_str(), conflicts);
    }
    simomp::Config c;
    c.seed = uint64_t(st.arg(3));
    c.granted = unsigned(std::max(1L, st.iarg(4, 64)));
    c.switch_rate = st.arg(5, 0.1);
    c.sync_rate = 0.5;
    c.run_first = 0.7;
    c.procs = unsigned(std::max(1L, st.iarg(7, 8)));
    simomp::only_conflicting = st.arg(6) > 0;
    Result r = fresh(cur, g, c);
    simomp::only_conflicting = false;
    auto &os = simomp::stats();
    observe(r);
    ctx.mix(os.schedule_hash);
    ctx.state(hmix(os.schedule_hash, os.points));
    if (os.switches > os.regions)
      ctx.probe("interleaved");
    ctx.log("granted %u rate %g: %s, %llu switches", c.granted, c.switch_rate, show(r).c_str(), (unsigned long long)os.switches);
    bool full = c.granted >= unsigned(cur.threads);
    compare(full ? reft : ref1, r, g, fmt("with %u of %d threads under schedule %llu", std::min(c.granted, unsigned(cur.threads)), cur.threads, (unsigned long long)c.seed),
            !full);
    ctx.probe(full ? "full_team" : "reduced_team");
  }
  void compare(const Result &a, const Result &b, const V3 &g, const std::string &how, bool other_team)
  {
    if (same(a, b))
      return;
    double d = differ(a, b);
    // sums of floating point numbers depend on how the work was divided
    if (cur.which != CORR && d < 1e-4)
      return;
    if (cur.which != CORR && ill_conditioned(cur, g, ref1)) {
      ctx.count("ill_conditioned_skipped");
      return;
    }
    SIM_CHECK(ctx, P15, other_team ? "team-size" : "schedule", false, "the %s matcher gives %s, but %s it gives %s", kName[cur.which], show(a).c_str(), how.c_str(),
              show(b).c_str());
  }

  // ---- kind 1 ----
  void live_input(bool source, const Input &in, long fail)
  {
    auto f = [&] {
      if (source)
        live->source(in, cur.grids);
      else
        live->target(in, cur.grids);
    };
    if (!with_alloc_fault(ctx, fail, f)) {
      ctx.probe("input_interrupted");
      f();  // the caller tries again
    }
  }
  // ---- kind 2 ----
  long tgt_style = 0;
  Input moved_copy(const Input &of, const M4 &m, double drop, double clutter, double noise, Rng &r) const
  {
    Input in;
    in.cloud.reset(new Cloud);
    M4 inv = m.inverse();
    for (auto &p : of.cloud->points) {
      if (r.chance(drop))
        continue;
      float x = inv(0, 0) * p.x + inv(0, 1) * p.y + inv(0, 3) + float(noise * r.gauss());
      float y = inv(1, 0) * p.x + inv(1, 1) * p.y + inv(1, 3) + float(noise * r.gauss());
      in.cloud->push_back(Pt(x, y, 0));
    }
    for (size_t n = size_t(clutter * double(of.cloud->size())); n > 0; --n)
      in.cloud->push_back(Pt(float(r.real(-6, 6)), float(r.real(-6, 6)), 0));
    Grid *g = new Grid();
    in.grid = Grid::ConstPtr(g);
    g->setCellSize(float(cur.cell));
    g->initializeSimple(*in.cloud);
    return in;
  }
  // the scan shows what the target shows, moved by a motion the search will try
  void run_find(const Step &st)
  {
    // a scan of few points, or of a small part of a room, may really fit elsewhere
    if (!have_tgt || cur.which != CORR || tgt_style != 0 || sc.room.extent < 4 || tgt.cloud->size() < 60 || st.arg(6) > 0.31 || st.arg(7) > 0.21 || st.arg(8) > 0.011)
      return;
    size_t far = 0;
    for (auto &q : tgt.cloud->points)
      far += std::hypot(q.x, q.y) > 3;
    if (far < 30 || 2 * far < tgt.cloud->size()) {
      ctx.probe("scan_of_a_small_place");
      return;
    }
    M4 truth = mat(V3(st.arg(0), st.arg(1), st.arg(2)));
    auto cell = [](double u, double range, double step) { return -range + step * std::floor(u * (2 * range / step - 1e-3)); };
    V3 off(cell(st.arg(3), cur.trange, cur.cstep), cell(st.arg(4), cur.trange, cur.cstep), cell(st.arg(5), cur.rrange, 0.2));
    M4 guess = mat(off).inverse() * truth;
    Rng r(uint64_t(st.arg(9)) + 3);
    src = moved_copy(tgt, truth, st.arg(6), st.arg(7), st.arg(8), r);
    have_src = true;
    live_input(true, src, 0);
    simomp::Config c = plain(unsigned(std::max(1L, st.iarg(10, 64))));
    simomp::configure(c);
    Result f;
    if (!with_alloc_fault(ctx, st.fail, [&] { f = live->run(guess); })) {
      ctx.probe("align_interrupted");
      simomp::configure(c);
      f = live->run(guess);
    }
    tally();
    observe(f);
    V3 d = vec(truth.inverse() * f.t);
    ctx.state(hmix(uint64_t(std::lround(off(0) * 8)) * 1000 + uint64_t(std::lround(off(1) * 8)), uint64_t(std::lround(off(2) * 10))));
    ctx.log("search from (%.3f %.3f %.3f): %s", vec(guess)(0), vec(guess)(1), vec(guess)(2), show(f).c_str());
    if (st.arg(6) > 0 || st.arg(7) > 0)
      ctx.fault("scan_damaged");
    ctx.probe("searched");
    SIM_CHECK(ctx, P24, "motion-missed", f.converged && std::fabs(d(0)) < 0.5 * cur.cstep && std::fabs(d(1)) < 0.5 * cur.cstep && std::fabs(d(2)) < 0.09,
              "the scan is the reference moved by (%.3f %.3f %.3f), which is one of the motions searched, but the estimate is (%.3f %.3f %.3f)", vec(truth)(0), vec(truth)(1),
              vec(truth)(2), vec(f.t)(0), vec(f.t)(1), vec(f.t)(2));
  }
  // most alignments from a guess near the truth get nearer to it
  void run_batch(const Step &st)
  {
    if (cur.which == CORR)
      return;
    Rng r(uint64_t(st.arg(0)) + 9);
    int better = 0, n = 0, tried = 0;
        for (int k = int(st.iarg(1, 40)); k > 0; --k) {
      double ext = r.real(4, 10);
      lidar::World w(uint64_t(r.below(100000)), int(r.range(1, 6)), ext);
      V3 at(r.real(-1, 1), r.real(-1, 1), r.real(-3, 3));
      tgt.cloud.reset(new Cloud);
      for (auto &v : w.scan(at, int(r.range(500, 900)), 30, 0.01, r))
        tgt.cloud->push_back(Pt(float(v(0)), float(v(1)), 0));
      if (tgt.cloud->size() < 200)
        continue;
      tgt = moved_copy(tgt, M4::Identity(), 0, 0, 0, r);
      M4 truth = mat(V3(r.real(-0.5, 0.5), r.real(-0.5, 0.5), r.real(-0.3, 0.3)));
      src = moved_copy(tgt, truth, cur.which == P2D ? 0.75 : 0.1, 0, 0.01, r);
      double far = cur.which == ROBUST ? 4 : 1;
      V3 off(far * r.real(-0.2, 0.2), far * r.real(-0.2, 0.2), far * r.real(-0.1, 0.1));
      ++tried;
      simomp::configure(plain(64));
      live->source(src, cur.grids);
      live->target(tgt, cur.grids);
      Result res = live->run(truth * mat(off));
      if (!res.converged)
        continue;
      V3 d = vec(truth.inverse() * res.t);
      double a = off.head(2).norm() + 2 * std::fabs(off(2)), b = d.head(2).norm() + 2 * std::fabs(d(2));
      better += cur.which == ROBUST ? b < 0.5 : b < a;
      ++n;
    }
    ctx.probe("batches");
    ctx.count("batch_registrations", tried);
    ctx.mix(uint64_t(better) * 1000 + n);
    ctx.state(uint64_t(better) * 1000 + n);
    ctx.log("%s: %d registrations, %d converged, %d good", kName[cur.which], tried, n, better);
    if (tried < 120)
      return;
    // far outside what chance allows: see DESIGN.md
    if (cur.which == ROBUST) {
      SIM_CHECK(ctx, P24, "rarely-accepted", n >= 0.1 * tried, "the robust matcher accepts %d of %d scans which are moved copies of their reference", n, tried);
      SIM_CHECK(ctx, P24, "accepted-wrong", better >= 0.7 * n, "the robust matcher accepts %d moved copies of the reference, only %d of them at the right place", n, better);
    } else {
      SIM_CHECK(ctx, P24, "rarely-converges", n >= 0.5 * tried, "the %s matcher converges for %d of %d scans which are moved copies of their reference", kName[cur.which], n, tried);
      SIM_CHECK(ctx, P24, "mostly-worse", better >= 0.45 * n, "the %s matcher brings only %d of %d scans nearer to their true place than the guess", kName[cur.which], better, n);
    }
  }
  void run_live(const Step &st)
  {
    if (!have_src || !have_tgt)
      return;
    V3 g(st.arg(0), st.arg(1), st.arg(2));
    simomp::configure(plain(64));
    Result r;
    if (!with_alloc_fault(ctx, st.fail, [&] { r = live->run(mat(g)); })) {
      ctx.probe("align_interrupted");
      return;
    }
    tally();
    mem::set_fill(0xA5A5A5A5u ^ uint32_t(ctx.hash));
    Result f = fresh(cur, g, plain(64));
    observe(r);
    ctx.state(hmix(hmix(uint64_t(r.converged), uint64_t(std::lround(vec(r.t)(0) * 20)) * 1000 + uint64_t(std::lround(vec(r.t)(1) * 20))), uint64_t(cur.which)));
    ctx.log("%s: used %s; new %s", kName[cur.which], show(r).c_str(), show(f).c_str());
    judge(P23, r, g);
    if (!r.converged)
      ctx.probe("not_converged");
    SIM_CHECK(ctx, P23, "history", same(r, f), "the %s matcher used before gives %s, a new one gives %s", kName[cur.which], show(r).c_str(), show(f).c_str());
  }
};
}  // namespace

namespace sim
{
const char *world_name() { return "matchworld"; }
bool world_fork_each() { return false; }
int world_cpu_limit() { return 60; }
std::string world_describe()
{
  return "real: correlative estimation, D2D, robust D2D and point-to-distribution matchers, NDT grids and cells, the compiler's OpenMP code; "
         "stub: OpenMP runtime (threads are fibers under the seeded scheduler), PCL (registration base class, point clouds, kd-tree), laser and room";
}
Plan world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  int kind = prop == P23 ? 1 : prop == P15 ? 0 : prop == P24 ? 2 : int(r.below(3));
  p.cfg["kind"] = kind;
  double w = r.u();
  int which = kind == 0 ? (w < 0.35 ? CORR : w < 0.75 ? D2D : ROBUST) : (w < 0.2 ? CORR : w < 0.4 ? D2D : w < 0.85 ? ROBUST : P2D);
  p.cfg["which"] = which;
  p.cfg["room"] = double(r.below(1000));
  p.cfg["inner"] = double(r.range(1, 6));
  p.cfg["extent"] = r.real(3, 7);
  p.cfg["threads"] = r.chance(0.4) ? 2 : double(r.range(1, 8));
  p.cfg["layers"] = double(r.range(1, 3));
  p.cfg["cell"] = r.chance(0.6) ? 0.25 : 0.5;
  p.cfg["stepsize"] = r.real(0.05, 0.25);
  p.cfg["outlier"] = r.real(0.3, 0.6);
  p.cfg["limit"] = r.chance(0.3) ? r.real(0.7, 0.95) : r.real(0.1, 0.7);
  p.cfg["trange"] = r.pick(std::vector<double>{0.5, 1, 1.5, 2});
  p.cfg["rrange"] = r.chance(0.3) ? 0.2 + 0.2 * double(r.below(4)) : r.real(0.2, 1.2);
  p.cfg["cstep"] = r.pick(std::vector<double>{0.25, 0.5});
  p.cfg["maxit"] = double(r.range(2, 12));
  p.cfg["grids"] = double(r.below(2));
  V3 base(r.real(-1, 1), r.real(-1, 1), r.real(-3, 3));
  auto scan = [&](const char *op, bool target) {
    double e = r.chance(0.25) ? 1.5 : 0.4;
    int style = r.chance(0.62) ? 0 : r.chance(0.4) ? 1 : r.chance(0.4) ? 2 : r.chance(0.3) ? 3 : 4;
    if (which != CORR && style == 1 && r.chance(0.5))
      style = 0;
    if (p.steps.size() < 2 && style > 2)
      style = 0;
    V3 q = target ? base : V3(base(0) + r.real(-e, e), base(1) + r.real(-e, e), base(2) + r.real(-0.3, 0.3));
    double rays = which == CORR ? (r.chance(0.5) ? double(r.range(6, 40)) : double(r.range(40, 120))) : double(r.range(300, 700));
    Step s(op, {q(0), q(1), q(2), double(style), rays, double(r.below(100000)), r.chance(0.5) ? 0.0 : 0.02});
    return s;
  };
  if (kind == 2) {
    which = w < 0.6 ? CORR : w < 0.78 ? D2D : w < 0.85 ? P2D : ROBUST;
    p.cfg["which"] = which;
    p.cfg["layers"] = 4;
    p.cfg["cell"] = 0.25;
    p.cfg["maxit"] = 35;
    p.cfg["stepsize"] = which == P2D ? 0.05 : 0.22;
    p.cfg["outlier"] = which == P2D ? 0.3 : 0.55;
    p.cfg["limit"] = 0.6;
    p.cfg["cstep"] = which == ROBUST ? 0.5 : p.get("cstep");
    p.cfg["trange"] = which == ROBUST ? 1.5 : p.get("trange");
    p.cfg["grids"] = which == D2D ? double(r.below(2)) : 0;
    p.cfg["extent"] = r.real(4, 10);
    if (which != CORR) {
      p.steps.push_back(Step("batch", {double(r.below(1000000007)), 150}));
      return p;
    }
    int n = int(tier == "thorough" ? r.range(3, 12) : r.range(2, 6));
    for (int i = 0; i < n; ++i) {
      Step t = scan("tgt", true);
      t.a[3] = 0;
      t.a[4] = double(r.range(60, 500));
      p.steps.push_back(t);
      for (int k = int(r.range(1, 3)); k > 0; --k) {
        double drop = r.chance(0.5) ? 0 : r.real(0, 0.3), clutter = r.chance(0.6) ? 0 : r.real(0, 0.2), noise = r.chance(0.5) ? 0 : r.real(0, 0.01);
        Step s("find", {r.real(-2, 2), r.real(-2, 2), r.real(-3, 3), r.u(), r.u(), r.u(), drop, clutter, noise, double(r.below(100000)), r.chance(0.7) ? 64.0 : double(r.range(1, 8))});
        if (r.chance(0.15))
          s.fail = 1 + long(std::exp(r.real(0, 9)));
        p.steps.push_back(s);
      }
    }
    return p;
  }
  p.steps.push_back(scan("tgt", true));
  p.steps.push_back(scan("src", false));
  auto guess = [&] {
    V3 g = V3::Zero();
    if (r.chance(0.7))
      g = V3(r.real(-0.5, 0.5), r.real(-0.5, 0.5), r.real(-0.2, 0.2));
    if (r.chance(0.1))
      g = V3(r.real(-9, 9), r.real(-9, 9), r.real(-3, 3));
    return g;
  };
  if (kind == 0) {
    int n = int(tier == "thorough" ? r.range(4, 16) : r.range(4, 10));
    V3 g = guess();
    for (int i = 0; i < n; ++i) {
      double rate = r.pick(std::vector<double>{0.5, 0.1, 0.02, 0.004, 0.001});
      double granted = r.chance(0.55) ? 64 : double(r.range(1, std::max(1, int(p.get("threads")) - 1)));
      p.steps.push_back(Step("sched", {g(0), g(1), g(2), double(r.below(1000000007)), granted, rate, r.chance(0.6) ? 1.0 : 0.0, double(r.range(1, 16))}));
    }
  } else {
    int n = int(tier == "thorough" ? r.range(6, 30) : r.range(5, 16));
    for (int i = 0; i < n; ++i) {
      double u = r.u();
      long fail = 0;
      if (r.chance(0.2))
        fail = 1 + long(std::exp(r.real(0, 9)));
      if (u < 0.15)
        p.steps.push_back(scan("tgt", r.chance(0.7)));
      else if (u < 0.35)
        p.steps.push_back(scan("src", false));
      else if (u < 0.42)
        p.steps.push_back(Step("limit", {r.chance(0.3) ? r.pick(std::vector<double>{0, 1, -0.5, 1.7}) : r.real(0.05, 0.95)}));
      else if (u < (which == CORR ? 0.58 : 0.5))
        p.steps.push_back(Step("set", {double(r.range(1, 8)), double(r.range(1, 3)), r.real(0.05, 0.25), r.real(0.3, 0.6), r.pick(std::vector<double>{0.5, 1, 2}), r.real(0.2, 1.2),
                                   r.pick(std::vector<double>{0.25, 0.5, 1}), r.pick(std::vector<double>{0.25, 0.25, 0.35, 0.5, 0.7}), double(r.range(2, 12))}));
      else {
        V3 g = guess();
        p.steps.push_back(Step("run", {g(0), g(1), g(2)}));
      }
      p.steps.back().fail = fail;
    }
  }
  return p;
}
void world_execute(const Plan &p, Ctx &ctx)
{
  Mute mute;
  mem::set_fill(0xA5A5A5A5u);
  mem::cap_bytes = size_t(1) << 30;
  simomp::configure(plain(64));
  Sim s(p, ctx);
  int kind = int(p.get("kind"));
  if (kind >= 1)
    s.live = make(s.cur);
  for (size_t i = 0; i < p.steps.size(); ++i) {
    ctx.step = i;
    const Step &st = p.steps[i];
    ctx.count("op:" + st.op);
    ctx.sim_time += 0.1;
    if (st.op == "src" || st.op == "tgt") {
      Input in = s.sc.scan(st);
      bool src = st.op == "src";
      (src ? s.src : s.tgt) = in;
      (src ? s.have_src : s.have_tgt) = true;
      if (!src)
        s.tgt_style = st.iarg(3);
      // an empty target is refused by PCL, the old one stays: a caller must not do that
      if (!src && (in.cloud->empty() || (s.cur.which != CORR && in.grid->getMeans()->empty())))
        s.have_tgt = false;
      s.ref_known = false;
      if (kind >= 1)
        s.live_input(src, in, st.fail);
    } else if (st.op == "find" && kind == 2) {
      s.run_find(st);
    } else if (st.op == "batch" && kind == 2) {
      s.run_batch(st);
    } else if (st.op == "sched" && kind == 0) {
      s.sched(st);
    } else if (st.op == "run" && kind == 1) {
      s.run_live(st);
    } else if (st.op == "limit" && kind == 1) {
      double l = st.arg(0);
      bool refused = false;
      try {
        s.live->limit(l);
      } catch (const std::exception &) {
        refused = true;
        ctx.fault("bad_setting");
      }
      if (!refused && l > 0 && l < 1)
        s.cur.limit = l;
    } else if (st.op == "set" && kind == 1) {
      s.cur.threads = int(std::max(1L, st.iarg(0)));
      s.cur.layers = int(std::max(1L, st.iarg(1)));
      s.cur.step = st.arg(2);
      s.cur.outlier = st.arg(3);
      s.cur.trange = st.arg(4);
      s.cur.rrange = st.arg(5);
      if (st.arg(6) > 0)
        s.cur.cstep = st.arg(6);
      if (st.arg(7) > 0)
        s.cur.cell = st.arg(7);
      if (st.arg(8) > 0)
        s.cur.maxit = int(st.iarg(8));
      s.live->settings(s.cur);
      s.sc.s = s.cur;
      ctx.probe("settings_changed");
      // matchers may look at the settings when they are given scans
      if (s.have_src) {
        s.src.grid = Scene::grid_of(s.src.cloud, s.cur.cell);
        s.live_input(true, s.src, 0);
      }
      if (s.have_tgt) {
        s.tgt.grid = Scene::grid_of(s.tgt.cloud, s.cur.cell);
        s.have_tgt = s.cur.which == CORR || !s.tgt.grid->getMeans()->empty();
        s.live_input(false, s.tgt, 0);
      }
    }
  }
}
}  // namespace sim

// ---- hooks of the instrumented code -----------------------------------------------------------------
#define NT __attribute__((no_sanitize("thread"), used))
extern "C" {
NT void __tsan_init() {}
NT void __tsan_func_entry(void *) {}
NT void __tsan_func_exit() {}
#define RW(N)                                                                             \
  NT void __tsan_read##N(void *a) { simomp::access(a, N, false); }                        \
  NT void __tsan_write##N(void *a) { simomp::access(a, N, true); }                        \
  NT void __tsan_unaligned_read##N(void *a) { simomp::access(a, N, false); }              \
  NT void __tsan_unaligned_write##N(void *a) { simomp::access(a, N, true); }              \
  NT void __tsan_volatile_read##N(void *a) { simomp::access(a, N, false); }               \
  NT void __tsan_volatile_write##N(void *a) { simomp::access(a, N, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
NT void __tsan_read_range(void *a, size_t n) { simomp::access(a, n, false); }
NT void __tsan_write_range(void *a, size_t n) { simomp::access(a, n, true); }
NT void __tsan_vptr_update(void **a, void *) { simomp::access(a, 8, true); }
NT void __tsan_vptr_read(void **a) { simomp::access(a, 8, false); }
#define AT(T, B)                                                                                                          \
  NT T __tsan_atomic##B##_load(const volatile T *a, int)                                                                  \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    return *a;                                                                                                            \
  }                                                                                                                       \
  NT void __tsan_atomic##B##_store(volatile T *a, T v, int)                                                               \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    *a = v;                                                                                                               \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_exchange(volatile T *a, T v, int)                                                               \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = v;                                                                                                               \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int)                                                              \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = T(o + v);                                                                                                        \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int)                                                              \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = T(o - v);                                                                                                        \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int)                                                              \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = T(o & v);                                                                                                        \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int)                                                               \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = T(o | v);                                                                                                        \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int)                                                              \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    *a = T(o ^ v);                                                                                                        \
    return o;                                                                                                             \
  }                                                                                                                       \
  NT bool __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                                  \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    if (*a == *c) {                                                                                                       \
      *a = v;                                                                                                             \
      return true;                                                                                                        \
    }                                                                                                                     \
    *c = *a;                                                                                                              \
    return false;                                                                                                         \
  }                                                                                                                       \
  NT bool __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y)                                \
  {                                                                                                                       \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, x, y);                                                     \
  }                                                                                                                       \
  NT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int)                                         \
  {                                                                                                                       \
    simomp::sync_point();                                                                                                 \
    T o = *a;                                                                                                             \
    if (o == c)                                                                                                           \
      *a = v;                                                                                                             \
    return o;                                                                                                             \
  }
AT(char, 8)
AT(short, 16)
AT(int, 32)
AT(long, 64)
NT void __tsan_atomic_thread_fence(int) { simomp::sync_point(); }
NT void __tsan_atomic_signal_fence(int) {}
}
