// backendworld: the real back end (pose graph, loop detector, g2o optimiser, map data of every pose)
// driven by a simulated robot; the scan matcher is a recording stub which the plan makes accept,
// refuse, return wrong transforms or run out of memory.
//  kind 0  loop detection histories (C07): which pairs are offered, which constraints appear
//  kind 1  optimisation histories (C08): consistent constraints, noisy loops, grossly wrong loops
#include <algorithm>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <vector>
#include <src/ndt/ndt_cell.cpp>
#include <ndt_gslam/ndt_grid2d_holder.h>
#include <ndt_gslam/slam_optimizer/slam2d.h>
#include <g2o/core/optimization_algorithm_factory.h>
#include <g2o/core/factory.h>
#include "../core/sim.h"
#include "gl_stub.h"

using namespace sim;
G2O_USE_TYPE_GROUP(slam2d);
G2O_USE_OPTIMIZATION_LIBRARY(eigen);
namespace
{
using namespace slamuk;
const char *P7 = "C07";
const char *P5 = "C05";
const char *P8 = "C08";
typedef Eigen::Vector3d V3;
typedef NDTGrid2D<NDTCell, pcl::PointXYZ> Grid;
typedef NDTGrid2DHolder<NDTCell, pcl::PointXYZ> Holder;
typedef Eigen::Transform<double, 2, Eigen::TransformTraits::Affine> T2;

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
struct Mute {
  NullBuf nb;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&nb)), b(std::cerr.rdbuf(&nb)) {}
  ~Mute()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};

double nang(double a)
{
  a = std::fmod(a + M_PI, 2 * M_PI);
  if (a < 0)
    a += 2 * M_PI;
  return a - M_PI;
}
V3 inv(const V3 &a)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(-(c * a(0) + s * a(1)), s * a(0) - c * a(1), -a(2));
}
V3 mul(const V3 &a, const V3 &b)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(a(0) + c * b(0) - s * b(1), a(1) + s * b(0) + c * b(1), nang(a(2) + b(2)));
}
bool close_pose(const V3 &a, const V3 &b, double tol)
{
  return std::fabs(a(0) - b(0)) <= tol && std::fabs(a(1) - b(1)) <= tol && std::fabs(nang(a(2) - b(2))) <= tol;
}
T2 mat(const V3 &p)
{
  T2 t;
  t.setIdentity();
  t.translation() = p.head<2>();
  double c = std::cos(p(2)), s = std::sin(p(2));
  t.linear() << c, -s, s, c;
  return t;
}
V3 vec(const T2 &t)
{
  return V3(t.matrix()(0, 2), t.matrix()(1, 2), std::atan2(t.matrix()(1, 0), t.matrix()(0, 0)));
}

// What the simulated matcher is told to do, and what it was asked.
struct Call {
  size_t source, target;
  bool accepted;
  V3 trans;
};
struct Oracle {
  std::map<const void *, size_t> ids;  // map data -> pose
  std::vector<V3> truth;
  std::vector<Call> calls;
  Rng r{1};
  double p_accept = 0.5, err_t = 0, err_r = 0;
  long throw_at = 0;  // this call runs out of memory
  bool unknown = false;
  float threshold = -1;
};
struct StubMatcher : IScanmatcher2d<Holder> {
  Oracle *o;
  explicit StubMatcher(Oracle *oracle) : o(oracle) {}
  MatchResult match(const Holder &source, const Holder &target, const Eigen::Matrix3d &) override
  {
    auto a = o->ids.find(source.getData().get()), b = o->ids.find(target.getData().get());
    if (a == o->ids.end() || b == o->ids.end()) {
      o->unknown = true;
      return MatchResult();
    }
    if (o->throw_at > 0 && --o->throw_at == 0)
      throw std::bad_alloc();
    Call c;
    c.source = a->second;
    c.target = b->second;
    // the decision depends on the pair only, so that repeated searches see the same matcher
    Rng pr(o->r.s ^ (c.source * 7919 + c.target * 104729));
    c.accepted = pr.chance(o->p_accept);
    V3 rel = mul(inv(o->truth[c.target]), o->truth[c.source]);
    c.trans = mul(rel, V3(pr.real(-1, 1) * o->err_t, pr.real(-1, 1) * o->err_t, pr.real(-1, 1) * o->err_r));
    o->calls.push_back(c);
    MatchResult res(c.accepted, pr.u(), mat(c.trans));
    res.inform_ = Eigen::Matrix3d::Identity() * 5000;
    return res;
  }
  void setScoreThreshold(float s) override { o->threshold = s; }
};

struct MEdge {
  size_t from, to;
  V3 z;
  bool loop;
};
struct GraphText {
  std::vector<std::pair<size_t, size_t>> edges;
  size_t nodes = 0;
};
GraphText parse_text(const Slam2D<Holder> &s)
{
  std::ostringstream os;
  s.getGraphSerialized(os);
  GraphText g;
  std::istringstream is(os.str());
  std::string l;
  while (std::getline(is, l)) {
    size_t arrow = l.find("->");
    if (arrow != std::string::npos)
      g.edges.push_back({std::stoul(l.substr(1, arrow - 1)), std::stoul(l.substr(arrow + 3))});
    else if (l.find("pose") != std::string::npos)
      ++g.nodes;
  }
  return g;
}
// One Gauss-Newton step of a reference solver from the poses 'x' (first pose held): how far the
// poses are from the configuration of least error. Weights are those the constraints report.
double distance_to_optimum(const Slam2D<Holder> &slam, const std::vector<MEdge> &edges, const std::vector<V3> &x, double &chi2)
{
  size_t n = x.size() * 3;
  Eigen::MatrixXd h = Eigen::MatrixXd::Zero(n, n);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
  auto err = [](const V3 &z, const V3 &i, const V3 &j) { return mul(inv(z), mul(inv(i), j)); };
  chi2 = 0;
  for (size_t k = 0; k < edges.size(); ++k) {
    Eigen::Matrix3d w = slam.getConstrainInformMat(k);
    const V3 &pi = x[edges[k].from], &pj = x[edges[k].to];
    V3 e0 = err(edges[k].z, pi, pj);
    chi2 += e0.dot(w * e0);
    Eigen::Matrix<double, 3, 6> j;
    for (int a = 0; a < 6; ++a) {
      V3 p[4] = {pi, pj, pi, pj};
      double d = 1e-6;
      p[a / 3](a % 3) += d;
      p[2 + a / 3](a % 3) -= d;
      V3 df = err(edges[k].z, p[0], p[1]) - err(edges[k].z, p[2], p[3]);
      df(2) = nang(df(2));
      j.col(a) = df / (2 * d);
    }
    size_t at[2] = {edges[k].from * 3, edges[k].to * 3};
    for (int u = 0; u < 2; ++u) {
      for (int v = 0; v < 2; ++v)
        h.block<3, 3>(at[u], at[v]) += j.block<3, 3>(0, 3 * u).transpose() * w * j.block<3, 3>(0, 3 * v);
      b.segment<3>(at[u]) += j.block<3, 3>(0, 3 * u).transpose() * w * e0;
    }
  }
  if (n < 6)
    return 0;
  Eigen::VectorXd dx = h.bottomRightCorner(n - 3, n - 3).ldlt().solve(b.tail(n - 3));
  return dx.cwiseAbs().maxCoeff();
}
}  // namespace

template <>
void slamuk::IScanmatcher2d<Holder>::setScoreThreshold(float)
{
}

const char *sim::world_name()
{
  return "backendworld";
}
int sim::world_cpu_limit()
{
  return 30;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: slam2d.h, loop_detector.h, pose_graph.h, ndt_grid2d_holder.h, ndt_grid2d.h, installed g2o; stub: scan "
         "matcher (recording, scripted answers), ROS logging and marker messages";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  bool c8 = prop == "C08" || (prop != "C07" && r.chance(0.5));
  p.cfg["kind"] = c8;
  // mode of the answers: 0 exact, 1 small errors, 2 wrong
  p.cfg["mode"] = c8 ? double(r.below(3)) : double(r.below(3));
  p.cfg["f_throw"] = r.chance(0.3) ? 0.3 : 0;
  double f_throw = p.cfg["f_throw"];
  p.cfg["x0"] = r.chance(0.5) ? 0 : r.real(-50, 50);
  p.cfg["y0"] = r.chance(0.5) ? 0 : r.real(-50, 50);
  p.cfg["th0"] = r.chance(0.5) ? 0 : r.real(-M_PI, M_PI);
  // errors of the poses announced with addPose (the estimate before optimisation)
  p.cfg["f_drift"] = r.chance(0.5) ? r.real(0, 1) : 0;
  double stepd = r.chance(0.3) ? r.real(0.1, 1) : r.real(1, 5);
  double wiggle = r.chance(0.2) ? M_PI : r.real(0.05, 0.9), bias = r.chance(0.5) ? r.real(-0.6, 0.6) : 0;
  double scale_min = r.chance(0.15) ? 0 : r.real(0, 12) * stepd;
  double scale_max = r.chance(0.1) ? 0 : r.chance(0.2) ? 1e6 : r.real(0, 12) * stepd;
  p.steps.push_back(Step("setmin", {scale_min}));
  p.steps.push_back(Step("setmax", {scale_max}));
  long n = r.range(2, tier == "thorough" ? 90 : 60);
  if (r.chance(0.15))
    n = r.range(50, 120);
  double pd = r.real(0.02, 0.5), po = c8 ? r.real(0.05, 0.5) : r.chance(0.3) ? 0.1 : 0, pset = 0.03;
  if (r.chance(0.05))
    p.steps.push_back(Step("optimise", {}));
  for (long i = 0; i < n; ++i) {
    double d = r.chance(0.05) ? 0 : r.chance(0.05) ? stepd * 10 : stepd * r.real(0.5, 1.5);
    double dir = r.chance(0.1) ? r.real(-M_PI, M_PI) : 0;
    p.steps.push_back(Step("move", {d * std::cos(dir), d * std::sin(dir), nang(bias + r.real(-wiggle, wiggle)),
                                    r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}));
    auto answer = [&] {
      double pa = r.chance(0.15) ? 1 : r.chance(0.2) ? 0 : r.u();
      double mag = r.chance(0.3) ? r.real(0, 1) : std::pow(10.0, r.real(-1, 4));
      return std::vector<double>{double(r.below(1u << 30)), pa, r.chance(f_throw) ? double(r.range(1, 6)) : 0, mag};
    };
    if (r.chance(pd)) {
      auto a = answer();
      p.steps.push_back(Step(r.chance(0.8) ? "detect" : "detect_newest_id", a));
      while (r.chance(0.25)) {
        a[2] = 0;
        p.steps.push_back(Step("detect", a));  // once more, same matcher
      }
    }
    if (!c8 && r.chance(0.05)) {
      auto a = answer();
      a.push_back(double(r.below(1u << 20)));
      p.steps.push_back(Step("detect_at", a));
    }
    if (r.chance(po))
      p.steps.push_back(Step(r.chance(0.5) ? "optimise" : "optimise_iter", {}));
    if (r.chance(pset))
      p.steps.push_back(Step("setmin", {r.chance(0.3) ? 0 : r.real(0, 12) * stepd}));
    if (r.chance(pset))
      p.steps.push_back(Step("setmax", {r.chance(0.2) ? 1e6 : r.real(0, 12) * stepd}));
  }
  if (c8)
    p.steps.push_back(Step("optimise", {}));
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  Mute mute;
  Oracle orc;
  // owns its optimiser twice over: never destroyed here
  Slam2D<Holder> &slam = *new Slam2D<Holder>(std::unique_ptr<IScanmatcher2d<Holder>>(new StubMatcher(&orc)));
  std::vector<Holder> data;
  std::vector<MEdge> edges;
  std::vector<V3> truth, before_opt;
  std::vector<double> chain;  // length of the odometry constraint into pose i
  long mode = std::lround(plan.get("mode"));
  double drift = plan.get("f_drift");
  double min_d = 20, max_d = 15;
  bool noisy = false, wild = false;
  bool optimised = false, new_since_opt = false;
  V3 first;
  auto pose = [&](size_t i) { return V3(slam.getPoseLocation(i)); };
  auto add_pose = [&](const V3 &tr, const V3 &announced) {
    auto g = boost::shared_ptr<Grid>(new Grid());
    g->setCellSize(0.25);
    g->setOrigin(announced);
    Holder h(g);
    size_t id = slam.addPose(announced, h);
    SIM_CHECK(c, P8, "pose_id", id == truth.size(), "pose number %zu got id %zu", truth.size(), id);
    orc.ids[g.get()] = truth.size();
    data.push_back(h);
    truth.push_back(tr);
    orc.truth = truth;
    SIM_CHECK(c, P8, "add_pose", pose(id) == announced, "pose %zu is not where it was added", id);
  };
  // every stored constraint is one the model expects, with the same value
  auto check_edges = [&](const char *op) {
    GraphText g = parse_text(slam);
    auto markers = slam.getGraphSerialized("m");
    SIM_CHECK(c, P7, "edge_count", g.edges.size() == edges.size(), "after %s the graph holds %zu constraints, expected %zu",
              op, g.edges.size(), edges.size());
    SIM_CHECK(c, P7, "edge_count", markers.markers.size() == edges.size(), "after %s the graph shows %zu constraints, expected %zu",
              op, markers.markers.size(), edges.size());
    for (size_t i = 0; i < edges.size(); ++i) {
      auto pr = slam.getConstrainPoses(i);
      SIM_CHECK(c, P7, "edge_poses", pr.first == edges[i].from && pr.second == edges[i].to,
                "after %s constraint %zu links %zu->%zu, expected %zu->%zu", op, i, pr.first, pr.second, edges[i].from,
                edges[i].to);
      V3 t = slam.getConstrainTransform(i);
      double sc = 1 + t.head<2>().cwiseAbs().maxCoeff();
      SIM_CHECK(c, P7, "edge_transform", close_pose(t, edges[i].z, 1e-9 * sc),
                "after %s constraint %zu->%zu carries (%g,%g,%g) instead of (%g,%g,%g)", op, pr.first, pr.second, t(0), t(1),
                t(2), edges[i].z(0), edges[i].z(1), edges[i].z(2));
      const auto &m = markers.markers[i];
      bool green = m.color.g == 1.0f && m.color.r == 0.0f;
      SIM_CHECK(c, P7, "edge_kind", green == edges[i].loop, "after %s constraint %zu->%zu is shown as %s", op, pr.first,
                pr.second, green ? "loop" : "odometry");
    }
  };
  auto check_poses = [&](const char *op) {
    for (size_t i = 0; i < truth.size(); ++i) {
      V3 p = pose(i);
      SIM_CHECK(c, P8, "finite", std::isfinite(p.sum()), "after %s pose %zu is (%g,%g,%g)", op, i, p(0), p(1), p(2));
      V3 o = slam.getPoseData(i).getData()->getOrigin();
      SIM_CHECK(c, P8, "data_step", slam.getPoseData(i).getData() == data[i].getData() && close_pose(o, p, 1e-9 * (1 + p.norm())),
                "after %s the map data of pose %zu lies at (%g,%g,%g), the pose at (%g,%g,%g)", op, i, o(0), o(1), o(2), p(0),
                p(1), p(2));
    }
    if (!truth.empty())
      SIM_CHECK(c, P8, "anchored", close_pose(pose(0), first, 1e-12 * (1 + first.norm())), "after %s the first pose moved", op);
  };
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    mem::dirty_stack(uint64_t(plan.get("memfill")) + si);
    if (s.op == "setmin") {
      slam.setLoopGenerationMinDist(float(s.arg(0)));
      min_d = float(s.arg(0));
    } else if (s.op == "setmax") {
      slam.setLoopGenerationMaxDist(float(s.arg(0)));
      max_d = float(s.arg(0));
    } else if (s.op == "move") {
      if (truth.empty()) {
        first = V3(plan.get("x0"), plan.get("y0"), plan.get("th0"));
        add_pose(first, first);
        chain.push_back(0);
      } else {
        size_t k = truth.size() - 1;
        V3 z(s.arg(0), s.arg(1), s.arg(2));
        V3 tr = mul(truth[k], z);
        V3 est = mul(pose(k), z);
        V3 ann = drift > 0 ? V3(est + drift * V3(s.arg(3), s.arg(4), s.arg(5))) : est;
        add_pose(tr, ann);
        if (drift > 0)
          c.fault("announced_pose_drift");
        size_t id = slam.addLastConstrain(z, Eigen::Matrix3d::Identity());
        SIM_CHECK(c, P7, "edge_id", id == edges.size(), "constraint number %zu got id %zu", edges.size(), id);
        edges.push_back({k, k + 1, z, false});
        chain.push_back(z.head<2>().norm());
        c.sim_time += 1;
      }
      new_since_opt = true;
    } else if (s.op == "detect" || s.op == "detect_newest_id" || s.op == "detect_at") {
      if (truth.empty())
        continue;
      size_t newest = truth.size() - 1;
      size_t from = s.op == "detect_at" ? size_t(s.iarg(4)) % truth.size() : newest;
      orc.calls.clear();
      orc.unknown = false;
      orc.r = Rng(uint64_t(s.iarg(0)) + 5);
      orc.p_accept = s.arg(1);
      orc.throw_at = s.iarg(2);
      orc.err_t = mode == 0 ? 0 : mode == 1 ? 0.3 : s.arg(3);
      orc.err_r = mode == 0 ? 0 : mode == 1 ? 0.05 : std::min(M_PI, s.arg(3));
      std::vector<V3> pre;
      for (size_t i = 0; i < truth.size(); ++i)
        pre.push_back(pose(i));
      bool got = false, threw = false;
      try {
        got = s.op == "detect" ? slam.tryLoopClose() : slam.tryLoopClose(from);
      } catch (const std::bad_alloc &) {
        SIM_CHECK(c, P7, "throws", s.iarg(2) > 0 && orc.throw_at == 0, "loop detection ran out of memory by itself");
        threw = true;
        c.fault("matcher_out_of_memory");
      }
      orc.throw_at = 0;
      SIM_CHECK(c, P7, "foreign_data", !orc.unknown, "the matcher was given data of no stored pose");
      // every offered pair is allowed
      std::set<size_t> seen;
      std::vector<double> path(truth.size(), 0);
      for (size_t i = from; i-- > 0;)
        path[i] = path[i + 1] + chain[i + 1];
      double tol = 1e-6 * (1 + path[0]);
      // with loops towards older poses only, the chain is the only way back from the newest pose
      bool exact = std::none_of(edges.begin(), edges.end(),
                                [&](const MEdge &e) { return e.loop && (from != newest || e.from < e.to); });
      size_t accepted = 0;
      for (auto &k : orc.calls) {
        SIM_CHECK(c, P7, "target", k.target == from, "detection from pose %zu matched against pose %zu", from, k.target);
        SIM_CHECK(c, P7, "source", k.source != from, "pose %zu was matched with itself", from);
        SIM_CHECK(c, P7, "once", seen.insert(k.source).second, "pose %zu was offered twice in one search", k.source);
        double d = (pre[from] - pre[k.source]).head<2>().norm();
        SIM_CHECK(c, P7, "too_far", d < max_d + 1e-6, "poses %zu and %zu are %.6g apart, more than the maximum %.6g", from,
                  k.source, d, max_d);
        SIM_CHECK(c, P5, "max_distance_ignored", d < max_d + 1e-6, "with a maximum loop distance of %.6g a pose %.6g away is matched", max_d, d);
        if (exact)
          SIM_CHECK(c, P5, "min_distance_ignored", k.source < from && path[k.source] >= min_d - tol,
                    "with a minimum loop distance of %.6g a pose %.6g away along the path is matched", min_d, k.source < from ? path[k.source] : 0.0);
        if (exact)
          SIM_CHECK(c, P7, "too_near_on_path", k.source < from && path[k.source] >= min_d - tol,
                    "poses %zu and %zu are %.6g apart along the path, less than the minimum %.6g", from, k.source,
                    k.source < from ? path[k.source] : 0.0, min_d);
        accepted += k.accepted;
        if (!k.accepted)
          c.fault("matcher_refused");
        else if (mode)
          c.fault(mode == 1 ? "matcher_inaccurate" : "matcher_wrong");
      }
      if (exact && !threw) {
        size_t must = 0;
        for (size_t i = 0; i < from; ++i) {
          double d = (pre[from] - pre[i]).head<2>().norm();
          bool cand = d < max_d - 1e-6 && path[i] >= min_d + tol;
          must += cand;
          if (cand && orc.calls.size() < 50)
            SIM_CHECK(c, P5, "distances_ignored", seen.count(i) == 1,
                      "with loop distances of %.6g to %.6g a pose %.6g away, %.6g along the path, is not matched", min_d, max_d, d, path[i]);
          if (cand && orc.calls.size() < 50)
            SIM_CHECK(c, P7, "not_offered", seen.count(i) == 1,
                      "poses %zu and %zu (%.6g apart, %.6g along the path) were not offered to the matcher", from, i, d,
                      path[i]);
        }
        if (must)
          c.probe("candidates");
        if (must > 50)
          c.probe("search_limit");
        if (must && !accepted)
          c.probe("all_refused");
        if (s.op == "detect_at" && from != newest)
          c.probe("search_from_older_pose");
      }
      if (!exact)
        c.probe("search_over_loops");
      if (threw) {
        // nothing may have been added
      } else {
        SIM_CHECK(c, P7, "result", got == (accepted > 0), "detection reported %s, the matcher accepted %zu pairs",
                  got ? "a loop" : "no loop", accepted);
        // new constraints: one per accepted pair, in any order
        std::map<size_t, Call> want;
        for (auto &k : orc.calls)
          if (k.accepted)
            want[k.source] = k;
        GraphText g = parse_text(slam);
        SIM_CHECK(c, P7, "edge_count", g.edges.size() == edges.size() + want.size(),
                  "%zu constraints after detection, expected %zu and %zu accepted", g.edges.size(), edges.size(), want.size());
        size_t base = edges.size();
        for (size_t i = base; i < g.edges.size(); ++i) {
          auto pr = slam.getConstrainPoses(i);
          bool fwd = pr.first == from && want.count(pr.second);
          SIM_CHECK(c, P7, "not_accepted", fwd, "constraint %zu->%zu was created without an accepted match", pr.first,
                    pr.second);
          edges.push_back({from, pr.second, want[pr.second].trans, true});
          want.erase(pr.second);
        }
        if (accepted) {
          c.probe("loops", accepted);
          if (mode == 1)
            noisy = true;
          if (mode == 2)
            wild = true;
          optimised = false;
          if (from != newest)
            c.probe("loop_from_older_pose");
        }
      }
      for (size_t i = 0; i < truth.size(); ++i)
        SIM_CHECK(c, P8, "detection_moved", pose(i) == pre[i], "loop detection moved pose %zu", i);
      for (auto &k : orc.calls)
        c.mix(k.source * 3 + k.accepted);
      c.state(hmix(hmix(orc.calls.size(), accepted), newest * 64 + from));
    } else {  // optimise
      std::vector<V3> pre;
      for (size_t i = 0; i < truth.size(); ++i)
        pre.push_back(pose(i));
      if (s.op == "optimise")
        slam.optimalize();
      else
        slam.optimalizeIterationaly();
      check_poses("optimisation");
      if (!noisy && !wild && !truth.empty()) {
        double sc = 1;
        for (auto &t : truth)
          sc = std::max(sc, t.head<2>().cwiseAbs().maxCoeff());
        for (size_t i = 0; i < truth.size(); ++i)
          SIM_CHECK(c, P8, "consistent", close_pose(pose(i), truth[i], 1e-6 * sc),
                    "all constraints agree but pose %zu is (%g,%g,%g) instead of (%g,%g,%g)", i, pose(i)(0), pose(i)(1),
                    pose(i)(2), truth[i](0), truth[i](1), truth[i](2));
        c.probe("consistent_recovered");
      }
      if (noisy && !wild && !truth.empty()) {
        std::vector<V3> now;
        double sc = 1, chi2;
        for (size_t i = 0; i < truth.size(); ++i) {
          now.push_back(pose(i));
          sc = std::max(sc, now[i].head<2>().cwiseAbs().maxCoeff());
        }
        double away = distance_to_optimum(slam, edges, now, chi2);
        SIM_CHECK(c, P8, "not_optimal", away <= 1e-4 * sc,
                  "the optimised poses are still %.3g from the configuration of least error (total error %.4g)", away, chi2);
        c.probe("compared_with_optimum");
      }
      if (optimised && !new_since_opt) {
        // the same constraints again: nothing may move
        if (!wild)
          for (size_t i = 0; i < truth.size(); ++i)
            SIM_CHECK(c, P8, "repeat_moves", close_pose(pose(i), pre[i], 1e-5 * (1 + pre[i].norm())),
                      "optimising again without new constraints moved pose %zu from (%g,%g,%g) to (%g,%g,%g)", i, pre[i](0),
                      pre[i](1), pre[i](2), pose(i)(0), pose(i)(1), pose(i)(2));
        c.probe("repeated_optimisation");
      } else if (optimised && !wild && drift == 0) {
        // only odometry was added since
        for (size_t i = 0; i < truth.size(); ++i)
          SIM_CHECK(c, P8, "leaf_moves", close_pose(pose(i), pre[i], 1e-3 * (1 + pre[i].norm())),
                    "optimising without a new loop moved pose %zu from (%g,%g,%g) to (%g,%g,%g)", i, pre[i](0), pre[i](1),
                    pre[i](2), pose(i)(0), pose(i)(1), pose(i)(2));
        c.probe("optimised_without_new_loop");
      } else if (wild)
        c.probe("optimised_wrong_loops");
      else if (noisy)
        c.probe("optimised_noisy_loops");
      optimised = true;
      new_since_opt = false;
      for (size_t i = 0; i < truth.size(); ++i)
        if (!wild)
          c.mix(uint64_t(std::llround(pose(i)(0) * 100)));
      c.state(hmix(edges.size(), truth.size()) + (wild ? 1 : 0));
    }
    check_edges(s.op.c_str());
    check_poses(s.op.c_str());
  }
  (void)noisy;
}
