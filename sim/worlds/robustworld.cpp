// robustworld: the real switchable and max-mixture constraints inside the real g2o optimiser.
//  kind 0  histories of vertex updates, optimiser backups and measurement changes; after every step
//          each constraint is compared with exact formulas and its derivatives with differences
//  kind 1  optimisation of pose graphs with wrong loops, interrupted, resumed, rolled back
//  kind 2  saving and loading through streams that are cut, fail to read or fail to write
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <streambuf>
#include <vector>
#include <g2o/core/factory.h>
#include <g2o/core/hyper_graph_action.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/optimization_algorithm_factory.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/edge_se2_pointxy.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
#include <g2o/types/slam2d/vertex_se2.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se3_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include "../core/sim.h"

using namespace sim;
G2O_USE_TYPE_GROUP(slam2d);
G2O_USE_TYPE_GROUP(slam3d);
G2O_USE_OPTIMIZATION_LIBRARY(eigen);
G2O_USE_OPTIMIZATION_LIBRARY(csparse);
namespace
{
struct RegisterMixtures {
  RegisterMixtures()
  {
    auto f = g2o::Factory::instance();
    if (!f->knowsTag("EDGE_SE2_MIXTURE"))
      f->registerType("EDGE_SE2_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE2Mixture>>());
    if (!f->knowsTag("EDGE_SE2_XY_MIXTURE"))
      f->registerType("EDGE_SE2_XY_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE2PointXYMixture>>());
    if (!f->knowsTag("EDGE_SE3_MIXTURE"))
      f->registerType("EDGE_SE3_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE3Mixture>>());
    if (!f->knowsTag("EDGE_SE2_SWITCHABLE"))
      f->registerType("EDGE_SE2_SWITCHABLE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE2Switchable>>());
    if (!f->knowsTag("EDGE_SWITCH_PRIOR"))
      f->registerType("EDGE_SWITCH_PRIOR", std::make_unique<g2o::HyperGraphElementCreator<EdgeSwitchPrior>>());
    if (!f->knowsTag("VERTEX_SWITCH"))
      f->registerType("VERTEX_SWITCH", std::make_unique<g2o::HyperGraphElementCreator<VertexSwitchLinear>>());
  }
};

const char *P18 = "C18";
const char *P19 = "C19";
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
struct Mute {
  NullBuf nb;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&nb)), b(std::cerr.rdbuf(&nb)) {}
  ~Mute()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};

double norm_angle(double a)
{
  a = std::fmod(a + M_PI, 2 * M_PI);
  if (a < 0)
    a += 2 * M_PI;
  return a - M_PI;
}
V3 inv(const V3 &a)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(-(c * a(0) + s * a(1)), s * a(0) - c * a(1), -a(2));
}
V3 mul(const V3 &a, const V3 &b)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(a(0) + c * b(0) - s * b(1), a(1) + s * b(0) + c * b(1), norm_angle(a(2) + b(2)));
}
V3 pose_of(const g2o::HyperGraph::Vertex *v)
{
  return static_cast<const g2o::VertexSE2 *>(v)->estimate().toVector();
}
g2o::SE2 se2(const V3 &v)
{
  return g2o::SE2(v(0), v(1), v(2));
}
V3 rel_error(const V3 &z, const V3 &a, const V3 &b)
{
  return mul(inv(z), mul(inv(a), b));
}
double ang_dist(double a, double b)
{
  return std::fabs(norm_angle(a - b));
}
bool close_pose(const V3 &a, const V3 &b, double tol)
{
  return std::fabs(a(0) - b(0)) <= tol && std::fabs(a(1) - b(1)) <= tol && ang_dist(a(2), b(2)) <= tol;
}

V3 rand_pose(Rng &r, double s)
{
  return V3(r.real(-s, s), r.real(-s, s), r.real(-M_PI, M_PI));
}
template <int N>
Eigen::Matrix<double, N, N> rand_info(Rng &r)
{
  Eigen::Matrix<double, N, N> q = Eigen::Matrix<double, N, N>::Zero();
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j)
      q(i, j) = r.real(-1, 1);
  Eigen::Matrix<double, N, N> m = q * q.transpose() + Eigen::Matrix<double, N, N>::Identity() * r.real(0.1, 3);
  m *= std::pow(10.0, r.real(-2, 3));
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < i; ++j)
      m(i, j) = m(j, i);
  return m;
}

// ---- derivative comparison ---------------------------------------------------------------------
// Jacobian of e with respect to its k-th vertex by differences through the vertices' own updates.
template <typename E>
Eigen::MatrixXd num_jac(E &e, size_t k, int dim)
{
  auto *v = static_cast<g2o::OptimizableGraph::Vertex *>(e.vertices()[k]);
  int vd = v->dimension();
  Eigen::MatrixXd J(dim, vd);
  for (int d = 0; d < vd; ++d) {
    double up = 1e-6, dn = 1e-6;
    if (auto *s = dynamic_cast<VertexSwitchLinear *>(v)) {  // stay inside the allowed range
      up = std::min(up, 1 - s->estimate());
      dn = std::min(dn, s->estimate());
    }
    Eigen::VectorXd u = Eigen::VectorXd::Zero(vd), ep(dim), em(dim);
    auto eval = [&](double h, Eigen::VectorXd &out) {
      v->push();
      u(d) = h;
      v->oplus(u.data());
      e.computeError();
      for (int i = 0; i < dim; ++i)
        out(i) = e.errorData()[i];
      v->pop();
    };
    eval(up, ep);
    eval(-dn, em);
    J.col(d) = (ep - em) / (up + dn);
  }
  e.computeError();
  return J;
}

template <typename E>
bool jac_ok(E &e, int dim, double scale, std::string &why)
{
  std::vector<Eigen::MatrixXd> num;
  for (size_t k = 0; k < e.vertices().size(); ++k)
    num.push_back(num_jac(e, k, dim));
  g2o::JacobianWorkspace ws;
  ws.updateSize(int(e.vertices().size()), dim * 6);
  ws.allocate();
  e.computeError();
  static_cast<g2o::OptimizableGraph::Edge &>(e).linearizeOplus(ws);
  for (size_t k = 0; k < e.vertices().size(); ++k) {
    int vd = static_cast<g2o::OptimizableGraph::Vertex *>(e.vertices()[k])->dimension();
    Eigen::Map<Eigen::MatrixXd> J(ws.workspaceForVertex(int(k)), dim, vd);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < vd; ++j)
        if (!(std::fabs(J(i, j) - num[k](i, j)) <= 1e-4 * (1 + scale + std::fabs(num[k](i, j))))) {
          why = fmt("vertex %zu entry (%d,%d): analytic %.8g, numeric %.8g", k, i, j, J(i, j), num[k](i, j));
          return false;
        }
  }
  return true;
}

// ---- exact formulas -----------------------------------------------------------------------------
void check_switchable(Ctx &c, EdgeSE2Switchable &e, const V3 &z, double s, const char *op)
{
  V3 a = pose_of(e.vertices()[0]), b = pose_of(e.vertices()[1]);
  V3 d = rel_error(z, a, b);
  e.computeError();
  V3 got(e.errorData()[0], e.errorData()[1], e.errorData()[2]);
  double scale = d.head<2>().cwiseAbs().maxCoeff();
  bool wrap = std::fabs(std::fabs(d(2)) - M_PI) < 1e-4;
  if (wrap)
    got(2) = d(2) * s;
  SIM_CHECK(c, P18, "switch_error", (got - s * d).cwiseAbs().maxCoeff() <= 1e-8 * (1 + scale),
            "after %s switchable constraint reports (%.9g %.9g %.9g), switch %.9g times relative error is (%.9g %.9g %.9g)",
            op, got(0), got(1), got(2), s, s * d(0), s * d(1), s * d(2));
  if (!wrap) {
    std::string why;
    SIM_CHECK(c, P18, "switch_derivative", jac_ok(e, 3, scale, why), "after %s switchable constraint: %s", op,
              why.c_str());
  }
}

template <typename Mix, int N>
struct Comp {
  Eigen::Matrix<double, N == 6 ? 7 : N, 1> z;
  Eigen::Matrix<double, N, N> info;
  double w;
  g2o::OptimizableGraph::Vertex *v0, *v1;
};
Eigen::Matrix<double, 3, 1> comp_error(const Comp<EdgeSE2Mixture, 3> &k)
{
  return rel_error(k.z, pose_of(k.v0), pose_of(k.v1));
}
Eigen::Matrix<double, 2, 1> comp_error(const Comp<EdgeSE2PointXYMixture, 2> &k)
{
  V3 a = pose_of(k.v0);
  Eigen::Vector2d p = static_cast<g2o::VertexPointXY *>(k.v1)->estimate();
  Eigen::Vector2d d = p - a.head<2>();
  double cs = std::cos(a(2)), sn = std::sin(a(2));
  return Eigen::Vector2d(cs * d(0) + sn * d(1), -sn * d(0) + cs * d(1)) - k.z;
}

// half turns in space: the error flips its sign there
bool half_turn(const Eigen::Matrix<double, 6, 1> &err)
{
  return err.tail<3>().norm() > 0.99;
}
Eigen::Matrix<double, 6, 1> comp_error(const Comp<EdgeSE3Mixture, 6> &k)
{
  Eigen::Quaterniond q(k.z(6), k.z(3), k.z(4), k.z(5));
  Eigen::Vector3d t = k.z.head<3>();
  Eigen::Isometry3d a = static_cast<g2o::VertexSE3 *>(k.v0)->estimate(), b = static_cast<g2o::VertexSE3 *>(k.v1)->estimate();
  Eigen::Matrix3d Ra = a.matrix().block<3, 3>(0, 0), Rb = b.matrix().block<3, 3>(0, 0);
  Eigen::Vector3d d = Ra.transpose() * (b.translation() - a.translation());
  Eigen::Matrix3d R = Ra.transpose() * Rb;
  Eigen::Matrix<double, 6, 1> e;
  e.head<3>() = q.conjugate() * (d - t);
  Eigen::Quaterniond w(q.toRotationMatrix().transpose() * R);
  w.normalize();
  if (w.w() < 0)
    w.coeffs() *= -1;
  e.tail<3>() = w.vec();
  return e;
}
template <typename V>
bool half_turn(const V &)
{
  return false;
}
Eigen::Matrix<double, 7, 1> rand_pose3(Rng &r, double s)
{
  Eigen::Matrix<double, 7, 1> z;
  Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  q.normalize();
  if (q.w() < 0)
    q.coeffs() *= -1;
  z << r.real(-s, s), r.real(-s, s), r.real(-s, s), q.x(), q.y(), q.z(), q.w();
  return z;
}
Eigen::Isometry3d iso(const Eigen::Matrix<double, 7, 1> &z)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.linear() = Eigen::Quaterniond(z(6), z(3), z(4), z(5)).toRotationMatrix();
  t.translation() = z.head<3>();
  return t;
}

template <typename Mix, int N>
void check_mixture(Ctx &c, Mix &e, const std::vector<Comp<Mix, N>> &cs, const char *op, const char *prop)
{
  double best = std::numeric_limits<double>::infinity(), second = best;
  size_t bi = 0;
  for (size_t i = 0; i < cs.size(); ++i) {
    auto err = comp_error(cs[i]);
    if (N == 3 && std::fabs(std::fabs(err(N - 1)) - M_PI) < 1e-4)
      return;
    if (N == 6 && half_turn(err))
      return;
    double nll = -std::log(cs[i].w) - 0.5 * std::log(cs[i].info.determinant()) + 0.5 * err.dot(cs[i].info * err);
    if (nll < best) {
      second = best;
      best = nll;
      bi = i;
    } else
      second = std::min(second, nll);
  }
  e.computeError();
  SIM_CHECK(c, prop, "mixture_size", size_t(e.numberComponents) == cs.size(), "after %s mixture has %d components, expected %zu",
            op, int(e.numberComponents), cs.size());
  if (second - best < 1e-6 * (1 + std::fabs(best)))
    return;
  SIM_CHECK(c, prop, "best_component", e.getBestComponent() == int(bi),
            "after %s mixture uses component %d, the most probable one is %zu (nll %.9g)", op, e.getBestComponent(), bi, best);
  const Comp<Mix, N> &k = cs[bi];
  auto err = comp_error(k);
  double scale = err.cwiseAbs().maxCoeff();
  bool same = e.vertices()[0] == k.v0 && e.vertices()[1] == k.v1;
  SIM_CHECK(c, prop, "mixture_vertices", same, "after %s mixture does not join the poses of component %zu", op, bi);
  for (int i = 0; i < N; ++i)
    SIM_CHECK(c, prop, "mixture_error", std::fabs(e.errorData()[i] - err(i)) <= 1e-8 * (1 + scale),
              "after %s mixture error entry %d is %.9g, its component gives %.9g", op, i, e.errorData()[i], err(i));
  SIM_CHECK(c, prop, "mixture_information",
            (e.information() - k.info).cwiseAbs().maxCoeff() <= 1e-9 * k.info.cwiseAbs().maxCoeff(),
            "after %s mixture does not carry the information of component %zu", op, bi);
  if (second - best > 1e-2 * (1 + std::fabs(best)) && std::string(prop) == P18) {
    std::string why;
    SIM_CHECK(c, prop, "mixture_derivative", jac_ok(e, N, scale, why), "after %s mixture: %s", op, why.c_str());
  }
}

void setup_solver(g2o::SparseOptimizer &o, int algo)
{
  static const char *names[] = {"gn_var", "lm_var", "gn_var_csparse", "lm_var_csparse", "dl_var"};
  g2o::OptimizationAlgorithmProperty prop;
  o.setAlgorithm(g2o::OptimizationAlgorithmFactory::instance()->construct(names[algo], prop));
}

struct StopAfter : g2o::HyperGraphAction {
  bool *flag;
  int left;
  StopAfter(bool *f, int n) : flag(f), left(n) {}
  g2o::HyperGraphAction *operator()(const g2o::HyperGraph *, Parameters *) override
  {
    if (--left <= 0)
      *flag = true;
    return this;
  }
};

// A mixture with its own components and their parameters.
template <typename Mix, typename Edge, int N>
struct MixHolder {
  std::vector<std::unique_ptr<Edge>> parts;
  std::vector<Comp<Mix, N>> cs;
  std::unique_ptr<Mix> e;
  void build(bool by_ctor)
  {
    parts.clear();
    std::vector<Edge *> ptrs;
    std::vector<double> ws;
    for (auto &k : cs) {
      parts.emplace_back(new Edge);
      Edge *p = parts.back().get();
      p->setVertex(0, k.v0);
      p->setVertex(1, k.v1);
      p->setMeasurementData(k.z.data());
      p->setInformation(k.info);
      ptrs.push_back(p);
      ws.push_back(k.w);
    }
    if (by_ctor || !e)
      e.reset(by_ctor ? new Mix(ptrs, ws) : new Mix);
    if (!by_ctor)
      e->initializeComponents(ptrs, ws);
  }
};
typedef MixHolder<EdgeSE2Mixture, g2o::EdgeSE2, 3> Mix3;
typedef MixHolder<EdgeSE2PointXYMixture, g2o::EdgeSE2PointXY, 2> Mix2;
typedef MixHolder<EdgeSE3Mixture, g2o::EdgeSE3, 6> Mix6;

// ---- faulty streams --------------------------------------------------------------------------------
struct FailingIn : std::streambuf {
  std::string data;
  size_t at = 0, bad;
  FailingIn(const std::string &d, size_t b) : data(d), bad(b) {}
  int underflow() override
  {
    if (at >= bad)
      throw std::runtime_error("simulated read error");  // istream turns this into badbit
    if (at >= data.size())
      return traits_type::eof();
    setg(&data[at], &data[at], &data[at] + 1);
    ++at;
    return traits_type::to_int_type(data[at - 1]);
  }
};
struct FullDisk : std::streambuf {
  std::string data;
  size_t cap;
  explicit FullDisk(size_t c) : cap(c) {}
  int overflow(int ch) override
  {
    if (data.size() >= cap)
      return traits_type::eof();
    data.push_back(char(ch));
    return ch;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
    std::streamsize i = 0;
    for (; i < n && data.size() < cap; ++i)
      data.push_back(s[i]);
    return i;
  }
};

size_t token_start_last(const std::string &t)
{
  size_t e = t.find_last_not_of(" \n\t");
  if (e == std::string::npos)
    return 0;
  size_t b = t.find_last_of(" \n\t", e);
  return b == std::string::npos ? 0 : b + 1;
}
}  // namespace

extern "C" {  // drawing is never reached
void glColor3f(float, float, float) {}
void glPushAttrib(unsigned) {}
void glPopAttrib() {}
void glDisable(unsigned) {}
void glBegin(unsigned) {}
void glEnd() {}
void glVertex3f(float, float, float) {}
}

const char *sim::world_name()
{
  return "robustworld";
}
int sim::world_cpu_limit()
{
  return 30;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: edge_se2Switchable, edge_switchPrior, vertex_switchLinear, edge_se2_mixture, edge_se2_pointxy_mixture, edge_se3_mixture, "
         "libg2o core/slam2d/slam3d with its Gauss-Newton, Levenberg and dogleg solvers; stub: OpenGL drawing calls, byte streams behind std::streambuf";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  int kind = prop == "C19" ? 2 : r.chance(0.5) ? 0 : 1;
  p.cfg["kind"] = kind;
  p.cfg["seed"] = double(r.below(1u << 30));
  long mx = tier == "thorough" ? 60 : 25;
  if (kind == 0) {
    p.cfg["poses"] = double(r.range(2, 6));
    p.cfg["edges"] = double(r.range(1, 4));
    p.cfg["comps"] = double(r.range(1, 4));
    p.cfg["spread"] = r.chance(0.7) ? 3 : 60;
    long n = r.range(2, mx);
    for (long i = 0; i < n; ++i)
      switch (r.below(8)) {
        case 0:
        case 1:
          p.steps.push_back(Step("move", {double(r.below(16)), r.gauss(), r.gauss(), r.gauss() * 2}));
          break;
        case 2:
        case 3:
          p.steps.push_back(Step("switch", {double(r.below(16)), r.chance(0.3) ? r.gauss() * 20 : r.gauss() * 0.6}));
          break;
        case 4:
          p.steps.push_back(Step("push", {}));
          break;
        case 5:
          p.steps.push_back(Step(r.chance(0.7) ? "pop" : "discard", {}));
          break;
        case 6:
          p.steps.push_back(Step("measure", {double(r.below(16)), double(r.below(1u << 30))}));
          break;
        default:
          p.steps.push_back(r.chance(0.3) ? Step("move3", {double(r.below(16)), r.gauss(), r.gauss(), r.gauss(), 0.3 * r.gauss(), 0.3 * r.gauss(), 0.3 * r.gauss()})
                            : r.chance(0.5) ? Step("landmark", {double(r.below(16)), r.gauss(), r.gauss()})
                                          : Step("remix", {double(r.below(16)), double(r.below(1u << 30)), double(r.range(1, 5))}));
      }
  } else if (kind == 1) {
    p.cfg["poses"] = double(r.range(8, 24));
    p.cfg["mixture"] = r.chance(0.5);
    p.cfg["algo"] = double(r.below(5));
    p.cfg["good"] = double(r.range(1, 6));
    p.cfg["f_wrong"] = double(r.range(0, 4));
    p.cfg["noise"] = r.real(0, 0.15);
    long n = r.range(1, 8);
    for (long i = 0; i < n; ++i)
      switch (r.below(6)) {
        case 0:
        case 1:
          p.steps.push_back(Step("optimise", {double(r.range(1, 10))}));
          break;
        case 2:
        case 3:
          p.steps.push_back(Step("interrupt", {double(r.range(2, 20)), double(r.range(1, 5))}));
          break;
        case 4:
          p.steps.push_back(Step("rollback", {double(r.range(1, 6))}));
          break;
        default:
          p.steps.push_back(Step("disturb", {double(r.below(1u << 30)), r.real(0, 0.1)}));
      }
  } else {
    long n = r.range(1, mx / 2);
    for (long i = 0; i < n; ++i) {
      double type = double(r.below(6)), sd = double(r.below(1u << 30)), hist = double(r.below(2));
      switch (r.below(5)) {
        case 0:
          p.steps.push_back(Step("roundtrip", {type, sd, hist}));
          break;
        case 1:
          p.steps.push_back(Step("cut", {type, sd, hist, r.u()}));
          break;
        case 2:
          p.steps.push_back(Step("readerror", {type, sd, hist, r.u()}));
          break;
        case 3:
          p.steps.push_back(Step("diskfull", {type, sd, hist, r.u()}));
          break;
        default:
          p.steps.push_back(Step("graphfile", {sd, r.chance(0.5) ? 2.0 : r.u()}));
      }
    }
  }
  return p;
}

namespace
{
void run_history(const Plan &plan, Ctx &c)
{
  Rng r{uint64_t(plan.get("seed")) + 3};
  size_t np = std::max<size_t>(2, size_t(plan.get("poses", 2))), ne = size_t(plan.get("edges", 1));
  double sp = plan.get("spread", 3);
  size_t nk = std::max<size_t>(1, size_t(plan.get("comps", 1)));
  g2o::SparseOptimizer opt;
  std::vector<g2o::VertexSE2 *> poses;
  std::vector<g2o::VertexPointXY *> marks;
  std::vector<g2o::VertexSE3 *> solid;
  std::vector<VertexSwitchLinear *> sw;
  int id = 0;
  for (size_t i = 0; i < np; ++i) {
    auto *v = new g2o::VertexSE2;
    v->setId(id++);
    v->setEstimate(se2(rand_pose(r, sp)));
    opt.addVertex(v);
    poses.push_back(v);
    auto *l = new g2o::VertexPointXY;
    l->setId(id++);
    l->setEstimate(Eigen::Vector2d(r.real(-sp, sp), r.real(-sp, sp)));
    opt.addVertex(l);
    marks.push_back(l);
    auto *t = new g2o::VertexSE3;
    t->setId(id++);
    t->setEstimate(iso(rand_pose3(r, sp)));
    opt.addVertex(t);
    solid.push_back(t);
  }
  std::vector<EdgeSE2Switchable *> se;
  std::vector<V3> sz;
  std::vector<EdgeSwitchPrior *> pe;
  std::vector<double> pz;
  std::vector<double> sv;
  std::vector<std::vector<double>> stack;
  for (size_t i = 0; i < ne; ++i) {
    auto *v = new VertexSwitchLinear;
    SIM_CHECK(c, P18, "switch_range", v->estimate() >= 0 && v->estimate() <= 1 && v->x() == v->estimate(),
              "a new switch has value %g", v->estimate());
    v->setId(id++);
    double s0 = r.chance(0.3) ? 1 : r.u();
    v->setEstimate(s0);
    opt.addVertex(v);
    sw.push_back(v);
    sv.push_back(s0);
    auto *e = new EdgeSE2Switchable;
    size_t a = r.below(np), b = (a + 1 + r.below(np - 1)) % np;
    e->setVertex(0, poses[a]);
    e->setVertex(1, poses[b]);
    e->setVertex(2, v);
    sz.push_back(rand_pose(r, sp));
    e->setMeasurement(se2(sz.back()));
    e->setInformation(rand_info<3>(r));
    opt.addEdge(e);
    se.push_back(e);
    auto *q = new EdgeSwitchPrior;
    q->setVertex(0, v);
    pz.push_back(r.u());
    q->setMeasurement(pz.back());
    q->setInformation(Eigen::Matrix<double, 1, 1>(r.real(0.1, 10)));
    opt.addEdge(q);
    pe.push_back(q);
  }
  std::vector<Mix3> m3(ne);
  std::vector<Mix2> m2(ne);
  std::vector<Mix6> m6(ne);
  auto make6 = [&](Mix6 &m, Rng &g, size_t n, bool ctor) {
    m.cs.clear();
    size_t a = g.below(np), b = (a + 1 + g.below(np - 1)) % np;
    bool multi = g.chance(0.4);
    for (size_t k = 0; k < n; ++k) {
      Comp<EdgeSE3Mixture, 6> q;
      if (multi) {
        a = g.below(np);
        b = (a + 1 + g.below(np - 1)) % np;
      }
      q.v0 = solid[a];
      q.v1 = solid[b];
      q.z = rand_pose3(g, sp);
      q.info = rand_info<6>(g);
      q.w = g.chance(0.3) ? 1 : std::pow(10.0, g.real(-6, 0));
      m.cs.push_back(q);
    }
    m.build(ctor);
  };
  auto make3 = [&](Mix3 &m, Rng &g, size_t n, bool ctor) {
    m.cs.clear();
    size_t a = g.below(np), b = (a + 1 + g.below(np - 1)) % np;
    bool multi = g.chance(0.4);
    for (size_t k = 0; k < n; ++k) {
      Comp<EdgeSE2Mixture, 3> q;
      if (multi) {
        a = g.below(np);
        b = (a + 1 + g.below(np - 1)) % np;
      }
      q.v0 = poses[a];
      q.v1 = poses[b];
      q.z = g.chance(0.5) ? rand_pose(g, sp)
                          : mul(mul(inv(pose_of(q.v0)), pose_of(q.v1)), V3(g.gauss() * 0.3, g.gauss() * 0.3, g.gauss() * 0.1));
      q.info = rand_info<3>(g);
      q.w = g.chance(0.3) ? 1 : std::pow(10.0, g.real(-6, 0));
      m.cs.push_back(q);
    }
    m.build(ctor);
  };
  auto make2 = [&](Mix2 &m, Rng &g, size_t n, bool ctor) {
    m.cs.clear();
    size_t a = g.below(np), b = g.below(np);
    bool multi = g.chance(0.4);
    for (size_t k = 0; k < n; ++k) {
      Comp<EdgeSE2PointXYMixture, 2> q;
      if (multi) {
        a = g.below(np);
        b = g.below(np);
      }
      q.v0 = poses[a];
      q.v1 = marks[b];
      q.z = Eigen::Vector2d(g.real(-sp, sp), g.real(-sp, sp));
      q.info = rand_info<2>(g);
      q.w = g.chance(0.3) ? 1 : std::pow(10.0, g.real(-6, 0));
      m.cs.push_back(q);
    }
    m.build(ctor);
  };
  for (size_t i = 0; i < ne; ++i) {
    make3(m3[i], r, nk, r.chance(0.5));
    make2(m2[i], r, nk, r.chance(0.5));
    make6(m6[i], r, nk, r.chance(0.5));
  }
  auto all = [&](const char *op) {
    for (size_t i = 0; i < ne; ++i) {
      double s = sw[i]->estimate();
      SIM_CHECK(c, P18, "switch_range", s >= 0 && s <= 1, "after %s switch %zu is %.9g", op, i, s);
      SIM_CHECK(c, P18, "switch_value", std::fabs(s - sv[i]) <= 1e-12 && sw[i]->x() == s,
                "after %s switch %zu is %.9g (x() %.9g), expected %.9g", op, i, s, sw[i]->x(), sv[i]);
      check_switchable(c, *se[i], sz[i], sv[i], op);
      pe[i]->computeError();
      SIM_CHECK(c, P18, "prior_error", std::fabs(pe[i]->errorData()[0] - (pz[i] - sv[i])) <= 1e-12,
                "after %s switch prior reports %.9g, measurement %.9g minus switch %.9g expected", op,
                pe[i]->errorData()[0], pz[i], sv[i]);
      std::string why;
      SIM_CHECK(c, P18, "prior_derivative", jac_ok(*pe[i], 1, 0, why), "after %s switch prior: %s", op, why.c_str());
      check_mixture(c, *m3[i].e, m3[i].cs, op, P18);
      check_mixture(c, *m2[i].e, m2[i].cs, op, P18);
      check_mixture(c, *m6[i].e, m6[i].cs, op, P18);
      c.obs(s);
      c.obs(se[i]->chi2());
      c.mix(uint64_t(m3[i].e->getBestComponent()));
      c.state(hmix(hmix(uint64_t(s * 20), uint64_t(m3[i].e->getBestComponent())), uint64_t(m2[i].e->getBestComponent()) + 7));
    }
  };
  all("construction");
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    if (s.op == "move") {
      double u[3] = {s.arg(1), s.arg(2), s.arg(3)};
      poses[size_t(s.iarg(0)) % np]->oplus(u);
    } else if (s.op == "landmark") {
      double u[2] = {s.arg(1), s.arg(2)};
      marks[size_t(s.iarg(0)) % np]->oplus(u);
    } else if (s.op == "move3") {
      double u[6] = {s.arg(1), s.arg(2), s.arg(3), s.arg(4), s.arg(5), s.arg(6)};
      solid[size_t(s.iarg(0)) % np]->oplus(u);
    } else if (s.op == "switch") {
      size_t k = size_t(s.iarg(0)) % ne;
      double u[1] = {s.arg(1)};
      sw[k]->oplus(u);
      double t = sv[k] + u[0];
      if (t < 0 || t > 1)
        c.probe("switch_clamped");
      sv[k] = std::min(1.0, std::max(0.0, t));
    } else if (s.op == "push") {
      opt.push();
      for (auto *v : poses)
        v->push();
      for (auto *v : marks)
        v->push();
      for (auto *v : solid)
        v->push();
      for (auto *v : sw)
        v->push();
      stack.push_back(sv);
    } else if (s.op == "pop" || s.op == "discard") {
      if (stack.empty())
        continue;
      auto f = [&](g2o::OptimizableGraph::Vertex *v) { s.op == "pop" ? v->pop() : v->discardTop(); };
      for (auto *v : poses)
        f(v);
      for (auto *v : marks)
        f(v);
      for (auto *v : solid)
        f(v);
      for (auto *v : sw)
        f(v);
      if (s.op == "pop") {
        sv = stack.back();
        c.fault("rejected_step");
      }
      stack.pop_back();
    } else if (s.op == "measure") {
      size_t k = size_t(s.iarg(0)) % ne;
      Rng g{uint64_t(s.iarg(1))};
      sz[k] = rand_pose(g, sp);
      se[k]->setMeasurement(se2(sz[k]));
      pz[k] = g.u();
      pe[k]->setMeasurement(pz[k]);
    } else if (s.op == "remix") {
      size_t k = size_t(s.iarg(0)) % ne;
      Rng g{uint64_t(s.iarg(1))};
      make3(m3[k], g, size_t(std::max(1l, s.iarg(2))), false);
      make2(m2[k], g, size_t(std::max(1l, s.iarg(2))), false);
      make6(m6[k], g, size_t(std::max(1l, s.iarg(2))), false);
      c.probe("mixture_reinitialised");
    }
    c.run_interesting++;
    all(s.op.c_str());
  }
}

void run_optimise(const Plan &plan, Ctx &c)
{
  Rng r{uint64_t(plan.get("seed")) + 5};
  size_t n = std::max<size_t>(4, size_t(plan.get("poses", 8)));
  bool mix = plan.get("mixture") != 0;
  int lm = std::min(4, std::max(0, int(plan.get("algo"))));
  size_t good = size_t(plan.get("good", 1)), wrong = size_t(plan.get("f_wrong", 0));
  double noise = plan.get("noise");
  g2o::SparseOptimizer opt;
  setup_solver(opt, lm);
  bool stop = false;
  opt.setForceStopFlag(&stop);
  std::vector<V3> truth;
  V3 p(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3));
  for (size_t i = 0; i < n; ++i) {
    truth.push_back(p);
    p = mul(p, V3(r.real(1.0, 2.5), r.gauss() * 0.1, 2 * M_PI / double(n) * r.real(0.7, 1.4)));
  }
  std::vector<g2o::VertexSE2 *> vs;
  for (size_t i = 0; i < n; ++i) {
    auto *v = new g2o::VertexSE2;
    v->setId(int(i));
    V3 e = truth[i];
    if (i)
      e += V3(r.gauss(), r.gauss(), r.gauss() * 0.3) * noise;
    v->setEstimate(se2(e));
    v->setFixed(i == 0);
    opt.addVertex(v);
    vs.push_back(v);
  }
  M3 info = M3::Zero();
  info.diagonal() << 500, 500, 5000;
  for (size_t i = 0; i + 1 < n; ++i) {
    auto *e = new g2o::EdgeSE2;
    e->setVertex(0, vs[i]);
    e->setVertex(1, vs[i + 1]);
    e->setMeasurement(se2(mul(inv(truth[i]), truth[i + 1])));
    e->setInformation(info);
    opt.addEdge(e);
  }
  struct Loop {
    VertexSwitchLinear *sw = nullptr;
    std::unique_ptr<Mix3> m;
    bool ok;
    size_t a, b;
  };
  std::vector<Loop> loops;
  for (size_t k = 0; k < good + wrong; ++k) {
    Loop l;
    l.ok = k < good;
    l.a = r.below(n);
    l.b = (l.a + 2 + r.below(n - 3)) % n;
    V3 z = mul(inv(truth[l.a]), truth[l.b]);
    if (!l.ok) {
      double dir = r.real(-M_PI, M_PI), len = r.real(3, 12);
      z = mul(z, V3(len * std::cos(dir), len * std::sin(dir), r.chance(0.5) ? r.real(-1, 1) : 0));
      c.fault("wrong_loop");
    }
    if (mix) {
      l.m.reset(new Mix3);
      for (int q = 0; q < 2; ++q) {
        Comp<EdgeSE2Mixture, 3> k2;
        k2.v0 = vs[l.a];
        k2.v1 = vs[l.b];
        k2.z = z;
        k2.info = q ? M3(info * 1e-8) : info;
        k2.w = q ? 0.01 : 1;
        l.m->cs.push_back(k2);
      }
      l.m->build(r.chance(0.5));
      opt.addEdge(l.m->e.get());
      l.m->e.release();
      l.m->e.reset();
    } else {
      l.sw = new VertexSwitchLinear;
      l.sw->setId(int(n + k));
      l.sw->setEstimate(1);
      opt.addVertex(l.sw);
      auto *q = new EdgeSwitchPrior;
      q->setVertex(0, l.sw);
      q->setMeasurement(1);
      q->setInformation(Eigen::Matrix<double, 1, 1>(1.0));
      opt.addEdge(q);
      auto *e = new EdgeSE2Switchable;
      e->setVertex(0, vs[l.a]);
      e->setVertex(1, vs[l.b]);
      e->setVertex(2, l.sw);
      e->setMeasurement(se2(z));
      e->setInformation(info);
      opt.addEdge(e);
    }
    loops.push_back(std::move(l));
  }
  opt.initializeOptimization();
  auto sane = [&](const char *op) {
    for (auto &l : loops)
      if (l.sw) {
        SIM_CHECK(c, P18, "switch_range", l.sw->estimate() >= 0 && l.sw->estimate() <= 1 && l.sw->x() == l.sw->estimate(),
                  "after %s a switch is %.9g (x() %.9g)", op, l.sw->estimate(), l.sw->x());
      }
    SIM_CHECK(c, P18, "anchor", close_pose(pose_of(vs[0]), truth[0], 1e-9), "after %s the fixed pose moved", op);
    for (size_t i = 0; i < n; ++i) {
      SIM_CHECK(c, P18, "finite", pose_of(vs[i]).allFinite(), "after %s pose %zu is not finite", op, i);
      c.obs(std::floor(pose_of(vs[i])(0) * 1e3));
    }
  };
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    stop = false;
    if (s.op == "optimise")
      opt.optimize(int(s.iarg(0, 1)));
    else if (s.op == "interrupt") {
      StopAfter a(&stop, int(s.iarg(1, 1)));
      opt.addPostIterationAction(&a);
      opt.optimize(int(s.iarg(0, 1)));
      opt.removePostIterationAction(&a);
      if (stop)
        c.fault("interrupted_optimisation");
      stop = false;
      opt.initializeOptimization();  // a resumed session prepares the graph again
    } else if (s.op == "rollback") {
      std::vector<V3> before;
      std::vector<double> sb;
      for (auto *v : vs)
        before.push_back(pose_of(v));
      for (auto &l : loops)
        sb.push_back(l.sw ? l.sw->estimate() : 0);
      opt.push();
      opt.optimize(int(s.iarg(0, 1)));
      opt.pop();
      c.fault("rolled_back_optimisation");
      for (size_t i = 0; i < n; ++i)
        SIM_CHECK(c, P18, "rollback", close_pose(pose_of(vs[i]), before[i], 1e-12), "pose %zu not restored", i);
      for (size_t i = 0; i < loops.size(); ++i)
        if (loops[i].sw)
          SIM_CHECK(c, P18, "rollback", loops[i].sw->estimate() == sb[i] && loops[i].sw->x() == sb[i],
                    "switch %zu is %.9g / %.9g after restoring %.9g", i, loops[i].sw->estimate(), loops[i].sw->x(), sb[i]);
    } else if (s.op == "disturb") {
      Rng g{uint64_t(s.iarg(0))};
      for (size_t i = 1; i < n; ++i) {
        double u[3] = {g.gauss() * s.arg(1), g.gauss() * s.arg(1), g.gauss() * s.arg(1) * 0.3};
        vs[i]->oplus(u);
      }
      c.fault("disturbed_estimates");
    }
    sane(s.op.c_str());
  }
  // faults are over: progress within a bounded number of iterations
  stop = false;
  for (int k = 0; k < 6; ++k) {
    opt.initializeOptimization();
    opt.optimize(15);
  }
  sane("settling");
  double worst = 0;
  size_t wi = 0;
  for (size_t i = 0; i < n; ++i) {
    V3 d = pose_of(vs[i]) - truth[i];
    double q = std::max(d.head<2>().norm(), ang_dist(d(2), 0));
    if (!(q <= worst)) {
      worst = q;
      wi = i;
    }
  }
  c.log("settled: worst pose error %.4g at %zu (mix %d lm %d good %zu wrong %zu)", worst, wi, int(mix), lm, good, wrong);
  SIM_CHECK(c, P18, "recovers_truth", worst <= 0.15, "pose %zu ends %.4g away from the true pose (%zu correct, %zu wrong loops)", wi,
            worst, good, wrong);
  for (auto &l : loops) {
    if (!l.sw)
      continue;
    SIM_CHECK(c, P18, "switch_decision", l.ok ? l.sw->estimate() > 0.8 : l.sw->estimate() < 0.2, "switch of a %s loop ends at %.4g",
              l.ok ? "correct" : "wrong", l.sw->estimate());
    c.state(hmix(uint64_t(l.sw->estimate() * 50), l.ok));
  }
  c.state(hmix(hmix(n, good * 8 + wrong), uint64_t(mix * 8 + lm)));
  c.probe("optimised");
}

struct Rec {  // one constraint of any type with the values it was given
  int type = 0;
  double s = 0, pz = 0, pi = 0;
  V3 z;
  M3 info;
  Mix3 m3;
  Mix2 m2;
  Mix6 m6;
};

struct Bench {
  g2o::SparseOptimizer opt;
  std::vector<g2o::VertexSE2 *> poses;
  std::vector<g2o::VertexPointXY *> marks;
  std::vector<g2o::VertexSE3 *> solid;
  VertexSwitchLinear *sw;
  Bench(Rng &r)
  {
    for (int i = 0; i < 4; ++i) {
      auto *v = new g2o::VertexSE2;
      v->setId(i ? i * 7 : 0);
      v->setEstimate(se2(rand_pose(r, 4)));
      opt.addVertex(v);
      poses.push_back(v);
      auto *l = new g2o::VertexPointXY;
      l->setId(100 + i * 11);
      l->setEstimate(Eigen::Vector2d(r.real(-4, 4), r.real(-4, 4)));
      opt.addVertex(l);
      marks.push_back(l);
      auto *t = new g2o::VertexSE3;
      t->setId(300 + i * 13);
      t->setEstimate(iso(rand_pose3(r, 4)));
      opt.addVertex(t);
      solid.push_back(t);
    }
    sw = new VertexSwitchLinear;
    sw->setId(1000);
    sw->setEstimate(r.u());
    opt.addVertex(sw);
  }
  void fill(Rec &q, int type, Rng &r)
  {
    q.type = type;
    q.s = r.u();
    q.pz = r.u();
    q.pi = r.real(0.01, 20);
    q.z = rand_pose(r, 5);
    q.info = rand_info<3>(r);
    size_t n = size_t(r.range(1, 4));
    if (type == 3)
      for (size_t k = 0; k < n; ++k) {
        Comp<EdgeSE2Mixture, 3> x;
        size_t a = r.below(4);
        x.v0 = poses[a];
        x.v1 = poses[(a + 1 + r.below(3)) % 4];
        x.z = rand_pose(r, 5);
        x.info = rand_info<3>(r);
        x.w = r.chance(0.3) ? 1 : r.real(1e-4, 1);
        q.m3.cs.push_back(x);
      }
    if (type == 4)
      for (size_t k = 0; k < n; ++k) {
        Comp<EdgeSE2PointXYMixture, 2> x;
        x.v0 = poses[r.below(4)];
        x.v1 = marks[r.below(4)];
        x.z = Eigen::Vector2d(r.real(-5, 5), r.real(-5, 5));
        x.info = rand_info<2>(r);
        x.w = r.chance(0.3) ? 1 : r.real(1e-4, 1);
        q.m2.cs.push_back(x);
      }
    if (type == 5)
      for (size_t k = 0; k < n; ++k) {
        Comp<EdgeSE3Mixture, 6> x;
        size_t a = r.below(4);
        x.v0 = solid[a];
        x.v1 = solid[(a + 1 + r.below(3)) % 4];
        x.z = rand_pose3(r, 5);
        x.info = rand_info<6>(r);
        x.w = r.chance(0.3) ? 1 : r.real(1e-4, 1);
        q.m6.cs.push_back(x);
      }
  }
  std::unique_ptr<g2o::HyperGraph::HyperGraphElement> make(Rec &q)
  {
    switch (q.type) {
      case 0: {
        auto *v = new VertexSwitchLinear;
        v->setEstimate(q.s);
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(v);
      }
      case 1: {
        auto *e = new EdgeSwitchPrior;
        e->setVertex(0, sw);
        e->setMeasurement(q.pz);
        e->setInformation(Eigen::Matrix<double, 1, 1>(q.pi));
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(e);
      }
      case 2: {
        auto *e = new EdgeSE2Switchable;
        e->setVertex(0, poses[0]);
        e->setVertex(1, poses[1]);
        e->setVertex(2, sw);
        e->setMeasurement(se2(q.z));
        e->setInformation(q.info);
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(e);
      }
      case 3:
        q.m3.build(true);
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(q.m3.e.release());
      case 5:
        q.m6.build(true);
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(q.m6.e.release());
      default:
        q.m2.build(true);
        return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(q.m2.e.release());
    }
  }
  // An element to read into: fresh, or one that already held other values.
  std::unique_ptr<g2o::HyperGraph::HyperGraphElement> target(int type, bool used, Rng &r)
  {
    if (used) {
      spare.emplace_back(new Rec);
      fill(*spare.back(), type, r);
      return make(*spare.back());
    }
    g2o::HyperGraph::HyperGraphElement *p;
    switch (type) {
      case 0:
        p = new VertexSwitchLinear;
        break;
      case 1: {
        auto *e = new EdgeSwitchPrior;
        e->setVertex(0, sw);
        p = e;
        break;
      }
      case 2: {
        auto *e = new EdgeSE2Switchable;
        e->setVertex(0, poses[0]);
        e->setVertex(1, poses[1]);
        e->setVertex(2, sw);
        p = e;
        break;
      }
      case 3: {
        auto *e = new EdgeSE2Mixture;
        e->setVertex(0, poses[0]);
        e->setVertex(1, poses[1]);
        p = e;
        break;
      }
      case 5: {
        auto *e = new EdgeSE3Mixture;
        e->setVertex(0, solid[0]);
        e->setVertex(1, solid[1]);
        p = e;
        break;
      }
      default: {
        auto *e = new EdgeSE2PointXYMixture;
        e->setVertex(0, poses[0]);
        e->setVertex(1, marks[1]);
        p = e;
      }
    }
    return std::unique_ptr<g2o::HyperGraph::HyperGraphElement>(p);
  }
  std::vector<std::unique_ptr<Rec>> spare;
};

bool do_write(g2o::HyperGraph::HyperGraphElement *e, std::ostream &os)
{
  if (auto *v = dynamic_cast<g2o::OptimizableGraph::Vertex *>(e))
    return v->write(os);
  return dynamic_cast<g2o::OptimizableGraph::Edge *>(e)->write(os);
}
bool do_read(g2o::HyperGraph::HyperGraphElement *e, std::istream &is)
{
  if (auto *v = dynamic_cast<g2o::OptimizableGraph::Vertex *>(e))
    return v->read(is);
  return dynamic_cast<g2o::OptimizableGraph::Edge *>(e)->read(is);
}
const char *tname(int t)
{
  static const char *n[] = {"switch", "switch prior", "switchable constraint", "mixture", "landmark mixture", "mixture in space"};
  return n[t];
}

void check_same(Ctx &c, Bench &b, Rec &q, g2o::HyperGraph::HyperGraphElement *e, const char *op)
{
  switch (q.type) {
    case 0: {
      auto *v = static_cast<VertexSwitchLinear *>(e);
      SIM_CHECK(c, P19, "switch_roundtrip", v->estimate() == q.s && v->x() == q.s, "%s: switch %.17g came back as %.17g", op, q.s,
                v->estimate());
      break;
    }
    case 1: {
      auto *x = static_cast<EdgeSwitchPrior *>(e);
      x->computeError();
      SIM_CHECK(c, P19, "prior_roundtrip",
                x->measurement() == q.pz && x->information()(0, 0) == q.pi &&
                    std::fabs(x->errorData()[0] - (q.pz - b.sw->estimate())) <= 1e-12,
                "%s: prior (%.17g, %.17g) came back as (%.17g, %.17g), error %.9g", op, q.pz, q.pi, x->measurement(),
                x->information()(0, 0), x->errorData()[0]);
      break;
    }
    case 2: {
      auto *x = static_cast<EdgeSE2Switchable *>(e);
      SIM_CHECK(c, P19, "switchable_roundtrip",
                close_pose(x->measurement().toVector(), q.z, 1e-12) && x->information() == q.info,
                "%s: switchable constraint came back with other values", op);
      V3 d = rel_error(q.z, pose_of(x->vertices()[0]), pose_of(x->vertices()[1])) * b.sw->estimate();
      x->computeError();
      double er = 0;
      for (int i = 0; i < 2; ++i)
        er = std::max(er, std::fabs(x->errorData()[i] - d(i)));
      SIM_CHECK(c, P19, "switchable_roundtrip", er <= 1e-9 * (1 + d.cwiseAbs().maxCoeff()),
                "%s: restored switchable constraint reports another error (off by %.3g)", op, er);
      break;
    }
    case 3:
    case 5:
    case 4: {
      bool ok = true;
      auto comps = [&](auto *x, auto &cs) {
        ok = size_t(x->numberComponents) == cs.size();
        for (size_t i = 0; ok && i < cs.size(); ++i) {
          auto *k = x->getComponent(int(i));
          double z[7];
          k->getMeasurementData(z);
          if (cs[i].z.size() == 7 && z[3] * cs[i].z(3) + z[4] * cs[i].z(4) + z[5] * cs[i].z(5) + z[6] * cs[i].z(6) < 0)
            for (int j = 3; j < 7; ++j)
              z[j] = -z[j];
          if (cs[i].z.size() == 7)
            for (int j = 0; j < 7; ++j)
              ok = ok && std::fabs(z[j] - cs[i].z(j)) <= 1e-9;
          else
          for (int j = 0; j < int(cs[i].z.size()); ++j)
            ok = ok && (j == 2 ? ang_dist(z[j], cs[i].z(j)) : std::fabs(z[j] - cs[i].z(j))) <= 1e-12;
          c.log("component %zu: measurement %d information %d vertices %d %d", i, int(ok), int(k->information() == cs[i].info),
                int(k->vertex(0) == cs[i].v0), int(k->vertex(1) == cs[i].v1));
          ok = ok && k->information() == cs[i].info && k->vertex(0) == cs[i].v0 && k->vertex(1) == cs[i].v1;
        }
      };
      if (q.type == 3) {
        auto *x = static_cast<EdgeSE2Mixture *>(e);
        comps(x, q.m3.cs);
        SIM_CHECK(c, P19, "mixture_roundtrip", ok, "%s: mixture came back with other components", op);
        check_mixture(c, *x, q.m3.cs, op, P19);
      } else if (q.type == 5) {
        auto *x = static_cast<EdgeSE3Mixture *>(e);
        comps(x, q.m6.cs);
        SIM_CHECK(c, P19, "mixture_roundtrip", ok, "%s: mixture in space came back with other components", op);
        check_mixture(c, *x, q.m6.cs, op, P19);
      } else {
        auto *x = static_cast<EdgeSE2PointXYMixture *>(e);
        comps(x, q.m2.cs);
        SIM_CHECK(c, P19, "mixture_roundtrip", ok, "%s: landmark mixture came back with other components", op);
        check_mixture(c, *x, q.m2.cs, op, P19);
      }
    }
  }
}

void run_files(const Plan &plan, Ctx &c)
{
  Rng base{uint64_t(plan.get("seed")) + 9};
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    if (s.op == "graphfile") {
      Rng r{uint64_t(s.iarg(0)) + 1};
      Bench b(r);
      std::vector<std::unique_ptr<Rec>> recs;
      size_t n = size_t(r.range(1, 6));
      std::vector<g2o::OptimizableGraph::Edge *> es;
      for (size_t k = 0; k < n; ++k) {
        recs.emplace_back(new Rec);
        b.fill(*recs.back(), int(r.range(1, 5)), r);
        auto *e = static_cast<g2o::OptimizableGraph::Edge *>(b.make(*recs.back()).release());
        SIM_CHECK(c, P19, "graph_save", b.opt.addEdge(e), "g2o refused constraint %zu", k);
        es.push_back(e);
      }
      // a graph file only holds poses that carry a constraint of their own
      for (int i = 0; i < 4; ++i) {
        auto *l = new g2o::EdgeSE2PointXY;
        l->setVertex(0, b.poses[size_t(i)]);
        l->setVertex(1, b.marks[size_t(i)]);
        l->setMeasurement(Eigen::Vector2d(r.real(-1, 1), r.real(-1, 1)));
        l->setInformation(Eigen::Matrix2d::Identity());
        b.opt.addEdge(l);
        es.push_back(l);
        auto *t = new g2o::EdgeSE3;
        t->setVertex(0, b.solid[size_t(i)]);
        t->setVertex(1, b.solid[size_t(i + 1) % 4]);
        t->setMeasurement(iso(rand_pose3(r, 1)));
        t->setInformation(Eigen::Matrix<double, 6, 6>::Identity());
        b.opt.addEdge(t);
        es.push_back(t);
      }
      std::ostringstream os;
      os.precision(17);
      SIM_CHECK(c, P19, "graph_save", b.opt.save(os), "saving a graph reported failure");
      std::string txt = os.str();
      bool cut = s.arg(1, 2) <= 1;
      size_t keep = cut ? size_t(s.arg(1) * double(txt.size())) : txt.size();
      std::istringstream is(txt.substr(0, keep));
      g2o::SparseOptimizer o2;
      o2.load(is);
      if (cut)
        c.fault("graph_file_cut");
      // complete lines of the cut file are restored; the torn line must not become a constraint
      // unless only digits of its last number are missing
      size_t full = 0, torn = 0;
      {
        std::istringstream lines(txt);
        std::string ln;
        size_t at = 0;
        while (std::getline(lines, ln)) {
          bool edge = ln.find("SWITCH") != std::string::npos || ln.find("MIXTURE") != std::string::npos;
          edge = edge && ln.compare(0, 4, "EDGE") == 0;
          size_t end = at + ln.size();
          if (edge && end <= keep)
            ++full;
          else if (edge && at + token_start_last(ln) < keep)
            ++torn;
          at = end + 1;
        }
      }
      size_t got = 0;
      for (auto *e : o2.edges())
        got += (!dynamic_cast<g2o::EdgeSE2PointXY *>(e) || dynamic_cast<EdgeSE2PointXYMixture *>(e)) && (!dynamic_cast<g2o::EdgeSE3 *>(e) || dynamic_cast<EdgeSE3Mixture *>(e));
      SIM_CHECK(c, P19, "graph_load", got >= full && got <= full + torn,
                "%zu constraints loaded from a file with %zu complete and %zu torn ones", got, full, torn);
      if (!cut) {
        c.probe("graph_roundtrip");
        std::vector<double> a, d;
        for (auto *e : es) {
          e->computeError();
          a.push_back(e->chi2());
        }
        for (auto *e : o2.edges()) {
          auto *x = static_cast<g2o::OptimizableGraph::Edge *>(e);
          x->computeError();
          d.push_back(x->chi2());
        }
        std::sort(a.begin(), a.end());
        std::sort(d.begin(), d.end());
        for (size_t i = 0; i < a.size() && i < d.size(); ++i)
          SIM_CHECK(c, P19, "graph_load", std::fabs(a[i] - d[i]) <= 1e-6 * (1 + std::fabs(a[i])),
                    "a constraint loaded from a graph file has chi2 %.12g instead of %.12g", d[i], a[i]);
      }
      
      c.mix(got);
      c.state(hmix(got, cut));
      continue;
    }
    int type = int(s.iarg(0)) % 6;
    Rng r{uint64_t(s.iarg(1)) + 1};
    Bench b(r);
    Rec q;
    b.fill(q, type, r);
    auto e = b.make(q);
    std::ostringstream os;
    os.precision(17);
    SIM_CHECK(c, P19, "write_ok", do_write(e.get(), os), "writing a %s reported failure", tname(type));
    std::string txt = os.str();
    c.obs(txt);
    c.state(hmix(uint64_t(type), hmix(s.op.size(), uint64_t(s.arg(3) * 40))));
    auto tgt = b.target(type, s.iarg(2) != 0, r);
    if (s.op == "roundtrip") {
      std::istringstream is(txt + "\n");
      SIM_CHECK(c, P19, "read_ok", do_read(tgt.get(), is), "reading back a complete %s reported failure", tname(type));
      check_same(c, b, q, tgt.get(), "roundtrip");
      c.probe("roundtrip");
    } else if (s.op == "cut" || s.op == "readerror") {
      size_t last = token_start_last(txt);
      size_t at = size_t(s.arg(3) * double(last + 1));
      if (at > last)
        at = last;
      bool ok;
      if (s.op == "cut") {
        std::istringstream is(txt.substr(0, at));
        ok = do_read(tgt.get(), is);
        c.fault("file_cut");
      } else {
        FailingIn fb(txt, at);
        std::istream is(&fb);
        ok = do_read(tgt.get(), is);
        c.fault("read_error");
      }
      SIM_CHECK(c, P19, s.op == "cut" ? "cut_reported" : "read_error_reported", !ok,
                "a %s %s at byte %zu of %zu was accepted", tname(type), s.op == "cut" ? "cut off" : "failing to read", at, txt.size());
      // the element can be used for a good record afterwards
      std::istringstream is(txt + "\n");
      SIM_CHECK(c, P19, "read_after_failure", do_read(tgt.get(), is), "a complete %s was refused after a failed read", tname(type));
      check_same(c, b, q, tgt.get(), "read after failure");
    } else if (s.op == "diskfull") {
      size_t cap = size_t(s.arg(3) * double(txt.size()));
      if (cap >= txt.size())
        cap = txt.size() - 1;
      FullDisk fd(cap);
      std::ostream o(&fd);
      o.precision(17);
      bool ok = do_write(e.get(), o);
      c.fault("disk_full");
      SIM_CHECK(c, P19, "short_write_reported", !ok, "a %s of %zu bytes was reported written with room for %zu", tname(type),
                txt.size(), cap);
      SIM_CHECK(c, P19, "write_prefix", fd.data == txt.substr(0, fd.data.size()), "writing a %s twice gave different text", tname(type));
    }
  }
}
}  // namespace

void sim::world_execute(const Plan &plan, Ctx &c)
{
  static RegisterMixtures reg;
  Mute mute;
  int kind = int(plan.get("kind"));
  if (kind == 0)
    run_history(plan, c);
  else if (kind == 1)
    run_optimise(plan, c);
  else
    run_files(plan, c);
}
