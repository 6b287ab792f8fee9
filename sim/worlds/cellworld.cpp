// cellworld: the real NDT cell under random histories of point batches, merges, transforms, ray
// updates and copies with allocation failures, against exact pooled statistics.
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
#include <vector>
#include <src/ndt/ndt_cell.cpp>
#include "../core/sim.h"

using namespace sim;
namespace
{
typedef slamuk::NDTCell Cell;
typedef Cell::Vector V;
typedef Cell::Matrix M;
const char *P = "C14";

struct MC {
  bool gauss = false;
  double n = 0;
  V mean = V::Zero();
  std::vector<V> pending;
};

M conditioned(const M &c)
{
  Eigen::SelfAdjointEigenSolver<M> s(0.5 * (c + c.transpose()));
  V e = s.eigenvalues();
  for (int i = 0; i < 3; ++i)
    e(i) = std::max(e(i), 0.01 * e(2));
  return s.eigenvectors() * e.asDiagonal() * s.eigenvectors().transpose();
}

void invariants(Ctx &c, const Cell &x, const MC &m, int id, const char *op)
{
  float o = x.getOccupancyRaw();
  SIM_CHECK(c, P, "occupancy_range", o >= -1.0f && o <= 1.0f, "after %s cell %d has occupancy %g", op, id, double(o));
  SIM_CHECK(c, P, "gaussian_state", x.hasGaussian() == m.gauss, "after %s cell %d %s a distribution, expected %s", op,
            id, x.hasGaussian() ? "holds" : "lost", m.gauss ? "one" : "none");
  if (!x.hasGaussian() || !m.gauss)
    return;
  SIM_CHECK(c, P, "occupied", o > 0, "after %s cell %d holds a distribution at occupancy %g", op, id, double(o));
  SIM_CHECK(c, P, "count", double(x.points()) == m.n, "after %s cell %d counts %zu points, pooled count is %.0f", op, id,
            x.points(), m.n);
  double scale = 1e-8 * (1 + m.mean.cwiseAbs().maxCoeff());
  SIM_CHECK(c, P, "mean", (x.getMean() - m.mean).cwiseAbs().maxCoeff() <= scale,
            "after %s cell %d has mean (%.9g,%.9g,%.9g), pooled mean is (%.9g,%.9g,%.9g)", op, id, x.getMean()(0),
            x.getMean()(1), x.getMean()(2), m.mean(0), m.mean(1), m.mean(2));
  const M &C = x.getCov();
  double nrm = C.cwiseAbs().maxCoeff();
  SIM_CHECK(c, P, "finite", std::isfinite(C.sum()) && std::isfinite(x.getICov().sum()) && nrm > 0,
            "after %s cell %d has a non-finite covariance", op, id);
  SIM_CHECK(c, P, "symmetric", (C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-8 * nrm,
            "after %s cell %d has an asymmetric covariance", op, id);
  Eigen::SelfAdjointEigenSolver<M> s(C);
  V e = s.eigenvalues();
  SIM_CHECK(c, P, "conditioning", e(2) > 0 && e(0) >= 0.01 * e(2) * (1 - 1e-5),
            "after %s cell %d has covariance eigenvalues %.6g %.6g %.6g", op, id, e(0), e(1), e(2));
  SIM_CHECK(c, P, "inverse", (x.getICov() * C - M::Identity()).cwiseAbs().maxCoeff() <= 1e-6,
            "after %s cell %d stores an inverse that is not the inverse of its covariance", op, id);
}

bool same_cell(const Cell &a, const Cell &b)
{
  return a.hasGaussian() == b.hasGaussian() && a.points() == b.points() && a.getMean() == b.getMean() &&
         a.getCov() == b.getCov() && a.getICov() == b.getICov() && a.getOccupancyRaw() == b.getOccupancyRaw();
}

Cell::Transform make_t(const Step &s, size_t i)
{
  Cell::Transform t;
  t.setIdentity();
  t.translate(V(s.arg(i), s.arg(i + 1), s.arg(i + 2)));
  t.rotate(Eigen::AngleAxisd(s.arg(i + 3), V::UnitZ()));
  if (s.arg(i + 4) != 0)
    t.rotate(Eigen::AngleAxisd(s.arg(i + 4), V::UnitX()));
  return t;
}
}  // namespace

const char *sim::world_name()
{
  return "cellworld";
}
int sim::world_cpu_limit()
{
  return 20;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: ndt_cell.{h,cpp}, output_msgs.h; stub: none (allocator behind a failing seam)";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  p.cfg["cells"] = double(r.range(2, 5));
  p.cfg["scale"] = r.chance(0.2) ? 80 : r.real(0.1, 6);
  double f_alloc = r.chance(0.4) ? r.real(0.02, 0.2) : 0;
  double planar = r.chance(0.6);
  double w[8] = {2.0, r.real(0.2, 1.5), r.real(0, 0.8), r.real(0, 0.9), r.real(0, 0.5), r.real(0, 0.3), 0.15, 0};
  double tot = 0;
  for (double x : w)
    tot += x;
  long n = r.range(3, tier == "thorough" ? 60 : 30);
  for (long i = 0; i < n; ++i) {
    double x = r.u() * tot;
    int k = 0;
    while (k < 7 && (x -= w[k]) >= 0)
      ++k;
    long f = r.chance(f_alloc) ? r.range(1, 4) : 0;
    double cid = double(r.below(8)), cid2 = double(r.below(8));
    switch (k) {
      case 0: {  // batch: cell, count, shape, seed, centre, spread
        long cnt = r.chance(0.5) ? r.range(0, 12) : r.chance(0.8) ? r.range(6, 60) : r.range(60, 400);
        p.steps.push_back(Step("batch", {cid, double(cnt), double(r.below(5)), double(r.below(1u << 30)), r.real(-1, 1),
                                         r.real(-1, 1), planar ? 0.0 : r.real(-1, 1), r.real(0.001, 0.5), planar},
                               f));
        break;
      }
      case 1:
        p.steps.push_back(Step("merge", {cid, cid2}, f));
        break;
      case 2:
        p.steps.push_back(Step("transform", {cid, r.real(-5, 5), r.real(-5, 5), planar ? 0.0 : r.real(-2, 2),
                                             r.real(-3.2, 3.2), planar ? 0.0 : r.real(-3, 3)}));
        break;
      case 3: {
        // ray: cell, start, end relative to the mean; number of points; mode
        double mode = double(r.below(5));
        double np = r.chance(0.1) ? 1e9 : double(r.below(r.chance(0.5) ? 4 : 200));
        p.steps.push_back(Step("ray", {cid, r.real(-8, 8), r.real(-8, 8), planar ? 0.0 : r.real(-2, 2), r.real(-8, 8),
                                       r.real(-8, 8), planar ? 0.0 : r.real(-2, 2), np, mode}));
        break;
      }
      case 4:
        p.steps.push_back(Step("equivariance", {cid, cid2, r.real(-5, 5), r.real(-5, 5), planar ? 0.0 : r.real(-2, 2),
                                                r.real(-3.2, 3.2), planar ? 0.0 : r.real(-3, 3)}));
        break;
      case 5:
        p.steps.push_back(Step("copy", {cid, cid2}, f));
        break;
      default:
        p.steps.push_back(Step("commute", {cid, cid2}));
    }
  }
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  size_t nc = size_t(plan.get("cells", 2));
  double scale = plan.get("scale", 1);
  std::vector<Cell> cells(nc);
  std::vector<MC> ms(nc);
  for (size_t i = 0; i < nc; ++i) {
    SIM_CHECK(c, P, "fresh", !cells[i].hasGaussian() && cells[i].points() == 0 && cells[i].getOccupancyRaw() == 0,
              "a new cell is not empty");
  }
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    size_t a = size_t(s.iarg(0)) % nc, b = size_t(s.iarg(1)) % nc;
    Cell &x = cells[a];
    MC &m = ms[a];
    if (s.op == "batch") {
      Rng r{uint64_t(s.iarg(3)) + 11};
      long cnt = s.iarg(1), shape = s.iarg(2);
      V ctr(s.arg(4) * scale, s.arg(5) * scale, s.arg(6) * scale);
      if (m.gauss && r.chance(0.7))
        ctr = m.mean + V(r.real(-0.3, 0.3), r.real(-0.3, 0.3), s.iarg(8) ? 0 : r.real(-0.3, 0.3));
      V dir(std::cos(ctr(0) * 7), std::sin(ctr(0) * 7), 0);
      double sp = s.arg(7);
      size_t added = 0;
      std::vector<V> pts;
      for (long i = 0; i < cnt; ++i) {
        V q = ctr;
        switch (shape) {
          case 0:
            q += V(r.gauss(), r.gauss(), s.iarg(8) ? 0 : r.gauss()) * sp;
            break;
          case 1:
            q += dir * r.real(-1, 1) * sp;
            break;  // collinear
          case 2:
            break;  // coincident
          case 3:
            q += dir * r.real(-1, 1) * sp + V(r.gauss(), r.gauss(), 0) * 1e-9;
            break;
          default:
            q += V(r.real(-1, 1), r.real(-1, 1), 0) * sp;
        }
        pts.push_back(q);
      }
      with_alloc_fault(c, s.fail, [&] {
        for (auto &q : pts) {
          x.addPoint(q);
          ++added;
        }
      });
      if (added < pts.size())
        c.probe("batch_cut_by_alloc_failure");
      m.pending.insert(m.pending.end(), pts.begin(), pts.begin() + added);
      float before = x.getOccupancyRaw();
      bool was = m.gauss;
      M cov_before = x.getCov();
      x.computeGaussian();
      SIM_CHECK(c, P, "occupancy_drop", x.getOccupancyRaw() >= before, "adding points lowered occupancy %g to %g",
                double(before), double(x.getOccupancyRaw()));
      if (x.getOccupancyRaw() <= 0)
        m.gauss = false;
      else if (m.pending.size() >= 6) {
        V sum = V::Zero();
        for (auto &q : m.pending)
          sum += q;
        double k = double(m.pending.size());
        V mu = sum / k;
        M sc = M::Zero();
        for (auto &q : m.pending)
          sc += (q - mu) * (q - mu).transpose();
        if (!m.gauss) {
          m.mean = mu;
          m.n = k;
          // spread: between the biased and the unbiased sample spread plus the regularising ridge
          double tr = x.getCov().trace(), lo = sc.trace() / k * (k - 1) / k, hi = sc.trace() / (k - 1) + 3.0 / k;
          double big = 1e-6 + 1e-9 * mu.squaredNorm();
          SIM_CHECK(c, P, "batch_spread", tr >= lo * (1 - 1e-6) - big && tr <= hi * 1.021 + big,
                    "covariance trace %.6g of %0.f points with spread %.6g", tr, k, sc.trace() / k);
          c.probe("first_gaussian");
        } else {
          // the same points alone in a new cell: the update must pool the two
          Cell alone;
          for (auto &q : m.pending)
            alone.addPoint(q);
          alone.computeGaussian();
          V al = Eigen::SelfAdjointEigenSolver<M>(alone.getCov()).eigenvalues();
          if (alone.hasGaussian() && al(0) > 0.0102 * al(2) && cov_before.allFinite()) {
            V d = m.mean - mu;
            double N = m.n + k;
            M e = conditioned(((m.n - 1) * cov_before + (k - 1) * alone.getCov() + m.n * k / N * d * d.transpose()) / (N - 1));
            double nrm = e.cwiseAbs().maxCoeff(), tol = 1e-5 * nrm + 1e-12 * mu.squaredNorm();
            SIM_CHECK(c, P, "update_covariance", (x.getCov() - e).cwiseAbs().maxCoeff() <= tol,
                      "covariance after adding %.0f points differs from the pooled one by %.3g (largest entry %.3g)", k,
                      (x.getCov() - e).cwiseAbs().maxCoeff(), nrm);
            c.probe("update_pooled");
          }
          m.mean = (m.mean * m.n + sum) / (m.n + k);
          m.n += k;
          c.probe("gaussian_updated_by_points");
        }
        m.gauss = true;
        m.pending.clear();
      } else if (was)
        c.probe("few_points_on_gaussian");
      if (shape == 1 || shape == 2)
        c.probe("degenerate_points");
    } else if (s.op == "merge") {
      Cell before = x;
      Cell other = cells[b];
      MC mb = m, mo = ms[b];
      bool ok = with_alloc_fault(c, s.fail, [&] { x += cells[b]; });
      bool noop = !mo.gauss;
      MC after = m;
      if (!noop) {
        if (m.gauss) {
          after.mean = (m.mean * m.n + mo.mean * mo.n) / (m.n + mo.n);
          after.n = m.n + mo.n;
          c.probe(a == b ? "self_merge" : "merge_pooled");
        } else {
          after = mo;
          c.probe("merge_into_empty");
        }
      } else
        c.probe("merge_noop");
      if (!ok) {
        // either not applied, or applied without the points still waiting
        bool applied = !same_cell(x, before);
        if (applied) {
          m = after;
          // pending points of a half-copied cell are unknown: restart this cell
          x = Cell();
          m = MC();
        }
        c.probe("merge_alloc_failed");
      } else {
        m = after;
        if (noop)
          SIM_CHECK(c, P, "merge_noop", same_cell(x, before), "merging a cell without a distribution changed the cell");
        else if (mb.gauss) {
          double p1 = before.points(), p2 = other.points(), N = p1 + p2;
          V d = before.getMean() - other.getMean();
          M e = ((p1 - 1) * before.getCov() + (p2 - 1) * other.getCov() + p1 * p2 / N * d * d.transpose()) / (N - 1);
          e = conditioned(e);
          double nrm = e.cwiseAbs().maxCoeff();
          SIM_CHECK(c, P, "merge_covariance", (x.getCov() - e).cwiseAbs().maxCoeff() <= 1e-5 * nrm,
                    "merged covariance differs from the pooled one by %.3g (largest entry %.3g)",
                    (x.getCov() - e).cwiseAbs().maxCoeff(), nrm);
          SIM_CHECK(c, P, "merge_occupancy", x.getOccupancyRaw() >= before.getOccupancyRaw(),
                    "merging a distribution lowered the occupancy");
        }
      }
    } else if (s.op == "transform") {
      Cell::Transform t = make_t(s, 1);
      Cell before = x;
      x.transform(t);
      if (m.gauss) {
        M e = t.rotation() * before.getCov() * t.rotation().transpose();
        SIM_CHECK(c, P, "transform_covariance",
                  (x.getCov() - e).cwiseAbs().maxCoeff() <= 1e-6 * e.cwiseAbs().maxCoeff(),
                  "transformed covariance is not the rotated covariance");
        m.mean = t * m.mean;
        c.probe("transformed");
      } else
        SIM_CHECK(c, P, "transform_empty", !x.hasGaussian(), "transforming an empty cell created a distribution");
      SIM_CHECK(c, P, "transform_occupancy", x.getOccupancyRaw() == before.getOccupancyRaw(),
                "transforming changed the occupancy");
    } else if (s.op == "ray") {
      V base = m.gauss ? m.mean : V::Zero().eval();
      V st = base + V(s.arg(1), s.arg(2), s.arg(3)), en = base + V(s.arg(4), s.arg(5), s.arg(6));
      long mode = s.iarg(8);
      if (mode == 1)
        en = base;  // ends at the distribution
      else if (mode == 2)
        en = base - (st - base);  // straight through the mean
      else if (mode == 3)
        en = st;  // no length
      Cell before = x;
      x.updateOccupancy(st, en, size_t(s.arg(7)));
      bool at_end = m.gauss && (before.getMean() - en).cwiseAbs().sum() < 0.011;
      if (!at_end)
        SIM_CHECK(c, P, "ray_raises", x.getOccupancyRaw() <= before.getOccupancyRaw(),
                  "a ray passing the cell raised its occupancy from %g to %g", double(before.getOccupancyRaw()),
                  double(x.getOccupancyRaw()));
      else if ((before.getMean() - en).cwiseAbs().sum() < 0.009)
        SIM_CHECK(c, P, "ray_end_lowers", x.getOccupancyRaw() >= before.getOccupancyRaw(),
                  "a ray ending at the distribution lowered its occupancy");
      if (m.gauss && mode == 2 && s.arg(7) >= 1 && (st - base).norm() > 0.5)
        SIM_CHECK(c, P, "ray_through", x.getOccupancyRaw() < before.getOccupancyRaw(),
                  "a ray through the mean did not lower the occupancy");
      if (m.gauss && x.getOccupancyRaw() <= 0) {
        m.gauss = false;
        c.probe("ray_removed_gaussian");
      } else
        c.probe("ray_update");
    } else if (s.op == "equivariance") {
      Cell::Transform t = make_t(s, 2);
      Cell l = cells[a], r1 = cells[a], r2 = cells[b];
      l += cells[b];
      l.transform(t);
      r1.transform(t);
      r2.transform(t);
      r1 += r2;
      SIM_CHECK(c, P, "equivariance", l.hasGaussian() == r1.hasGaussian() && l.points() == r1.points() &&
                                          l.getOccupancyRaw() == r1.getOccupancyRaw(),
                "merging and transforming do not commute (state)");
      if (l.hasGaussian() && r1.hasGaussian()) {
        double sc = 1 + l.getMean().cwiseAbs().maxCoeff();
        double nrm = l.getCov().cwiseAbs().maxCoeff();
        SIM_CHECK(c, P, "equivariance",
                  (l.getMean() - r1.getMean()).cwiseAbs().maxCoeff() <= 1e-8 * sc &&
                      (l.getCov() - r1.getCov()).cwiseAbs().maxCoeff() <= 1e-5 * nrm,
                  "merging and transforming do not commute");
        c.probe("equivariance_checked");
      }
    } else if (s.op == "commute") {
      Cell l = cells[a], r1 = cells[b];
      l += cells[b];
      r1 += cells[a];
      if (ms[a].gauss && ms[b].gauss) {
        SIM_CHECK(c, P, "commute", l.points() == r1.points() &&
                                       (l.getMean() - r1.getMean()).norm() <= 1e-8 * (1 + l.getMean().norm()) &&
                                       (l.getCov() - r1.getCov()).norm() <= 1e-5 * l.getCov().norm(),
                  "merging depends on the order of the two cells");
        c.probe("commute_checked");
      }
    } else if (s.op == "copy") {
      if (a != b) {
        bool ok = with_alloc_fault(c, s.fail, [&] {
          Cell tmp(cells[b]);
          x = std::move(tmp);
        });
        if (ok) {
          ms[a] = ms[b];
          SIM_CHECK(c, P, "copy", same_cell(x, cells[b]), "a copied cell differs from its original");
        }
      }
    }
    for (size_t i = 0; i < nc; ++i) {
      invariants(c, cells[i], ms[i], int(i), s.op.c_str());
      auto msg = cells[i].serialize();
      SIM_CHECK(c, P, "serialise",
                msg.mean_ == cells[i].getMean() && msg.cov_ == cells[i].getCov() &&
                    double(msg.occupancy_) == double(cells[i].getOccupancyRaw()) && size_t(msg.points_) == cells[i].points(),
                "the serialised cell differs from the cell");
      uint64_t h = hmix(ms[i].gauss, uint64_t(ms[i].n));
      c.obs(double(cells[i].getOccupancyRaw()));
      c.obs(cells[i].getMean()(0));
      c.obs(cells[i].getCov()(0, 0));
      c.state(hmix(h, uint64_t(std::lround(cells[i].getOccupancyRaw() * 50)) * 31 + ms[i].pending.size()));
    }
  }
}
