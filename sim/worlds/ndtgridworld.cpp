// ndtgridworld: the real NDT grid and the real mapper under random histories of key frames, frame
// moves, recomputations interrupted by allocation failures, and local-window moves with pose jumps.
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include <src/ndt/ndt_cell.cpp>
#include <ndt_gslam/ndt/ndt_mapper.h>
#include "../core/sim.h"
#include "lidar.h"

using namespace sim;
namespace
{
typedef slamuk::NDTCell Cell;
typedef pcl::PointXYZ Pt;
typedef pcl::PointCloud<Pt> Cloud;
typedef slamuk::NDTGrid2D<Cell, Pt> Grid;
typedef slamuk::NDTMapper<Cell, Pt> Mapper;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix3d M3;
typedef std::pair<long, long> Key;
const char *P09 = "C09", *P10 = "C10", *P11 = "C11", *P25 = "C25";

V2 place(const V3 &o, const V2 &p)
{
  double c = std::cos(o(2)), s = std::sin(o(2));
  return V2(o(0) + c * p(0) - s * p(1), o(1) + s * p(0) + c * p(1));
}
M3 rot(double a)
{
  M3 r = M3::Identity();
  r(0, 0) = r(1, 1) = std::cos(a);
  r(0, 1) = -std::sin(a);
  r(1, 0) = std::sin(a);
  return r;
}
long cell_of(double x, double cs)
{
  return long(std::floor(x / cs + 0.5));
}
// distance of a coordinate from the nearest cell border, in cells
double border(double x, double cs)
{
  double t = x / cs + 0.5;
  return std::abs(t - std::round(t));
}

struct Dist {
  V2 w;
  M3 cov;
  size_t n;
  int frame;
};

struct Frames {
  struct F {
    Grid::Ptr g;
    double t;
  };
  std::vector<F> v;
};

std::vector<Dist> placed(const Frames &fr)
{
  std::vector<Dist> r;
  for (size_t i = 0; i < fr.v.size(); ++i) {
    V3 o = fr.v[i].g->getOrigin();
    M3 R = rot(o(2));
    for (Cell *c : fr.v[i].g->getGaussianCells())
      r.push_back(Dist{place(o, c->getMean().head(2)), R * c->getCov() * R.transpose(), c->points(), int(i)});
  }
  return r;
}

// does the segment a-b come within `slack` of the closed cell k?
bool crosses(const V2 &a, const V2 &b, Key k, double cs, double slack)
{
  double t0 = 0, t1 = 1;
  double lo[2] = {(k.first - 0.5) * cs - slack, (k.second - 0.5) * cs - slack};
  double hi[2] = {(k.first + 0.5) * cs + slack, (k.second + 0.5) * cs + slack};
  for (int d = 0; d < 2; ++d) {
    double p = a(d), q = b(d) - a(d);
    if (std::abs(q) < 1e-12) {
      if (p < lo[d] || p > hi[d])
        return false;
      continue;
    }
    double u = (lo[d] - p) / q, v = (hi[d] - p) / q;
    if (u > v)
      std::swap(u, v);
    t0 = std::max(t0, u);
    t1 = std::min(t1, v);
    if (t0 > t1)
      return false;
  }
  return true;
}

struct Occ {
  double cs;
  std::map<Key, int> known;
};
// a published grid read by the usual convention: first value at the origin corner, rows along +y
struct Msg {
  nav_msgs::OccupancyGrid m;
  double yaw() const
  {
    auto &q = m.info.origin.orientation;
    return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
  }
  V3 origin() const { return V3(m.info.origin.position.x, m.info.origin.position.y, yaw()); }
  V2 local(const V2 &w) const
  {
    V3 o = origin();
    V2 d = w - o.head(2);
    double c = std::cos(o(2)), s = std::sin(o(2));
    return V2(c * d(0) + s * d(1), -s * d(0) + c * d(1)) / double(m.info.resolution);
  }
  int at(long col, long row) const
  {
    if (col < 0 || row < 0 || col >= long(m.info.width) || row >= long(m.info.height))
      return -2;
    return m.data[size_t(row) * m.info.width + size_t(col)];
  }
};

void check_grid_msg(Ctx &c, const nav_msgs::OccupancyGrid &om, const Cloud &pts, const char *op)
{
  Msg g{om};
  SIM_CHECK(c, P10, "size", om.data.size() == size_t(om.info.width) * om.info.height,
            "after %s the grid declares %u x %u cells and carries %zu", op, om.info.width, om.info.height,
            om.data.size());
  if (om.data.size() != size_t(om.info.width) * om.info.height)
    throw EndRun();
  const double eps = 2e-3;  // in cells: float coordinates
  std::map<Key, int> pts_in;
  for (auto &p : pts.points) {
    V2 l = g.local(V2(p.x, p.y));
    bool ok = false;
    for (int sx = -1; sx <= 1 && !ok; ++sx)
      for (int sy = -1; sy <= 1 && !ok; ++sy)
        if (g.at(long(std::floor(l(0) + sx * eps)), long(std::floor(l(1) + sy * eps))) >= 0)
          ok = true;
    SIM_CHECK(c, P10, "point_in_unknown", ok, "after %s map point (%.4f,%.4f) lies in %s cell of the grid", op, p.x, p.y,
              g.at(long(std::floor(l(0))), long(std::floor(l(1)))) == -2 ? "no" : "an unknown");
    for (int sx = -1; sx <= 1; ++sx)
      for (int sy = -1; sy <= 1; ++sy)
        pts_in[Key(long(std::floor(l(0) + sx * eps)), long(std::floor(l(1) + sy * eps)))] = 1;
  }
  for (long row = 0; row < long(om.info.height); ++row)
    for (long col = 0; col < long(om.info.width); ++col) {
      int v = g.at(col, row);
      SIM_CHECK(c, P10, "value", v >= -1 && v <= 100, "after %s the grid holds the value %d", op, v);
      if (v > 50)
        SIM_CHECK(c, P10, "occupied_without_points", pts_in.count(Key(col, row)) != 0,
                  "after %s grid cell (%ld,%ld) is occupied but no map distribution lies in it", op, col, row);
    }
  c.probe("grid_checked");
}

// content of a published grid by world cell (axis-aligned grids whose cells are centred on multiples
// of the resolution)
std::map<Key, int> by_world(const nav_msgs::OccupancyGrid &om)
{
  std::map<Key, int> r;
  Msg g{om};
  V3 o = g.origin();
  double cs = om.info.resolution;
  for (long row = 0; row < long(om.info.height); ++row)
    for (long col = 0; col < long(om.info.width); ++col) {
      int v = g.at(col, row);
      if (v != -1)
        r[Key(std::lround(o(0) / cs * 2) + 2 * col, std::lround(o(1) / cs * 2) + 2 * row)] = v;
    }
  return r;
}

struct Env {
  Ctx &c;
  lidar::World world;
  Rng r;
  int nrays;
  double range, bad;
  Env(Ctx &ctx, const Plan &p) : c(ctx), world(uint64_t(p.get("world")), int(p.get("walls", 6)), p.get("extent", 10)),
                                 r(uint64_t(p.get("noise")))
  {
    nrays = int(p.get("rays", 180));
    range = p.get("range", 8);
    bad = p.get("bad");
  }
  Cloud scan(const V3 &pose)
  {
    Cloud cl;
    for (auto &q : world.scan(pose, nrays, range, 0.01, r))
      cl.push_back(Pt(float(q(0)), float(q(1)), 0));
    if (bad > 0 && !cl.points.empty())
      for (auto &q : cl.points)
        if (r.chance(bad)) {  // the sensor's mark for a beam without a return
          float nan = std::numeric_limits<float>::quiet_NaN();
          q = Pt(nan, r.chance(0.5) ? nan : q.y, r.chance(0.5) ? nan : 0);
          c.fault("invalid_measurement");
        }
    return cl;
  }
};

// ------------------------------------------------------------------ mapper mode
struct MapRun {
  Ctx &c;
  Env env;
  Mapper m;
  Frames fr;
  bool stale = false;
  bool broken = false;  // a recomputation was interrupted
  double t = 100;
  MapRun(Ctx &ctx, const Plan &p) : c(ctx), env(ctx, p) {}

  void sort_frames()
  {
    std::stable_sort(fr.v.begin(), fr.v.end(), [](const Frames::F &a, const Frames::F &b) { return a.t < b.t; });
  }
  void check(const char *op)
  {
    if (fr.v.empty() || broken)
      return;
    nav_msgs::OccupancyGrid om = m.calcOccupancyGridMsg();
    Cloud pts = *m.getPclMap();
    uint64_t h = fr.v.size();
    for (auto &p : pts.points)
      h = hmix(h, uint64_t(long(p.x * 4) * 4001 + long(p.y * 4)));
    c.state(h);
    for (auto &p : pts.points) {
      c.obs(p.x);
      c.obs(p.y);
    }
    for (auto v : om.data)
      c.mix(uint64_t(v + 2));
    if (c.on(P10))
      check_grid_msg(c, om, pts, op);
    if (!c.on(P09) || stale)
      return;
    const double cs = 0.25;
    std::vector<Dist> pl = placed(fr);
    std::map<Key, std::vector<size_t>> by_cell;
    for (size_t i = 0; i < pl.size(); ++i)
      by_cell[Key(cell_of(pl[i].w(0), cs), cell_of(pl[i].w(1), cs))].push_back(i);
    auto near = [&](const V2 &w, double tol, std::vector<size_t> &out) {
      Key k(cell_of(w(0), cs), cell_of(w(1), cs));
      for (long dx = -1; dx <= 1; ++dx)
        for (long dy = -1; dy <= 1; ++dy) {
          auto it = by_cell.find(Key(k.first + dx, k.second + dy));
          if (it == by_cell.end())
            continue;
          for (size_t i : it->second)
            if ((pl[i].w - w).cwiseAbs().maxCoeff() < tol)
              out.push_back(i);
        }
    };
    // latest frame per map cell
    auto latest = [&](Key k) {
      int f = -1;
      auto it = by_cell.find(k);
      if (it != by_cell.end())
        for (size_t i : it->second)
          if (border(pl[i].w(0), cs) > 1e-4 && border(pl[i].w(1), cs) > 1e-4)
            f = std::max(f, pl[i].frame);
      return f;
    };
    std::set<Key> have;
    std::set<size_t> used;
    for (auto &p : pts.points) {
      V2 w(p.x, p.y);
      std::vector<size_t> cand;
      near(w, 1e-4, cand);
      SIM_CHECK(c, P09, "foreign_distribution", !cand.empty(),
                "after %s the map holds a distribution at (%.4f,%.4f) that no frame has at its current pose", op, p.x,
                p.y);
      if (cand.empty())
        continue;
      for (size_t i : cand)
        used.insert(i);
      Key k(cell_of(w(0), cs), cell_of(w(1), cs));
      bool inner = border(w(0), cs) > 1e-3 && border(w(1), cs) > 1e-3;
      if (inner) {
        SIM_CHECK(c, P09, "two_in_cell", have.insert(k).second,
                  "after %s the map holds two distributions in the cell around (%.4f,%.4f)", op, p.x, p.y);
        int best = -1;
        for (size_t i : cand)
          best = std::max(best, pl[i].frame);
        SIM_CHECK(c, P09, "old_frame_wins", best >= latest(k),
                  "after %s the cell around (%.4f,%.4f) shows frame %d although frame %d has a distribution there", op,
                  p.x, p.y, best, latest(k));
      }
    }
    // every distribution must be there unless replaced or seen through later
    std::vector<V2> starts;
    for (auto &f : fr.v)
      starts.push_back(f.g->getOrigin().head(2));
    size_t seen_through = 0;
    for (auto &kv : by_cell) {
      int f = -1;
      bool edge = false;
      for (size_t i : kv.second) {
        f = std::max(f, pl[i].frame);
        if (border(pl[i].w(0), cs) <= 2e-3 || border(pl[i].w(1), cs) <= 2e-3)
          edge = true;
      }
      if (edge || have.count(kv.first))
        continue;
      bool traced = false;
      for (size_t j = 0; j < pl.size() && !traced; ++j)
        if (pl[j].frame > f && crosses(starts[pl[j].frame], pl[j].w, kv.first, cs, 1e-4))
          traced = true;
      if (traced) {
        ++seen_through;
        continue;
      }
      SIM_CHECK(c, P09, "missing_distribution", false,
                "after %s the distribution of frame %d in the map cell at (%.3f,%.3f) is missing and no later beam "
                "crosses it",
                op, f, kv.first.first * cs, kv.first.second * cs);
    }
    if (seen_through)
      c.probe("removed_by_free_space");
    // the same frames in a new mapper, and in a bare grid
    Mapper fresh;
    Grid bare(V3(0, 0, 0));
    bare.setCellSize(0.25f);
    for (auto &f : fr.v) {
      fresh.addFrame(f.g->makeShared(), ros::Time(f.t));
      bare.mergeInTraced(*f.g, true, true);
    }
    Cloud fp = *fresh.getPclMap();
    bool same = fp.size() == pts.size();
    for (size_t i = 0; same && i < fp.size(); ++i)
      same = fp[i].x == pts[i].x && fp[i].y == pts[i].y && fp[i].z == pts[i].z;
    SIM_CHECK(c, P09, "history_dependent", same,
              "after %s the map has %zu distributions, a map built anew from the same frames has %zu or others", op,
              pts.size(), fp.size());
    auto a = by_world(om), b = by_world(fresh.calcOccupancyGridMsg());
    size_t diff = 0;
    for (auto &x : a)
      if (!b.count(x.first) || b[x.first] != x.second)
        ++diff;
    for (auto &x : b)
      if (!a.count(x.first))
        ++diff;
    SIM_CHECK(c, P09, "history_dependent_grid", diff == 0,
              "after %s %zu cells of the occupancy grid differ from a grid built anew from the same frames", op, diff);
    for (Cell *g : bare.getGaussianCells()) {
      std::vector<size_t> cand;
      near(g->getMean().head(2), 1e-7, cand);
      bool ok = false;
      for (size_t i : cand)
        if (pl[i].n == g->points() &&
            (pl[i].cov - g->getCov()).cwiseAbs().maxCoeff() <= 1e-6 * (1e-9 + pl[i].cov.cwiseAbs().maxCoeff()))
          ok = true;
      SIM_CHECK(c, P09, "distribution_changed", ok,
                "after %s the merged distribution at (%.4f,%.4f) differs from the one its frame holds there", op,
                g->getMean()(0), g->getMean()(1));
    }
    c.probe("map_checked");
  }
  void run(const Plan &p)
  {
    for (size_t k = 0; k < p.steps.size(); ++k) {
      const Step &s = p.steps[k];
      c.step = k;
      c.count("op:" + s.op);
      if (s.op == "add") {
        V3 pose(s.arg(0), s.arg(1), s.arg(2));
        V3 est = pose + V3(s.arg(3), s.arg(4), s.arg(5));
        Grid::Ptr g(s.iarg(7) ? new Grid(est, 0.0) : new Grid());
        g->setOrigin(est);
        g->setCellSize(0.25f);
        Cloud first = env.scan(pose);
        if (s.iarg(7) == 2)
          g->initializeSimple(first);
        else
          g->initialize(first);
        for (long q = 1; q <= s.iarg(6); ++q) {
          V3 d(0.3 * q, 0.1 * q, 0.05 * q);
          V2 at = place(pose, d.head(2));
          V2 eat = place(est, d.head(2));
          g->mergeInTraced(env.scan(V3(at(0), at(1), pose(2) + d(2))), V3(eat(0), eat(1), est(2) + d(2)), true);
        }
        t += s.arg(8, 1);
        if (s.iarg(9))
          m.addFrame(g, ros::Time(t));
        else {
          Grid::Ptr tmp = g;
          m.addFrame(std::move(tmp), ros::Time(t));
        }
        fr.v.push_back({g, t});
        c.sim_time += s.arg(8, 1);
      } else if (fr.v.empty()) {
        continue;
      } else if (s.op == "move") {
        size_t i = size_t(s.iarg(0)) % fr.v.size();
        V3 o = fr.v[i].g->getOrigin() + V3(s.arg(1), s.arg(2), s.arg(3));
        if (s.iarg(4))
          m.updateFrame(fr.v[i].g, o);
        else
          fr.v[i].g->setOrigin(o);
        SIM_CHECK(c, P09, "frame_pose", fr.v[i].g->getOrigin() == o, "a moved frame does not report its new pose");
        stale = true;
      } else if (s.op == "recalc") {
        if (with_alloc_fault(c, s.fail, [&] { m.recalc(ros::Time(t)); }))
          stale = broken = false;
        else
          stale = broken = true;  // unspecified until the next recomputation
      } else if (s.op == "remove") {
        size_t i = size_t(s.iarg(0)) % fr.v.size();
        if (fr.v.size() < 2)
          continue;
        m.removeFrame(fr.v[i].g);
        fr.v.erase(fr.v.begin() + long(i));
        stale = true;
      } else if (s.op == "unknown") {
        Grid::Ptr other(new Grid());
        bool refused = false;
        try {
          m.updateFrame(other, V3(1, 2, 3));
        } catch (const std::exception &) {
          refused = true;
        }
        SIM_CHECK(c, P09, "unknown_frame", refused, "moving a frame the map does not hold is accepted");
      } else if (s.op == "combine") {
        if (fr.v.size() < 2)
          continue;
        size_t i = size_t(s.iarg(0)) % fr.v.size(), j = size_t(s.iarg(1)) % fr.v.size();
        if (i == j)
          continue;
        Grid::Ptr res = m.combineFrames(fr.v[i].g, fr.v[j].g);
        SIM_CHECK(c, P09, "combine", bool(res), "combining two frames yields no frame");
        fr.v[i].g = res;
        fr.v[i].t = fr.v[j].t;
        fr.v.erase(fr.v.begin() + long(j));
        sort_frames();
        stale = true;
      }
      check(s.op.c_str());
    }
  }
};

// ------------------------------------------------------------------ window mode
struct GC {
  V2 w;
  V2 l;
  M3 cov;
  size_t n;
  float occ;
};
struct Snap {
  V3 o;
  slamuk::OccupancyGrid og;
  long left, up;
  std::vector<GC> g;
};
struct WinRun {
  Ctx &c;
  Env env;
  Grid g;
  double cs;
  bool entered = false;
  WinRun(Ctx &ctx, const Plan &p) : c(ctx), env(ctx, p), g(0.0), cs(p.get("cs", 0.25)) {}
  Snap snap()
  {
    Snap s;
    s.o = g.getOrigin();
    s.og = g.createOccupancyGrid();
    double res = g.getCellSize();
    s.left = std::lround(s.og.centroid_(0) / res);
    s.up = std::lround(s.og.centroid_(1) / res);
    for (Cell *x : g.getGaussianCells())
      s.g.push_back(GC{place(s.o, x->getMean().head(2)), x->getMean().head(2), x->getCov(), x->points(),
                       x->getOccupancyRaw()});
    return s;
  }
  void structure(const char *op)
  {
    double res = g.getCellSize();
    Cloud means = *g.getMeansTransformed();
    auto cells = g.getGaussianCells();
    SIM_CHECK(c, P11, "cloud_size", means.size() == cells.size(),
              "after %s the window holds %zu distributions but its cloud %zu points", op, cells.size(), means.size());
    for (size_t i = 0; i < cells.size() && i < means.size(); ++i) {
      V2 l = cells[i]->getMean().head(2);
      V2 w = place(g.getOrigin(), l);
      SIM_CHECK(c, P11, "cloud_point", std::abs(w(0) - means[i].x) < 1e-3 && std::abs(w(1) - means[i].y) < 1e-3,
                "after %s the window cloud shows (%.4f,%.4f) for the distribution at (%.4f,%.4f)", op, means[i].x,
                means[i].y, w(0), w(1));
      if (border(l(0), res) > 1e-3 && border(l(1), res) > 1e-3) {
        SIM_CHECK(c, P11, "lookup", g.isInside(l) && &g[l] == cells[i],
                  "after %s looking up the window at (%.4f,%.4f) does not yield the distribution that lies there", op,
                  w(0), w(1));
        if (i % 7 == 0) {
          auto nn = g.getKNearestNeighbors(l, 1);
          SIM_CHECK(c, P11, "nearest", nn.size() == 1 && nn[0] == cells[i],
                    "after %s the nearest distribution to (%.4f,%.4f) is not the one lying there", op, w(0), w(1));
        }
      }
    }
    slamuk::NDTGridMsg msg = g.serialize();
    slamuk::OccupancyGrid og = g.createOccupancyGrid();
    V3 o = g.getOrigin();
    V2 corner = place(o, V2(-og.centroid_(0), og.centroid_(1)));
    SIM_CHECK(c, P10, "window_corner",
              (msg.origin_.head(2) - corner).norm() < 1e-3 && std::abs(msg.origin_(2) - o(2)) < 1e-6,
              "after %s the window message puts its corner at (%g,%g,%g), the window has it at (%g,%g,%g)", op,
              msg.origin_(0), msg.origin_(1), msg.origin_(2), corner(0), corner(1), o(2));
    SIM_CHECK(c, P10, "grid_corner",
              (og.origin_.head(2) - corner).norm() < 1e-3 && std::abs(og.origin_(2) - o(2)) < 1e-6 &&
                  og.cells_.size() == size_t(og.width_) * og.height_,
              "after %s the occupancy grid puts its corner at (%g,%g,%g), the window has it at (%g,%g,%g)", op,
              og.origin_(0), og.origin_(1), og.origin_(2), corner(0), corner(1), o(2));
    SIM_CHECK(c, P10, "window_size",
              std::abs(msg.size_(0) - double(og.width_) * res) < 1e-3 && std::abs(msg.size_(1) - double(og.height_) * res) < 1e-3 &&
                  std::abs(msg.cell_sizes_(0) - res) < 1e-6 && std::abs(msg.cell_sizes_(1) - res) < 1e-6,
              "after %s the window message declares a size of %g x %g m", op, msg.size_(0), msg.size_(1));
    // the message shows every distribution where it lies in the world
    M3 R = rot(o(2));
    for (Cell *x : cells) {
      V2 w = place(o, x->getMean().head(2));
      M3 want = R * x->getCov() * R.transpose();
      double eps = 1e-6 * (1 + w.norm()), ceps = 1e-6 * (1e-6 + want.cwiseAbs().maxCoeff());
      bool found = false;
      for (auto &k : msg.cells_)
        found = found || ((k.mean_.head(2) - w).norm() < eps && (k.cov_ - want).cwiseAbs().maxCoeff() < ceps && k.points_ == long(x->points()));
      SIM_CHECK(c, P10, "window_cells", found, "after %s the window message does not show the distribution at (%g,%g) in the world", op, w(0), w(1));
    }
    c.probe("window_checked");
  }
  void check_move(const Snap &b, const Eigen::Affine2d &tr, const Eigen::Affine2d &rest, const char *op)
  {
    double res = g.getCellSize();
    Snap a = snap();
    double big = 1 + std::abs(b.o(0)) + std::abs(b.o(1)) + tr.translation().cwiseAbs().maxCoeff();
    double eps = 1e-9 * big + 1e-9;
    auto T = [](const V3 &o) {
      Eigen::Affine2d t;
      t = Eigen::Translation2d(o(0), o(1)) * Eigen::Rotation2Dd(o(2));
      return t;
    };
    Eigen::Matrix3d want = (T(b.o) * tr).matrix(), got = (T(a.o) * rest).matrix();
    SIM_CHECK(c, P11, "pose_conserved", (want.block<2, 3>(0, 0) - got.block<2, 3>(0, 0)).cwiseAbs().maxCoeff() <= eps,
              "requested pose (%.6f,%.6f), window origin and remainder give (%.6f,%.6f)", want(0, 2), want(1, 2),
              got(0, 2), got(1, 2));
    bool rotated = std::abs(b.o(2)) > 1e-7;
    // whole steps are computed in single precision
    double left = res + eps + 3e-7 * tr.translation().cwiseAbs().maxCoeff();
    if (!rotated)
      SIM_CHECK(c, P11, "remainder", std::abs(rest.translation()(0)) < left && std::abs(rest.translation()(1)) < left,
                "moving by (%.4f,%.4f) leaves a remainder of (%.4f,%.4f), the cell size is %.3f", tr.translation()(0),
                tr.translation()(1), rest.translation()(0), rest.translation()(1), res);
    double fx = (a.o(0) - b.o(0)) / res, fy = (a.o(1) - b.o(1)) / res;
    double kt = 1e-5 + 1e-6 * (std::abs(fx) + std::abs(fy)) + 1e-9 * big / res;
    SIM_CHECK(c, P11, "whole_cells", std::abs(fx - std::round(fx)) < kt && std::abs(fy - std::round(fy)) < kt && a.o(2) == b.o(2),
              "the window moved by (%.6f,%.6f) cells", fx, fy);
    if (a.og.width_ != b.og.width_ || a.og.height_ != b.og.height_ || a.left != b.left || a.up != b.up) {
      SIM_CHECK(c, P11, "extent", false, "moving the window changed its extent");
      throw EndRun();
    }
    long kx = std::lround(fx), ky = std::lround(fy);
    if (std::abs(fx) > 1e9 || std::abs(fy) > 1e9)
      return;
    if (kx || ky)
      c.probe("window_moved");
    // whole-grid content, free cells included
    long W = long(a.og.width_), H = long(a.og.height_);
    size_t dropped = 0;
    for (long row = 0; row < H; ++row)
      for (long col = 0; col < W; ++col) {
        long oc = col + kx, orow = row - ky;  // rows grow downwards
        int expect = -1;
        if (oc >= 0 && oc < W && orow >= 0 && orow < H)
          expect = b.og.cells_[size_t(orow * W + oc)];
        SIM_CHECK(c, P11, "content", int(a.og.cells_[size_t(row * W + col)]) == expect,
                  "after moving the window by (%ld,%ld) cells its cell (%ld,%ld) has state %d, expected %d", kx, ky, col,
                  row, int(a.og.cells_[size_t(row * W + col)]), expect);
      }
    // distributions
    std::vector<GC> keep;
    for (auto &x : b.g) {
      long ix = cell_of(x.l(0), res) - kx, iy = cell_of(x.l(1), res) - ky;
      bool edge = border(x.l(0), res) < 1e-3 || border(x.l(1), res) < 1e-3;
      bool in = ix >= -a.left && ix <= W - 1 - a.left && iy <= a.up && iy >= a.up - H + 1;
      if (edge) {
        // the stored cell decides; accept either
        bool found = false;
        for (auto &y : a.g)
          if ((y.w - x.w).cwiseAbs().maxCoeff() < 1e-6 * big && y.n == x.n)
            found = true;
        in = found;
      }
      if (in)
        keep.push_back(x);
      else
        ++dropped;
    }
    if (dropped)
      c.probe("cells_left_window");
    SIM_CHECK(c, P11, "kept", keep.size() == a.g.size(), "%zu distributions stay inside the moved window, it holds %zu",
              keep.size(), a.g.size());
    for (size_t i = 0; i < keep.size() && i < a.g.size(); ++i) {
      // iteration order is by cell, translation preserves it
      SIM_CHECK(c, P11, "world_position", (keep[i].w - a.g[i].w).cwiseAbs().maxCoeff() < 1e-6 * big,
                "moving the window took the distribution at (%.5f,%.5f) to (%.5f,%.5f)", keep[i].w(0), keep[i].w(1),
                a.g[i].w(0), a.g[i].w(1));
      SIM_CHECK(c, P11, "unchanged",
                keep[i].cov == a.g[i].cov && keep[i].n == a.g[i].n && keep[i].occ == a.g[i].occ,
                "moving the window changed the distribution at (%.5f,%.5f)", a.g[i].w(0), a.g[i].w(1));
    }
    uint64_t h = hmix(uint64_t(kx + 1000), uint64_t(ky + 1000));
    h = hmix(h, keep.size());
    h = hmix(h, dropped);
    c.state(h);
    c.obs(a.o(0));
    c.obs(a.o(1));
    for (auto &x : a.g) {
      c.obs(x.w(0));
      c.obs(x.w(1));
    }
  }
  // ---- what entering a scan must do (C25)
  struct Want {
    std::map<Key, std::vector<Cell>> hits;  // by cell: distributions the scan brings there
    std::set<Key> doubtful;                 // cells with measurements on a border
    std::vector<V2> ends, loose_ends;       // beams; loose ones end somewhere in a doubtful cell
    V2 start = V2(0, 0);
    bool traced = true;
  };
  static void doubt(std::set<Key> &d, Key k)
  {
    for (long dx = -1; dx <= 1; ++dx)
      for (long dy = -1; dy <= 1; ++dy)
        d.insert(Key(k.first + dx, k.second + dy));
  }
  V2 to_grid(const V2 &w, const V3 &o)
  {
    V2 d = w - o.head(2);
    double co = std::cos(o(2)), si = std::sin(o(2));
    return V2(co * d(0) + si * d(1), -si * d(0) + co * d(1));
  }
  // distributions of the measurements seen from `robot`, in the coordinates of a grid at `o`
  Want scan_cells(const Cloud &cl, const V3 &robot, const V3 &o)
  {
    double res = g.getCellSize();
    Want w;
    std::map<Key, Cell> m;
    for (auto &q : cl.points) {
      if (!std::isfinite(q.x) || !std::isfinite(q.y) || !std::isfinite(q.z))
        continue;
      V2 l = to_grid(place(robot, V2(q.x, q.y)), o);
      float x = float(l(0)), y = float(l(1));
      Key k(cell_of(x, res), cell_of(y, res));
      if (border(x, res) < 1e-4 || border(y, res) < 1e-4)
        doubt(w.doubtful, k);
      m[k].addPoint(V3(x, y, q.z));
    }
    for (auto &kv : m) {
      kv.second.computeGaussian();
      if (!kv.second.hasGaussian())
        continue;
      w.hits[kv.first].push_back(kv.second);
    }
    w.start = to_grid(robot.head(2), o);
    return w;
  }
  void set_ends(Want &w)
  {
    for (auto &kv : w.hits)
      for (auto &x : kv.second)
        w.ends.push_back(x.getMean().head(2));
    double res = g.getCellSize();
    for (auto &k : w.doubtful)
      w.loose_ends.push_back(V2(double(k.first) * res, double(k.second) * res));
  }
  // the scan grid turned by the robot's heading, then put where the robot is
  Want turned(const Want &in, const V3 &robot, const V3 &o)
  {
    double res = g.getCellSize();
    Want w;
    w.traced = in.traced;
    Cell::Transform R;
    R.setIdentity();
    double th = robot(2) - o(2);
    R.linear() = rot(th);
    V2 off(robot(0) - o(0), robot(1) - o(1));
    auto key = [&](const V2 &l) { return Key(cell_of(l(0), res), cell_of(l(1), res)); };
    auto where = [&](const V2 &l) {
      V2 t = V2(std::cos(th) * l(0) - std::sin(th) * l(1), std::sin(th) * l(0) + std::cos(th) * l(1));
      return t;
    };
    for (auto &k : in.doubtful)
      for (double dx : {-0.5, 0.0, 0.5})
        for (double dy : {-0.5, 0.0, 0.5})
          doubt(w.doubtful, key(where(V2((k.first + dx) * res, (k.second + dy) * res)) + off));
    std::map<Key, Cell> loc;
    std::set<Key> loose;
    for (auto &kv : in.hits)
      for (Cell x : kv.second) {
        x.transform(R);
        V2 l = x.getMean().head(2);
        if (border(l(0), res) < 1e-4 || border(l(1), res) < 1e-4)
          doubt(w.doubtful, key(l + off));
        auto it = loc.find(key(l));
        if (it == loc.end())
          loc[key(l)] = x;
        else
          it->second += x;
      }
    for (auto &kv : loc) {
      Cell x = kv.second;
      V3 mu = x.getMean();
      mu.head(2) += off;
      x.setMean(mu);
      V2 l = mu.head(2);
      if (border(l(0), res) < 1e-4 || border(l(1), res) < 1e-4)
        doubt(w.doubtful, key(l));
      w.hits[key(l)].push_back(x);
    }
    w.start = off;
    return w;
  }
  struct Before {
    std::map<Key, Cell> g;
    std::map<Key, int> og;
    std::set<Key> doubtful;
    long left = 0, up = 0, W = 0, H = 0;
    bool in(Key k) const
    {
      return k.first >= -left && k.first <= W - 1 - left && k.second <= up && k.second >= up - H + 1;
    }
  };
  Before before()
  {
    Before b;
    double res = g.getCellSize();
    slamuk::OccupancyGrid og = g.createOccupancyGrid();
    b.left = std::lround(og.centroid_(0) / res);
    b.up = std::lround(og.centroid_(1) / res);
    b.W = long(og.width_);
    b.H = long(og.height_);
    for (long row = 0; row < b.H; ++row)
      for (long col = 0; col < b.W; ++col)
        b.og[Key(col - b.left, b.up - row)] = int(og.cells_[size_t(row * b.W + col)]);
    for (Cell *x : g.getGaussianCells()) {
      V2 l = x->getMean().head(2);
      Key k(cell_of(l(0), res), cell_of(l(1), res));
      if (border(l(0), res) < 1e-4 || border(l(1), res) < 1e-4)
        doubt(b.doubtful, k);
      b.g[k] = *x;
    }
    return b;
  }
  static bool like(const Cell &a, const Cell &b)
  {
    double n = b.getCov().cwiseAbs().maxCoeff();
    return a.points() == b.points() && (a.getMean() - b.getMean()).cwiseAbs().maxCoeff() < 2e-5 * (1 + b.getMean().cwiseAbs().maxCoeff()) &&
           (a.getCov() - b.getCov()).cwiseAbs().maxCoeff() < 1e-3 * n;
  }
  // the beam passes near the middle of the distribution, long before it ends
  bool straight_through(const Cell &x, const V2 &st, const V2 &e, Key k, const Before &b, const Before &a)
  {
    double res = g.getCellSize(), len = (e - st).norm();
    if (len < 1e-9 || !a.in(k) || !a.in(Key(cell_of(st(0), res), cell_of(st(1), res))))
      return false;
    (void)b;
    V3 l((e - st)(0) / len, (e - st)(1) / len, 0), s3(st(0), st(1), 0), mu = x.getMean();
    M3 ic = x.getCov().inverse();
    double t = l.dot(ic * (mu - s3)) / l.dot(ic * l);
    V3 q = s3 + t * l;
    double m2 = (q - mu).dot(ic * (q - mu));
    double axis = l.head(2).cwiseAbs().maxCoeff();
    if (m2 > 0.5 || t < 0 || (len - t) * axis < 3 * res || (len - t) < 0.06)
      return false;
    // long enough inside the cell to be noticed at half-cell steps
    double in = 0, step = res / 50;
    for (double u = std::max(0.0, t - 2 * res); u < t + 2 * res; u += step) {
      V2 z = st + u * l.head(2);
      if (cell_of(z(0), res) == k.first && cell_of(z(1), res) == k.second)
        in += step;
    }
    return in * axis > 0.6 * res;
  }
  void check_entered(const Before &b, Want &w, bool replace, bool whole, const char *op)
  {
    double res = g.getCellSize();
    Before a = before();
    set_ends(w);
    auto beam = [&](Key k) {
      if (!w.traced)
        return false;
      for (auto &e : w.ends)
        if (crosses(w.start, e, k, res, 1e-3 * res))
          return true;
      for (auto &e : w.loose_ends)
        if (crosses(w.start, e, k, res, 1.5 * res))
          return true;
      return false;
    };
    auto doubtful = [&](Key k) { return w.doubtful.count(k) || b.doubtful.count(k) || a.doubtful.count(k); };
    std::set<Key> keys;
    for (auto &x : b.g)
      keys.insert(x.first);
    for (auto &x : a.g)
      keys.insert(x.first);
    for (auto &x : w.hits)
      keys.insert(x.first);
    for (auto &k : keys) {
      if (doubtful(k))
        continue;
      double x = k.first * res, y = k.second * res;
      const Cell *ob = b.g.count(k) ? &b.g.at(k) : nullptr;
      const Cell *na = a.g.count(k) ? &a.g.at(k) : nullptr;
      auto h = w.hits.find(k);
      bool hit = h != w.hits.end() && (replace || b.in(k));
      if (!hit) {
        SIM_CHECK(c, P25, "unmeasured", !na || ob, "after %s the cell at (%.2f,%.2f) holds a distribution nobody measured",
                  op, x, y);
        if (na && ob)
          SIM_CHECK(c, P25, "untouched", like(*na, *ob),
                    "%s changed the distribution at (%.2f,%.2f) although the scan has none there", op, x, y);
        if (ob && !na)
          SIM_CHECK(c, P25, "lost", beam(k), "%s lost the distribution at (%.2f,%.2f) although no beam passes there", op,
                    x, y);
        if (ob && !na)
          c.probe("removed_by_beam");
        if (ob && na && whole && w.traced)
          for (auto &e : w.ends)
            SIM_CHECK(c, P25, "seen_through", !straight_through(*ob, w.start, e, k, b, a),
                      "after %s the distribution at (%.2f,%.2f) is still there although the beam from (%.2f,%.2f) to "
                      "(%.2f,%.2f) passes right through it",
                      op, x, y, w.start(0), w.start(1), e(0), e(1));
        continue;
      }
      std::vector<Cell> ok;
      if (replace)
        ok = h->second;
      else {
        Cell n = h->second[0];
        for (size_t i = 1; i < h->second.size(); ++i)
          n += h->second[i];
        if (ob) {
          Cell s = *ob;
          for (auto &q : h->second)
            s += q;
          ok.push_back(s);
        }
        if (!ob || beam(k))
          ok.push_back(n);
      }
      bool good = false;
      if (!whole) {  // interrupted: any of the states on the way
        good = !na;
        if (ob) {
          ok.push_back(*ob);
          Cell s = *ob;
          s += h->second[0];
          ok.push_back(s);
        }
        ok.push_back(h->second[0]);
      }
      for (auto &q : ok)
        good = good || (na && like(*na, q));
      if (!good && na && c.on(P25) && getenv("SIM_DEBUG")) {
        fprintf(stderr, "key %ld %ld replace %d n %zu want", k.first, k.second, int(replace), na->points());
        for (auto &q : ok)
          fprintf(stderr, " [n %zu dm %g dc %g]", q.points(), (q.getMean() - na->getMean()).cwiseAbs().maxCoeff(),
                  (q.getCov() - na->getCov()).cwiseAbs().maxCoeff());
        fprintf(stderr, "\n");
      }
      SIM_CHECK(c, P25, ob && !replace ? "pooled" : "measured", good,
                "after %s the cell at (%.2f,%.2f) %s (%zu points) instead of the distribution of the %zu measurements in "
                "it%s",
                op, x, y, na ? "holds something else" : "holds no distribution", na ? na->points() : 0,
                h->second[0].points(), ob && !replace ? ", pooled with what was there" : "");
      c.probe(ob ? (replace ? "replaced" : "pooled") : "entered");
      if (whole)
        SIM_CHECK(c, P25, "shown_occupied", a.og.count(k) && a.og.at(k) > 50,
                  "after %s the cell at (%.2f,%.2f) with new measurements is not occupied", op, x, y);
    }
    // free space
    for (auto &x : a.og) {
      auto it = b.og.find(x.first);
      int was = it == b.og.end() ? -1 : it->second;
      if (x.second == was || w.hits.count(x.first) || doubtful(x.first))
        continue;
      SIM_CHECK(c, P25, "free_without_beam", beam(x.first),
                "%s turned the cell at (%.2f,%.2f) from %d to %d although no beam passes there", op,
                x.first.first * res, x.first.second * res, was, x.second);
    }
    if (!w.traced || !whole)
      return;
    if (!a.in(Key(cell_of(w.start(0), res), cell_of(w.start(1), res))))
      return;
    for (auto &e : w.ends) {
      V2 d = e - w.start;
      double len = d.cwiseAbs().maxCoeff() / res;
      int mj = std::abs(d(0)) >= std::abs(d(1)) ? 0 : 1;
      for (double t = 0; t + 2.5 <= len; t += 1) {
        V2 q = w.start + d * (t / len);
        Key k(cell_of(q(0), res), cell_of(q(1), res));
        bool known = false, inside = true;
        for (long dd = -1; dd <= 1; ++dd)
          for (long de = -1; de <= 1; ++de) {
            Key n(k.first + (mj ? dd : de), k.second + (mj ? de : dd));
            if (std::abs(de) == 1 && dd != 0 && border(q(mj), res) > 1e-3)
              continue;
            inside = inside && a.in(n);
            known = known || (a.og.count(n) && a.og.at(n) >= 0);
          }
        if (!inside)
          break;
        SIM_CHECK(c, P25, "beam_unknown", known,
                  "after %s the cell at (%.2f,%.2f) and its neighbours are unknown although the beam to (%.2f,%.2f) passes",
                  op, q(0), q(1), e(0), e(1));
      }
    }
    uint64_t hh = hmix(uint64_t(w.hits.size()), uint64_t(a.g.size()));
    hh = hmix(hh, uint64_t(b.g.size()));
    c.state(hmix(hh, uint64_t(replace) * 2 + w.traced));
    for (auto &x : a.g) {
      c.obs(x.second.getMean()(0));
      c.obs(x.second.getMean()(1));
    }
    c.probe("entry_checked");
  }
  void run(const Plan &p)
  {
    float r = float(p.get("radius", 5));
    g.setOrigin(V3(p.get("ox"), p.get("oy"), p.get("oth")));
    g.setCellSize(float(cs));
    g.enlarge(-r, -r, r, r);
    V3 robot = g.getOrigin();
    for (size_t k = 0; k < p.steps.size(); ++k) {
      const Step &s = p.steps[k];
      c.step = k;
      c.count("op:" + s.op);
      if (s.op == "init") {
        Cloud cl = env.scan(robot);
        Before b;
        bool on = c.on(P25);
        if (on) {
          b = before();
          b.g.clear();
          b.doubtful.clear();
          for (auto &x : b.og)
            x.second = -1;
        }
        bool simple = s.iarg(0) != 0;
        V3 o = g.getOrigin();
        bool done = with_alloc_fault(c, on ? s.fail : 0, [&] {
          if (simple)
            g.initializeSimple(cl);
          else
            g.initialize(cl);
        });
        if (on) {
          Want w = scan_cells(cl, o, o);
          w.traced = !simple;
          if (done)
            check_entered(b, w, true, true, s.op.c_str());
        }
        entered = done;
      } else if (s.op == "merge") {
        Cloud cl = env.scan(robot);
        bool on = c.on(P25), resize = s.iarg(1) != 0;
        long mode = s.iarg(0);
        bool replace = resize || !entered;
        V3 o = g.getOrigin();
        for (int tries = 0; tries < 2; ++tries) {
          Before b;
          if (on)
            b = before();
          bool done = with_alloc_fault(c, on && mode != 2 && tries == 0 ? s.fail : 0, [&] {
            if (mode == 0)
              g.mergeInTraced(cl, robot, resize);
            else if (mode == 1)
              g.mergeIn(cl, robot, resize);
            else {
              Grid loc;
              loc.setCellSize(float(cs));
              loc.setOrigin(o);
              loc.initialize(cl);
              Eigen::Affine2d t;
              t = Eigen::Translation2d(robot(0) - o(0), robot(1) - o(1)) * Eigen::Rotation2Dd(robot(2) - o(2));
              loc.transform(t);
              g.mergeInTraced(loc, true, resize);
            }
          });
          if (on && (mode != 2 || std::abs(o(2)) < 1e-12)) {
            Want w = mode == 2 ? turned(scan_cells(cl, o, o), robot, o) : scan_cells(cl, robot, o);
            w.traced = mode != 1;
            check_entered(b, w, replace, done, s.op.c_str());
          }
          if (done)
            break;
          // the merge is repeated; whether the first one counted as an entry is open
          c.probe("merge_interrupted");
          replace = resize = replace;
        }
        entered = true;
      } else if (s.op == "world") {
        env.world = lidar::World(uint64_t(s.iarg(0)), int(s.iarg(1)), s.arg(2));
        c.fault("surroundings_changed");
      } else if (s.op == "move") {
        double dx = s.arg(0), dy = s.arg(1);
        if (s.iarg(3)) {  // exact multiples of the cell size
          dx = std::round(dx / cs) * double(g.getCellSize());
          dy = std::round(dy / cs) * double(g.getCellSize());
        }
        if (std::abs(dx) + std::abs(dy) > 3)
          c.fault("pose_jump");
        Eigen::Affine2d t;
        t = Eigen::Translation2d(dx, dy) * Eigen::Rotation2Dd(s.arg(2));
        Snap b = snap();
        Grid::Transform tt;
        tt.matrix() = t.matrix();
        Grid::Transform rest = g.move(tt);
        Eigen::Affine2d rr;
        rr.matrix() = rest.matrix();
        check_move(b, t, rr, s.op.c_str());
        if (std::abs(g.getOrigin()(2)) > 1e-7)
          continue;  // rotated windows do not follow
        // the robot is where window origin and remainder put it
        V2 w = place(g.getOrigin(), rr.translation());
        robot = V3(w(0), w(1), g.getOrigin()(2) + s.arg(2));
      }
      structure(s.op.c_str());
    }
  }
};
}  // namespace

const char *sim::world_name()
{
  return "ndtgridworld";
}
int sim::world_cpu_limit()
{
  return 40;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: ndt_mapper.h, ndt_grid2d.h, voxel_grid2d.h, ndt_cell.{h,cpp}, point_cloud_tools.h, msgs_conversions.h; "
         "stub: PCL containers/transforms/kd-tree, ROS time and message types, simulated lidar";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  p.cfg["world"] = double(r.below(1u << 30));
  p.cfg["noise"] = double(r.below(1u << 30));
  p.cfg["walls"] = double(r.range(1, 10));
  p.cfg["extent"] = r.real(3, 14);
  p.cfg["rays"] = double(r.range(40, 240));
  p.cfg["range"] = r.real(2.5, 10);
  bool win = prop == "C11" || prop == "C25" || (prop == "C10" && r.chance(0.3));
  p.cfg["win"] = win;
  bool deep = tier == "thorough";
  if (!win) {
    double f_alloc = r.chance(0.4) ? r.real(0.1, 0.6) : 0;
    double drift = r.chance(0.5) ? r.real(0, 1.5) : 0;
    double aligned = r.chance(0.2);
    long n = r.range(1, deep ? 24 : 10);
    double x = 0, y = 0, th = 0;
    for (long i = 0; i < n; ++i) {
      double q = r.u();
      if (i == 0 || q < 0.45) {
        x += r.gauss() * 1.5;
        y += r.gauss() * 1.5;
        th = aligned ? 1.5707963267948966 * double(r.below(4)) : r.real(-3.2, 3.2);
        x = std::max(-12.0, std::min(12.0, x));
        y = std::max(-12.0, std::min(12.0, y));
        p.steps.push_back(Step("add", {x, y, th, drift * r.gauss(), drift * r.gauss(), 0.2 * drift * r.gauss(),
                                       double(r.below(3)), double(r.below(3)), r.real(0.1, 5), double(r.below(2))}));
      } else if (q < 0.65) {
        double far = r.chance(0.2) ? 8 : 1;
        p.steps.push_back(Step("move", {double(r.below(8)), far * r.gauss(), far * r.gauss(), r.gauss(), double(r.below(2))}));
      } else if (q < 0.9)
        p.steps.push_back(Step("recalc", {}, r.chance(f_alloc) ? r.range(1, r.chance(0.5) ? 30 : 3000) : 0));
      else if (q < 0.93)
        p.steps.push_back(Step("remove", {double(r.below(8))}));
      else if (q < 0.96)
        p.steps.push_back(Step("combine", {double(r.below(8)), double(r.below(8))}));
      else
        p.steps.push_back(Step("unknown", {}));
    }
    p.steps.push_back(Step("recalc", {}));
  } else {
    std::vector<double> sizes = {0.25, 0.25, 0.25, 0.1, 0.5, 0.3, 0.2, 1.0};
    double cs = r.pick(sizes);
    p.cfg["cs"] = cs;
    p.cfg["radius"] = r.chance(0.2) ? r.real(0.1, 1) : r.real(1, 9);
    // rarely a window as large as the sensor's range
    if (cs >= 0.25 && r.chance(prop == "C10" ? 0.02 : 0.06)) {
      p.cfg["radius"] = r.real(15, 42);
      p.cfg["extent"] = r.real(20, 60);
      p.cfg["range"] = r.real(15, 45);
      if (prop == "C25") {
        p.cfg["extent"] = r.real(8, 25);
        p.cfg["rays"] = double(r.range(400, 2500));
      }
    }
    if (prop == "C25" && r.chance(0.25))
      p.cfg["bad"] = r.real(0.001, 0.1);
    double f_alloc = prop == "C25" && r.chance(0.3) ? r.real(0.1, 0.5) : 0;
    if (r.chance(0.5)) {
      p.cfg["ox"] = r.real(-6, 6);
      p.cfg["oy"] = r.real(-6, 6);
    }
    if (r.chance(0.1))
      p.cfg["oth"] = r.real(-3, 3);
    if (r.chance(0.8))
      p.steps.push_back(Step("init", {double(prop == "C25" && r.chance(0.3))}));
    long n = r.range(1, deep ? 30 : 12);
    for (long i = 0; i < n; ++i) {
      if (prop == "C25" && r.chance(0.1))
        p.steps.push_back(Step("world", {double(r.below(1u << 30)), double(r.range(1, 10)), p.get("extent") * r.real(0.7, 1.5)}));
      else if (r.chance(0.4))
        p.steps.push_back(Step("merge", {double(r.below(3)), double(r.below(2))},
                               f_alloc > 0 && r.chance(f_alloc) ? r.range(1, r.chance(0.5) ? 60 : 6000) : 0));
      else {
        double k = r.u();
        double s = k < 0.3 ? cs * 0.8 : k < 0.7 ? cs * 4 : k < 0.9 ? 3 : k < 0.97 ? 25 : 4000;
        double dx = s * r.real(-1, 1), dy = s * r.real(-1, 1);
        if (r.chance(0.15))
          dx = 0;
        if (r.chance(0.15))
          dy = 0;
        p.steps.push_back(Step("move", {dx, dy, r.chance(0.3) ? 0 : r.real(-3.2, 3.2), double(r.chance(0.25))}));
      }
    }
  }
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &ctx)
{
  mem::set_fill(uint32_t(plan.get("memfill")));
  if (plan.get("win")) {
    WinRun w(ctx, plan);
    w.run(plan);
  } else {
    MapRun m(ctx, plan);
    m.run(plan);
  }
}
