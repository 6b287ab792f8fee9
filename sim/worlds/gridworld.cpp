// gridworld: the real cell grid (voxel_grid2d.h) under random histories of insertion, growth,
// translation, copying, clearing and ray tracing, with allocation failures injected at any
// allocation, against a reference map from cell index to content.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include <ndt_gslam/ndt/voxel_grid2d.h>
#include "../core/sim.h"

using namespace sim;
namespace
{
// content with heap storage: every insertion is identified by its own token
struct Tok {
  std::vector<int> v;
  Tok() {}
  explicit Tok(int x) : v(1, x) {}
  Tok &operator+=(const Tok &o)
  {
    v.insert(v.end(), o.v.begin(), o.v.end());
    return *this;
  }
};
std::ostream &operator<<(std::ostream &os, const Tok &t)
{
  return os << t.v.size();
}
typedef slamuk::VoxelGrid2D<Tok> Grid;
typedef Eigen::Vector2d Pt;
typedef std::pair<long, long> Key;  // column to the right, row upwards, relative to the origin cell
const char *P12 = "C12";
const char *P13 = "C13";

struct Model {
  double cs;
  long L = 0, R = 0, U = 0, D = 0;
  std::map<Key, std::vector<int>> cells;
  bool in(long x, long y) const { return x >= -L && x <= R && y >= -D && y <= U; }
  long width() const { return L + R + 1; }
  long height() const { return U + D + 1; }
};

struct W {
  Ctx &c;
  Grid g;
  Model m;
  Rng r;
  W(Ctx &ctx, uint64_t s) : c(ctx), r(s) {}

  Pt at(long ix, long iy, double fx, double fy) const { return Pt((ix + fx) * m.cs, (iy + fy) * m.cs); }

  void check_extents(const char *op)
  {
    SIM_CHECK(c, P12, "extent",
              long(g.left()) == m.L && long(g.right()) == m.R && long(g.up()) == m.U && long(g.down()) == m.D &&
                  long(g.width()) == m.width() && long(g.height()) == m.height(),
              "after %s the grid spans left %zu right %zu up %zu down %zu, expected %ld %ld %ld %ld", op, g.left(),
              g.right(), g.up(), g.down(), m.L, m.R, m.U, m.D);
  }
  // compares the whole content; returns pointer->key map for ray checks
  void check_content(const Grid &gr, const Model &mo, const char *op)
  {
    SIM_CHECK(c, P12, "storage_size", long(gr.cend() - gr.cbegin()) == mo.width() * mo.height(),
              "after %s the grid iterates over %ld cells, %ld x %ld expected", op, long(gr.cend() - gr.cbegin()),
              mo.width(), mo.height());
    if (long(gr.cend() - gr.cbegin()) != mo.width() * mo.height())
      throw EndRun();
    size_t n = 0;
    uint64_t h = hmix(mo.width(), mo.height());
    auto it = gr.cbegin();
    for (long row = 0; row < mo.height(); ++row)
      for (long col = 0; col < mo.width(); ++col, ++it) {
        long ix = col - mo.L, iy = mo.U - row;
        auto f = mo.cells.find(Key(ix, iy));
        bool ex = it->get() != nullptr;
        SIM_CHECK(c, P12, "content", ex == (f != mo.cells.end()), "after %s cell (%ld,%ld) is %s, expected %s", op, ix,
                  iy, ex ? "present" : "absent", ex ? "absent" : "present");
        if (ex && f != mo.cells.end()) {
          ++n;
          SIM_CHECK(c, P12, "content", (*it)->v == f->second,
                    "after %s cell (%ld,%ld) holds %zu items (first %d), expected %zu (first %d)", op, ix, iy,
                    (*it)->v.size(), (*it)->v.empty() ? -1 : (*it)->v[0], f->second.size(),
                    f->second.empty() ? -1 : f->second[0]);
          h = hmix(h, uint64_t(ix * 4001 + iy));
        }
      }
    SIM_CHECK(c, P12, "valid_count", gr.validCells() == mo.cells.size(),
              "after %s the grid counts %zu valid cells, it holds %zu", op, gr.validCells(), mo.cells.size());
    c.state(h);
    c.mix(h);
  }
  void check_lookups()
  {
    // lookups anywhere inside sampled cells, including near the corners
    for (int k = 0; k < 6; ++k) {
      long ix, iy;
      if (k < 3 && !m.cells.empty()) {
        auto it = m.cells.begin();
        std::advance(it, long(r.below(m.cells.size())));
        ix = it->first.first;
        iy = it->first.second;
      } else {
        ix = r.range(-m.L - 2, m.R + 2);
        iy = r.range(-m.D - 2, m.U + 2);
      }
      double fx = r.chance(0.3) ? (r.chance(0.5) ? 0.4999 : -0.4999) : r.real(-0.499, 0.499);
      double fy = r.chance(0.3) ? (r.chance(0.5) ? 0.4999 : -0.4999) : r.real(-0.499, 0.499);
      Pt p = at(ix, iy, fx, fy);
      bool in = m.in(ix, iy);
      auto f = m.cells.find(Key(ix, iy));
      SIM_CHECK(c, P12, "inside", g.isInside(p) == in, "point in cell (%ld,%ld) reported %s the grid", ix, iy,
                in ? "outside" : "inside");
      bool ex = g.cellExists(p);
      SIM_CHECK(c, P12, "lookup", ex == (f != m.cells.end()), "lookup in cell (%ld,%ld): exists=%d", ix, iy, int(ex));
      if (in && g.isInside(p)) {
        Tok *t = g.getCellPtr(p);
        SIM_CHECK(c, P12, "lookup", (t != nullptr) == (f != m.cells.end()) && (!t || t->v == f->second),
                  "lookup in cell (%ld,%ld) returned a different cell's content", ix, iy);
        if (t)
          SIM_CHECK(c, P12, "lookup", &g[p] == t, "operator[] and getCellPtr disagree in cell (%ld,%ld)", ix, iy);
      }
    }
  }
  void check_neighbours(long ix, long iy, double fx, double fy, size_t rad)
  {
    auto res = g.getNeighbors(at(ix, iy, fx, fy), rad);
    std::multiset<std::vector<int>> a, b;
    for (auto *t : res)
      a.insert(t->v);
    size_t n = 0;
    if (m.in(ix, iy))
      for (auto &kv : m.cells)
        if (std::labs(kv.first.first - ix) <= long(rad) && std::labs(kv.first.second - iy) <= long(rad)) {
          b.insert(kv.second);
          ++n;
        }
    SIM_CHECK(c, P12, "neighbours", a == b && res.size() == n,
              "neighbours of cell (%ld,%ld) within %zu: got %zu cells, expected %zu", ix, iy, rad, res.size(), n);
    std::set<Tok *> uniq(res.begin(), res.end());
    SIM_CHECK(c, P12, "neighbours", uniq.size() == res.size(), "neighbour query returned a cell twice");
  }
  void check_valid_lists()
  {
    auto ptrs = g.getValidCellsPtr();
    auto vals = g.getValidCells();
    std::vector<std::vector<int>> exp;
    std::vector<Key> keys;
    for (auto &kv : m.cells)
      keys.push_back(kv.first);
    std::sort(keys.begin(), keys.end(),
              [](const Key &a, const Key &b) { return a.second != b.second ? a.second > b.second : a.first < b.first; });
    for (auto &k : keys)
      exp.push_back(m.cells[k]);
    bool ok = ptrs.size() == exp.size() && vals.size() == exp.size();
    for (size_t i = 0; ok && i < exp.size(); ++i)
      ok = ptrs[i] && ptrs[i]->v == exp[i] && vals[i].v == exp[i];
    SIM_CHECK(c, P12, "valid_list", ok, "list of valid cells (%zu by pointer, %zu by value) differs from content (%zu)",
              ptrs.size(), vals.size(), exp.size());
  }
  // model extents needed to hold a cell
  void grow(long ix, long iy)
  {
    m.L = std::max(m.L, -ix);
    m.R = std::max(m.R, ix);
    m.U = std::max(m.U, iy);
    m.D = std::max(m.D, -iy);
  }
  // After a failed operation the extents may be the old ones or grown up to (need).
  void resync_extents(const Model &need, const char *op)
  {
    auto ok = [](long got, long oldv, long newv) { return got >= oldv && got <= std::max(oldv, newv); };
    bool good = ok(g.left(), m.L, need.L) && ok(g.right(), m.R, need.R) && ok(g.up(), m.U, need.U) &&
                ok(g.down(), m.D, need.D);
    SIM_CHECK(c, P12, "extent_after_failure", good, "failed %s left extents %zu %zu %zu %zu", op, g.left(), g.right(),
              g.up(), g.down());
    if (!good)
      throw EndRun();
    m.L = g.left();
    m.R = g.right();
    m.U = g.up();
    m.D = g.down();
  }

  bool seg_touches(const Pt &s, const Pt &e, long ix, long iy) const
  {
    // clip segment against the slightly grown square
    double eps = 1e-7 * m.cs + 1e-9;
    double lo[2] = {(ix - 0.5) * m.cs - eps, (iy - 0.5) * m.cs - eps};
    double hi[2] = {(ix + 0.5) * m.cs + eps, (iy + 0.5) * m.cs + eps};
    double t0 = 0, t1 = 1;
    for (int k = 0; k < 2; ++k) {
      double d = e(k) - s(k);
      if (std::abs(d) < 1e-300) {
        if (s(k) < lo[k] || s(k) > hi[k])
          return false;
        continue;
      }
      double a = (lo[k] - s(k)) / d, b = (hi[k] - s(k)) / d;
      if (a > b)
        std::swap(a, b);
      t0 = std::max(t0, a);
      t1 = std::min(t1, b);
    }
    return t0 <= t1;
  }

  void ray(const Step &s)
  {
    Pt a = at(s.iarg(0), s.iarg(1), s.arg(2), s.arg(3)), b = at(s.iarg(4), s.iarg(5), s.arg(6), s.arg(7));
    if (s.iarg(8) == 1)
      b = a;
    bool a_in = m.in(s.iarg(0), s.iarg(1));
    bool a_border = std::abs(std::abs(s.arg(2)) - 0.5) < 1e-3 || std::abs(std::abs(s.arg(3)) - 0.5) < 1e-3;
    Grid::CellPtrVector res;
    bool from_origin = s.iarg(8) == 2;
    if (from_origin) {
      a = Pt(0, 0);
      a_in = true;
      a_border = false;
    }
    bool ok = with_alloc_fault(c, s.fail, [&] { res = from_origin ? g.rayTrace(b) : g.rayTrace(a, b); });
    // positions of all cells after the call
    std::map<const Tok *, Key> pos;
    auto it = g.cbegin();
    for (long row = 0; row < m.height(); ++row)
      for (long col = 0; col < m.width() && it != g.cend(); ++col, ++it)
        if (it->get())
          pos[it->get()] = Key(col - m.L, m.U - row);
    // cells created by the trace: empty and on the segment
    for (auto &pk : pos) {
      if (m.cells.count(pk.second))
        continue;
      SIM_CHECK(c, P13, "ray_side_effect",
                pk.first->v.empty() && seg_touches(a, b, pk.second.first, pk.second.second),
                "trace created cell (%ld,%ld) off the segment", pk.second.first, pk.second.second);
      m.cells[pk.second] = pk.first->v;
      c.probe("ray_created_cell");
    }
    if (!ok) {
      c.probe("ray_alloc_failed");
      return;
    }
    if (!a_in && !a_border) {
      SIM_CHECK(c, P13, "ray_outside_start", res.empty(), "trace starting outside the grid returned %zu cells",
                res.size());
      c.probe("ray_start_outside");
      return;
    }
    if (a_border && !g.isInside(a))
      return;
    SIM_CHECK(c, P13, "ray_empty", !res.empty(), "trace starting inside the grid returned no cell");
    if (res.empty())
      return;
    std::vector<Key> path;
    std::set<Key> seen;
    for (auto *t : res) {
      auto f = pos.find(t);
      SIM_CHECK(c, P13, "ray_foreign_cell", f != pos.end(), "trace returned a cell that is not in the grid");
      if (f == pos.end())
        return;
      Key k = f->second;
      SIM_CHECK(c, P13, "ray_off_segment", seg_touches(a, b, k.first, k.second),
                "trace from (%.17g,%.17g) to (%.17g,%.17g) visited cell (%ld,%ld), which the segment does not touch",
                a(0), a(1), b(0), b(1), k.first, k.second);
      SIM_CHECK(c, P13, "ray_repeat", seen.insert(k).second, "trace visited cell (%ld,%ld) twice", k.first, k.second);
      if (!path.empty())
        SIM_CHECK(c, P13, "ray_gap",
                  std::labs(path.back().first - k.first) <= 1 && std::labs(path.back().second - k.second) <= 1,
                  "trace jumps from cell (%ld,%ld) to (%ld,%ld)", path.back().first, path.back().second, k.first,
                  k.second);
      path.push_back(k);
    }
    SIM_CHECK(c, P13, "ray_start", seg_touches(a, a, path[0].first, path[0].second),
              "trace does not begin at the start cell but at (%ld,%ld)", path[0].first, path[0].second);
    // order: progress along the dominant axis never reverses
    int dom = std::abs(b(0) - a(0)) >= std::abs(b(1) - a(1)) ? 0 : 1;
    double sgn = b(dom) >= a(dom) ? 1 : -1;
    for (size_t i = 1; i < path.size(); ++i) {
      long pd = dom ? path[i - 1].second : path[i - 1].first, cd = dom ? path[i].second : path[i].first;
      SIM_CHECK(c, P13, "ray_order", (cd - pd) * sgn >= 0, "trace goes backwards at step %zu", i);
    }
    // reach: ends within two cells (along the beam) of the end or at the border of the grid
    Key last = path.back();
    double lastd = (dom ? last.second : last.first) * m.cs;
    double remain = (b(dom) - lastd) * sgn / m.cs;
    bool at_border = last.first == -m.L || last.first == m.R || last.second == -m.D || last.second == m.U;
    // a beam that leaves through the other axis ends where it leaves
    SIM_CHECK(c, P13, "ray_short", remain <= 2.6 || at_border,
              "trace from (%.6g,%.6g) to (%.6g,%.6g) stops at cell (%ld,%ld), %.2f cells before the end", a(0), a(1),
              b(0), b(1), last.first, last.second, remain);
    if (at_border && remain > 2.6) {
      // it must really be leaving: the next half step along the beam is outside, or nearly so
      double len = std::abs(b(dom) - a(dom)) / m.cs;
      Pt d = (b - a) / len;  // one cell along the dominant axis
      // parameter of the last cell centre along the beam
      double t = ((dom ? last.second : last.first) * m.cs - a(dom)) / d(dom);
      Pt n = a + d * (t + 1.1);
      double e = 0.02 * m.cs;
      bool leaving = n(0) < (-m.L - 0.5) * m.cs + e || n(0) > (m.R + 0.5) * m.cs - e || n(1) < (-m.D - 0.5) * m.cs + e ||
                     n(1) > (m.U + 0.5) * m.cs - e;
      SIM_CHECK(c, P13, "ray_short", leaving,
                "trace from (%.6g,%.6g) to (%.6g,%.6g) stops at cell (%ld,%ld) although the beam stays inside", a(0),
                a(1), b(0), b(1), last.first, last.second);
      c.probe("ray_left_grid");
    }
    if (path.size() > 3)
      c.probe("ray_long");
    else if (path.size() == 1)
      c.probe("ray_short_beam");
    for (auto &k : path)
      c.mix(uint64_t(k.first * 7919 + k.second));
  }

  // insertion exactly at (or within rounding of) a cell border: one of the adjoining cells takes it
  void add_border(const Step &s, int tok)
  {
    long ix = s.iarg(0), iy = s.iarg(1);
    double nudge = s.arg(4);
    double fx = s.iarg(2) == 0 ? s.arg(5) : (s.iarg(2) > 0 ? 0.5 : -0.5);
    double fy = s.iarg(3) == 0 ? s.arg(6) : (s.iarg(3) > 0 ? 0.5 : -0.5);
    Pt p = at(ix, iy, fx, fy) + Pt(nudge, nudge) * m.cs;
    std::vector<Key> cand;
    for (int dx = 0; dx <= 1; ++dx)
      for (int dy = 0; dy <= 1; ++dy) {
        if ((dx && s.iarg(2) == 0) || (dy && s.iarg(3) == 0))
          continue;
        cand.push_back(Key(ix + dx * (s.iarg(2) > 0 ? 1 : -1), iy + dy * (s.iarg(3) > 0 ? 1 : -1)));
      }
    bool merging = s.iarg(7) != 0;
    g.addCell(p, Tok(tok), merging);
    c.probe("border_insert");
    SIM_CHECK(c, P12, "border_lookup", g.isInside(p), "location (%.17g,%.17g) just inserted is outside the grid", p(0),
              p(1));
    if (!g.isInside(p))
      throw EndRun();
    Tok *t = g.getCellPtr(p);
    SIM_CHECK(c, P12, "border_lookup", g.cellExists(p) && t && !t->v.empty() && t->v.back() == tok,
              "content inserted at the border location (%.17g,%.17g) is not found there", p(0), p(1));
    // which adjoining cell took it?
    Model before = m;
    bool matched = false;
    for (auto &k : cand) {
      Tok *q = nullptr;
      Pt ctr = at(k.first, k.second, 0, 0);
      if (g.isInside(ctr))
        q = g.getCellPtr(ctr);
      if (q == t && t) {
        grow(k.first, k.second);
        auto &v = m.cells[k];
        if (merging)
          v.push_back(tok);
        else
          v.assign(1, tok);
        matched = true;
        break;
      }
    }
    SIM_CHECK(c, P12, "border_cell", matched,
              "content inserted at the border location (%.17g,%.17g) went to a cell that does not adjoin it", p(0), p(1));
    if (!matched)
      throw EndRun();
    // growth by at most one surplus cell
    auto ok = [](long got, long want) { return got >= want && got <= want + 1; };
    SIM_CHECK(c, P12, "extent",
              ok(g.left(), m.L) && ok(g.right(), m.R) && ok(g.up(), m.U) && ok(g.down(), m.D),
              "border insertion grew the grid to %zu %zu %zu %zu", g.left(), g.right(), g.up(), g.down());
    m.L = g.left();
    m.R = g.right();
    m.U = g.up();
    m.D = g.down();
  }
};
}  // namespace

const char *sim::world_name()
{
  return "gridworld";
}
int sim::world_cpu_limit()
{
  return 20;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: voxel_grid2d.h (VoxelGrid2D); stub: cell type is a token list; allocator behind a failing seam";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  static const double sizes[] = {0.25, 0.5, 1, 2, 0.25, 0.5, 0.1, 0.3, 0.05, 0.7, 3.3};
  p.cfg["memfill"] = double(uint32_t(r.next()));
  p.cfg["rng"] = double(r.below(1u << 30));
  p.cfg["cs"] = sizes[r.below(11)];
  double f_alloc = r.chance(0.5) ? r.real(0.02, 0.3) : 0;
  bool rays = prop == "C13";
  double w[12] = {rays ? 0.6 : 2.0,                // add
                  r.real(0, 0.7),                  // remove
                  r.real(0, 0.5),                  // enlarge
                  r.real(0, 0.5),                  // translate
                  r.chance(0.3) ? 0.08 : 0.0,      // clear
                  r.real(0, 0.3),                  // copy
                  r.real(0, 0.4),                  // neighbours
                  rays ? 3.0 : r.real(0, 0.3),     // ray
                  rays ? 0.1 : r.real(0, 0.5),     // border add
                  0.1,                             // move/clone/print
                  rays ? 0.0 : r.real(0, 0.3),     // border probe
                  0};
  double tot = 0;
  for (double x : w)
    tot += x;
  long n = r.range(4, tier == "thorough" ? 90 : 45);
  double reach = r.chance(0.15) ? 60 : r.real(2, 16);
  long budget_cells = 9000;
  (void)budget_cells;
  auto cell = [&](double k = 1) { return double(std::lround(r.gauss() * reach * 0.4 * k)); };
  auto frac = [&] {
    double x = r.u();
    if (x < 0.15)
      return 0.4995;
    if (x < 0.3)
      return -0.4995;
    if (x < 0.4)
      return 0.0;
    return r.real(-0.499, 0.499);
  };
  for (long i = 0; i < n; ++i) {
    double x = r.u() * tot;
    int k = 0;
    while (k < 11 && (x -= w[k]) >= 0)
      ++k;
    long f = r.chance(f_alloc) ? r.range(1, 5) : 0;
    switch (k) {
      case 0:
        p.steps.push_back(
            Step("add", {cell(), cell(), frac(), frac(), double(r.chance(0.6)), double(r.chance(0.5))}, f));
        break;
      case 1:
        p.steps.push_back(Step("remove", {cell(), cell(), frac(), frac(), double(r.chance(0.7)), double(r.below(9999))}));
        break;
      case 2:
        p.steps.push_back(Step("enlarge", {-std::abs(cell()) - r.real(0, 1), -std::abs(cell()) - r.real(0, 1),
                                           std::abs(cell()) + r.real(0, 1), std::abs(cell()) + r.real(0, 1),
                                           double(r.below(16))},
                               f));
        break;
      case 3: {
        double sc = r.chance(0.15) ? 3 : 0.5;
        p.steps.push_back(Step("translate", {cell(sc), cell(sc), double(r.chance(0.7))}, f));
        break;
      }
      case 4:
        p.steps.push_back(Step("clear", {}));
        break;
      case 5:
        p.steps.push_back(Step("copy", {double(r.below(3))}, f));
        break;
      case 6:
        p.steps.push_back(Step("neigh", {cell(), cell(), frac(), frac(), double(r.below(5))}, f));
        break;
      case 7: {
        long mode = r.chance(0.12) ? 1 : r.chance(0.15) ? 2 : 0;
        auto rf = [&] {
          double y = r.u();
          return y < 0.12 ? 0.5 : y < 0.24 ? -0.5 : frac();
        };
        double ax = cell(), ay = cell(), bx = cell(2), by = cell(2);
        double fx = rf(), fy = rf(), gx = rf(), gy = rf();
        if (r.chance(0.25)) {
          bx = ax;
          gx = fx;
        } else if (r.chance(0.25)) {
          by = ay;
          gy = fy;
        }
        if (r.chance(0.12)) {  // beam shorter than about a cell
          bx = ax + double(r.range(-1, 1));
          by = ay + double(r.range(-1, 1));
        }
        if (r.chance(0.1)) {  // exact diagonal
          long dd = r.range(-20, 20);
          bx = ax + dd;
          by = ay + (r.chance(0.5) ? dd : -dd);
          gx = fx;
          gy = fy;
        }
        p.steps.push_back(Step("ray", {ax, ay, fx, fy, bx, by, gx, gy, double(mode)}, f));
        break;
      }
      case 8: {
        double nud[6] = {0, 0, 0, 1e-9, -1e-9, 1e-7};
        long sx = r.range(-1, 1), sy = r.range(-1, 1);
        if (sx == 0 && sy == 0)
          sx = 1;
        p.steps.push_back(Step("addborder", {cell(), cell(), double(sx), double(sy), nud[r.below(6)],
                                             r.real(-0.4, 0.4), r.real(-0.4, 0.4), double(r.chance(0.6))}));
        break;
      }
      case 9:
        p.steps.push_back(Step("misc", {double(r.below(4))}));
        break;
      default:
        p.steps.push_back(Step("edgeprobe", {double(r.below(4)), double(r.below(1000)), double(r.below(3))}));
    }
  }
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  W w(c, uint64_t(plan.get("rng")) + 5);
  float csf = float(plan.get("cs", 0.25));
  w.g.setCellSize(csf);
  w.m.cs = double(csf);
  w.m.cells[Key(0, 0)] = {};
  SIM_CHECK(c, P12, "cell_size", w.g.getCellSize() == csf, "cell size not kept");
  int tok = 0;
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    Grid &g = w.g;
    Model &m = w.m;
    if (m.width() * m.height() > 40000 && (s.op == "enlarge" || s.op == "translate" || s.op == "addborder"))
      continue;
    if (s.op == "add") {
      long ix = s.iarg(0), iy = s.iarg(1);
      Pt p = w.at(ix, iy, s.arg(2), s.arg(3));
      bool merging = s.iarg(4) != 0;
      ++tok;
      Model need = m;
      bool outside = !m.in(ix, iy);
      bool ok = with_alloc_fault(c, s.fail, [&] {
        Tok t(tok);
        if (s.iarg(5))
          g.addCell(p, t, merging);
        else
          g.addCell(p, std::move(t), merging);
      });
      if (ok) {
        w.grow(ix, iy);
        auto &v = m.cells[Key(ix, iy)];
        if (merging)
          v.push_back(tok);
        else
          v.assign(1, tok);
        if (outside)
          c.probe("add_grew");
      } else {
        need.L = std::max(need.L, -ix);
        need.R = std::max(need.R, ix);
        need.U = std::max(need.U, iy);
        need.D = std::max(need.D, -iy);
        w.resync_extents(need, "insertion");
        c.probe("add_alloc_failed");
      }
    } else if (s.op == "remove") {
      long ix = s.iarg(0), iy = s.iarg(1);
      if (s.iarg(4) && !m.cells.empty()) {
        auto it = m.cells.begin();
        std::advance(it, s.iarg(5) % long(m.cells.size()));
        ix = it->first.first;
        iy = it->first.second;
      }
      bool in = m.in(ix, iy);
      bool had = m.cells.count(Key(ix, iy)) > 0;
      bool res = g.removeCell(w.at(ix, iy, s.arg(2), s.arg(3)));
      if (!in)
        SIM_CHECK(c, P12, "remove_result", !res, "removal outside the grid was accepted");
      if (had) {
        SIM_CHECK(c, P12, "remove_result", res, "removal of existing cell (%ld,%ld) reported failure", ix, iy);
        m.cells.erase(Key(ix, iy));
        c.probe("removed_cell");
      }
    } else if (s.op == "enlarge") {
      float v[4];
      for (int k = 0; k < 4; ++k)
        v[k] = float((((s.iarg(4) >> k) & 1) ? s.arg(k) : 0.0) * m.cs);
      if (std::abs(s.arg(0)) + std::abs(s.arg(2)) + m.width() > 400 ||
          std::abs(s.arg(1)) + std::abs(s.arg(3)) + m.height() > 400)
        continue;
      bool ok = with_alloc_fault(c, s.fail, [&] { g.enlarge(v[0], v[1], v[2], v[3]); });
      // must cover the requested span, never shrink, at most one cell more than needed
      auto need = [&](double d) { return std::max(0.0, (std::abs(d) - 0.5 * m.cs) / m.cs); };
      double want[4] = {need(v[0]), need(v[2]), need(v[3]), need(v[1])};
      long *ext[4] = {&m.L, &m.R, &m.U, &m.D};
      size_t got[4] = {g.left(), g.right(), g.up(), g.down()};
      for (int k = 0; k < 4; ++k) {
        long lo = std::max(*ext[k], long(std::ceil(want[k] - 1e-3)));
        long hi = std::max(*ext[k], long(std::ceil(want[k] + 1e-3)));
        if (!ok)
          lo = *ext[k];
        SIM_CHECK(c, P12, "enlarge", long(got[k]) >= lo && long(got[k]) <= hi,
                  "enlarging (side %d): %zu cells, expected %ld..%ld", k, got[k], lo, hi);
      }
      for (int k = 0; k < 4; ++k)
        *ext[k] = long(got[k]);
      c.probe(ok ? "enlarged" : "enlarge_alloc_failed");
    } else if (s.op == "translate") {
      long tx = s.iarg(0), ty = s.iarg(1);
      bool discard = s.iarg(2) != 0;
      if (!discard && (std::labs(tx) + m.width() > 400 || std::labs(ty) + m.height() > 400))
        continue;
      Model after = m;
      if (!discard) {
        (tx < 0 ? after.L : after.R) += std::labs(tx);
        (ty < 0 ? after.D : after.U) += std::labs(ty);
      }
      bool ok =
          with_alloc_fault(c, s.fail, [&] { g.translate(Eigen::Vector2i(int(tx), int(ty)), discard); });
      if (ok) {
        after.cells.clear();
        for (auto &kv : m.cells) {
          Key k(kv.first.first + tx, kv.first.second + ty);
          if (after.in(k.first, k.second))
            after.cells[k] = kv.second;
          else
            c.probe("translate_dropped_cell");
        }
        m = after;
      } else {
        w.resync_extents(after, "translation");
        c.probe("translate_alloc_failed");
      }
    } else if (s.op == "clear") {
      g.clear();
      m.cells.clear();
      c.probe("cleared");
    } else if (s.op == "copy") {
      if (s.iarg(0) == 0) {
        std::unique_ptr<Grid> cp;
        bool ok = with_alloc_fault(c, s.fail, [&] { cp.reset(new Grid(g)); });
        if (ok) {
          SIM_CHECK(c, P12, "copy", cp->width() == g.width() && cp->height() == g.height() && cp->left() == g.left() &&
                                        cp->up() == g.up() && cp->getCellSize() == g.getCellSize(),
                    "copy has different extents");
          w.check_content(*cp, m, "copying (the copy)");
          // the copy is independent
          cp->clear();
          c.probe("copied");
        } else
          c.probe("copy_alloc_failed");
      } else {
        Grid other;
        other.setCellSize(0.77f);
        other.addCell(Pt(2, 2), Tok(-5));
        bool ok = with_alloc_fault(c, s.fail, [&] { other = g; });
        if (ok) {
          w.check_content(other, m, "assigning (the copy)");
          SIM_CHECK(c, P12, "copy", other.getCellSize() == g.getCellSize(), "assignment lost the cell size");
          if (s.iarg(0) == 2)
            g = other;  // continue with the copy
          c.probe("assigned");
        }
      }
    } else if (s.op == "neigh") {
      Grid::CellPtrVector res;
      if (with_alloc_fault(c, s.fail,
                           [&] { res = g.getNeighbors(w.at(s.iarg(0), s.iarg(1), s.arg(2), s.arg(3)), s.iarg(4)); }))
        w.check_neighbours(s.iarg(0), s.iarg(1), s.arg(2), s.arg(3), size_t(s.iarg(4)));
    } else if (s.op == "ray") {
      w.ray(s);
    } else if (s.op == "addborder") {
      w.add_border(s, ++tok);
    } else if (s.op == "misc") {
      switch (s.iarg(0)) {
        case 0: {
          Grid h(std::move(g));
          g = std::move(h);
          break;
        }
        case 1: {
          Grid h = g.clone();
          SIM_CHECK(c, P12, "clone", h.getCellSize() == g.getCellSize(), "clone has a different cell size");
          break;
        }
        case 2: {
          std::ostringstream os;
          os << g;
          break;
        }
        default:
          w.check_valid_lists();
      }
    } else if (s.op == "edgeprobe") {
      // look up exactly on the outer border of the grid: refused, or answered from an adjoining cell
      long k = s.iarg(0);
      bool horiz = k < 2;
      long span = horiz ? m.height() : m.width();
      long j = s.iarg(1) % span;
      long ix = horiz ? (k == 0 ? -m.L : m.R) : j - m.L;
      long iy = horiz ? j - m.D : (k == 2 ? -m.D : m.U);
      double f = (k == 0 || k == 2) ? -0.5 : 0.5;
      double other = s.iarg(2) == 0 ? 0.0 : s.iarg(2) == 1 ? 0.5 : -0.5;
      Pt p = horiz ? w.at(ix, iy, f, other) : w.at(ix, iy, other, f);
      bool in = g.isInside(p);
      bool ex = g.cellExists(p);
      c.probe(in ? "edge_inside" : "edge_outside");
      SIM_CHECK(c, P12, "edge_lookup", in || !ex, "a location outside the grid has a cell");
      if (in) {
        Tok *t = g.getCellPtr(p);
        // must be one of the adjoining cells
        bool adj = false;
        for (long dx = -1; dx <= 1; ++dx)
          for (long dy = -1; dy <= 1; ++dy) {
            double nx = std::abs((ix + dx) * m.cs - p(0)), ny = std::abs((iy + dy) * m.cs - p(1));
            if (nx > 0.5 * m.cs + 1e-6 || ny > 0.5 * m.cs + 1e-6 || !m.in(ix + dx, iy + dy))
              continue;
            auto fnd = m.cells.find(Key(ix + dx, iy + dy));
            if ((t == nullptr && fnd == m.cells.end()) || (t && fnd != m.cells.end() && t->v == fnd->second))
              adj = true;
          }
        SIM_CHECK(c, P12, "edge_lookup", adj,
                  "lookup on the outer border at (%.17g,%.17g) is answered from a cell that does not adjoin it", p(0),
                  p(1));
        SIM_CHECK(c, P12, "edge_lookup", ex == (t != nullptr), "existence and lookup disagree on the border");
        auto nb = g.getNeighbors(p, 0);
        SIM_CHECK(c, P12, "edge_lookup", nb.size() == (t ? 1u : 0u), "neighbours on the border disagree with lookup");
      }
    }
    w.check_extents(s.op.c_str());
    w.check_content(g, m, s.op.c_str());
    w.check_lookups();
    if (si % 5 == 4)
      w.check_valid_lists();
    if (si % 3 == 2)
      w.check_neighbours(w.r.range(-m.L - 1, m.R + 1), w.r.range(-m.D - 1, m.U + 1), 0.1, -0.2, w.r.below(4));
  }
}
