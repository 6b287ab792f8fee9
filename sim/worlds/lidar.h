// A planar room with walls and a simulated laser scanner.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <vector>
#include "../core/sim.h"
namespace lidar
{
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
struct Wall {
  V2 a, b;
};
struct World {
  std::vector<Wall> walls;
  double extent;
  World(uint64_t seed, int inner, double ext) : extent(ext)
  {
    sim::Rng r(seed + 77);
    V2 c[4] = {V2(-ext, -ext), V2(ext, -ext), V2(ext, ext), V2(-ext, ext)};
    for (int i = 0; i < 4; ++i)
      walls.push_back({c[i], c[(i + 1) % 4]});
    for (int i = 0; i < inner; ++i) {
      V2 m(r.real(-ext, ext), r.real(-ext, ext));
      double ang = r.chance(0.5) ? 1.5707963267948966 * double(r.below(2)) : r.real(0, 3.14);
      V2 d(std::cos(ang), std::sin(ang));
      d *= r.real(0.2, 0.5 * ext);
      if (r.chance(0.5)) {
        walls.push_back({m - d, m + d});
      } else {  // box
        V2 n(-d(1), d(0));
        n *= r.real(0.2, 1);
        walls.push_back({m - d - n, m + d - n});
        walls.push_back({m + d - n, m + d + n});
        walls.push_back({m + d + n, m - d + n});
        walls.push_back({m - d + n, m - d - n});
      }
    }
  }
  double cast(const V2 &o, double ang, double max) const
  {
    V2 d(std::cos(ang), std::sin(ang));
    double best = max;
    for (auto &w : walls) {
      V2 e = w.b - w.a, q = w.a - o;
      double den = d(0) * e(1) - d(1) * e(0);
      if (std::abs(den) < 1e-12)
        continue;
      double t = (q(0) * e(1) - q(1) * e(0)) / den;
      double u = (q(0) * d(1) - q(1) * d(0)) / den;
      if (t > 0.02 && t < best && u >= 0 && u <= 1)
        best = t;
    }
    return best;
  }
  // points in the scanner's own frame
  std::vector<V2> scan(const V3 &pose, int rays, double max, double noise, sim::Rng &r) const
  {
    std::vector<V2> res;
    for (int i = 0; i < rays; ++i) {
      double a = -3.14159 + 6.28318 * i / rays;
      double d = cast(V2(pose(0), pose(1)), pose(2) + a, max);
      if (d >= max)
        continue;
      d += noise * r.gauss();
      res.push_back(V2(d * std::cos(a), d * std::sin(a)));
    }
    return res;
  }
};
}  // namespace lidar
