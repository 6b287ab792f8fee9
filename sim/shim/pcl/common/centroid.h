#pragma once
#include <pcl/point_cloud.h>
#include <Eigen/Dense>
#include <cmath>
namespace pcl
{
template <typename PointT>
unsigned int compute3DCentroid(const PointCloud<PointT> &c, Eigen::Vector4f &o)
{
  o.setZero();
  unsigned n = 0;
  for (auto &p : c.points) {
    if (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z))
      continue;
    o += Eigen::Vector4f(p.x, p.y, p.z, 0);
    ++n;
  }
  if (n)
    o /= static_cast<float>(n);
  o(3) = 1;
  return n;
}
}
