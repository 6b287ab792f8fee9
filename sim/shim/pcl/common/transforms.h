// Simulation stand-in: rigid transform of a cloud, arithmetic as in PCL 1.7.
#pragma once
#include <pcl/point_cloud.h>
#include <Eigen/Dense>
#include <cmath>
namespace pcl
{
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Matrix<Scalar, 4, 4> &t, bool = true)
{
  if (&in != &out) {
    out.header = in.header;
    out.is_dense = in.is_dense;
    out.width = in.width;
    out.height = in.height;
    out.points = in.points;
  }
  for (size_t i = 0; i < out.points.size(); ++i) {
    const PointT p = in.points[i];
    if (!in.is_dense && (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z)))
      continue;
    out.points[i].x = static_cast<float>(t(0, 0) * p.x + t(0, 1) * p.y + t(0, 2) * p.z + t(0, 3));
    out.points[i].y = static_cast<float>(t(1, 0) * p.x + t(1, 1) * p.y + t(1, 2) * p.z + t(1, 3));
    out.points[i].z = static_cast<float>(t(2, 0) * p.x + t(2, 1) * p.y + t(2, 2) * p.z + t(2, 3));
  }
}
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Transform<Scalar, 3, Eigen::Affine> &t, bool c = true)
{
  transformPointCloud(in, out, Eigen::Matrix<Scalar, 4, 4>(t.matrix()), c);
}
}
