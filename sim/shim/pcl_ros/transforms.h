#pragma once
#include <pcl/common/transforms.h>
#include <tf/transform_datatypes.h>
namespace pcl_ros
{
template <typename T>
void transformPointCloud(const pcl::PointCloud<T> &in, pcl::PointCloud<T> &out, const tf::Transform &t)
{
  tf::Quaternion q = t.getRotation();
  Eigen::Quaternionf r(static_cast<float>(q.w()), static_cast<float>(q.x()), static_cast<float>(q.y()),
                       static_cast<float>(q.z()));
  Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
  m.block<3, 3>(0, 0) = r.toRotationMatrix();
  for (int i = 0; i < 3; ++i)
    m(i, 3) = static_cast<float>(t.getOrigin().m[i]);
  pcl::transformPointCloud(in, out, m);
}
}
