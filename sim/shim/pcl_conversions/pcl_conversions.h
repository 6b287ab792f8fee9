#pragma once
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl_conversions
{
inline void toPCL(const ros::Time &t, uint64_t &s) { s = t.toNSec() / 1000ull; }
inline uint64_t toPCL(const ros::Time &t) { return t.toNSec() / 1000ull; }
inline ros::Time fromPCL(uint64_t s) { return ros::Time().fromNSec(s * 1000ull); }
}
namespace pcl
{
template <typename T>
void fromROSMsg(const sensor_msgs::PointCloud2 &m, pcl::PointCloud<T> &c)
{
  c.header.seq = m.header.seq;
  c.header.stamp = m.header.stamp.toNSec() / 1000ull;
  c.header.frame_id = m.header.frame_id;
  c.points.clear();
  for (auto &p : m.sim_points) {
    T q;
    q.x = p[0];
    q.y = p[1];
    q.z = p[2];
    c.points.push_back(q);
  }
  c.width = static_cast<uint32_t>(c.points.size());
  c.height = 1;
  c.is_dense = false;
}
template <typename T>
void moveFromROSMsg(sensor_msgs::PointCloud2 &m, pcl::PointCloud<T> &c)
{
  fromROSMsg(m, c);
  m.sim_points.clear();
}
}
