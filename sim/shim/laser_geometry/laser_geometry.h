#pragma once
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud.h>
#include <sensor_msgs/PointCloud2.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan &s, sensor_msgs::PointCloud2 &out, double cutoff = -1.0, int = 0)
  {
    out.header = s.header;
    out.sim_points.clear();
    double lim = cutoff < 0 ? s.range_max : std::min<double>(cutoff, s.range_max);
    for (size_t i = 0; i < s.ranges.size(); ++i) {
      const float r = s.ranges[i];
      if (!(r < lim && r >= s.range_min))
        continue;
      double a = s.angle_min + static_cast<double>(i) * s.angle_increment;
      boost::array<float, 3> p = {{static_cast<float>(r * std::cos(a)), static_cast<float>(r * std::sin(a)), 0.0f}};
      out.sim_points.push_back(p);
    }
  }
};
}
