#pragma once
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct PointCloud2 {  // content kept as points instead of a byte blob
  std_msgs::Header header;
  std::vector<boost::array<float, 3>> sim_points;
};
}
