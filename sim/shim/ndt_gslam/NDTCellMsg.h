#pragma once
#include <std_msgs/Header.h>
namespace ndt_gslam
{
struct NDTCellMsg {
  double mean_x = 0, mean_y = 0, mean_z = 0;
  std::vector<double> cov_matrix;
  double occupancy = 0;
  int64_t N = 0;
};
}
