#pragma once
#include <ndt_gslam/NDTCellMsg.h>
namespace ndt_gslam
{
struct NDTMapMsg {
  std_msgs::Header header;
  double x_size = 0, y_size = 0, z_size = 0, x_cen = 0, y_cen = 0, z_cen = 0, x_cell_size = 0, y_cell_size = 0,
         z_cell_size = 0;
  std::vector<NDTCellMsg> cells;
};
}
