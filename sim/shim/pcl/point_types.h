// Simulation stand-in for the PCL point types (same fields and defaults as PCL).
#pragma once
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <ostream>
#include <string>
#include <vector>
namespace pcl
{
struct PCLHeader {
  uint32_t seq = 0;
  uint64_t stamp = 0;
  std::string frame_id;
};
struct PointXYZ {
  float x, y, z;
  PointXYZ() : x(0), y(0), z(0) {}
  PointXYZ(float x_, float y_, float z_) : x(x_), y(y_), z(z_) {}
};
struct PointXYZRGB {
  float x, y, z;
  uint8_t r, g, b;
  PointXYZRGB() : x(0), y(0), z(0), r(0), g(0), b(0) {}
  PointXYZRGB(uint8_t r_, uint8_t g_, uint8_t b_) : x(0), y(0), z(0), r(r_), g(g_), b(b_) {}
};
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  PCLHeader header;
  std::vector<int> indices;
};
typedef boost::shared_ptr<std::vector<int>> IndicesPtr;
typedef boost::shared_ptr<const std::vector<int>> IndicesConstPtr;
}
