// Simulation stand-in: PCD files go to the simulated disk (simdisk), which may refuse, cut or fail.
#pragma once
#include <pcl/point_cloud.h>
#include <stdexcept>
#include <string>
namespace pcl
{
class PCLException : public std::runtime_error
{
public:
  PCLException(const std::string &w) : std::runtime_error(w) {}
};
class IOException : public PCLException
{
public:
  IOException(const std::string &w) : PCLException(w) {}
};
}
namespace simdisk
{
// Writes a file of the given size. Returns 0, or an error: 1 cannot open, 2 failed part-way (the
// code sees an exception), 3 short write (reported by the return value only).
inline int (*&hook())(const std::string &name, size_t bytes)
{
  static int (*h)(const std::string &, size_t) = nullptr;
  return h;
}
}
namespace pcl
{
namespace io
{
template <typename PointT>
int savePCDFile(const std::string &name, const pcl::PointCloud<PointT> &cloud, bool = false)
{
  // as pcl::PCDWriter::writeASCII: an empty cloud, a file that cannot be opened and a failed
  // write are exceptions
  if (cloud.points.empty())
    throw IOException("[pcl::PCDWriter::writeASCII] Input point cloud has no data!");
  if (cloud.width * cloud.height != cloud.points.size())
    throw IOException("[pcl::PCDWriter::writeASCII] Number of points different than width * height!");
  int r = simdisk::hook() ? simdisk::hook()(name, 120 + cloud.points.size() * 28) : 0;
  if (r == 1)
    throw IOException("[pcl::PCDWriter::writeASCII] Could not open file '" + name + "' for writing!");
  if (r == 2)
    throw IOException("[pcl::PCDWriter::writeASCII] Error during write!");
  return r == 3 ? -1 : 0;
}
template <typename PointT>
int savePCDFileASCII(const std::string &name, const pcl::PointCloud<PointT> &cloud)
{
  return savePCDFile(name, cloud, false);
}
template <typename PointT>
int savePCDFileBinary(const std::string &name, const pcl::PointCloud<PointT> &cloud)
{
  return savePCDFile(name, cloud, true);
}
}
}
