#pragma once
#include <pcl/point_cloud.h>
#include <boost/thread/thread.hpp>
#include <string>
namespace pcl
{
namespace visualization
{
enum RenderingProperties { PCL_VISUALIZER_POINT_SIZE };
template <typename P>
class PointCloudColorHandlerCustom
{
public:
  PointCloudColorHandlerCustom(const typename pcl::PointCloud<P>::ConstPtr &, double, double, double) {}
};
class PCLVisualizer
{
public:
  PCLVisualizer(const std::string &) {}
  void setBackgroundColor(double, double, double) {}
  template <typename P, typename H>
  bool addPointCloud(const typename pcl::PointCloud<P>::ConstPtr &, const H &, const std::string &)
  {
    return true;
  }
  bool setPointCloudRenderingProperties(int, double, const std::string &) { return true; }
  void addCoordinateSystem(double, const std::string &) {}
  bool wasStopped() { return true; }
  void spinOnce(int) {}
  void close() {}
};
}
}
