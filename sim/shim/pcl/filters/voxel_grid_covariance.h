#pragma once
#include <pcl/point_cloud.h>
namespace pcl
{
// only named by the code under test, never used
template <typename PointT>
class VoxelGridCovariance
{
public:
  struct Leaf {
  };
  typedef Leaf *LeafPtr;
  typedef const Leaf *LeafConstPtr;
};
}
