#pragma once
#include <geometry_msgs/PoseWithCovarianceStamped.h>
namespace nav_msgs
{
struct Odometry {
  typedef boost::shared_ptr<Odometry> Ptr;
  typedef boost::shared_ptr<const Odometry> ConstPtr;
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
};
}
