#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PoseWithCovariance {
  Pose pose;
  boost::array<double, 36> covariance;
  PoseWithCovariance() { covariance.assign(0); }
};
struct Twist {
  Vector3 linear, angular;
};
struct TwistWithCovariance {
  Twist twist;
  boost::array<double, 36> covariance;
  TwistWithCovariance() { covariance.assign(0); }
};
struct PoseWithCovarianceStamped {
  typedef boost::shared_ptr<PoseWithCovarianceStamped> Ptr;
  typedef boost::shared_ptr<const PoseWithCovarianceStamped> ConstPtr;
  std_msgs::Header header;
  PoseWithCovariance pose;
};
}
