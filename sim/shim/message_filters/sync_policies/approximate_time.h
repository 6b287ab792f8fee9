#pragma once
#include <ros/ros.h>
#include <deque>
namespace message_filters
{
namespace sync_policies
{
// Pairs messages of two topics by nearest stamp, each message used at most once, stamps of the
// pairs increasing: the observable contract of ROS's ApproximateTime policy.
template <typename A, typename B>
struct ApproximateTime {
  typedef A First;
  typedef B Second;
  uint32_t queue;
  explicit ApproximateTime(uint32_t q) : queue(q) {}
};
template <typename A, typename B>
using ExactTime = ApproximateTime<A, B>;
}
}
