#pragma once
#include <tf/transform_datatypes.h>
namespace simtf
{
// The simulator answers lookups: fills the transform target<-source at the time, or throws.
typedef std::function<void(const std::string &, const std::string &, const ros::Time &, tf::StampedTransform &)> lookup_t;
typedef std::function<bool(const std::string &, const std::string &, const ros::Time &, double)> wait_t;
inline lookup_t &lookup()
{
  static auto *f = new lookup_t();
  return *f;
}
inline wait_t &wait()
{
  static auto *f = new wait_t();
  return *f;
}
}
namespace tf
{
class TransformListener
{
public:
  TransformListener() {}
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t,
                        const ros::Duration &timeout, const ros::Duration & = ros::Duration(0.01),
                        std::string * = nullptr) const
  {
    return simtf::wait() ? simtf::wait()(target, source, t, timeout.toSec()) : true;
  }
  bool canTransform(const std::string &target, const std::string &source, const ros::Time &t,
                    std::string * = nullptr) const
  {
    tf::StampedTransform s;
    try {
      lookupTransform(target, source, t, s);
      return true;
    } catch (const TransformException &) {
      return false;
    }
  }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &t,
                       StampedTransform &out) const
  {
    if (simtf::lookup())
      simtf::lookup()(target, source, t, out);
    else
      throw LookupException("no transforms");
  }
};
}
