#pragma once
#include <tf/transform_datatypes.h>
namespace simtf
{
inline std::function<void(const tf::StampedTransform &)> &on_send()
{
  static auto *f = new std::function<void(const tf::StampedTransform &)>();
  return *f;
}
}
namespace tf
{
class TransformBroadcaster
{
public:
  void sendTransform(const StampedTransform &t)
  {
    if (simtf::on_send())
      simtf::on_send()(t);
  }
  void sendTransform(const std::vector<StampedTransform> &v)
  {
    for (auto &t : v)
      sendTransform(t);
  }
};
}
