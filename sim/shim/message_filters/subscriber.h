#pragma once
#include <ros/ros.h>
namespace message_filters
{
template <typename M>
class Subscriber
{
public:
  typedef boost::shared_ptr<const M> MConstPtr;
  void subscribe(ros::NodeHandle &, const std::string &topic, uint32_t queue)
  {
    std::string t = simros::clean(topic);
    simros::world().sub_queue[t] = queue;
    simros::world().subs[t].push_back([this](const std::any &a) {
      MConstPtr m = std::any_cast<MConstPtr>(a);
      for (auto &f : cbs_)
        f(m);
    });
  }
  void add(const std::function<void(const MConstPtr &)> &f) { cbs_.push_back(f); }

private:
  std::vector<std::function<void(const MConstPtr &)>> cbs_;
};
}
