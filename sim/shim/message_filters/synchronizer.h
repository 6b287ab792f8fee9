#pragma once
#include <message_filters/subscriber.h>
#include <message_filters/sync_policies/approximate_time.h>
namespace message_filters
{
template <typename Policy>
class Synchronizer
{
public:
  typedef typename Policy::First A;
  typedef typename Policy::Second B;
  typedef boost::shared_ptr<const A> AP;
  typedef boost::shared_ptr<const B> BP;
  explicit Synchronizer(const Policy &p) : p_(p) {}
  template <typename FA, typename FB>
  void connectInput(FA &a, FB &b)
  {
    a.add([this](const AP &m) {
      insert(a_, m);
      pump();
    });
    b.add([this](const BP &m) {
      insert(b_, m);
      pump();
    });
  }
  template <typename F>
  void registerCallback(const F &f)
  {
    cb_ = boost::function<void(const AP &, const BP &)>(f);
  }

private:
  Policy p_;
  std::deque<AP> a_;
  std::deque<BP> b_;
  boost::function<void(const AP &, const BP &)> cb_;
  template <typename Q, typename M>
  void insert(Q &q, const M &m)
  {
    if (!q.empty() && m->header.stamp < q.back()->header.stamp)
      q.clear();  // time went back: the policy resets
    q.push_back(m);
    if (q.size() > p_.queue)
      q.pop_front();
  }
  static double gap(const ros::Time &x, const ros::Time &y) { return std::fabs((x - y).toSec()); }
  // drop heads of q that are worse partners for `pivot` than their successor; false if undecided
  template <typename Q>
  static bool best(Q &q, const ros::Time &pivot)
  {
    while (q.size() > 1 && gap(q[1]->header.stamp, pivot) <= gap(q[0]->header.stamp, pivot))
      q.pop_front();
    return q.front()->header.stamp >= pivot || q.size() > 1;
  }
  void pump()
  {
    while (!a_.empty() && !b_.empty()) {
      ros::Time ta = a_.front()->header.stamp, tb = b_.front()->header.stamp;
      bool ok = ta >= tb ? best(b_, ta) : best(a_, tb);
      if (!ok)
        return;
      AP a = a_.front();
      BP b = b_.front();
      a_.pop_front();
      b_.pop_front();
      if (cb_)
        cb_(a, b);
    }
  }
};
}
