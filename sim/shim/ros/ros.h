// Simulation stand-in for roscpp: clock, parameters and topics live in simros::World, which the
// simulator owns.  Nothing here reads the host's clock or talks to a network.
#pragma once
#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <any>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace ros
{
class Duration
{
public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit Duration(double t) { fromSec(t); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000ll + nsec; }
  Duration &fromSec(double t)
  {
    sec = static_cast<int32_t>(std::floor(t));
    nsec = static_cast<int32_t>(std::round((t - sec) * 1e9));
    return *this;
  }
  bool sleep() const;
};
class Time
{
public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  Time &fromSec(double t)
  {
    sec = static_cast<uint32_t>(std::floor(t));
    nsec = static_cast<uint32_t>(std::round((t - sec) * 1e9));
    if (nsec >= 1000000000u) {
      ++sec;
      nsec -= 1000000000u;
    }
    return *this;
  }
  Time &fromNSec(uint64_t t)
  {
    sec = static_cast<uint32_t>(t / 1000000000ull);
    nsec = static_cast<uint32_t>(t % 1000000000ull);
    return *this;
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  Duration operator-(const Time &o) const
  {
    int64_t d = static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec());
    int64_t s = d / 1000000000ll, n = d % 1000000000ll;
    if (n < 0) {
      n += 1000000000ll;
      --s;
    }
    return Duration(static_cast<int32_t>(s), static_cast<int32_t>(n));
  }
  Time operator+(const Duration &d) const { return Time().fromNSec(toNSec() + d.toNSec()); }
  Time operator-(const Duration &d) const { return Time().fromNSec(toNSec() - d.toNSec()); }
  static Time now();
  static bool isSimTime() { return false; }
  static bool isValid() { return true; }
};
inline std::ostream &operator<<(std::ostream &o, const Time &t)
{
  return o << t.sec << "." << std::setw(9) << std::setfill('0') << t.nsec;
}
typedef Time WallTime;
typedef Duration WallDuration;
}  // namespace ros
namespace simros
{
struct Param {
  enum Kind { DOUBLE, INT, BOOL, STRING } kind = DOUBLE;
  double d = 0;
  std::string s;
};
struct World {
  ros::Time now;
  std::map<std::string, Param> params;           // names relative to the node's private space
  std::map<std::string, Param> ancestor_params;  // found by searchParam only (key: plain name)
  std::map<std::string, std::vector<std::function<void(const std::any &)>>> subs;
  std::map<std::string, uint32_t> sub_queue;
  std::map<std::string, int> advertised;
  std::function<void(const std::string &, const std::any &)> on_publish;
  std::function<void()> on_spin;
  std::function<void(double)> on_wait;  // code asked for time to pass
  uint64_t log_lines = 0;
};
inline World &world()
{
  static World *w = new World();
  return *w;
}
inline void deliver(const std::string &topic, const std::any &msg)
{
  auto it = world().subs.find(topic);
  if (it == world().subs.end())
    return;
  for (auto &f : it->second)
    f(msg);
}
inline std::string clean(const std::string &t) { return (!t.empty() && t[0] == '/') ? t.substr(1) : t; }
}  // namespace simros
namespace ros
{
inline Time Time::now() { return simros::world().now; }
inline bool Duration::sleep() const
{
  if (simros::world().on_wait)
    simros::world().on_wait(toSec());
  return true;
}
class Publisher
{
public:
  Publisher() {}
  explicit Publisher(const std::string &t) : topic_(t) {}
  template <typename M>
  void publish(const M &m) const
  {
    send(m);
  }
  template <typename M>
  void publish(const boost::shared_ptr<M> &m) const
  {
    send(typename std::remove_const<M>::type(*m));
  }
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const { return 1; }
  void shutdown() {}

private:
  template <typename M>
  void send(const M &m) const
  {
    if (simros::world().on_publish)
      simros::world().on_publish(topic_, std::any(m));
  }
  std::string topic_;
};
class Subscriber
{
public:
  std::string topic_;
  void shutdown() {}
};
class NodeHandle
{
public:
  NodeHandle() {}
  explicit NodeHandle(const std::string &ns) : ns_(ns) {}
  template <typename M>
  Publisher advertise(const std::string &topic, uint32_t queue, bool = false)
  {
    simros::world().advertised[simros::clean(topic)] = static_cast<int>(queue);
    return Publisher(simros::clean(topic));
  }
  template <typename M>
  Subscriber subscribe(const std::string &topic, uint32_t queue,
                       const boost::function<void(const boost::shared_ptr<const M> &)> &cb)
  {
    Subscriber s;
    s.topic_ = simros::clean(topic);
    simros::world().sub_queue[s.topic_] = queue;
    simros::world().subs[s.topic_].push_back(
        [cb](const std::any &a) { cb(std::any_cast<boost::shared_ptr<const M>>(a)); });
    return s;
  }
  template <typename M, typename T>
  Subscriber subscribe(const std::string &topic, uint32_t queue, void (T::*fp)(const boost::shared_ptr<const M> &),
                       T *obj)
  {
    return subscribe<M>(topic, queue,
                        boost::function<void(const boost::shared_ptr<const M> &)>(
                            [fp, obj](const boost::shared_ptr<const M> &m) { (obj->*fp)(m); }));
  }
  bool hasParam(const std::string &n) const { return simros::world().params.count(n) > 0; }
  bool searchParam(const std::string &n, std::string &result) const
  {
    if (simros::world().params.count(n)) {
      result = n;
      return true;
    }
    if (simros::world().ancestor_params.count(n)) {
      result = "/" + n;
      return true;
    }
    return false;
  }
  bool getParam(const std::string &n, std::string &v) const
  {
    const simros::Param *p = find(n);
    if (!p || p->kind != simros::Param::STRING)
      return false;
    v = p->s;
    return true;
  }
  bool getParam(const std::string &n, double &v) const
  {
    const simros::Param *p = find(n);
    if (!p || (p->kind != simros::Param::DOUBLE && p->kind != simros::Param::INT))
      return false;
    v = p->d;
    return true;
  }
  bool getParam(const std::string &n, float &v) const
  {
    double d;
    if (!getParam(n, d))
      return false;
    v = static_cast<float>(d);
    return true;
  }
  bool getParam(const std::string &n, int &v) const
  {
    const simros::Param *p = find(n);
    if (!p || (p->kind != simros::Param::DOUBLE && p->kind != simros::Param::INT))
      return false;
    v = static_cast<int>(std::floor(p->d + 0.5));
    return true;
  }
  bool getParam(const std::string &n, bool &v) const
  {
    const simros::Param *p = find(n);
    if (!p || p->kind != simros::Param::BOOL)
      return false;
    v = p->d != 0;
    return true;
  }
  template <typename T>
  bool param(const std::string &n, T &v, const T &d) const
  {
    if (getParam(n, v))
      return true;
    v = d;
    return false;
  }
  template <typename T>
  T param(const std::string &n, const T &d) const
  {
    T v;
    param(n, v, d);
    return v;
  }
  bool ok() const { return true; }
  std::string getNamespace() const { return ns_; }

private:
  const simros::Param *find(const std::string &n) const
  {
    auto &w = simros::world();
    if (!n.empty() && n[0] == '/') {
      auto it = w.ancestor_params.find(n.substr(1));
      return it == w.ancestor_params.end() ? nullptr : &it->second;
    }
    auto it = w.params.find(n);
    return it == w.params.end() ? nullptr : &it->second;
  }
  std::string ns_;
};
inline void init(int &, char **, const std::string &, uint32_t = 0) {}
inline void spin()
{
  if (simros::world().on_spin)
    simros::world().on_spin();
}
inline void spinOnce() {}
inline bool ok() { return true; }
inline void shutdown() {}
}  // namespace ros
// Log arguments are evaluated (a stream expression may have side effects) but not kept.
#define SIM_ROS_LOG(args)                                                                                              \
  do {                                                                                                                 \
    std::ostringstream sim_ros_ss_;                                                                                    \
    sim_ros_ss_ << args;                                                                                               \
    ++simros::world().log_lines;                                                                                       \
  } while (0)
#define SIM_ROS_LOGF(...)                                                                                              \
  do {                                                                                                                 \
    char sim_ros_b_[512];                                                                                              \
    snprintf(sim_ros_b_, sizeof sim_ros_b_, __VA_ARGS__);                                                              \
    ++simros::world().log_lines;                                                                                       \
  } while (0)
#define SIM_ROS_COND(c, args)                                                                                          \
  do {                                                                                                                 \
    if (c)                                                                                                             \
      SIM_ROS_LOG(args);                                                                                               \
  } while (0)
#define ROS_DEBUG_STREAM(a) SIM_ROS_LOG(a)
#define ROS_INFO_STREAM(a) SIM_ROS_LOG(a)
#define ROS_WARN_STREAM(a) SIM_ROS_LOG(a)
#define ROS_ERROR_STREAM(a) SIM_ROS_LOG(a)
#define ROS_FATAL_STREAM(a) SIM_ROS_LOG(a)
#define ROS_DEBUG(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_INFO(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_WARN(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_INFO_ONCE(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) SIM_ROS_LOGF(__VA_ARGS__)
#define ROS_WARN_STREAM_THROTTLE(r, a) SIM_ROS_LOG(a)
#define ROS_ERROR_STREAM_THROTTLE(r, a) SIM_ROS_LOG(a)
#define ROS_INFO_STREAM_COND(c, a) SIM_ROS_COND(c, a)
#define ROS_WARN_STREAM_COND(c, a) SIM_ROS_COND(c, a)
#define ROS_ASSERT(c) ((void)0)
