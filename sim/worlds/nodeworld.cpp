// nodeworld: the real ROS node (callbacks, synchronisation, transforms, outputs, parameters) inside a
// simulated robot: clock, message transport, transform tree, parameter server and the SLAM algorithm
// are simulated.  Messages are lost, duplicated, delayed and reordered, transforms are missing, scans
// are damaged, the clock jumps and the node is killed and restarted.
#ifdef LIGHT
// The SLAM algorithm is a stub here: leave its header out, which makes this build six times faster.
// build.sh falls back to the full build when this does not compile.
#define NDT_GSLAM_GRAPH_SLAM2D_ALG
#include <ndt_gslam/slam_algorithm_interface.h>
namespace slamuk
{
struct NdtSlamAlgortihm : ISlamAlgorithm {
  Pose update(const Transform &, const Covar &, const PointCloud &, const ros::Time &) override { return Pose::Zero(); }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &) const override { return nav_msgs::OccupancyGrid(); }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &) const override
  {
    return visualization_msgs::MarkerArray();
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &) const override { return ndt_gslam::NDTMapMsg(); }
  PointCloud::Ptr getPclMap(const std::string &) const override { return PointCloud::Ptr(); }
  PointCloud::Ptr getPclMap2(const std::string &) const override { return PointCloud::Ptr(); }
  void setRunWindowRadius(float) override {}
  void setGenerationDistance(float) override {}
  void setLoopClosureMaxDist(float) override {}
  void setLoopClosureMinDist(float) override {}
  void setLoopClosureScoreThreshold(float) override {}
};
}
#endif
#define main node_main
#ifndef LIGHT
#include <src/ndt/ndt_cell.cpp>
#endif
#include <src/graph_slam2d_node.cpp>
#undef main
#include <streambuf>
#include <limits>
#include <set>
#include "../core/sim.h"
#ifndef LIGHT
#include "gl_stub.h"
#endif

using namespace sim;
namespace
{
const char *P1 = "C01", *P2 = "C02", *P3 = "C03", *P5 = "C05";
typedef Eigen::Vector3d V3;

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
struct Mute {
  NullBuf nb;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&nb)), b(std::cerr.rdbuf(&nb)) {}
  ~Mute()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
double nang(double a)
{
  a = std::fmod(a + M_PI, 2 * M_PI);
  if (a < 0)
    a += 2 * M_PI;
  return a - M_PI;
}
V3 inv(const V3 &a)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(-(c * a(0) + s * a(1)), s * a(0) - c * a(1), -a(2));
}
V3 mul(const V3 &a, const V3 &b)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(a(0) + c * b(0) - s * b(1), a(1) + s * b(0) + c * b(1), nang(a(2) + b(2)));
}
double dist(const V3 &a, const V3 &b)
{
  return std::max((a - b).head<2>().norm(), std::fabs(nang(a(2) - b(2))));
}

struct Update {
  V3 motion;
  size_t points;
  ros::Time t;
  V3 returned;
  double rigid;  // how far the motion is from a rigid transform
};
struct StubAlgorithm : ISlamAlgorithm {
  Rng r{1};
  double spread = 10;
  std::vector<Update> updates;
  V3 pose = V3::Zero();
  double win = -1, gen = -1, lmax = -1, lmin = -1, score = -1;
  int sets = 0;
  Pose update(const Transform &motion, const Covar &, const PointCloud &pcl, const ros::Time &t) override
  {
    Update u;
    auto m = motion.matrix();
    u.motion = V3(m(0, 2), m(1, 2), std::atan2(m(1, 0), m(0, 0)));
    Eigen::Matrix2d R = m.block<2, 2>(0, 0);
    u.rigid = (R * R.transpose() - Eigen::Matrix2d::Identity()).cwiseAbs().maxCoeff() + std::fabs(m(2, 0)) +
              std::fabs(m(2, 1)) + std::fabs(m(2, 2) - 1);
    u.points = pcl.size();
    u.t = t;
    pose = mul(pose, u.motion);
    if (r.chance(0.7))  // a correction
      pose = mul(pose, V3(r.real(-1, 1) * spread, r.real(-1, 1) * spread, r.real(-M_PI, M_PI) * (spread > 1 ? 1 : 0.1)));
    u.returned = pose;
    updates.push_back(u);
    return pose;
  }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &f) const override
  {
    nav_msgs::OccupancyGrid g;
    g.header.frame_id = f;
    g.header.seq = uint32_t(updates.size());
    return g;
  }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &f) const override
  {
    visualization_msgs::MarkerArray a;
    a.markers.resize(1);
    a.markers[0].header.frame_id = f;
    a.markers[0].header.seq = uint32_t(updates.size());
    return a;
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &f) const override
  {
    ndt_gslam::NDTMapMsg m;
    m.header.frame_id = f;
    m.header.seq = uint32_t(updates.size());
    return m;
  }
  PointCloud::Ptr cloud(const std::string &f, float tag) const
  {
    PointCloud::Ptr p(new PointCloud());
    p->header.frame_id = f;
    p->header.seq = uint32_t(updates.size());
    p->push_back(pcl::PointXYZ(tag, 0, 0));
    return p;
  }
  PointCloud::Ptr getPclMap(const std::string &f) const override { return cloud(f, 1); }
  PointCloud::Ptr getPclMap2(const std::string &f) const override { return cloud(f, 2); }
  void setRunWindowRadius(float v) override { win = v, ++sets; }
  void setGenerationDistance(float v) override { gen = v, ++sets; }
  void setLoopClosureMaxDist(float v) override { lmax = v, ++sets; }
  void setLoopClosureMinDist(float v) override { lmin = v, ++sets; }
  void setLoopClosureScoreThreshold(float v) override { score = v, ++sets; }
};

// odometry of the robot: random walk through knots at whole seconds
struct Track {
  std::vector<V3> k;
  Track(uint64_t seed, double off, int n)
  {
    Rng r(seed);
    V3 p(r.real(-1, 1) * off, r.real(-1, 1) * off, off > 0 ? r.real(-M_PI, M_PI) : 0);
    double v = r.real(0, 2), w = r.real(0, 1);
    for (int i = 0; i < n; ++i) {
      k.push_back(p);
      double still = r.chance(0.15) ? 0 : 1;
      p = mul(p, V3(still * v * r.real(-0.2, 1), still * 0.1 * r.gauss(), still * w * r.gauss()));
    }
  }
  V3 at(double t) const
  {
    if (t <= 0)
      return k.front();
    size_t i = size_t(t);
    if (i + 1 >= k.size())
      return k.back();
    double f = t - double(i);
    V3 d = k[i + 1] - k[i];
    d(2) = nang(d(2));
    V3 p = k[i] + f * d;
    p(2) = nang(p(2));
    return p;
  }
};

const double T0 = 1000;  // stamps are around here
const char *kFrames[] = {"base_link", "base_footprint", "b", "robot/base", "odom", "odom_combined", "o1", "map", "world", "m2"};
struct Params {
  std::string base = "base_link", odom = "odom", map = "map", mode = "NON", prefix;
  double win = 40, gen = 2, lmax = 30, lmin = 14, score = 0.6;
  bool graph = true;
};

// which value each parameter gets; bit i of the mask: given at all
Params set_params(uint64_t seed, long mode)
{
  auto &w = simros::world();
  w.params.clear();
  w.ancestor_params.clear();
  Rng r(seed);
  Params p;
  auto str = [&](const char *n, std::string &v, const std::string &x, double prob) {
    if (r.chance(prob)) {
      v = x;
      simros::Param q;
      q.kind = simros::Param::STRING;
      q.s = x;
      w.params[n] = q;
    }
  };
  auto num = [&](const char *n, double &v, double x) {
    if (r.chance(0.6)) {
      simros::Param q;
      q.d = x;
      if (r.chance(0.2)) {
        q.kind = simros::Param::INT;
        q.d = std::floor(x);
      }
      v = q.d;
      w.params[n] = q;
    }
  };
  str("robot_base_frame_id", p.base, kFrames[r.below(4)], 0.6);
  str("odom_farme_id", p.odom, kFrames[4 + r.below(3)], 0.6);
  str("map_farme_id", p.map, kFrames[7 + r.below(3)], 0.6);
  const char *modes[] = {"NON", "ODOM", "POSE", "odom", ""};
  str("subscribe_mode", p.mode, modes[mode], mode == 0 ? 0.5 : 1);
  num("scanmatch_window_radius", p.win, r.real(1, 200));
  num("node_gen_distance", p.gen, r.real(0.1, 20));
  num("loop_max_distance", p.lmax, r.real(0, 100));
  num("loop_min_distance", p.lmin, r.real(0, 100));
  if (r.chance(0.6)) {
    simros::Param q;
    q.d = p.score = r.real(0.01, 0.99);
    w.params["loop_score_threshold"] = q;
  }
  if (r.chance(0.6)) {
    simros::Param q;
    q.kind = simros::Param::BOOL;
    p.graph = r.chance(0.5);
    q.d = p.graph;
    w.params["serialize_graph"] = q;
  }
  if (r.chance(0.4)) {
    const char *pre[] = {"p3dx_0", "robot", "a/b", ""};
    simros::Param q;
    q.kind = simros::Param::STRING;
    q.s = pre[r.below(4)];
    p.prefix = q.s;
    if (r.chance(0.5))
      w.params["tf_prefix"] = q;
    else
      w.ancestor_params["tf_prefix"] = q;
  }
  if (p.prefix != "") {
    p.base = p.prefix + "/" + p.base;
    p.odom = p.prefix + "/" + p.odom;
    p.map = p.prefix + "/" + p.map;
  }
  return p;
}

sensor_msgs::LaserScan::Ptr make_scan(double stamp, long pts, uint64_t seed, const std::string &frame, long damage)
{
  Rng r(seed);
  auto s = boost::make_shared<sensor_msgs::LaserScan>();
  s->header.stamp = ros::Time(stamp);
  s->header.frame_id = frame;
  s->range_min = 0.1f;
  s->range_max = 30;
  s->angle_min = -2.0f;
  long bad = damage ? r.range(1, 200) : r.below(30);
  std::vector<float> v;
  for (long i = 0; i < pts; ++i)
    v.push_back(float(r.real(0.2, 29)));
  const float inf = std::numeric_limits<float>::infinity();
  const float junk[] = {std::numeric_limits<float>::quiet_NaN(), inf, -inf, 0.0f, 0.05f, 30.0f, 45.0f, -3.0f, 1e30f};
  for (long i = 0; i < bad; ++i)
    v.insert(v.begin() + long(r.below(v.size() + 1)), junk[r.below(9)]);
  s->angle_increment = v.empty() ? 0.01f : 4.0f / float(v.size());
  s->ranges = v;
  return s;
}

struct Out {
  std::map<std::string, int> n;
  std::vector<std::string> bad_frames;
  std::vector<tf::StampedTransform> tfs;
  bool wrong_seq = false, wrong_cloud = false;
};
}  // namespace

#ifndef LIGHT
template <>
void slamuk::IScanmatcher2d<slamuk::NDTGrid2DHolder<slamuk::NDTCell, pcl::PointXYZ>>::setScoreThreshold(float)
{
}
#endif
const char *sim::world_name()
{
  return "nodeworld";
}
int sim::world_cpu_limit()
{
  return 20;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: graph_slam2d_node.{h,cpp}; stub: SLAM algorithm (recording, scripted poses), roscpp, tf, message "
         "synchroniser, laser projection, parameter server, clock";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  long mode = r.chance(0.5) ? 0 : r.range(1, 4);
  p.cfg["mode"] = double(mode);
  p.cfg["params"] = double(r.below(1u << 30));
  p.cfg["track"] = double(r.below(1u << 30));
  p.cfg["offset"] = r.chance(0.3) ? 0 : r.chance(0.8) ? r.real(0, 20) : r.real(0, 5000);
  p.cfg["mount"] = double(r.below(1u << 20));
  p.cfg["spread"] = r.chance(0.5) ? r.real(0, 0.3) : r.real(0, 40);
  double f_tf = r.chance(0.6) ? r.real(0, 0.4) : 0, f_few = r.chance(0.5) ? r.real(0, 0.4) : 0;
  double f_drop = r.chance(0.4) ? r.real(0, 0.4) : 0, f_dup = r.chance(0.3) ? r.real(0, 0.3) : 0;
  double f_delay = r.chance(0.4) ? r.real(0, 0.5) : 0, f_crash = r.chance(0.25) ? 0.05 : 0, f_jump = r.chance(0.15) ? 0.05 : 0;
  double jitter = r.chance(0.5) ? 0 : r.real(0, 0.3);
  long n = r.range(3, tier == "thorough" ? 80 : 40);
  struct M {
    double due;
    Step s;
    long order;
  };
  std::vector<M> q;
  double t = 0.5, back = 0;
  long order = 0;
  bool first_blocked = r.chance(0.3);
  for (long i = 0; i < n; ++i) {
    t += r.chance(0.2) ? r.real(0, 0.05) : r.real(0.05, 1.2);
    if (r.chance(f_jump)) {
      back += r.real(-3, 3);  // clocks are set
      ++p.cfg["n_clock_jumps"];
    }
    double stamp = std::max(0.0, t - back);
    auto put = [&](Step s) {
      if (r.chance(f_drop)) {
        ++p.cfg["n_lost"];
        return;
      }
      bool late = r.chance(f_delay);
      p.cfg["n_delayed"] += late;
      double due = t + (late ? r.real(0, 3) : r.real(0, 0.02));
      q.push_back({due, s, order++});
      if (r.chance(f_dup)) {
        ++p.cfg["n_repeated"];
        q.push_back({due + r.real(0, 1), s, order++});
      }
    };
    long pts = r.chance(f_few) ? r.pick(std::vector<long>{0, 1, 100, 398, 399, 399}) : r.pick(std::vector<long>{400, 400, 401, 500, 900});
    long tfault = r.chance(f_tf) || (first_blocked && i < 3) ? r.range(1, 6) : 0;
    Step l("laser", {stamp + r.real(-1, 1) * jitter * 0.3, double(pts), double(r.below(1u << 30)), double(tfault), double(r.chance(0.2))});
    if (mode == 0 || mode > 2 || r.chance(0.95))
      put(l);
    if (mode == 1 || mode == 2 || r.chance(0.2)) {
      Step o(mode == 2 ? "pose" : mode == 1 ? "odom" : r.chance(0.5) ? "odom" : "pose",
             {stamp + r.real(-1, 1) * jitter, double(r.below(1u << 30)), double(tfault)});
      put(o);
      if (r.chance(0.3)) {
        o.a[0] += r.real(0.01, 0.2);
        put(o);
      }
    }
    if (r.chance(f_crash))
      q.push_back({t + r.real(0, 0.5), Step("crash", {r.chance(0.5) ? double(r.below(1u << 30)) : -1}), order++});
    if (r.chance(0.05))
      q.push_back({t, Step("param_change", {double(r.below(1u << 30))}), order++});
  }
  std::stable_sort(q.begin(), q.end(), [](const M &a, const M &b) { return a.due < b.due; });
  for (auto &m : q) {
    m.s.a.insert(m.s.a.begin(), m.due);
    p.steps.push_back(m.s);
  }
  p.cfg["f_tf"] = f_tf;
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  Mute mute;
  auto &w = simros::world();
  w = simros::World();
  long mode = std::lround(plan.get("mode"));
  Track track(uint64_t(plan.get("track")) + 3, plan.get("offset"), 120);
  Rng mr(uint64_t(plan.get("mount")) + 1);
  tf::Quaternion mq;
  mq.setRPY(mr.chance(0.2) ? M_PI : 0, 0, mr.real(-M_PI, M_PI));
  tf::Transform mount(mq, tf::Vector3(mr.real(-1, 1), mr.real(-1, 1), mr.real(0, 0.5)));
  std::unique_ptr<GraphSlamNode> node;
  std::unique_ptr<StubAlgorithm> alg;
  Params prm;
  uint64_t pseed = uint64_t(plan.get("params"));
  Out out;
  long tfault = 0, lookups = 0;
  bool lookup_refused = false, wrong_frames = false;
  const std::string laser_frame = "laser_link";
  w.on_publish = [&](const std::string &topic, const std::any &a) {
    ++out.n[topic];
    std::string f;
    uint32_t seq = 0;
    if (auto *m = std::any_cast<nav_msgs::OccupancyGrid>(&a))
      f = m->header.frame_id, seq = m->header.seq, out.wrong_cloud |= topic != "map";
    else if (auto *m = std::any_cast<ndt_gslam::NDTMapMsg>(&a))
      f = m->header.frame_id, seq = m->header.seq, out.wrong_cloud |= topic != "win_ndt";
    else if (auto *m = std::any_cast<visualization_msgs::MarkerArray>(&a))
      f = m->markers[0].header.frame_id, seq = m->markers[0].header.seq, out.wrong_cloud |= topic != "graph";
    else if (auto *m = std::any_cast<pcl::PointCloud<pcl::PointXYZ>>(&a)) {
      f = m->header.frame_id;
      seq = m->header.seq;
      out.wrong_cloud |= topic != (m->points[0].x == 1 ? "map_pcl" : "win_pcl");
    }
    if (f != prm.map)
      out.bad_frames.push_back(topic + " in frame '" + f + "'");
    if (alg && seq != uint32_t(alg->updates.size()))
      out.wrong_seq = true;
  };
  simtf::on_send() = [&](const tf::StampedTransform &t) { out.tfs.push_back(t); };
  w.on_wait = [&](double d) { w.now = w.now + ros::Duration(d); };
  simtf::wait() = [&](const std::string &, const std::string &, const ros::Time &, double to) {
    if (tfault == 6) {  // the transform arrives while waiting
      w.now = w.now + ros::Duration(to * 0.5);
      c.fault("transform_late");
      return true;
    }
    if (tfault) {
      w.now = w.now + ros::Duration(to);
      return false;
    }
    return true;
  };
  simtf::lookup() = [&](const std::string &target, const std::string &source, const ros::Time &t, tf::StampedTransform &o) {
    ++lookups;
    bool is_mount = target == prm.base && source == laser_frame;
    bool is_odom = target == prm.odom && source == prm.base;
    if (!is_mount && !is_odom) {
      wrong_frames = true;
      throw tf::LookupException("unknown frame");
    }
    if ((tfault == 1 || tfault == 2) && is_mount) {
      lookup_refused = true;
      c.fault("sensor_transform_missing");
      if (tfault == 1)
        throw tf::LookupException("no such frame");
      throw tf::ExtrapolationException("in the future");
    }
    if (tfault >= 3 && tfault <= 5 && is_odom) {
      lookup_refused = true;
      c.fault("odometry_transform_missing");
      if (tfault == 3)
        throw tf::ConnectivityException("not connected");
      if (tfault == 4)
        throw std::runtime_error("transform server");
      throw tf::ExtrapolationException("in the past");
    }
    if (is_mount)
      static_cast<tf::Transform &>(o) = mount;
    else {
      V3 p = track.at(t.toSec() - T0);
      tf::Quaternion q;
      q.setRPY(0, 0, p(2));
      static_cast<tf::Transform &>(o) = tf::Transform(q, tf::Vector3(p(0), p(1), 0));
    }
    o.stamp_ = t;
    o.frame_id_ = target;
    o.child_frame_id_ = source;
  };
  // the oracle's own synchroniser tells which pairs reach the node
  struct Event {
    ros::Time t;
    sensor_msgs::LaserScan::ConstPtr l;
  };
  std::vector<Event> events;
  std::unique_ptr<message_filters::Subscriber<nav_msgs::Odometry>> so;
  std::unique_ptr<message_filters::Subscriber<geometry_msgs::PoseWithCovarianceStamped>> sp;
  std::unique_ptr<message_filters::Subscriber<sensor_msgs::LaserScan>> sl;
  typedef message_filters::sync_policies::ApproximateTime<nav_msgs::Odometry, sensor_msgs::LaserScan> PO;
  typedef message_filters::sync_policies::ApproximateTime<geometry_msgs::PoseWithCovarianceStamped, sensor_msgs::LaserScan> PP;
  std::unique_ptr<message_filters::Synchronizer<PO>> yo;
  std::unique_ptr<message_filters::Synchronizer<PP>> yp;
  // model state
  bool have = false;
  V3 last_odom = V3::Zero(), slam = V3::Zero(), total = V3::Zero(), odom0 = V3::Zero();
  tf::StampedTransform last_tf;
  last_tf.setIdentity();
  auto same_tf = [](const tf::Transform &a, const tf::Transform &b) {
    for (int i = 0; i < 3; ++i) {
      if (a.o.m[i] != b.o.m[i])
        return false;
      for (int j = 0; j < 3; ++j)
        if (a.b.m[i][j] != b.b.m[i][j])
          return false;
    }
    return true;
  };
  auto start = [&](uint64_t ps) {
    node.reset();
    so.reset(), sp.reset(), sl.reset(), yo.reset(), yp.reset();
    w.subs.clear();
    w.sub_queue.clear();
    w.advertised.clear();
    alg.reset(new StubAlgorithm());
    alg->r = Rng(ps + 9);
    alg->spread = plan.get("spread");
    prm = set_params(ps, mode);
    ros::NodeHandle n, np("~");
    mem::dirty_stack(ps);
    out = Out();
    node.reset(new GraphSlamNode(n, np, *alg));
    have = false;
    last_tf.setIdentity();
    std::set<std::string> want;
    if (prm.mode == "ODOM")
      want = {"odom", "scan"};
    else if (prm.mode == "POSE")
      want = {"pose", "scan"};
    else
      want = {"scan"};
    std::set<std::string> got;
    for (auto &kv : w.subs)
      got.insert(kv.first);
    SIM_CHECK(c, P5, "subscriptions", got == want, "mode '%s' listens to %zu topics%s%s%s", prm.mode.c_str(), got.size(),
              got.count("odom") ? " odom" : "", got.count("pose") ? " pose" : "", got.count("scan") ? " scan" : "");
    SIM_CHECK(c, P5, "window_radius", float(prm.win) == float(alg->win), "scanmatch_window_radius %g became %g", prm.win, alg->win);
    SIM_CHECK(c, P5, "generation", float(prm.gen) == float(alg->gen), "node_gen_distance %g became %g", prm.gen, alg->gen);
    SIM_CHECK(c, P5, "loop_max", float(prm.lmax) == float(alg->lmax), "loop_max_distance %g became %g", prm.lmax, alg->lmax);
    SIM_CHECK(c, P5, "loop_min", float(prm.lmin) == float(alg->lmin), "loop_min_distance %g became %g", prm.lmin, alg->lmin);
    SIM_CHECK(c, P5, "score", float(prm.score) == float(alg->score), "loop_score_threshold %g became %g", prm.score, alg->score);
    SIM_CHECK(c, P3, "start_output", out.n.empty() && out.tfs.empty() && alg->updates.empty(), "the node sends outputs before any input");
    c.state(hmix(hmix(std::hash<std::string>()(prm.map + prm.odom + prm.base), uint64_t(prm.gen * 10)), prm.graph));
    c.probe("started_" + (prm.mode == "ODOM" || prm.mode == "POSE" ? prm.mode : std::string("laser_only")));
    auto laser_ev = [&](const ros::Time &t, const sensor_msgs::LaserScan::ConstPtr &l) { events.push_back({t, l}); };
    if (prm.mode == "ODOM") {
      so.reset(new message_filters::Subscriber<nav_msgs::Odometry>());
      sl.reset(new message_filters::Subscriber<sensor_msgs::LaserScan>());
      yo.reset(new message_filters::Synchronizer<PO>(PO(10)));
      yo->connectInput(*so, *sl);
      yo->registerCallback([laser_ev](const nav_msgs::Odometry::ConstPtr &o, const sensor_msgs::LaserScan::ConstPtr &l) {
        laser_ev(o->header.stamp, l);
      });
      so->subscribe(n, "odom", 1);
      sl->subscribe(n, "scan", 1);
    } else if (prm.mode == "POSE") {
      sp.reset(new message_filters::Subscriber<geometry_msgs::PoseWithCovarianceStamped>());
      sl.reset(new message_filters::Subscriber<sensor_msgs::LaserScan>());
      yp.reset(new message_filters::Synchronizer<PP>(PP(10)));
      yp->connectInput(*sp, *sl);
      yp->registerCallback([laser_ev](const geometry_msgs::PoseWithCovarianceStamped::ConstPtr &o,
                                      const sensor_msgs::LaserScan::ConstPtr &l) { laser_ev(o->header.stamp, l); });
      sp->subscribe(n, "pose", 1);
      sl->subscribe(n, "scan", 1);
    } else
      w.subs["scan"].push_back([laser_ev](const std::any &a) {
        auto l = std::any_cast<sensor_msgs::LaserScan::ConstPtr>(a);
        laser_ev(l->header.stamp, l);
      });
  };
  w.now = ros::Time(T0);
  start(pseed);
  for (auto f : {"clock_jumps", "lost", "delayed", "repeated"})
    for (long i = std::lround(plan.get(std::string("n_") + f)); i > 0; --i)
      c.fault(std::string(f) == "clock_jumps" ? "clock_jump" : std::string("message_") + f);
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    if (T0 + s.arg(0) > w.now.toSec()) {
      c.sim_time += T0 + s.arg(0) - w.now.toSec();
      w.now = ros::Time(T0 + s.arg(0));
    }
    mem::dirty_stack(uint64_t(plan.get("memfill")) + si);
    if (s.op == "crash") {
      c.fault("node_killed_and_restarted");
      if (s.iarg(1) >= 0)
        pseed = uint64_t(s.iarg(1));
      start(pseed);
      continue;
    }
    if (s.op == "param_change") {
      Params keep = prm;
      set_params(uint64_t(s.iarg(1)), mode);
      prm = keep;
      c.fault("parameters_changed_while_running");
      continue;
    }
    out = Out();
    lookup_refused = wrong_frames = false;
    lookups = 0;
    events.clear();
    size_t upd0 = alg->updates.size();
    if (s.op == "laser") {
      tfault = s.iarg(4);
      auto l = make_scan(T0 + s.arg(1), s.iarg(2), uint64_t(s.iarg(3)), laser_frame, s.iarg(5));
      simros::deliver("scan", std::any(sensor_msgs::LaserScan::ConstPtr(l)));
    } else if (s.op == "odom") {
      tfault = s.iarg(3);
      auto o = boost::make_shared<nav_msgs::Odometry>();
      o->header.stamp = ros::Time(T0 + s.arg(1));
      o->header.frame_id = "ignored";
      Rng r(uint64_t(s.iarg(2)));
      for (auto &x : o->pose.covariance)
        x = r.real(0, 1);
      o->pose.pose.position.x = r.real(-100, 100);  // the message's own pose is not used
      simros::deliver("odom", std::any(nav_msgs::Odometry::ConstPtr(o)));
    } else {
      tfault = s.iarg(3);
      auto o = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
      o->header.stamp = ros::Time(T0 + s.arg(1));
      simros::deliver("pose", std::any(geometry_msgs::PoseWithCovarianceStamped::ConstPtr(o)));
    }
    // ---- what must have happened -----------------------------------------------------------------
    SIM_CHECK(c, P5, "frames", !wrong_frames, "the node asked for transforms between frames that are not configured");
    if (events.size() > 1) {
      // two pairs from one message cannot be told apart below
      c.count("op:burst");
    }
    SIM_CHECK(c, P1, "one_transform", out.tfs.size() == events.size(), "%zu sensor messages were answered with %zu transforms",
              events.size(), out.tfs.size());
    size_t ui = upd0;
    std::map<std::string, int> want;
    int first_now = 0;
    for (size_t e = 0; e < events.size(); ++e) {
      const tf::StampedTransform &t = out.tfs[e];
      SIM_CHECK(c, P1, "stamp", t.stamp_ == events[e].t, "transform stamped %.6f for a message of %.6f", t.stamp_.toSec(),
                events[e].t.toSec());
      SIM_CHECK(c, P1, "frame_names", t.frame_id_ == prm.map && t.child_frame_id_ == prm.odom,
                "transform links '%s' and '%s', configured are '%s' and '%s'", t.frame_id_.c_str(), t.child_frame_id_.c_str(),
                prm.map.c_str(), prm.odom.c_str());
      size_t good = 0;
      for (float x : events[e].l->ranges)
        if (x < events[e].l->range_max && x >= events[e].l->range_min)
          ++good;
      bool accept = !(tfault >= 1 && tfault <= 5) && good >= 400;
      if (!accept) {
        SIM_CHECK(c, P2, "refused_used", alg->updates.size() == upd0 || events.size() > 1,
                  "a scan that had to be refused (%zu points, transform fault %ld) reached the SLAM state", good, tfault);
        SIM_CHECK(c, P1, "refused_transform", same_tf(t, last_tf), have ? "a refused scan changed the transform" : "the transform before the first accepted scan is not the identity");
        if (good < 400)
          c.fault("scan_too_few_points");
        c.probe(have ? "refused_after_start" : "refused_before_start");
      } else {
        V3 od = track.at(events[e].t.toSec() - T0);
        SIM_CHECK(c, P2, "accepted_unused", alg->updates.size() > ui, "a good scan never reached the SLAM state");
        const Update &u = alg->updates[ui++];
        V3 exp = have ? mul(inv(last_odom), od) : V3::Zero();
        double sc = 1e-7 * (1 + od.head<2>().norm() + last_odom.head<2>().norm());
        SIM_CHECK(c, P2, "motion", dist(u.motion, exp) <= sc && u.rigid < 1e-9,
                  "motion (%.6g,%.6g,%.6g) handed over, odometry moved by (%.6g,%.6g,%.6g)", u.motion(0), u.motion(1), u.motion(2),
                  exp(0), exp(1), exp(2));
        SIM_CHECK(c, P2, "points", u.points == good, "%zu of %zu points reached the SLAM state", u.points, good);
        SIM_CHECK(c, P3, "update_time", u.t == events[e].t, "scan of %.6f was entered with time %.6f", events[e].t.toSec(), u.t.toSec());
        if (!have)
          odom0 = od, total = V3::Zero();
        else
          total = mul(total, u.motion);
        SIM_CHECK(c, P2, "total_motion", dist(mul(odom0, total), od) <= 1e-6 * (1 + od.head<2>().norm()) + 1e-7 * double(plan.steps.size()),
                  "motions of all accepted scans do not compose to the odometry displacement");
        slam = u.returned;
        // map->odom composed with odom->robot
        const auto &B = t.getBasis();
        V3 m2o(t.getOrigin().m[0], t.getOrigin().m[1], std::atan2(B.m[1][0], B.m[0][0]));
        V3 robot = mul(m2o, od);
        double tol = 1e-7 * (1 + od.head<2>().norm() + slam.head<2>().norm());
        SIM_CHECK(c, P1, "places_robot", dist(robot, slam) <= tol && std::fabs(B.m[2][2] - 1) < 1e-9 && std::fabs(t.getOrigin().m[2]) < 1e-9,
                  "transform places the robot at (%.6g,%.6g,%.6g), SLAM computed (%.6g,%.6g,%.6g)", robot(0), robot(1), robot(2),
                  slam(0), slam(1), slam(2));
        if (have) {
          ++want["map"], ++want["win_ndt"], ++want["map_pcl"], ++want["win_pcl"];
          if (prm.graph)
            ++want["graph"];
          c.probe("accepted");
        } else {
          c.probe("accepted_first");
          first_now = 1;  // outputs of the first scan are not specified
        }
        have = true;
        last_odom = od;
        last_tf = t;
      }
    }
    SIM_CHECK(c, P2, "extra_update", alg->updates.size() == ui, "%zu scans entered the SLAM state, %zu were good", alg->updates.size() - upd0, ui - upd0);
    for (auto &kv : want) {
      int got = out.n.count(kv.first) ? out.n[kv.first] : 0;
      bool graphp = kv.first == "graph";
      SIM_CHECK(c, graphp && got == 0 ? P5 : P3, "output_count", got >= kv.second && got <= kv.second + first_now, "%d messages on %s, expected %d", got, kv.first.c_str(), kv.second);
      if (graphp && got == 0)
        SIM_CHECK(c, P3, "output_count", false, "no message on graph");
    }
    for (auto &kv : out.n) {
      if (want.count(kv.first) || (first_now && kv.second <= 1 && (kv.first != "graph" || prm.graph)))
        continue;
      if (kv.first == "graph" && !prm.graph)
        SIM_CHECK(c, P5, "graph_disabled", false, "graph published although switched off");
      const char *who = want.empty() ? P2 : P3;
      SIM_CHECK(c, who, "unexpected_output", false, "%d messages on %s", kv.second, kv.first.c_str());
    }
    SIM_CHECK(c, P3, "output_frame", out.bad_frames.empty(), "%s, configured is '%s'", out.bad_frames.empty() ? "" : out.bad_frames[0].c_str(), prm.map.c_str());
    SIM_CHECK(c, P5, "output_frame", out.bad_frames.empty(), "%s, configured is '%s'", out.bad_frames.empty() ? "" : out.bad_frames[0].c_str(), prm.map.c_str());
    SIM_CHECK(c, P3, "output_stale", !out.wrong_seq, "an output shows the state before the scan");
    SIM_CHECK(c, P3, "output_topic", !out.wrong_cloud, "an output went to the wrong topic");
    for (auto &t : out.tfs) {
      c.obs(t.getOrigin().m[0]);
      c.obs(t.stamp_.toSec());
    }
    c.mix(out.n.size() * 131 + events.size());
    c.state(hmix(hmix(uint64_t(have), uint64_t(tfault) * 7 + events.size()), uint64_t(std::llround(slam(0) * 2)) * 1000003 + uint64_t(std::llround(slam(1) * 2))));
  }
  node.reset();
  w.subs.clear();
}
