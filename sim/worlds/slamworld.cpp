// slamworld: the whole system.  The real node, the real SLAM algorithm, scan matchers, back end and
// map builder run inside a simulated robot: room, laser, odometry, transforms, clocks, disk and
// worker threads are simulated.
//  kind 0  one history against an exact motion model (C03, C04, C05, C06, C07)
//  kind 1  the same history with and without disk trouble (C16)
//  kind 2  the same history in different environments: fresh memory, wall clock, thread schedules,
//          files left by an earlier session which was killed at a seeded point (C17)
//  kind 3  start-up with a refused parameter (C05)
#define main node_main
#include <src/ndt/ndt_cell.cpp>
#include <src/graph_slam2d_node.cpp>
#undef main
#include <g2o/core/factory.h>
#include <g2o/core/optimization_algorithm_factory.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <limits>
#include <set>
#include <streambuf>
#include "../core/gomp.h"
#include "../core/sim.h"
#include "gl_stub.h"
#include "lidar.h"

using namespace sim;
G2O_USE_TYPE_GROUP(slam2d);
G2O_USE_OPTIMIZATION_LIBRARY(eigen);

// ---- wall clock ------------------------------------------------------------------------------------
static bool g_fake_clock = false;
static int64_t g_wall_ns = 0;       // what the wall clock shows
static int64_t g_wall_step = 1000;  // every look at it takes this long
static uint64_t g_clock_reads = 0;
static int64_t wall()
{
  ++g_clock_reads;
  g_wall_ns += g_wall_step;
  return g_wall_ns;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
  if (!g_fake_clock)
    return int(syscall(SYS_clock_gettime, id, ts));
  int64_t n = wall();
  ts->tv_sec = n / 1000000000;
  ts->tv_nsec = n % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}

namespace
{
using namespace slamuk;
const char *P3 = "C03", *P4 = "C04", *P5 = "C05", *P6 = "C06", *P7 = "C07", *P16 = "C16", *P17 = "C17", *P26 = "C26";
typedef Eigen::Vector3d V3;

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
struct Mute {
  NullBuf nb;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&nb)), b(std::cerr.rdbuf(&nb)) {}
  ~Mute()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
double nang(double a)
{
  a = std::fmod(a + M_PI, 2 * M_PI);
  if (a < 0)
    a += 2 * M_PI;
  return a - M_PI;
}
V3 inv(const V3 &a)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(-(c * a(0) + s * a(1)), s * a(0) - c * a(1), -a(2));
}
V3 mul(const V3 &a, const V3 &b)
{
  double c = std::cos(a(2)), s = std::sin(a(2));
  return V3(a(0) + c * b(0) - s * b(1), a(1) + s * b(0) + c * b(1), nang(a(2) + b(2)));
}
double dist(const V3 &a, const V3 &b)
{
  return std::max((a - b).head<2>().norm(), std::fabs(nang(a(2) - b(2))));
}

// the real algorithm; also reads the measured value of a constraint where the member is still there
struct Alg : NdtSlamAlgortihm {
  template <typename T = Alg>
  auto edge(size_t i, V3 &v, int) -> decltype(static_cast<T *>(this)->opt_engine_->getConstrainTransform(i), bool())
  {
    v = static_cast<T *>(this)->opt_engine_->getConstrainTransform(i);
    return true;
  }
  template <typename T = Alg>
  bool edge(size_t, V3 &, long)
  {
    return false;
  }
};
struct Recorder : ISlamAlgorithm {
  Alg &a;
  int updates = 0;
  V3 motion = V3::Zero(), returned = V3::Zero();
  explicit Recorder(Alg &x) : a(x) {}
  Pose update(const Transform &m, const Covar &c, const PointCloud &p, const ros::Time &t) override
  {
    auto mm = m.matrix();
    motion = V3(mm(0, 2), mm(1, 2), std::atan2(mm(1, 0), mm(0, 0)));
    ++updates;
    return returned = a.update(m, c, p, t);
  }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &f) const override { return a.getOccupancyGrid(f); }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &f) const override { return a.getGraphSerialized(f); }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &f) const override { return a.getNDTMap(f); }
  PointCloud::Ptr getPclMap(const std::string &f) const override { return a.getPclMap(f); }
  PointCloud::Ptr getPclMap2(const std::string &f) const override { return a.getPclMap2(f); }
  void setRunWindowRadius(float v) override { a.setRunWindowRadius(v); }
  void setGenerationDistance(float v) override { a.setGenerationDistance(v); }
  void setLoopClosureMaxDist(float v) override { a.setLoopClosureMaxDist(v); }
  void setLoopClosureMinDist(float v) override { a.setLoopClosureMinDist(v); }
  void setLoopClosureScoreThreshold(float v) override { a.setLoopClosureScoreThreshold(v); }
};

const double T0 = 1000;
static inline uint64_t bits(double x)
{
  uint64_t u;
  memcpy(&u, &x, 8);
  return u;
}

enum Kind { NORMAL = 0, BLIND = 1, FEW = 2, NO_TF = 3, FAR = 4 };

struct Seen {  // what the rest of the system sees after one scan
  bool reached = false;  // the scan reached the algorithm
  V3 motion, pose;       // and was entered with this motion, giving this pose
  std::vector<tf::StampedTransform> tfs;
  std::vector<nav_msgs::OccupancyGrid> map;
  std::vector<ndt_gslam::NDTMapMsg> win;
  std::vector<visualization_msgs::MarkerArray> graph;
  std::vector<pcl::PointCloud<pcl::PointXYZ>> map_pcl, win_pcl;
};
struct Digest {
  uint64_t h = 1469598103934665603ull;
  void m(uint64_t v) { h = hmix(h, v); }
  void d(double x)
  {
    uint64_t v;
    if (x == 0)
      x = 0;
    std::memcpy(&v, &x, 8);
    m(v);
  }
  void s(const std::string &x)
  {
    for (char c : x)
      m(uint8_t(c));
  }
};
// one number per output
enum { D_POSE, D_TF, D_MAP, D_WIN, D_MAPPCL, D_WINPCL, D_GRAPH, D_N };
const char *kOut[] = {"pose", "transform", "map", "window map", "map cloud", "window cloud", "graph"};
struct StepDigest {
  uint64_t v[D_N];
  double pose[3];
};
StepDigest digest(const Seen &s)
{
  StepDigest r;
  for (int i = 0; i < 3; ++i)
    r.pose[i] = s.reached ? s.pose(i) : 0;
  {
    Digest d;
    d.m(s.reached);
    if (s.reached)
      for (int i = 0; i < 3; ++i)
        d.d(s.pose(i));
    r.v[D_POSE] = d.h;
  }
  {
    Digest d;
    for (auto &t : s.tfs) {
      for (int i = 0; i < 3; ++i) {
        d.d(t.o.m[i]);
        for (int j = 0; j < 3; ++j)
          d.d(t.b.m[i][j]);
      }
      d.m(t.stamp_.toNSec());
      d.s(t.frame_id_ + ">" + t.child_frame_id_);
    }
    r.v[D_TF] = d.h;
  }
  {
    Digest d;
    for (auto &g : s.map) {
      d.d(g.info.resolution), d.m(g.info.width), d.m(g.info.height);
      d.d(g.info.origin.position.x), d.d(g.info.origin.position.y), d.d(g.info.origin.position.z);
      d.d(g.info.origin.orientation.x), d.d(g.info.origin.orientation.y), d.d(g.info.origin.orientation.z),
          d.d(g.info.origin.orientation.w);
      d.m(g.data.size());
      for (int8_t x : g.data)
        d.m(uint64_t(int64_t(x)));
      d.s(g.header.frame_id);
    }
    r.v[D_MAP] = d.h;
  }
  {
    Digest d;
    for (auto &w : s.win) {
      for (double x : {w.x_size, w.y_size, w.z_size, w.x_cen, w.y_cen, w.z_cen, w.x_cell_size, w.y_cell_size, w.z_cell_size})
        d.d(x);
      d.m(w.header.stamp.toNSec()), d.m(w.header.seq), d.s(w.header.frame_id), d.m(w.cells.size());
      for (auto &k : w.cells) {
        d.d(k.mean_x), d.d(k.mean_y), d.d(k.mean_z), d.d(k.occupancy), d.d(k.N);
        for (double x : k.cov_matrix)
          d.d(x);
      }
    }
    r.v[D_WIN] = d.h;
  }
  for (int k = 0; k < 2; ++k) {
    Digest d;
    for (auto &p : k ? s.win_pcl : s.map_pcl) {
      d.s(p.header.frame_id), d.m(p.points.size()), d.m(p.width), d.m(p.height);
      for (auto &q : p.points)
        d.d(q.x), d.d(q.y), d.d(q.z);
    }
    r.v[k ? D_WINPCL : D_MAPPCL] = d.h;
  }
  {
    Digest d;
    for (auto &a : s.graph) {
      d.m(a.markers.size());
      for (auto &m : a.markers) {
        d.s(m.header.frame_id), d.s(m.ns), d.m(uint64_t(int64_t(m.id)));
        d.d(m.color.r), d.d(m.color.g), d.d(m.color.b);
        for (auto &q : m.points)
          d.d(q.x), d.d(q.y), d.d(q.z);
      }
    }
    r.v[D_GRAPH] = d.h;
  }
  return r;
}

struct Env {
  uint64_t disk_seed = 0;   // 0: the disk works
  double disk_rate = 0;     // chance that a write fails
  long disk_full_from = -1; // from this write on nothing can be written
  bool real_files = false;  // leave files behind in the working directory
  uint64_t fill = 0;        // fresh memory
  uint64_t dirt = 0;        // stale stack
  uint64_t pad = 0;         // heap layout
  int64_t wall = 1600000000;
  int64_t wall_step = 1000;
  uint64_t omp = 1;         // thread schedule
  long kill_step = -1;      // the process is killed at the start of this step
  long kill_write = -1;     // or in the middle of this write
};
struct EnvStats {
  std::map<std::string, uint64_t> n;
};

// points of the map frame, found by place
struct Places {
  static constexpr double kR = 0.5;
  std::unordered_map<uint64_t, std::vector<Eigen::Vector2d>> m;
  static uint64_t key(long x, long y) { return uint64_t(uint32_t(x)) << 32 | uint32_t(y); }
  void add(double x, double y) { m[key(long(std::floor(x / kR)), long(std::floor(y / kR)))].push_back(Eigen::Vector2d(x, y)); }
  double nearest(double x, double y) const  // 1e9 when farther than kR
  {
    long cx = long(std::floor(x / kR)), cy = long(std::floor(y / kR));
    double b = 1e9;
    for (long i = cx - 1; i <= cx + 1; ++i)
      for (long j = cy - 1; j <= cy + 1; ++j) {
        auto it = m.find(key(i, j));
        if (it != m.end())
          for (auto &q : it->second)
            b = std::min(b, std::hypot(q(0) - x, q(1) - y));
      }
    return b;
  }
};

struct Robot {
  const Plan &plan;
  lidar::World room;
  double r0;
  V3 truth, odom;
  V3 mount;
  std::string base = "base_link", odom_f = "odom", map_f = "map";
  std::unique_ptr<GraphSlamNode> node;
  Alg *alg = nullptr;
  Recorder *rec = nullptr;
  Seen seen;
  bool no_tf = false;
  double stamp = 0;
  double far = 0;  // largest range of the last scan
  long writes = 0;

  static lidar::World make_room(const Plan &p)
  {
    double r0 = p.get("r0", 2);
    lidar::World w(uint64_t(p.get("room")), int(p.get("inner")), std::max(p.get("extent", 8), r0 + 1.5));
    for (size_t i = w.walls.size(); i-- > 4;) {
      auto &k = w.walls[i];
      Eigen::Vector2d e = k.b - k.a;
      double t = std::min(1.0, std::max(0.0, -k.a.dot(e) / std::max(1e-12, e.squaredNorm())));
      if ((k.a + t * e).norm() < r0 + 0.5)
        w.walls.erase(w.walls.begin() + long(i));
    }
    return w;
  }
  explicit Robot(const Plan &p) : plan(p), room(make_room(p)), r0(p.get("r0", 2))
  {
    truth = V3(0, 0, p.get("th0"));
    odom = V3(p.get("ox"), p.get("oy"), p.get("oth"));
    mount = V3(p.get("mx"), p.get("my"), p.get("mth"));
  }
  void params()
  {
    auto &w = simros::world();
    w.params.clear();
    w.ancestor_params.clear();
    auto num = [&](const char *n, const char *key) {
      if (!plan.cfg.count(key))
        return;
      simros::Param q;
      q.d = plan.get(key);
      w.params[n] = q;
    };
    num("scanmatch_window_radius", "win");
    num("node_gen_distance", "gen");
    num("loop_max_distance", "lmax");
    num("loop_min_distance", "lmin");
    num("loop_score_threshold", "score");
  }
  void start()
  {
    auto &w = simros::world();
    w.subs.clear();
    w.sub_queue.clear();
    w.advertised.clear();
    w.now = ros::Time(T0);
    params();
    w.on_publish = [this](const std::string &topic, const std::any &a) {
      if (auto *m = std::any_cast<nav_msgs::OccupancyGrid>(&a))
        seen.map.push_back(*m);
      else if (auto *m = std::any_cast<ndt_gslam::NDTMapMsg>(&a))
        seen.win.push_back(*m);
      else if (auto *m = std::any_cast<visualization_msgs::MarkerArray>(&a))
        seen.graph.push_back(*m);
      else if (auto *m = std::any_cast<pcl::PointCloud<pcl::PointXYZ>>(&a))
        (topic == "map_pcl" ? seen.map_pcl : seen.win_pcl).push_back(*m);
    };
    simtf::on_send() = [this](const tf::StampedTransform &t) { seen.tfs.push_back(t); };
    simtf::wait() = [this](const std::string &, const std::string &, const ros::Time &, double) { return !no_tf; };
    simtf::lookup() = [this](const std::string &target, const std::string &, const ros::Time &t, tf::StampedTransform &o) {
      if (no_tf)
        throw tf::LookupException("no such frame");
      V3 p = target == base ? mount : odom;
      tf::Quaternion q;
      q.setRPY(0, 0, p(2));
      static_cast<tf::Transform &>(o) = tf::Transform(q, tf::Vector3(p(0), p(1), 0));
      o.stamp_ = t;
    };
    alg = new Alg();  // never destroyed: the optimiser is owned twice
    rec = new Recorder(*alg);
    ros::NodeHandle n, np("~");
    node.reset(new GraphSlamNode(n, np, *rec));
  }
  // true motion of a step: kept inside the free disc whatever steps were removed from the plan
  V3 motion(const Step &s) const
  {
    V3 m(s.arg(1), s.arg(2), s.arg(3));
    if (mul(truth, m).head<2>().norm() > r0)
      m(0) = m(1) = 0;
    return m;
  }
  std::vector<Eigen::Vector2d> pts;  // the last scan as seen from the robot
  sensor_msgs::LaserScan::Ptr scan(const Step &s)
  {
    auto l = boost::make_shared<sensor_msgs::LaserScan>();
    l->header.stamp = ros::Time(stamp);
    l->header.frame_id = "laser";
    l->range_min = 0.1f;
    l->range_max = 60;
    l->angle_min = -3.14159f;
    Rng r(uint64_t(s.iarg(5)));
    long kind = s.iarg(4);
    int rays = int(plan.get("rays", 720));
    double noise = plan.get("noise");
    if (kind == BLIND)  // open country: no two points near each other
      rays = 440;
    if (kind == FEW)
      rays = 380;
    l->angle_increment = 6.28318f / float(rays);
    V3 sensor = mul(truth, mount);
    far = 0;
    for (int i = 0; i < rays; ++i) {
      double a = -3.14159 + 6.28318 * i / rays;
      double d = kind == BLIND ? 34 + (i % 3) * 1.5 : room.cast(Eigen::Vector2d(sensor(0), sensor(1)), sensor(2) + a, 50);
      if (kind == FAR && i % 7 == 0)
        d = 55;  // reflections
      l->ranges.push_back(float(d + noise * r.gauss()));
      far = std::max(far, double(l->ranges.back()));
    }
    pts.clear();
    for (int i = 0; i < rays; ++i) {
      double a = l->angle_min + l->angle_increment * i, d = l->ranges[size_t(i)];
      V3 q = mul(mount, V3(d * std::cos(a), d * std::sin(a), 0));
      pts.push_back(q.head<2>());
    }
    return l;
  }
  // one scan: the robot moves, the message arrives
  void step(const Step &s)
  {
    V3 m = motion(s);
    truth = mul(truth, m);
    odom = mul(odom, V3(m(0) + s.arg(6), m(1) + s.arg(7), m(2) + s.arg(8)));
    auto &w = simros::world();
    stamp = stamp == 0 ? T0 : stamp;
    stamp += s.arg(0);
    w.now = ros::Time(stamp + plan.get("latency", 0.05));
    no_tf = s.iarg(4) == NO_TF;
    seen = Seen();
    int before = rec->updates;
    simros::deliver("scan", std::any(sensor_msgs::LaserScan::ConstPtr(scan(s))));
    seen.reached = rec->updates != before;
    seen.motion = rec->motion;
    seen.pose = rec->returned;
  }
};

std::function<int(const std::string &, size_t)> g_disk;
int disk(const std::string &n, size_t b)
{
  return g_disk(n, b);
}
void apply_env(const Env &e, EnvStats &st, long &writes)
{
  mem::set_fill(uint32_t(e.fill));
  g_fake_clock = true;
  g_wall_ns = e.wall * 1000000000;
  g_wall_step = e.wall_step;
  g_clock_reads = 0;
  simomp::Config oc;
  oc.seed = e.omp;
  oc.sync_rate = e.omp == 1 ? 0 : 0.5;
  oc.run_first = e.omp == 1 ? 0 : 0.5;
  simomp::configure(oc);
  g_disk = [e, &st, &writes](const std::string &name, size_t bytes) -> int {
    long k = writes++;
    ++st.n["op:debug_file"];
    if (e.real_files) {
      int fd = open(name.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      if (fd >= 0) {
        size_t n = std::min<size_t>(bytes, 200);
        std::string txt(k == e.kill_write ? n / 2 : n, 'x');
        if (write(fd, txt.data(), txt.size()) < 0) {}
        close(fd);
      }
    }
    if (k == e.kill_write)
      _exit(77);
    if (e.disk_full_from >= 0 && k >= e.disk_full_from) {
      ++st.n["fault:disk_full"];
      return 1 + int(hmix(e.disk_seed, 7) % 3);
    }
    if (e.disk_seed) {
      Rng r(e.disk_seed + uint64_t(k) * 7919);
      if (r.chance(e.disk_rate)) {
        int code = int(r.range(1, 3));
        ++st.n[code == 1 ? "fault:file_cannot_be_opened" : code == 2 ? "fault:write_error" : "fault:short_write"];
        return code;
      }
    }
    return 0;
  };
  simdisk::hook() = disk;
}

struct Child {
  bool finished = false;
  int status = 0;
  std::string err;
  std::vector<StepDigest> steps;
  EnvStats st;
};
// runs the whole history in a process of its own
Child run_child(const Plan &plan, const Env &e, const std::string &dir)
{
  Child ch;
  int fd[2];
  if (pipe(fd))
    abort();
  pid_t pid = fork();
  if (pid < 0)
    abort();
  if (pid == 0) {
    close(fd[0]);
    if (!dir.empty()) {
      if (chdir(dir.c_str()))
        _exit(99);
      setenv("HOME", dir.c_str(), 1);
      setenv("TMPDIR", dir.c_str(), 1);
      setenv("ROS_HOME", dir.c_str(), 1);
    }
    EnvStats st;
    long writes = 0;
    std::string err;
    auto put = [&](const void *p, size_t n) {
      if (write(fd[1], p, n) != ssize_t(n))
        _exit(98);
    };
    try {
      apply_env(e, st, writes);
      std::vector<void *> pads;
      Rng pr(e.pad + 3);
      auto pad = [&] {
        if (e.pad)
          for (int i = 0; i < 3; ++i) {
            pads.push_back(malloc(1 + pr.below(3000)));
            if (pr.chance(0.5) && !pads.empty()) {
              size_t k = pr.below(pads.size());
              free(pads[k]);
              pads.erase(pads.begin() + long(k));
            }
          }
      };
      pad();
      mem::shuffle(e.pad);
      Robot rob(plan);
      mem::dirty_stack(e.dirt);
      rob.start();
      for (size_t i = 0; i < plan.steps.size(); ++i) {
        if (long(i) == e.kill_step)
          _exit(77);
        pad();
        mem::dirty_stack(e.dirt + i);
        rob.step(plan.steps[i]);
        StepDigest d = digest(rob.seen);
        char t = 'd';
        put(&t, 1);
        put(&d, sizeof d);
        if (!rob.seen.graph.empty())
          for (auto &m : rob.seen.graph[0].markers)
            if (m.color.g == 1.0f && m.color.r == 0)
              st.n["max:loops"] = std::max<uint64_t>(st.n["max:loops"], rob.seen.graph[0].markers.size());
      }
    } catch (const std::exception &x) {
      err = x.what();
      if (err.empty())
        err = "exception";
    } catch (...) {
      err = "exception";
    }
    st.n["wall_clock_reads"] = g_clock_reads;
    st.n["omp_regions"] = simomp::stats().regions;
    st.n["omp_switches"] = simomp::stats().switches;
    std::string tail = "e" + err + "\n";
    for (auto &k : st.n)
      tail += k.first + " " + std::to_string(k.second) + "\n";
    put(tail.data(), tail.size());
    _exit(err.empty() ? 0 : 76);
  }
  close(fd[1]);
  std::string all;
  char b[65536];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0)
    all.append(b, size_t(k));
  close(fd[0]);
  waitpid(pid, &ch.status, 0);
  size_t o = 0;
  while (o < all.size() && all[o] == 'd' && o + 1 + sizeof(StepDigest) <= all.size()) {
    StepDigest d;
    std::memcpy(&d, all.data() + o + 1, sizeof d);
    ch.steps.push_back(d);
    o += 1 + sizeof d;
  }
  if (o < all.size() && all[o] == 'e') {
    std::istringstream in(all.substr(o + 1));
    std::getline(in, ch.err);
    std::string key;
    uint64_t v;
    while (in >> key >> v)
      ch.st.n[key] = v;
    ch.finished = ch.err.empty();
  }
  return ch;
}
std::string how_died(const Child &c)
{
  if (!c.err.empty())
    return "died from an uncaught exception: " + c.err.substr(0, 120);
  if (WIFSIGNALED(c.status))
    return fmt("died from signal %d", WTERMSIG(c.status));
  return fmt("exited with status %d", WEXITSTATUS(c.status));
}
int rm_one(const char *p, const struct stat *, int, struct FTW *)
{
  return remove(p);
}
struct Scratch {
  std::string base;
  Scratch()
  {
    char t[] = "/tmp/slamworld.XXXXXX";
    if (!mkdtemp(t))
      abort();
    base = t;
  }
  std::string sub(const char *n)
  {
    std::string d = base + "/" + n;
    mkdir(d.c_str(), 0700);
    return d;
  }
  ~Scratch() { nftw(base.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS); }
};
void count_child(Ctx &c, const Child &k)
{
  for (auto &kv : k.st.n)
    if (kv.first.compare(0, 6, "fault:") == 0 || kv.first.compare(0, 3, "op:") == 0)
      c.count(kv.first, kv.second);
}
void compare(Ctx &c, const char *prop, const char *cls, const Child &a, const Child &b, const char *what)
{
  for (size_t i = 0; i < a.steps.size(); ++i) {
    c.step = i;
    if (i >= b.steps.size())
      SIM_CHECK(c, prop, "died", false, "%s: the node %s after scan %zu", what, how_died(b).c_str(), i);
    for (int k = 0; k < D_N; ++k)
      SIM_CHECK(c, prop, cls, a.steps[i].v[k] == b.steps[i].v[k], "%s: the %s after scan %zu differs, pose (%.17g,%.17g,%.17g) and (%.17g,%.17g,%.17g)", what, kOut[k], i,
                a.steps[i].pose[0], a.steps[i].pose[1], a.steps[i].pose[2], b.steps[i].pose[0], b.steps[i].pose[1], b.steps[i].pose[2]);
  }
  SIM_CHECK(c, prop, "died", b.finished, "%s: the node %s", what, how_died(b).c_str());
}
}  // namespace

template <>
void slamuk::IScanmatcher2d<slamuk::NDTGrid2DHolder<slamuk::NDTCell, pcl::PointXYZ>>::setScoreThreshold(float)
{
}
const char *sim::world_name()
{
  return "slamworld";
}
int sim::world_cpu_limit()
{
  return 300;
}
bool sim::world_fork_each()
{
  return true;
}
std::string sim::world_describe()
{
  return "real: graph_slam2d_node.{h,cpp}, ndt_slam_algorithm.h, scan matchers, loop detector, slam2d.h with g2o, mapper, "
         "grids and cells; stub: roscpp, tf, laser projection, pcl containers and pcl::io, clocks, OpenMP runtime (seeded "
         "scheduler), room and laser";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &prop, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  long kind = prop == "C16" ? 1 : prop == "C17" ? 2 : prop == "C05" && r.chance(0.2) ? 3 : 0;
  if (prop == "all")
    kind = r.pick(std::vector<long>{0, 0, 0, 1, 2, 3});
  p.cfg["kind"] = double(kind);
  p.cfg["room"] = double(r.below(1u << 30));
  p.cfg["inner"] = double(r.range(3, 14));
  double r0 = r.chance(0.3) ? r.real(0.8, 2) : r.real(2, 4);
  p.cfg["r0"] = r0;
  p.cfg["extent"] = r0 + r.real(1.5, 5);
  p.cfg["th0"] = r.chance(0.3) ? 0 : r.real(-M_PI, M_PI);
  double off = r.chance(0.4) ? 0 : std::pow(10.0, r.real(0, 3));
  p.cfg["ox"] = off * r.real(-1, 1);
  p.cfg["oy"] = off * r.real(-1, 1);
  p.cfg["oth"] = r.chance(0.4) ? 0 : r.real(-M_PI, M_PI);
  if (r.chance(0.5)) {
    p.cfg["mx"] = r.real(-0.3, 0.3);
    p.cfg["my"] = r.real(-0.3, 0.3);
    p.cfg["mth"] = r.chance(0.3) ? M_PI : r.real(-M_PI, M_PI);
  }
  p.cfg["rays"] = double(r.range(1400, 2400));
  p.cfg["noise"] = r.chance(0.4) ? 0 : r.real(0, 0.02);
  p.cfg["latency"] = r.chance(0.3) ? 0 : r.real(0, 0.3);
  p.cfg["win"] = r.chance(0.1) ? 40 : std::floor(r.real(4, 16) * 4) / 4;
  if (r.chance(0.05))
    p.cfg.erase("win");
  double gen = r.chance(0.15) ? 2 : r.real(0.3, 2);
  bool loops = kind == 1 || (kind == 2 && r.chance(0.7)) || (kind == 0 && (prop == "C07" || r.chance(0.35)));
  if (loops) {
    if (r.chance(0.85))
      gen = r.real(0.3, 0.8);
    p.cfg["lmin"] = r.real(1.2, 4) * gen;
    p.cfg["lmax"] = r.chance(0.3) ? 30 : r.real(0.5, 5);
    p.cfg["score"] = r.chance(0.3) ? 0.6 : r.chance(0.5) ? r.real(0.05, 0.6) : r.real(0.05, 0.95);
  } else
    p.cfg["lmin"] = 1e6;
  p.cfg["gen"] = gen;
  double drift = kind == 0 && r.chance(0.3) ? r.real(0, 0.1) : 0;
  p.cfg["drift"] = drift;
  if (kind == 1) {
    p.cfg["disk_seed"] = double(1 + r.below(1u << 30));
    p.cfg["disk_rate"] = r.chance(0.3) ? 1 : r.real(0.05, 1);
    p.cfg["disk_full_from"] = r.chance(0.25) ? double(r.range(0, 9)) : -1;
  }
  if (kind == 2) {
    p.cfg["env_seed"] = double(r.below(1u << 30));
    p.cfg["kill_step"] = r.chance(0.6) ? double(r.range(1, 20)) : -1;
    p.cfg["kill_write"] = r.chance(0.5) ? double(r.range(0, 8)) : -1;
  }
  if (kind == 3) {
    p.cfg["score"] = r.pick(std::vector<double>{-1, -0.01, 1.01, 1.5, 2, 100, -1e9, 1e30, std::numeric_limits<double>::quiet_NaN()});
    p.steps.push_back(Step("scan", {0.1, 0, 0, 0, 0, 1, 0, 0, 0}));
    return p;
  }
  // the robot drives around inside the free disc
  bool thorough = tier == "thorough";
  long n = loops ? r.range(12, thorough ? 60 : 36) : r.range(5, kind == 0 ? (thorough ? 90 : 36) : (thorough ? 36 : 24));
  double v = !loops && r.chance(0.2) ? r.real(0.02, 0.15) : r.real(0.15, 0.6), wv = r.chance(0.2) ? r.real(0.3, 1) : r.real(0, 0.25);
  double f_blind = r.chance(0.5) ? 0 : r.real(0.03, 0.3), f_few = r.chance(0.6) ? 0 : 0.1, f_tf = r.chance(0.6) ? 0 : 0.1;
  double f_still = loops || r.chance(0.5) ? 0.05 : 0.3;
  bool small = r.chance(0.4), long_blind = kind == 0 && r.chance(0.25);
  V3 q(0, 0, p.cfg["th0"]);
  long blind = 0;
  for (long i = 0; i < n; ++i) {
    V3 m;
    double sp = small && r.chance(0.6) ? 0.3 : 1;
    if (r.chance(f_still))
      m = V3(0, 0, 0);
    else
      m = V3(sp * v * r.real(0.6, 1.2), sp * v * 0.1 * r.gauss(), sp * wv * r.gauss());
    V3 nx = mul(q, m);
    if (nx.head<2>().norm() > 0.93 * r0) {  // turn towards the middle
      double want = nang(std::atan2(-q(1), -q(0)) - q(2));
      m = V3(0, 0, std::max(-0.5, std::min(0.5, want)));
      if (std::fabs(want) < 0.9)
        m = V3(std::min(v, 0.5 * r0), 0, want * 0.5);
      nx = mul(q, m);
      if (nx.head<2>().norm() > 0.97 * r0)
        m(0) = m(1) = 0, nx = mul(q, m);
    }
    q = nx;
    long kd = NORMAL;
    if (blind > 0) {
      --blind;
      kd = BLIND;
    } else if (i > 0 && r.chance(f_blind)) {
      kd = BLIND;
      blind = long(r.below(long_blind ? 14 : 4));
    } else if (r.chance(f_few))
      kd = FEW;
    else if (r.chance(f_tf))
      kd = NO_TF;
    else if (r.chance(0.05))
      kd = FAR;
    p.steps.push_back(Step("scan", {r.chance(0.05) ? 0.001 : r.real(0.05, 0.5), m(0), m(1), m(2), double(kd), double(r.below(1u << 30)),
                                    drift * m(0) * r.gauss(), drift * m(0) * r.gauss(), drift * m(2) * r.gauss()}));
  }
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  Mute mute;
  long kind = std::lround(plan.get("kind"));
  for (auto &s : plan.steps) {
    c.sim_time += s.arg(0);
    long kd = s.iarg(4);
    if (kd == BLIND)
      c.fault("sensor_sees_nothing_usable");
    else if (kd == FEW)
      c.fault("scan_too_few_points");
    else if (kd == NO_TF)
      c.fault("transform_missing");
    else if (kd == FAR)
      c.fault("reflections");
    if (s.arg(6) != 0 || s.arg(7) != 0)
      c.fault("odometry_error");
  }
  if (kind == 1) {
    Env clean, bad;
    clean.fill = bad.fill = uint64_t(plan.get("memfill"));
    bad.disk_seed = uint64_t(plan.get("disk_seed"));
    bad.disk_rate = plan.get("disk_rate");
    bad.disk_full_from = long(plan.get("disk_full_from", -1));
    Scratch sc;
    Child a = run_child(plan, clean, sc.sub("a")), b = run_child(plan, bad, sc.sub("b"));
    if (!a.finished) {  // not about disk trouble
      SIM_CHECK(c, P16, "died_without_trouble", false, "with a working disk the node %s after %zu scans", how_died(a).c_str(), a.steps.size());
    }
    count_child(c, b);
    c.count("op:scan", a.steps.size() + b.steps.size());
    if (b.st.n["op:debug_file"])
      c.probe("debug_files_written");
    if (a.st.n["max:loops"])
      c.probe("loop_closed");
    compare(c, P16, "differs", a, b, "with failing debug writes");
    for (auto &d : a.steps)
      c.mix(d.v[D_POSE]), c.state(d.v[D_POSE]);
    return;
  }
  if (kind == 2) {
    Rng er(uint64_t(plan.get("env_seed")) + 11);
    Env e0, e1, old;
    e0.fill = uint64_t(plan.get("memfill"));
    for (Env *e : {&e1, &old}) {
      e->fill = er.chance(0.3) ? 0xffffffffu : er.next() & 0xffffffffu;
      e->dirt = er.next();
      e->pad = er.next();
      e->wall = int64_t(er.below(2000000000u));
      e->wall_step = er.chance(0.2) ? 0 : int64_t(er.below(3000000000u));
      e->omp = er.next() | 2;
    }
    old.real_files = true;
    old.kill_step = long(plan.get("kill_step", -1));
    old.kill_write = long(plan.get("kill_write", -1));
    Scratch sc;
    Child a = run_child(plan, e0, sc.sub("fresh"));
    Child o = run_child(plan, old, sc.sub("used"));
    Child b = run_child(plan, e1, sc.sub("used"));
    c.count("op:scan", a.steps.size() + b.steps.size() + o.steps.size());
    count_child(c, o);
    c.fault("memory_content_changed", 2);
    c.fault("heap_order_changed", 2);
    c.fault("wall_clock_changed", 2);
    if (b.st.n["omp_switches"])
      c.fault("thread_schedule_changed", b.st.n["omp_regions"]);
    if (!o.finished && WIFEXITED(o.status) && WEXITSTATUS(o.status) == 77) {
      c.fault("earlier_session_killed");
      if (o.st.n.empty() && old.kill_write >= 0)
        c.probe("killed");
    }
    if (a.st.n["max:loops"])
      c.probe("loop_closed");
    if (!a.steps.empty())
      c.probe("compared", a.steps.size());
    SIM_CHECK(c, P17, "died", a.finished, "the node %s after %zu scans", how_died(a).c_str(), a.steps.size());
    compare(c, P17, "differs", a, b, "with other memory content, wall clock, thread schedule and earlier files");
    // the killed session had the same messages, too
    for (size_t i = 0; i < o.steps.size() && i < a.steps.size(); ++i) {
      c.step = i;
      for (int k = 0; k < D_N; ++k)
        SIM_CHECK(c, P17, "differs", a.steps[i].v[k] == o.steps[i].v[k], "in a session that is killed later: the %s after scan %zu differs", kOut[k], i);
    }
    for (auto &d : a.steps)
      c.mix(d.v[D_POSE]), c.state(d.v[D_POSE]);
    return;
  }
  // ---- one history against the model ------------------------------------------------------------------
  Env env;
  env.fill = uint64_t(plan.get("memfill"));
  env.omp = 1 | (uint64_t(plan.get("memfill")) << 1);
  EnvStats st;
  long writes = 0;
  apply_env(env, st, writes);
  Robot rob(plan);
  if (kind == 3) {
    bool refused = false;
    try {
      rob.start();
    } catch (const std::exception &) {
      refused = true;
    }
    SIM_CHECK(c, P5, "bad_threshold_accepted", refused, "the node started with a loop score threshold of %g", plan.get("score"));
    c.probe("bad_threshold_refused");
    c.mix(1);
    return;
  }
  rob.start();
  bool have = false, noisy = plan.get("drift") != 0, loops_ever = false, first_good = false;
  V3 p = V3::Zero(), origin = V3::Zero();
  double gen = float(plan.get("gen", 2)), lmin = plan.get("lmin", 14), lmax = plan.get("lmax", 30);
  std::vector<V3> base;   // where key frames started
  std::vector<V3> span;   // motion from each of them to the next
  std::vector<bool> span_ok;
  std::vector<V3> tbase;  // true poses when key frames started
  V3 TB = V3::Zero();
  V3 odo = V3::Zero();  // odometry since the last key frame
  bool odo_only = true;  // nothing was matched since
  std::vector<V3> odos;
  std::vector<bool> odo_ok;
  const double path_slack = 1e9;
  size_t red = 0, green = 0;
  V3 B = V3::Zero();
  bool out_of_window = false;  // the window had reason to grow
  double worst = 0, worst_loop = 0;
  ros::Time last_win;
  uint64_t win_hash = 0;
  std::vector<Eigen::Vector2d> prev_win;
  std::vector<double> recent;
  bool win_seen = false;
  const double kCell = 0.25;
  Places observed;                          // what the accepted scans saw, placed at the poses reported for them
  std::vector<Eigen::Vector2d> frame_first;  // what the first scan of the open key frame saw
  std::set<std::pair<float, float>> prev_map;
  long try_match = 0, did_match = 0;
  auto place = [&](const V3 &at) {
    std::vector<Eigen::Vector2d> r;
    for (auto &u : rob.pts)
      r.push_back(mul(at, V3(u(0), u(1), 0)).head<2>());
    return r;
  };
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:scan");
    mem::dirty_stack(uint64_t(plan.get("memfill")) + si);
    rob.step(s);
    const Seen &o = rob.seen;
    long kd = s.iarg(4);
    if (!o.reached)
      continue;  // which scans are refused is C02
    ros::Time t(rob.stamp);
    if (!have) {
      have = true;
      first_good = kd == NORMAL || kd == FAR;
      out_of_window = kd == BLIND || rob.far + 1.5 > plan.get("win", 40);
      p = o.pose;
      origin = rob.truth;
      SIM_CHECK(c, P4, "start", dist(p, V3::Zero()) < 1e-9, "the first scan gives pose (%g,%g,%g)", p(0), p(1), p(2));
      B = p;
      frame_first = place(p);
      for (auto &u : frame_first)
        observed.add(u(0), u(1));
      if (!o.win.empty())
        last_win = o.win.back().header.stamp;
      continue;
    }
    out_of_window = out_of_window || kd == BLIND || rob.far + o.motion.head<2>().norm() + 1.5 > plan.get("win", 40);
    // ---- outputs ---------------------------------------------------------------------------------
    SIM_CHECK(c, P3, "output_count", o.map.size() == 1 && o.win.size() == 1 && o.map_pcl.size() == 1 && o.win_pcl.size() == 1 && o.graph.size() == 1 && o.tfs.size() == 1,
              "outputs: %zu maps, %zu windows, %zu map clouds, %zu window clouds, %zu graphs, %zu transforms", o.map.size(), o.win.size(),
              o.map_pcl.size(), o.win_pcl.size(), o.graph.size(), o.tfs.size());
    if (o.map.size() != 1 || o.win.size() != 1 || o.graph.size() != 1 || o.map_pcl.size() != 1 || o.win_pcl.size() != 1)
      throw EndRun();
    const auto &map = o.map[0];
    const auto &win = o.win[0];
    const auto &gr = o.graph[0];
    {
      SIM_CHECK(c, P3, "map_size", map.data.size() == size_t(map.info.width) * map.info.height, "map of %ux%u carries %zu values",
                map.info.width, map.info.height, map.data.size());
      for (int8_t x : map.data)
        SIM_CHECK(c, P3, "map_value", x >= -1 && x <= 100, "map carries the value %d", int(x));
      SIM_CHECK(c, P3, "map_frame", map.header.frame_id == "map" && win.header.frame_id == "map" && o.map_pcl[0].header.frame_id == "map" && o.win_pcl[0].header.frame_id == "map",
                "an output is not in the map frame");
      SIM_CHECK(c, P3, "finite", std::isfinite(map.info.resolution) && (map.data.empty() || map.info.resolution > 0) && std::isfinite(map.info.origin.position.x + map.info.origin.position.y),
                "map resolution %g, origin (%g,%g)", map.info.resolution, map.info.origin.position.x, map.info.origin.position.y);
      SIM_CHECK(c, P3, "stamp", map.header.stamp <= simros::world().now && win.header.stamp <= t,
                "map stamped %.3f, window %.3f, scan %.3f", map.header.stamp.toSec(), win.header.stamp.toSec(), t.toSec());
      SIM_CHECK(c, P3, "window_stamp_back", !(win.header.stamp < last_win), "window stamp goes back from %.3f to %.3f", last_win.toSec(), win.header.stamp.toSec());
      for (auto &k : win.cells) {
        bool ok = std::isfinite(k.mean_x + k.mean_y + k.mean_z) && std::isfinite(k.occupancy) && k.cov_matrix.size() == 9;
        for (double x : k.cov_matrix)
          ok = ok && std::isfinite(x);
        SIM_CHECK(c, P3, "window_cell", ok, "window cell at (%g,%g): occupancy %g, %zu covariance values", k.mean_x, k.mean_y, double(k.occupancy), k.cov_matrix.size());
      }
      // the window, declared and filled
      {
        SIM_CHECK(c, P3, "window_cell_size", win.x_cell_size == kCell && win.y_cell_size == kCell && (map.data.empty() || map.info.resolution == kCell),
                  "window cells measure %g x %g m, map cells %g m, expected %g m", win.x_cell_size, win.y_cell_size, double(map.info.resolution), kCell);
        double nx = win.x_size / kCell, ny = win.y_size / kCell;
        SIM_CHECK(c, P3, "window_size", std::fabs(nx - std::round(nx)) < 1e-3 && std::fabs(ny - std::round(ny)) < 1e-3 && nx >= 1 && ny >= 1 && double(win.cells.size()) <= std::round(nx) * std::round(ny) + 0.5,
                  "window of %g x %g m in cells of %g m carries %zu cells", win.x_size, win.y_size, kCell, win.cells.size());
        std::set<std::pair<long, long>> means;
        for (auto &k : win.cells)
          means.insert({std::lround(k.mean_x * 1e3), std::lround(k.mean_y * 1e3)});
        for (auto &q : o.win_pcl[0].points) {
          bool in = std::fabs(q.x - win.x_cen) <= win.x_size / 2 + 1e-3 && std::fabs(q.y - win.y_cen) <= win.y_size / 2 + 1e-3 && win.z_cen == 0;
          SIM_CHECK(c, P3, "window_extent", in, "the window lies around (%g,%g) and measures %g x %g m, it holds a distribution at (%g,%g)", win.x_cen, win.y_cen,
                    win.x_size, win.y_size, double(q.x), double(q.y));
          bool found = false;
          for (long i = -2; i <= 2 && !found; ++i)
            for (long j = -2; j <= 2 && !found; ++j)
              found = means.count({std::lround(double(q.x) * 1e3) + i, std::lround(double(q.y) * 1e3) + j}) > 0;
          SIM_CHECK(c, P3, "window_placed", found, "the window cloud has a distribution at (%.4f,%.4f), the window message none", double(q.x), double(q.y));
        }
        // the window changes with a scan entered into it, and only then
        uint64_t h = hmix(0, win.cells.size());
        for (auto &k : win.cells) {
          h = hmix(hmix(h, bits(k.mean_x)), bits(k.mean_y));
          h = hmix(hmix(h, bits(k.occupancy)), uint64_t(k.N));
        }
        h = hmix(hmix(h, bits(win.x_cen)), bits(win.y_cen));
        if (h != win_hash && win_seen)
          SIM_CHECK(c, P3, "window_stamp_old", win.header.stamp == t, "the window changed, but is stamped %.3f; the scan is of %.3f", win.header.stamp.toSec(), t.toSec());
        if (h == win_hash && win_seen)
          SIM_CHECK(c, P3, "window_stamp_new", win.header.stamp == last_win, "nothing was entered into the window, but its stamp went from %.3f to %.3f", last_win.toSec(), win.header.stamp.toSec());
        win_hash = h, win_seen = true;
        c.probe("window_content_checked");
      }
      for (auto *pc : {&o.map_pcl[0], &o.win_pcl[0]}) {
        SIM_CHECK(c, P3, "cloud_size", size_t(pc->width) * pc->height == pc->points.size(), "cloud of %ux%u carries %zu points", pc->width, pc->height, pc->points.size());
        for (auto &q : pc->points)
          SIM_CHECK(c, P3, "cloud_finite", std::isfinite(q.x + q.y + q.z), "cloud point (%g,%g,%g)", q.x, q.y, q.z);
      }
      for (auto &m : gr.markers) {
        bool ok = m.points.size() == 2 && m.header.frame_id == "map";
        for (auto &q : m.points)
          ok = ok && std::isfinite(q.x + q.y + q.z);
        SIM_CHECK(c, P3, "graph_marker", ok, "marker %d has %zu points in frame '%s'", m.id, m.points.size(), m.header.frame_id.c_str());
      }
      last_win = win.header.stamp;
    }
    // ---- pose ------------------------------------------------------------------------------------
    bool matched = win.header.stamp == t;
    if (first_good && !loops_ever && (kd == NORMAL || kd == FAR) && (o.motion.head<2>().norm() > 0.2 || matched))
      ++try_match, did_match += matched;
    V3 pred = mul(p, o.motion);
    std::vector<size_t> reds, greens;
    for (size_t i = 0; i < gr.markers.size(); ++i)
      (gr.markers[i].color.g == 1.0f && gr.markers[i].color.r == 0 ? greens : reds).push_back(i);
    bool new_loop = greens.size() > green;
    loops_ever = loops_ever || new_loop;
    V3 tru = mul(inv(origin), rob.truth);
    double err = dist(o.pose, tru);
    c.log("%s %s pose (%.3f,%.3f,%.3f) predicted (%.3f,%.3f,%.3f) true (%.3f,%.3f,%.3f) error %.4f red %zu green %zu map %ux%u", kd == BLIND ? "blind" : "scan",
          matched ? "matched" : "-", o.pose(0), o.pose(1), o.pose(2), pred(0), pred(1), pred(2), tru(0), tru(1), tru(2), err, reds.size(), greens.size(), map.info.width, map.info.height);
    SIM_CHECK(c, P4, "finite", std::isfinite(o.pose.sum()), "pose (%g,%g,%g)", o.pose(0), o.pose(1), o.pose(2));
    if (!matched && !new_loop) {
      SIM_CHECK(c, P4, "dead_reckoning", dist(o.pose, pred) < 1e-5 * (1 + p.head<2>().norm()),
                "the scan was not matched, odometry moved by (%.6g,%.6g,%.6g) from (%.6g,%.6g,%.6g), the pose became (%.6g,%.6g,%.6g)",
                o.motion(0), o.motion(1), o.motion(2), p(0), p(1), p(2), o.pose(0), o.pose(1), o.pose(2));
      c.probe(kd == BLIND ? "dead_reckoned_blind" : "dead_reckoned");
    }
    if (matched)
      c.probe("matched");
    if (matched && !loops_ever && first_good && !prev_win.empty()) {
      double cs = std::cos(o.pose(2)), sn = std::sin(o.pose(2));
      for (auto &q : o.win_pcl[0].points) {
        bool old = false;
        for (auto &k : prev_win)
          if ((old = std::hypot(k(0) - q.x, k(1) - q.y) < 0.3))
            break;
        if (old)
          continue;
        double best = 1e9;
        for (auto &u : rob.pts)
          best = std::min(best, std::hypot(o.pose(0) + cs * u(0) - sn * u(1) - q.x, o.pose(1) + sn * u(0) + cs * u(1) - q.y));
        recent.push_back(best);
      }
      // what the scan added to the window lies where the robot at its reported pose sees it
      if (recent.size() >= 5) {
        std::vector<double> m(recent.end() - 5, recent.end());
        std::sort(m.begin(), m.end());
        SIM_CHECK(c, P4, "apart_from_window", m[2] < 0.12, "seen from the reported pose (%.4g,%.4g,%.4g) the newest parts of the local window are %.3g m away from anything the robot saw", o.pose(0),
                  o.pose(1), o.pose(2), m[2]);
        c.probe("pose_compared_with_window");
      }
    }
    prev_win.clear();
    for (auto &q : o.win_pcl[0].points)
      prev_win.push_back(Eigen::Vector2d(q.x, q.y));
    // how far the estimate may be off after scans that saw the room well; loops may be wrong ones
    double bound = (float(plan.get("win", 40)) < 6 ? 0.9 : 0.5) + 0.01 * double(si);
    if (first_good && !noisy) {
      double &w = loops_ever ? worst_loop : worst;
      w = std::max(w, err);
      if (!loops_ever) {
        SIM_CHECK(c, P4, "accuracy", err < bound, "after exact odometry the pose (%.4g,%.4g,%.4g) is %.3g away from the truth (%.4g,%.4g,%.4g)",
                  o.pose(0), o.pose(1), o.pose(2), err, tru(0), tru(1), tru(2));
        c.probe("accuracy_checked");
      }
    }
    // ---- map content -----------------------------------------------------------------------------
    if (!loops_ever && c.on(P26)) {
      auto now = place(o.pose);
      for (auto &u : now)
        observed.add(u(0), u(1));
      Places shown, fresh;  // fresh: shown since the last scan
      double far_off = 0;
      for (auto &q : o.map_pcl[0].points) {
        double d = observed.nearest(q.x, q.y);
        SIM_CHECK(c, P26, "never_seen", d < 0.2, "the map shows a surface at (%.3f,%.3f), %s m away from anything seen by a scan placed at its pose", double(q.x), double(q.y),
                  d > 1e8 ? "more than 0.5" : std::to_string(d).c_str());
        far_off = std::max(far_off, d);
        shown.add(q.x, q.y);
        if (!prev_map.count({q.x, q.y}))
          fresh.add(q.x, q.y);
      }
      double far_win = 0;
      for (auto &q : o.win_pcl[0].points) {
        double d = observed.nearest(q.x, q.y);
        far_win = std::max(far_win, d);
        SIM_CHECK(c, P26, "window_never_seen", d < 0.2, "the local window shows a surface at (%.3f,%.3f), %s m away from anything seen by a scan placed at its pose", double(q.x),
                  double(q.y), d > 1e8 ? "more than 0.5" : std::to_string(d).c_str());
      }
      c.log("farthest in window %.3f", far_win);
      if (!map.data.empty() && !o.map_pcl[0].points.empty()) {
        const auto &og = map.info.origin;
        double th = 2 * std::atan2(og.orientation.z, og.orientation.w);
        V3 corner = inv(V3(og.position.x, og.position.y, th));
        Places occupied;
        for (auto &q : o.map_pcl[0].points) {
          V3 l = mul(corner, V3(q.x, q.y, 0));
          double fx = l(0) / map.info.resolution, fy = l(1) / map.info.resolution;
          long cx = long(std::floor(fx)), cy = long(std::floor(fy));
          bool in = cx >= 0 && cy >= 0 && cx < long(map.info.width) && cy < long(map.info.height);
          bool border = std::fabs(fx - std::round(fx)) < 0.01 || std::fabs(fy - std::round(fy)) < 0.01;
          if (!border)
            SIM_CHECK(c, P26, "grid_without_surface", in && map.data[size_t(cy) * map.info.width + size_t(cx)] >= 0,
                      "the map cloud shows a surface at (%.3f,%.3f), the occupancy grid has %s there", double(q.x), double(q.y), in ? "an unknown cell" : "no cell");
          occupied.add(fx * kCell, fy * kCell);
        }
        for (size_t i = 0; i < map.data.size(); ++i)
          if (map.data[i] > 50)
            SIM_CHECK(c, P26, "grid_without_cloud", occupied.nearest((double(i % map.info.width) + 0.5) * kCell, (double(i / map.info.width) + 0.5) * kCell) < 0.18,
                      "cell %zu of the occupancy grid is occupied, the map cloud shows no surface there", i);
        c.probe("map_and_grid_compared");
      }
      if (first_good) {
        bool first = base.empty() && !o.map_pcl[0].points.empty(), later = !base.empty() && reds.size() > red;
        if (first || later) {
          // the key frame that now is part of the map: places its first scan saw with many beams
          std::unordered_map<uint64_t, std::pair<int, Eigen::Vector2d>> dense;
          for (auto &u : frame_first) {
            auto &d = dense[Places::key(long(std::floor(u(0) / 0.3)), long(std::floor(u(1) / 0.3)))];
            if (!d.first++)
              d.second = Eigen::Vector2d(0, 0);
            d.second += u;
          }
          int want = 0, got = 0, got_fresh = 0;
          for (auto &d : dense)
            if (d.second.first >= 12) {
              Eigen::Vector2d m = d.second.second / d.second.first;
              ++want;
              got += shown.nearest(m(0), m(1)) < 0.35;
              got_fresh += fresh.nearest(m(0), m(1)) < 0.35;
            }
          c.log("dense places %d shown %d newly %d, farthest surface %.3f", want, got, got_fresh, far_off);
          if (want >= 10) {
            SIM_CHECK(c, P26, "not_shown", got >= 0.8 * want, "of %d places the first scan of the newest key frame saw well, the map shows %d", want, got);
            SIM_CHECK(c, P26, "not_entered", got_fresh >= 0.8 * want, "of %d places the first scan of the newest key frame saw well, only %d show anything new", want, got_fresh);
            c.probe("key_frame_shown");
          }
          frame_first = now;
        }
      }
      prev_map.clear();
      for (auto &q : o.map_pcl[0].points)
        prev_map.insert({q.x, q.y});
    }
    // after a start in open country the first key frame is empty and cannot be seen from outside
    // ---- key frames ------------------------------------------------------------------------------
    if (first_good) {
    double moved = (mul(inv(B), o.pose)).head<2>().norm();
    odo = mul(odo, o.motion), odo_only = odo_only && !matched;
    bool added;
    if (base.empty())
      added = o.map_pcl[0].points.size() > 0 || !reds.empty();  // the first key frame fills the map
    else
      added = reds.size() > red;
    SIM_CHECK(c, P6, "edge_count", reds.size() <= red + (base.empty() ? 0 : 1) && reds.size() >= red, "one scan changed the number of odometry constraints from %zu to %zu",
              red, reds.size());
    if (new_loop && !added)
      SIM_CHECK(c, P6, "loop_without_frame", false, "a loop appeared without a new key frame");
    // with a new loop the pose has been corrected: the decision was taken before
    if (!new_loop) {
      if (added)
        SIM_CHECK(c, P6, "too_early", moved > gen - 1e-4, "key frame %zu was created %.5g m after the last one, spacing is %.5g", base.size(), moved, gen);
      else {
        SIM_CHECK(c, P6, "missing", moved <= gen + (matched ? 1e-4 : 0.2001), "no key frame %.5g m after the last one, spacing is %.5g", moved, gen);
      }
    }
    if (added) {
      base.push_back(B);
      span.push_back(mul(inv(B), o.pose));
      span_ok.push_back(!new_loop);  // else the pose was corrected as well
      B = o.pose;
      tbase.push_back(TB);
      TB = tru;
      odos.push_back(odo), odo_ok.push_back(odo_only);
      odo = V3::Zero(), odo_only = true;
      c.probe("key_frame");
      if (base.size() > 1) {
        const auto &m = gr.markers[reds.back()];
        V3 f = base[base.size() - 2], to = base.back();
        if (!loops_ever) {
          SIM_CHECK(c, P6, "edge_poses", std::hypot(m.points[0].x - f(0), m.points[0].y - f(1)) < 1e-5 && std::hypot(m.points[1].x - to(0), m.points[1].y - to(1)) < 1e-5,
                    "odometry constraint runs from (%g,%g) to (%g,%g), the key frames started at (%g,%g) and (%g,%g)", m.points[0].x, m.points[0].y, m.points[1].x,
                    m.points[1].y, f(0), f(1), to(0), to(1));
        }
        V3 z;
        if (rob.alg->edge(reds.back(), z, 0)) {
          V3 want = span[span.size() - 2];
          if (span_ok[span.size() - 2])
            SIM_CHECK(c, P6, "edge_value", dist(z, want) < 1e-5, "odometry constraint carries (%.6g,%.6g,%.6g), the motion between the key frames was (%.6g,%.6g,%.6g)",
                    z(0), z(1), z(2), want(0), want(1), want(2));
          c.probe("edge_value_checked");
          if (odo_ok[odo_ok.size() - 2]) {
            V3 want2 = odos[odos.size() - 2];
            SIM_CHECK(c, P6, "edge_dead_reckoned", dist(z, want2) < 1e-5 * (1 + want2.head<2>().norm()),
                      "nothing was matched between two key frames; odometry moved by (%.6g,%.6g,%.6g), the constraint carries (%.6g,%.6g,%.6g)", want2(0), want2(1), want2(2), z(0), z(1), z(2));
            c.probe("edge_dead_reckoned");
          }
          if (!noisy) {
            V3 tm = mul(inv(tbase[tbase.size() - 2]), tbase.back());
            double off = dist(z, tm);
            SIM_CHECK(c, P6, "edge_true", off < 0.6 + 0.2 * tm.head<2>().norm(), "odometry constraint carries (%.4g,%.4g,%.4g), the robot moved by (%.4g,%.4g,%.4g) between the key frames",
                      z(0), z(1), z(2), tm(0), tm(1), tm(2));
            c.probe("edge_compared_with_truth");
          }
          span[span.size() - 2] = z, span_ok[span.size() - 2] = true;
        }
      }
    }
    // the chain is connected and in order
    for (size_t i = 0; i + 1 < reds.size(); ++i) {
      auto &a = gr.markers[reds[i]].points[1];
      auto &b = gr.markers[reds[i + 1]].points[0];
      SIM_CHECK(c, P6, "chain", a.x == b.x && a.y == b.y, "odometry constraint %zu ends at (%g,%g), the next one starts at (%g,%g)", i, a.x, a.y, b.x, b.y);
    }
    if (!reds.empty() && !loops_ever) {
      auto &a = gr.markers[reds.back()].points[1];
      SIM_CHECK(c, P6, "chain_end", std::hypot(a.x - base.back()(0), a.y - base.back()(1)) < 1e-5, "the chain of constraints ends at (%g,%g), the last key frame is at (%g,%g)",
                a.x, a.y, base.back()(0), base.back()(1));
    }
    // ---- loops ------------------------------------------------------------------------------------
    if (new_loop) {
      c.probe("loop_closed", greens.size() - green);
      // the key frame chain, as drawn
      std::vector<Eigen::Vector2d> nd;
      for (size_t i = 0; i < reds.size(); ++i) {
        auto &m = gr.markers[reds[i]];
        if (i == 0)
          nd.push_back(Eigen::Vector2d(m.points[0].x, m.points[0].y));
        nd.push_back(Eigen::Vector2d(m.points[1].x, m.points[1].y));
      }
      for (size_t i = green; i < greens.size(); ++i) {
        auto &m = gr.markers[greens[i]];
        Eigen::Vector2d a(m.points[0].x, m.points[0].y), b(m.points[1].x, m.points[1].y);
        SIM_CHECK(c, P7, "loop_source", !nd.empty() && (a == nd.back() || b == nd.back()), "a loop constraint does not involve the newest key frame");
        Eigen::Vector2d other = a == nd.back() ? b : a;
        double path = 0;
        bool found = false;
        for (size_t k = nd.size() - 1; k-- > 0;) {
          path += span[k].head<2>().norm() + (span_ok[k] ? 0 : path_slack);
          if (nd[k] == other) {
            found = true;
            break;
          }
        }
        SIM_CHECK(c, P7, "loop_target", found, "a loop constraint ends at (%g,%g), where no key frame is", other(0), other(1));
        // a chain of odometry constraints is one way back; loops may be shorter
        if (found) {
          SIM_CHECK(c, P7, "too_near_on_path", path >= lmin - 1e-3, "a loop joins key frames %.4g m apart along the path, minimum is %.4g", path, lmin);
          SIM_CHECK(c, P5, "loop_min", path >= lmin - 1e-3, "a loop joins key frames %.4g m apart along the path, loop_min_distance is %.4g", path, lmin);
        }
      }
      if (!loops_ever || green == 0) {
        // distances before the first correction are those of the model
        for (size_t i = green; i < greens.size(); ++i) {
          auto &m = gr.markers[greens[i]];
          Eigen::Vector2d a(m.points[0].x, m.points[0].y), b(m.points[1].x, m.points[1].y);
          Eigen::Vector2d other = a == nd.back() ? b : a;
          for (size_t k = 0; k + 1 < nd.size(); ++k)
            if (nd[k] == other) {
              double d = (base.back() - base[k]).head<2>().norm();
              SIM_CHECK(c, P7, "too_far", d < lmax + 1e-3, "a loop joins key frames %.4g m apart, maximum is %.4g", d, lmax);
              SIM_CHECK(c, P5, "loop_max", d < lmax + 1e-3, "a loop joins key frames %.4g m apart, loop_max_distance is %.4g", d, lmax);
              break;
            }
        }
      }
    }
    }
    red = reds.size();
    green = greens.size();
    // ---- window -----------------------------------------------------------------------------------
    double radius = double(float(plan.get("win", 40)));
    for (double size : {win.x_size, win.y_size}) {
      SIM_CHECK(c, P5, "window_too_small", size > 2 * radius - 0.3, "the local window measures %.3f x %.3f m, its radius should be %g m", win.x_size, win.y_size, radius);
      if (!out_of_window)
        SIM_CHECK(c, P5, "window_too_large", size < 2 * radius + 0.8, "the local window measures %.3f x %.3f m, its radius should be %g m", win.x_size, win.y_size, radius);
    }
    if (matched && !out_of_window && !loops_ever && first_good) {
      double off = std::max(std::fabs(win.x_cen - o.pose(0)), std::fabs(win.y_cen - o.pose(1)));
      c.log("window off %.3f", off);
      SIM_CHECK(c, P5, "window_left_behind", off < 0.6, "the window is centred on (%.3f,%.3f), the robot was seen at (%.3f,%.3f)", win.x_cen, win.y_cen, o.pose(0), o.pose(1));
      SIM_CHECK(c, P26, "window_left_behind", off < 0.6, "the window is centred on (%.3f,%.3f), the robot was seen at (%.3f,%.3f)", win.x_cen, win.y_cen, o.pose(0), o.pose(1));
    }
    if (!out_of_window)
      c.probe("window_size_checked");
    p = o.pose;
    for (int i = 0; i < 3; ++i)
      c.obs(p(i));
    c.state(hmix(hmix(uint64_t(std::llround(p(0) * 5)) * 1000003 + uint64_t(std::llround(p(1) * 5)), matched), reds.size() * 64 + greens.size()));
  }
  if (try_match >= 5) {
    SIM_CHECK(c, P4, "hardly_matched", did_match * 2 >= try_match, "of %ld scans of a room with features, taken after the robot had moved, %ld were matched", try_match, did_match);
    c.probe("matching_checked");
  }
  c.log("matches %ld of %ld", did_match, try_match);
  if (worst > 0)
    c.log("worst error %.4f", worst);
  if (worst_loop > 0)
    c.log("worst with loops %.4f", worst_loop);
  c.count("op:debug_file", uint64_t(writes));
  c.count("op:parallel_region", simomp::stats().regions);
}
