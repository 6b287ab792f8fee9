// graphworld: the real pose-graph container under random histories of growth, removal, re-use and
// iteration with allocation failures injected at any allocation, against a plain list model.
#include <algorithm>
#include <iostream>
#include <memory>
#include <set>
#include <vector>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include "../core/sim.h"

using namespace sim;
namespace
{
// payload with a heap part, so that copying or moving it can be made to fail and leaks/double frees show
struct Payload {
  std::vector<int> v;
  Payload() {}
  explicit Payload(int x) : v(1, x) {}
  int id() const { return v.empty() ? -1 : v[0]; }
};
typedef slamuk::Graph<Slam2d_Policy, Payload> G;
typedef slamuk::Node<Slam2d_Policy, Payload> N;
typedef slamuk::Edge<Slam2d_Policy, Payload> E;
typedef Slam2d_Policy::Pose Pose;

struct MNode {
  Pose pose;
  int tag;
  bool visited;
  const N *addr;
};
struct MEdge {
  bool live;
  size_t from, to;
  Pose trans;
  double info;
  E::State state;
  E::Type type;
  bool used;
  const E *addr;
};
struct Model {
  std::vector<MNode> nodes;
  std::vector<MEdge> edges;
  size_t live() const
  {
    size_t c = 0;
    for (auto &e : edges)
      c += e.live;
    return c;
  }
};
const char *P = "C20";

template <typename It>
void walk_edges(Ctx &c, It it, It end, const Model &m, bool post, const char *what)
{
  size_t expect = 0, seen = 0;
  while (it != end) {
    SIM_CHECK(c, P, "edge_iteration", seen <= m.edges.size(), "%s visits more edges than exist", what);
    while (expect < m.edges.size() && !m.edges[expect].live)
      ++expect;
    SIM_CHECK(c, P, "edge_iteration", expect < m.edges.size(), "%s visits an edge after the last live one", what);
    if (expect >= m.edges.size() || seen > m.edges.size())
      return;
    const E &e = *it;
    SIM_CHECK(c, P, "edge_iteration", &e == m.edges[expect].addr, "%s does not visit live edge %zu in order", what,
              expect);
    SIM_CHECK(c, P, "edge_iteration", it->getId() == expect, "%s reports id %zu for edge %zu", what,
              size_t(it->getId()), expect);
    ++expect;
    ++seen;
    if (post)
      it++;
    else
      ++it;
  }
  SIM_CHECK(c, P, "edge_iteration", seen == m.live(), "%s visited %zu of %zu live edges", what, seen, m.live());
}
template <typename It>
void walk_nodes(Ctx &c, It it, It end, const Model &m, bool post, const char *what)
{
  size_t seen = 0;
  while (it != end) {
    SIM_CHECK(c, P, "node_iteration", seen < m.nodes.size(), "%s visits more nodes than exist", what);
    if (seen >= m.nodes.size())
      return;
    SIM_CHECK(c, P, "node_iteration", &(*it) == m.nodes[seen].addr && it->getId() == seen,
              "%s does not visit node %zu in order", what, seen);
    ++seen;
    if (post)
      it++;
    else
      ++it;
  }
  SIM_CHECK(c, P, "node_iteration", seen == m.nodes.size(), "%s visited %zu of %zu nodes", what, seen,
            m.nodes.size());
}

void check_lists(Ctx &c, N &nd, size_t id, const Model &m)
{
  std::multiset<const E *> in, out, min, mout;
  for (auto *e : nd.getEdgesIn())
    in.insert(e);
  for (auto *e : nd.getEdgesOut())
    out.insert(e);
  for (auto &e : m.edges)
    if (e.live) {
      if (e.to == id)
        min.insert(e.addr);
      if (e.from == id)
        mout.insert(e.addr);
    }
  SIM_CHECK(c, P, "incidence", in == min, "node %zu lists %zu incoming edges, %zu live edges enter it", id, in.size(),
            min.size());
  SIM_CHECK(c, P, "incidence", out == mout, "node %zu lists %zu outgoing edges, %zu live edges leave it", id,
            out.size(), mout.size());
}

void check_all(Ctx &c, G &g, Model &m, Rng &r)
{
  const G &cg = g;
  SIM_CHECK(c, P, "count", g.nodeCount() == m.nodes.size(), "nodeCount %zu, %zu nodes were added",
            size_t(g.nodeCount()), m.nodes.size());
  SIM_CHECK(c, P, "count", g.edgeCount() == m.live(), "edgeCount %zu, %zu edges are live", size_t(g.edgeCount()),
            m.live());
  for (size_t i = 0; i < m.nodes.size(); ++i) {
    N &n = g.getNode(i);
    SIM_CHECK(c, P, "node_identity", &n == m.nodes[i].addr && &cg.getNode(i) == &n && n.getId() == i,
              "node %zu is not the object stored under that id", i);
    SIM_CHECK(c, P, "node_value",
              n.getPose() == m.nodes[i].pose && n.getDataObj().id() == m.nodes[i].tag &&
                  cg.getNode(i).getDataObj().id() == m.nodes[i].tag && n.isVisited() == m.nodes[i].visited,
              "node %zu changed its stored value", i);
    check_lists(c, n, i, m);
    c.obs(n.getPose()(0));
  }
  for (size_t i = 0; i < m.edges.size(); ++i) {
    bool threw = false, cthrew = false;
    const E *p = nullptr, *cp = nullptr;
    try {
      p = &g.getEdge(i);
    } catch (const std::exception &) {
      threw = true;
    }
    try {
      cp = &cg.getEdge(i);
    } catch (const std::exception &) {
      cthrew = true;
    }
    if (!m.edges[i].live) {
      SIM_CHECK(c, P, "refusal", threw && cthrew, "lookup of removed edge %zu was not refused", i);
      continue;
    }
    SIM_CHECK(c, P, "refusal", !threw && !cthrew, "lookup of live edge %zu was refused", i);
    SIM_CHECK(c, P, "edge_identity", p == m.edges[i].addr && cp == p && p->getId() == i,
              "edge %zu is not the object stored under that id", i);
    const MEdge &e = m.edges[i];
    SIM_CHECK(c, P, "edge_value",
              p->getFrom() == m.nodes[e.from].addr && p->getTo() == m.nodes[e.to].addr && p->getTransform() == e.trans &&
                  p->getInformationMatrix() == Slam2d_Policy::InformMatrix::Identity() * e.info &&
                  p->getState() == e.state && p->getType() == e.type && p->isUsed() == e.used,
              "edge %zu changed its stored value", i);
  }
  bool post = r.chance(0.5);
  // iteration dereferences begin: only meaningful when non-empty or through begin!=end
  walk_nodes(c, g.beginNode(), g.endNode(), m, post, "node iterator");
  walk_nodes(c, g.cbeginNode(), g.cendNode(), m, post, "const node iterator");
  walk_edges(c, g.beginEdge(), g.endEdge(), m, post, "edge iterator");
  walk_edges(c, g.cbeginEdge(), g.cendEdge(), m, !post, "const edge iterator");
  // unknown ids
  size_t bad[4] = {m.nodes.size(), m.nodes.size() + 1, m.nodes.size() + 7 + size_t(r.below(100)), ~size_t(0)};
  for (size_t b : bad) {
    bool t1 = false, t2 = false;
    try {
      g.getNode(b);
    } catch (const std::exception &) {
      t1 = true;
    }
    try {
      cg.getNode(b);
    } catch (const std::exception &) {
      t2 = true;
    }
    SIM_CHECK(c, P, "refusal", t1 && t2, "lookup of unknown node %zu was not refused", b);
  }
  size_t ebad[4] = {m.edges.size(), m.edges.size() + 1, m.edges.size() + 7 + size_t(r.below(100)), ~size_t(0)};
  for (size_t b : ebad) {
    bool t1 = false, t2 = false;
    try {
      g.getEdge(b);
    } catch (const std::exception &) {
      t1 = true;
    }
    try {
      cg.getEdge(b);
    } catch (const std::exception &) {
      t2 = true;
    }
    SIM_CHECK(c, P, "refusal", t1 && t2, "lookup of unknown edge %zu was not refused", b);
  }
}
}  // namespace

const char *sim::world_name()
{
  return "graphworld";
}
int sim::world_cpu_limit()
{
  return 20;
}
bool sim::world_fork_each()
{
  return false;
}
std::string sim::world_describe()
{
  return "real: pose_graph.h (Graph, Node, Edge, iterators), slam2d_policy.h, eigen_tools.h; stub: none (allocator "
         "behind a failing seam)";
}

sim::Plan sim::world_generate(uint64_t seed, const std::string &, const std::string &tier)
{
  Rng r(seed);
  Plan p;
  p.cfg["memfill"] = double(uint32_t(r.next()));
  p.cfg["rng"] = double(r.below(1u << 30));
  double f_alloc = r.chance(0.5) ? r.real(0.02, 0.35) : 0;
  double w_rm = r.real(0, 1.2), w_node = r.real(0.1, 1), w_edge = r.real(0.3, 1.5), w_mut = r.real(0, 0.6),
         w_bad = r.real(0, 0.3);
  long n = r.range(3, tier == "thorough" ? 160 : 70);
  double tot = w_rm + w_node + w_edge + w_mut + w_bad;
  for (long i = 0; i < n; ++i) {
    double x = r.u() * tot;
    long f = r.chance(f_alloc) ? r.range(1, 6) : 0;
    if ((x -= w_node) < 0 || i == 0)
      p.steps.push_back(
          Step("node", {r.real(-50, 50), r.real(-50, 50), r.real(-3, 3), double(r.below(100000))}, f));
    else if ((x -= w_edge) < 0)
      p.steps.push_back(Step("edge",
                             {double(r.below(1000000)), double(r.below(1000000)), r.real(-5, 5), r.real(-5, 5),
                              r.real(-3, 3), r.real(0.1, 10)},
                             f));
    else if ((x -= w_rm) < 0) {
      // removal: biased towards first, last and recently freed
      double mode = r.below(5);
      p.steps.push_back(Step("remove", {mode, double(r.below(1000000))}, f));
    } else if ((x -= w_mut) < 0)
      p.steps.push_back(Step("mutate", {double(r.below(1000000)), double(r.below(6)), r.real(-9, 9), r.real(-3, 3)}));
    else
      p.steps.push_back(Step("badremove", {double(r.below(4)), double(r.below(1000000))}));
  }
  return p;
}

void sim::world_execute(const Plan &plan, Ctx &c)
{
  Rng r(uint64_t(plan.get("rng")) + 77);
  G g;
  Model m;
  for (size_t si = 0; si < plan.steps.size(); ++si) {
    const Step &s = plan.steps[si];
    c.step = si;
    c.count("op:" + s.op);
    if (s.op == "node") {
      Pose ps(s.arg(0), s.arg(1), s.arg(2));
      int tag = int(s.iarg(3));
      size_t id = 0;
      N nd(ps, Payload(tag));
      bool ok = with_alloc_fault(c, s.fail, [&] { id = g.addNode(std::move(nd)); });
      if (ok) {
        SIM_CHECK(c, P, "node_id", id == m.nodes.size(), "new node got id %zu, expected %zu", id, m.nodes.size());
        m.nodes.push_back(MNode{ps, tag, false, &g.getNode(id)});
      } else
        c.probe("node_alloc_failed");
    } else if (s.op == "edge") {
      if (m.nodes.empty())
        continue;
      size_t a = size_t(s.iarg(0)) % m.nodes.size(), b = size_t(s.iarg(1)) % m.nodes.size();
      Pose t(s.arg(2), s.arg(3), s.arg(4));
      Slam2d_Policy::InformMatrix inf = Slam2d_Policy::InformMatrix::Identity() * s.arg(5);
      E e(&g.getNode(a), &g.getNode(b), t, inf);
      bool reuse = m.live() < m.edges.size();
      size_t id = 0;
      bool ok = with_alloc_fault(c, s.fail, [&] { id = g.addEdge(std::move(e)); });
      if (ok) {
        SIM_CHECK(c, P, "edge_id", id <= m.edges.size() && (id == m.edges.size() || !m.edges[id].live),
                  "new edge got id %zu which is in use", id);
        MEdge me{true, a, b, t, s.arg(5), E::CONSTRUCTED, E::ODOM, false, &g.getEdge(id)};
        if (id == m.edges.size())
          m.edges.push_back(me);
        else if (id < m.edges.size())
          m.edges[id] = me;
        if (reuse)
          c.probe("edge_id_reuse");
        if (a == b)
          c.probe("self_edge");
      } else
        c.probe("edge_alloc_failed");
    } else if (s.op == "remove") {
      if (m.live() == 0)
        continue;
      std::vector<size_t> lv;
      for (size_t i = 0; i < m.edges.size(); ++i)
        if (m.edges[i].live)
          lv.push_back(i);
      long mode = s.iarg(0);
      size_t id = mode == 0 ? lv.front() : mode == 1 ? lv.back() : lv[size_t(s.iarg(1)) % lv.size()];
      bool res = false;
      bool ok = with_alloc_fault(c, s.fail, [&] { res = g.removeEdge(id); });
      if (ok) {
        SIM_CHECK(c, P, "remove_result", res, "removing live edge %zu was refused", id);
        m.edges[id].live = false;
        m.edges[id].addr = nullptr;
        c.probe(id == 0 ? "removed_first" : id + 1 == m.edges.size() ? "removed_last" : "removed_inner");
      } else
        c.probe("remove_alloc_failed");
    } else if (s.op == "badremove") {
      size_t id = ~size_t(0);
      long k = s.iarg(0);
      if (k == 0)
        id = m.edges.size();
      else if (k == 1)
        id = m.edges.size() + 1 + size_t(s.iarg(1)) % 50;
      else if (k == 2) {
        for (size_t i = 0; i < m.edges.size(); ++i)
          if (!m.edges[i].live)
            id = i;
      }
      bool res = g.removeEdge(id);
      SIM_CHECK(c, P, "remove_result", !res, "removing unknown edge %zu was accepted", id);
    } else if (s.op == "mutate") {
      if (m.nodes.empty())
        continue;
      size_t a = size_t(s.iarg(0)) % m.nodes.size();
      N &n = g.getNode(a);
      switch (s.iarg(1)) {
        case 0: {
          Pose q(s.arg(2), -s.arg(2), s.arg(3));
          n.setPose(q);
          m.nodes[a].pose = q;
          break;
        }
        case 1:
          n.setVisited(!m.nodes[a].visited);
          m.nodes[a].visited = !m.nodes[a].visited;
          break;
        case 2:
          n.getDataObj().v.assign(1, int(s.iarg(2)) + 1000);
          m.nodes[a].tag = int(s.iarg(2)) + 1000;
          break;
        default: {
          if (m.live() == 0)
            break;
          size_t k = size_t(s.iarg(0)) % m.edges.size();
          while (!m.edges[k].live)
            k = (k + 1) % m.edges.size();
          E &e = g.getEdge(k);
          if (s.iarg(1) == 3) {
            e.setState(E::ACTIVE);
            m.edges[k].state = E::ACTIVE;
          } else if (s.iarg(1) == 4) {
            e.setType(E::LOOP);
            m.edges[k].type = E::LOOP;
          } else {
            e.setUsed(true);
            m.edges[k].used = true;
          }
        }
      }
    }
    check_all(c, g, m, r);
    uint64_t h = m.nodes.size();
    for (auto &e : m.edges)
      h = hmix(h, e.live ? e.from * 1000 + e.to : 999999937);
    c.state(h);
    c.mix(h);
  }
}
