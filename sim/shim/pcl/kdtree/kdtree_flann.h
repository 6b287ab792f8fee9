// Simulation stand-in for pcl::KdTreeFLANN: exact nearest neighbours, ties by index.
#pragma once
#include <pcl/point_cloud.h>
#include <algorithm>
#include <numeric>
#include <utility>
#include <vector>
namespace pcl
{
template <typename PointT>
class KdTreeFLANN
{
public:
  typedef PointCloud<PointT> Cloud;
  typedef typename Cloud::ConstPtr PointCloudConstPtr;
  typedef boost::shared_ptr<KdTreeFLANN<PointT>> Ptr;
  KdTreeFLANN(bool sorted = true) { (void)sorted; }
  void setInputCloud(const PointCloudConstPtr &cloud, const IndicesConstPtr & = IndicesConstPtr())
  {
    input_ = cloud;
    index_.reset();
    if (!input_ || input_->points.empty())
      return;  // as PCL: error message, no index
    boost::shared_ptr<Index> ix(new Index());
    for (size_t i = 0; i < input_->points.size(); ++i) {
      const PointT &p = input_->points[i];
      if (p.x - p.x == 0 && p.y - p.y == 0 && p.z - p.z == 0)
        ix->n.push_back(Node{{p.x, p.y, p.z}, static_cast<int>(i)});
    }
    ix->build(0, ix->n.size(), 0);
    index_ = ix;
  }
  PointCloudConstPtr getInputCloud() const { return input_; }
  int nearestKSearch(const PointT &q, int k, std::vector<int> &ids, std::vector<float> &d) const
  {
    ids.clear();
    d.clear();
    if (!index_ || k <= 0)
      return 0;
    if (static_cast<size_t>(k) > index_->n.size())
      k = static_cast<int>(index_->n.size());
    std::vector<std::pair<float, int>> heap;
    heap.reserve(k + 1);
    float qq[3] = {q.x, q.y, q.z};
    index_->search(0, index_->n.size(), 0, qq, k, heap);
    std::sort(heap.begin(), heap.end());
    for (auto &h : heap) {
      ids.push_back(h.second);
      d.push_back(h.first);
    }
    return static_cast<int>(ids.size());
  }
  int radiusSearch(const PointT &q, double r, std::vector<int> &ids, std::vector<float> &d, unsigned max = 0) const
  {
    nearestKSearch(q, index_ ? static_cast<int>(index_->n.size()) : 0, ids, d);
    size_t n = 0;
    while (n < ids.size() && d[n] <= r * r && (max == 0 || n < max))
      ++n;
    ids.resize(n);
    d.resize(n);
    return static_cast<int>(n);
  }

private:
  struct Node {
    float p[3];
    int id;
  };
  struct Index {
    std::vector<Node> n;
    void build(size_t a, size_t b, int ax)
    {
      if (b - a < 2)
        return;
      size_t m = (a + b) / 2;
      std::nth_element(n.begin() + a, n.begin() + m, n.begin() + b, [ax](const Node &l, const Node &r) {
        return l.p[ax] < r.p[ax] || (l.p[ax] == r.p[ax] && l.id < r.id);
      });
      build(a, m, 1 - ax);
      build(m + 1, b, 1 - ax);
    }
    void search(size_t a, size_t b, int ax, const float *q, int k, std::vector<std::pair<float, int>> &h) const
    {
      if (a >= b)
        return;
      size_t m = (a + b) / 2;
      const Node &c = n[m];
      float dx = q[0] - c.p[0], dy = q[1] - c.p[1], dz = q[2] - c.p[2];
      std::pair<float, int> e(dx * dx + dy * dy + dz * dz, c.id);
      if (static_cast<int>(h.size()) < k) {
        h.push_back(e);
        std::push_heap(h.begin(), h.end());
      } else if (e < h.front()) {
        std::pop_heap(h.begin(), h.end());
        h.back() = e;
        std::push_heap(h.begin(), h.end());
      }
      float da = q[ax] - c.p[ax];
      bool left = da <= 0;
      if (left)
        search(a, m, 1 - ax, q, k, h);
      else
        search(m + 1, b, 1 - ax, q, k, h);
      if (static_cast<int>(h.size()) < k || da * da <= h.front().first) {
        if (left)
          search(m + 1, b, 1 - ax, q, k, h);
        else
          search(a, m, 1 - ax, q, k, h);
      }
    }
  };
  PointCloudConstPtr input_;
  boost::shared_ptr<const Index> index_;
};
}
