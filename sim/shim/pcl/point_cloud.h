// Simulation stand-in for pcl::PointCloud.
#pragma once
#include <pcl/point_types.h>
#include <stdexcept>
namespace pcl
{
template <typename PointT>
class PointCloud
{
public:
  typedef PointT PointType;
  typedef std::vector<PointT> VectorType;
  typedef boost::shared_ptr<PointCloud<PointT>> Ptr;
  typedef boost::shared_ptr<const PointCloud<PointT>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  typedef PointT value_type;
  PointCloud() : width(0), height(0), is_dense(true) {}
  PCLHeader header;
  VectorType points;
  uint32_t width, height;
  bool is_dense;
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n)
  {
    points.resize(n);
    if (width * height != n) {
      width = static_cast<uint32_t>(n);
      height = 1;
    }
  }
  const PointT &operator[](size_t n) const { return points[n]; }
  PointT &operator[](size_t n) { return points[n]; }
  const PointT &at(size_t n) const { return points.at(n); }
  PointT &at(size_t n) { return points.at(n); }
  const PointT &front() const { return points.front(); }
  const PointT &back() const { return points.back(); }
  void push_back(const PointT &pt)
  {
    points.push_back(pt);
    width = static_cast<uint32_t>(points.size());
    height = 1;
  }
  void clear()
  {
    points.clear();
    width = height = 0;
  }
  void swap(PointCloud &o)
  {
    std::swap(header, o.header);
    points.swap(o.points);
    std::swap(width, o.width);
    std::swap(height, o.height);
    std::swap(is_dense, o.is_dense);
  }
  PointCloud &operator+=(const PointCloud &o)
  {
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = static_cast<uint32_t>(points.size());
    height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  Ptr makeShared() const { return Ptr(new PointCloud<PointT>(*this)); }
};
}
