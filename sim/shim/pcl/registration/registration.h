// Simulation stand-in for pcl::Registration: the state machine of PCL 1.7 (align / initCompute).
#pragma once
#include <pcl/common/transforms.h>
#include <pcl/kdtree/kdtree_flann.h>
#include <boost/function.hpp>
#include <string>
namespace pcl
{
template <typename PointSource, typename PointTarget, typename Scalar = float>
class Registration
{
public:
  typedef Eigen::Matrix<Scalar, 4, 4> Matrix4;
  typedef boost::shared_ptr<Registration<PointSource, PointTarget, Scalar>> Ptr;
  typedef boost::shared_ptr<const Registration<PointSource, PointTarget, Scalar>> ConstPtr;
  typedef pcl::PointCloud<PointSource> PointCloudSource;
  typedef typename PointCloudSource::Ptr PointCloudSourcePtr;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef pcl::PointCloud<PointTarget> PointCloudTarget;
  typedef typename PointCloudTarget::Ptr PointCloudTargetPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;

  Registration()
    : nr_iterations_(0)
    , max_iterations_(10)
    , ransac_iterations_(0)
    , final_transformation_(Matrix4::Identity())
    , transformation_(Matrix4::Identity())
    , previous_transformation_(Matrix4::Identity())
    , transformation_epsilon_(0.0)
    , euclidean_fitness_epsilon_(0)
    , corr_dist_threshold_(1e150)
    , inlier_threshold_(0.05)
    , converged_(false)
    , min_number_correspondences_(3)
    , target_cloud_updated_(true)
    , source_cloud_updated_(true)
    , use_indices_(false)
  {
  }
  virtual ~Registration() {}
  virtual void setInputSource(const PointCloudSourceConstPtr &cloud)
  {
    source_cloud_updated_ = true;
    input_ = cloud;
  }
  PointCloudSourceConstPtr const getInputSource() { return input_; }
  virtual void setInputTarget(const PointCloudTargetConstPtr &cloud)
  {
    if (cloud->points.empty())
      return;  // as PCL: error message, previous target stays
    target_ = cloud;
    target_cloud_updated_ = true;
  }
  PointCloudTargetConstPtr const getInputTarget() { return target_; }
  Matrix4 getFinalTransformation() { return final_transformation_; }
  Matrix4 getLastIncrementalTransformation() { return transformation_; }
  void setMaximumIterations(int n) { max_iterations_ = n; }
  int getMaximumIterations() { return max_iterations_; }
  void setTransformationEpsilon(double e) { transformation_epsilon_ = e; }
  double getTransformationEpsilon() { return transformation_epsilon_; }
  void setMaxCorrespondenceDistance(double d) { corr_dist_threshold_ = d; }
  bool hasConverged() { return converged_; }
  const std::string &getClassName() const { return reg_name_; }
  void align(PointCloudSource &output) { align(output, Matrix4::Identity()); }
  void align(PointCloudSource &output, const Matrix4 &guess)
  {
    if (!initCompute())
      return;
    if (output.points.size() != indices_->size())
      output.points.resize(indices_->size());
    output.header = input_->header;
    if (indices_->size() != input_->points.size()) {
      output.width = static_cast<uint32_t>(indices_->size());
      output.height = 1;
    } else {
      output.width = input_->width;
      output.height = input_->height;
    }
    output.is_dense = input_->is_dense;
    for (size_t i = 0; i < indices_->size(); ++i)
      output.points[i] = input_->points[(*indices_)[i]];
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    computeTransformation(output, guess);
  }

protected:
  bool initCompute()
  {
    if (!target_)
      return false;
    target_cloud_updated_ = false;
    if (!input_)
      return false;
    if (!indices_ || indices_->size() != input_->points.size()) {
      indices_.reset(new std::vector<int>(input_->points.size()));
      for (size_t i = 0; i < indices_->size(); ++i)
        (*indices_)[i] = static_cast<int>(i);
    }
    return true;
  }
  virtual void computeTransformation(PointCloudSource &output, const Matrix4 &guess) = 0;

  PointCloudSourceConstPtr input_;
  boost::shared_ptr<std::vector<int>> indices_;
  std::string reg_name_;
  int nr_iterations_;
  int max_iterations_;
  int ransac_iterations_;
  PointCloudTargetConstPtr target_;
  Matrix4 final_transformation_;
  Matrix4 transformation_;
  Matrix4 previous_transformation_;
  double transformation_epsilon_;
  double euclidean_fitness_epsilon_;
  double corr_dist_threshold_;
  double inlier_threshold_;
  bool converged_;
  int min_number_correspondences_;
  bool target_cloud_updated_;
  bool source_cloud_updated_;
  bool use_indices_;
  boost::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &,
                       const std::vector<int> &)>
      update_visualizer_;
};
}
