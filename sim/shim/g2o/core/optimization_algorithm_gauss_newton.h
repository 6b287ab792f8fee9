#pragma once
#include <g2o/core/block_solver.h>
#include <g2o/core/optimization_algorithm.h>
#include <g2o/core/optimization_algorithm_factory.h>
#include <g2o/core/optimization_algorithm_property.h>
#include <g2o/core/sparse_block_matrix.h>
#include <g2o/core/sparse_optimizer.h>
G2O_USE_OPTIMIZATION_LIBRARY(csparse)
namespace g2o
{
namespace simcompat
{
class OptimizationAlgorithmGaussNewton : public g2o::OptimizationAlgorithm
{
public:
  template <typename S>
  explicit OptimizationAlgorithmGaussNewton(S *)
  {
    g2o::OptimizationAlgorithmProperty p;
    real_ = g2o::OptimizationAlgorithmFactory::instance()->construct("gn_var_csparse", p);
  }
  bool init(bool online = false) override { return real()->init(online); }
  SolverResult solve(int it, bool online = false) override { return real()->solve(it, online); }
  bool computeMarginals(g2o::SparseBlockMatrix<g2o::MatrixX> &s,
                        const std::vector<std::pair<int, int>> &b) override
  {
    return real()->computeMarginals(s, b);
  }
  bool updateStructure(const std::vector<g2o::HyperGraph::Vertex *> &v, const g2o::HyperGraph::EdgeSet &e) override
  {
    return real()->updateStructure(v, e);
  }

private:
  g2o::OptimizationAlgorithm *real()
  {
    real_->setOptimizer(_optimizer);
    return real_;
  }
  g2o::OptimizationAlgorithm *real_;
};
}
using simcompat::OptimizationAlgorithmGaussNewton;
}
