#pragma once
namespace g2o
{
namespace simcompat
{
template <typename M>
class LinearSolverCSparse
{
public:
  void setBlockOrdering(bool) {}
};
}
using simcompat::LinearSolverCSparse;
}
