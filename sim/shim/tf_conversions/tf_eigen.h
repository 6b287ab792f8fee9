#pragma once
#include <tf/transform_datatypes.h>
#include <Eigen/Geometry>
namespace tf
{
inline void transformTFToEigen(const Transform &t, Eigen::Affine3d &e)
{
  for (int i = 0; i < 3; ++i) {
    e.matrix()(i, 3) = t.o.m[i];
    for (int j = 0; j < 3; ++j)
      e.matrix()(i, j) = t.b.m[i][j];
    e.matrix()(3, i) = 0;
  }
  e.matrix()(3, 3) = 1;
}
inline void transformTFToEigen(const Transform &t, Eigen::Isometry3d &e)
{
  Eigen::Affine3d a;
  transformTFToEigen(t, a);
  e.matrix() = a.matrix();
}
template <typename E>
inline void transformEigenToTFImpl(const E &e, Transform &t)
{
  for (int i = 0; i < 3; ++i) {
    t.o.m[i] = e.matrix()(i, 3);
    for (int j = 0; j < 3; ++j)
      t.b.m[i][j] = e.matrix()(i, j);
  }
}
inline void transformEigenToTF(const Eigen::Affine3d &e, Transform &t) { transformEigenToTFImpl(e, t); }
inline void transformEigenToTF(const Eigen::Isometry3d &e, Transform &t) { transformEigenToTFImpl(e, t); }
}
