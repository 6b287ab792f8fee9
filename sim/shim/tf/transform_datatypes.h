// Simulation stand-in for tf's transform types (Bullet conventions, double precision).  As in tf,
// a default-constructed Transform or Vector3 is not initialised.
#pragma once
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
#include <cmath>
#include <stdexcept>
#include <string>
typedef double tfScalar;
namespace tf
{
class TransformException : public std::runtime_error
{
public:
  TransformException(const std::string &w) : std::runtime_error(w) {}
};
struct LookupException : public TransformException {
  LookupException(const std::string &w) : TransformException(w) {}
};
struct ConnectivityException : public TransformException {
  ConnectivityException(const std::string &w) : TransformException(w) {}
};
struct ExtrapolationException : public TransformException {
  ExtrapolationException(const std::string &w) : TransformException(w) {}
};
struct InvalidArgument : public TransformException {
  InvalidArgument(const std::string &w) : TransformException(w) {}
};
class Vector3
{
public:
  double m[3];
  Vector3() {}
  Vector3(double x, double y, double z) : m{x, y, z} {}
  double x() const { return m[0]; }
  double y() const { return m[1]; }
  double z() const { return m[2]; }
  double getX() const { return m[0]; }
  double getY() const { return m[1]; }
  double getZ() const { return m[2]; }
  void setX(double v) { m[0] = v; }
  void setY(double v) { m[1] = v; }
  void setZ(double v) { m[2] = v; }
  Vector3 operator+(const Vector3 &o) const { return Vector3(m[0] + o.m[0], m[1] + o.m[1], m[2] + o.m[2]); }
  Vector3 operator-(const Vector3 &o) const { return Vector3(m[0] - o.m[0], m[1] - o.m[1], m[2] - o.m[2]); }
  Vector3 operator-() const { return Vector3(-m[0], -m[1], -m[2]); }
};
class Quaternion
{
public:
  double q[4];  // x y z w
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : q{x, y, z, w} {}
  double x() const { return q[0]; }
  double y() const { return q[1]; }
  double z() const { return q[2]; }
  double w() const { return q[3]; }
  double getX() const { return q[0]; }
  double getY() const { return q[1]; }
  double getZ() const { return q[2]; }
  double getW() const { return q[3]; }
  double length2() const { return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; }
  Quaternion &normalize()
  {
    double l = std::sqrt(length2());
    for (double &v : q)
      v /= l;
    return *this;
  }
  void setRPY(double r, double p, double y)
  {
    double hy = y * 0.5, hp = p * 0.5, hr = r * 0.5;
    double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr),
           sr = std::sin(hr);
    q[0] = sr * cp * cy - cr * sp * sy;
    q[1] = cr * sp * cy + sr * cp * sy;
    q[2] = cr * cp * sy - sr * sp * cy;
    q[3] = cr * cp * cy + sr * sp * sy;
  }
  static Quaternion getIdentity() { return Quaternion(0, 0, 0, 1); }
};
class Matrix3x3
{
public:
  double m[3][3];
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion &q) { setRotation(q); }
  void setIdentity()
  {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        m[i][j] = i == j;
  }
  void setRotation(const Quaternion &q)
  {
    double s = 2.0 / q.length2();
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    double r[3][3] = {{1.0 - (yy + zz), xy - wz, xz + wy}, {xy + wz, 1.0 - (xx + zz), yz - wx}, {xz - wy, yz + wx, 1.0 - (xx + yy)}};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        m[i][j] = r[i][j];
  }
  Matrix3x3 transpose() const
  {
    Matrix3x3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r.m[i][j] = m[j][i];
    return r;
  }
  Matrix3x3 operator*(const Matrix3x3 &o) const
  {
    Matrix3x3 r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        r.m[i][j] = m[i][0] * o.m[0][j] + m[i][1] * o.m[1][j] + m[i][2] * o.m[2][j];
    return r;
  }
  Vector3 operator*(const Vector3 &v) const
  {
    return Vector3(m[0][0] * v.m[0] + m[0][1] * v.m[1] + m[0][2] * v.m[2],
                   m[1][0] * v.m[0] + m[1][1] * v.m[1] + m[1][2] * v.m[2],
                   m[2][0] * v.m[0] + m[2][1] * v.m[1] + m[2][2] * v.m[2]);
  }
  void getRotation(Quaternion &q) const
  {
    double tr = m[0][0] + m[1][1] + m[2][2];
    if (tr > 0) {
      double s = std::sqrt(tr + 1.0);
      q.q[3] = s * 0.5;
      s = 0.5 / s;
      q.q[0] = (m[2][1] - m[1][2]) * s;
      q.q[1] = (m[0][2] - m[2][0]) * s;
      q.q[2] = (m[1][0] - m[0][1]) * s;
    } else {
      int i = m[0][0] < m[1][1] ? (m[1][1] < m[2][2] ? 2 : 1) : (m[0][0] < m[2][2] ? 2 : 0);
      int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m[i][i] - m[j][j] - m[k][k] + 1.0);
      q.q[i] = s * 0.5;
      s = 0.5 / s;
      q.q[3] = (m[k][j] - m[j][k]) * s;
      q.q[j] = (m[j][i] + m[i][j]) * s;
      q.q[k] = (m[k][i] + m[i][k]) * s;
    }
  }
};
class Transform
{
public:
  Matrix3x3 b;
  Vector3 o;
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &c = Vector3(0, 0, 0)) : b(q), o(c) {}
  explicit Transform(const Matrix3x3 &m, const Vector3 &c = Vector3(0, 0, 0)) : b(m), o(c) {}
  Transform operator*(const Transform &t) const { return Transform(b * t.b, *this * t.o); }
  Vector3 operator*(const Vector3 &v) const { return b * v + o; }
  Transform inverse() const
  {
    Matrix3x3 i = b.transpose();
    return Transform(i, i * -o);
  }
  const Vector3 &getOrigin() const { return o; }
  Vector3 &getOrigin() { return o; }
  const Matrix3x3 &getBasis() const { return b; }
  Matrix3x3 &getBasis() { return b; }
  Quaternion getRotation() const
  {
    Quaternion q;
    b.getRotation(q);
    return q;
  }
  void setOrigin(const Vector3 &v) { o = v; }
  void setRotation(const Quaternion &q) { b.setRotation(q); }
  void setBasis(const Matrix3x3 &m) { b = m; }
  void setIdentity()
  {
    b.setIdentity();
    o = Vector3(0, 0, 0);
  }
  static Transform getIdentity()
  {
    Transform t;
    t.setIdentity();
    return t;
  }
};
typedef Transform Pose;
typedef Vector3 Point;
class StampedTransform : public Transform
{
public:
  ros::Time stamp_;
  std::string frame_id_;
  std::string child_frame_id_;
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c)
    : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c)
  {
  }
  StampedTransform() {}
};
inline void quaternionMsgToTF(const geometry_msgs::Quaternion &m, Quaternion &q)
{
  q = Quaternion(m.x, m.y, m.z, m.w);
  if (std::fabs(q.length2() - 1) > 0.1)
    q.normalize();
}
inline void poseMsgToTF(const geometry_msgs::Pose &m, Pose &p)
{
  Quaternion q;
  quaternionMsgToTF(m.orientation, q);
  p = Transform(q, Vector3(m.position.x, m.position.y, m.position.z));
}
inline Quaternion createQuaternionFromYaw(double y)
{
  Quaternion q;
  q.setRPY(0, 0, y);
  return q;
}
inline Quaternion createQuaternionFromRPY(double r, double p, double y)
{
  Quaternion q;
  q.setRPY(r, p, y);
  return q;
}
inline Transform createIdentityTransform() { return Transform::getIdentity(); }
inline double getYaw(const Quaternion &q)
{
  Matrix3x3 m(q);
  return std::atan2(m.m[1][0], m.m[0][0]);
}
}
