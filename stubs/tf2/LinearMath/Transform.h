#pragma once
#include <cmath>
#include <string>
#include <stdexcept>
#include <ros/time.h>
typedef double tf2Scalar;
namespace tf2
{
class Vector3
{
  double v_[3];
public:
  Vector3() {}
  Vector3(double x, double y, double z) { v_[0] = x; v_[1] = y; v_[2] = z; }
  const double& x() const { return v_[0]; }
  const double& y() const { return v_[1]; }
  const double& z() const { return v_[2]; }
  const double& getX() const { return v_[0]; }
  const double& getY() const { return v_[1]; }
  const double& getZ() const { return v_[2]; }
  void setX(double a) { v_[0] = a; }
  void setY(double a) { v_[1] = a; }
  void setZ(double a) { v_[2] = a; }
  double operator[](int i) const { return v_[i]; }
  double& operator[](int i) { return v_[i]; }
  double length() const { return std::sqrt(length2()); }
  double length2() const { return v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2]; }
  double dot(const Vector3& b) const { return v_[0] * b.v_[0] + v_[1] * b.v_[1] + v_[2] * b.v_[2]; }
  Vector3 cross(const Vector3& b) const
  { return Vector3(v_[1] * b.v_[2] - v_[2] * b.v_[1], v_[2] * b.v_[0] - v_[0] * b.v_[2], v_[0] * b.v_[1] - v_[1] * b.v_[0]); }
  Vector3& operator+=(const Vector3& b) { for (int i = 0; i < 3; i++) v_[i] += b.v_[i]; return *this; }
  Vector3 operator-() const { return Vector3(-v_[0], -v_[1], -v_[2]); }
  double distance(const Vector3& b) const { return Vector3(v_[0] - b.v_[0], v_[1] - b.v_[1], v_[2] - b.v_[2]).length(); }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline Vector3 operator*(const Vector3& a, double s) { return Vector3(a[0] * s, a[1] * s, a[2] * s); }
inline Vector3 operator*(double s, const Vector3& a) { return a * s; }
class Quaternion
{
  double q_[4];
public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { q_[0] = x; q_[1] = y; q_[2] = z; q_[3] = w; }
  Quaternion(const Vector3& axis, const double& angle) { setRotation(axis, angle); }
  void setRotation(const Vector3& axis, const double& angle)
  {
    double d = axis.length(), s = std::sin(angle * 0.5) / d;
    q_[0] = axis.x() * s; q_[1] = axis.y() * s; q_[2] = axis.z() * s; q_[3] = std::cos(angle * 0.5);
  }
  void setRPY(double r, double p, double y);
  double x() const { return q_[0]; }
  double y() const { return q_[1]; }
  double z() const { return q_[2]; }
  double w() const { return q_[3]; }
  double getAngle() const { return 2.0 * std::acos(q_[3]); }
  Vector3 getAxis() const
  {
    double s2 = 1.0 - q_[3] * q_[3];
    if (s2 < 1e-12) return Vector3(1, 0, 0);
    double s = std::sqrt(s2);
    return Vector3(q_[0] / s, q_[1] / s, q_[2] / s);
  }
  Quaternion inverse() const { return Quaternion(-q_[0], -q_[1], -q_[2], q_[3]); }
  Quaternion operator-() const { return Quaternion(-q_[0], -q_[1], -q_[2], -q_[3]); }
  Quaternion operator*(const Quaternion& b) const
  {
    return Quaternion(
        q_[3] * b.q_[0] + q_[0] * b.q_[3] + q_[1] * b.q_[2] - q_[2] * b.q_[1],
        q_[3] * b.q_[1] + q_[1] * b.q_[3] + q_[2] * b.q_[0] - q_[0] * b.q_[2],
        q_[3] * b.q_[2] + q_[2] * b.q_[3] + q_[0] * b.q_[1] - q_[1] * b.q_[0],
        q_[3] * b.q_[3] - q_[0] * b.q_[0] - q_[1] * b.q_[1] - q_[2] * b.q_[2]);
  }
  double length() const { return std::sqrt(q_[0] * q_[0] + q_[1] * q_[1] + q_[2] * q_[2] + q_[3] * q_[3]); }
  Quaternion& normalize() { double l = length(); for (double& c : q_) c /= l; return *this; }
};
inline Vector3 quatRotate(const Quaternion& q, const Vector3& v)
{
  Quaternion p = q * Quaternion(v.x(), v.y(), v.z(), 0) * q.inverse();
  return Vector3(p.x(), p.y(), p.z());
}
class Matrix3x3
{
  Quaternion q_;
public:
  Matrix3x3() : q_(0, 0, 0, 1) {}
  explicit Matrix3x3(const Quaternion& q) : q_(q) {}
  void getRotation(Quaternion& q) const { q = q_; }
  void setRotation(const Quaternion& q) { q_ = q; }
  void getEulerYPR(double& y, double& p, double& r, unsigned int = 1) const { getRPY(r, p, y); }
  void getRPY(double& r, double& p, double& y, unsigned int = 1) const
  {
    r = std::atan2(2 * (q_.w() * q_.x() + q_.y() * q_.z()), 1 - 2 * (q_.x() * q_.x() + q_.y() * q_.y()));
    p = std::asin(2 * (q_.w() * q_.y() - q_.z() * q_.x()));
    y = std::atan2(2 * (q_.w() * q_.z() + q_.x() * q_.y()), 1 - 2 * (q_.y() * q_.y() + q_.z() * q_.z()));
  }
  Vector3 operator*(const Vector3& v) const { return quatRotate(q_, v); }
};
class Transform
{
  Quaternion r_; Vector3 o_;
public:
  Transform() : r_(0, 0, 0, 1), o_(0, 0, 0) {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : r_(q), o_(c) {}
  Matrix3x3 getBasis() const { return Matrix3x3(r_); }
  Quaternion getRotation() const { return r_; }
  const Vector3& getOrigin() const { return o_; }
  Vector3& getOrigin() { return o_; }
  void setOrigin(const Vector3& o) { o_ = o; }
  void setRotation(const Quaternion& q) { r_ = q; }
  void setIdentity() { r_ = Quaternion(0, 0, 0, 1); o_ = Vector3(0, 0, 0); }
  Transform inverse() const { Quaternion i = r_.inverse(); return Transform(i, -quatRotate(i, o_)); }
  Vector3 operator()(const Vector3& v) const { return quatRotate(r_, v) + o_; }
  Vector3 operator*(const Vector3& v) const { return (*this)(v); }
  Quaternion operator*(const Quaternion& q) const { return r_ * q; }
  Transform operator*(const Transform& t) const { return Transform(r_ * t.r_, (*this)(t.o_)); }
};
template <class T>
class Stamped : public T
{
public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() {}
  Stamped(const T& i, const ros::Time& s, const std::string& f) : T(i), stamp_(s), frame_id_(f) {}
  void setData(const T& i) { *static_cast<T*>(this) = i; }
};
class TransformException : public std::runtime_error
{
public:
  explicit TransformException(const std::string& m) : std::runtime_error(m) {}
};
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
}  // namespace tf2
