#pragma once
#include <tf2/LinearMath/Transform.h>
#include <geometry_msgs/Quaternion.h>
namespace tf2
{
inline double getYaw(const Quaternion& q)
{
  double r, p, y;
  Matrix3x3(q).getRPY(r, p, y);
  return y;
}
inline double getYaw(const geometry_msgs::Quaternion& q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
}
