#pragma once
#include <pcl/point_types.h>
namespace pcl
{
template <class P, class S>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Transform<S, 3, Eigen::Affine>& t)
{
  out = in;
  for (auto& p : out.points)
  {
    Eigen::Matrix<S, 3, 1> v = t * Eigen::Matrix<S, 3, 1>(p.x, p.y, p.z);
    p.x = v[0]; p.y = v[1]; p.z = v[2];
  }
}
template <class P, class S>
P transformPoint(const P& in, const Eigen::Transform<S, 3, Eigen::Affine>& t)
{
  P out = in;
  Eigen::Matrix<S, 3, 1> v = t * Eigen::Matrix<S, 3, 1>(in.x, in.y, in.z);
  out.x = v[0]; out.y = v[1]; out.z = v[2];
  return out;
}
}
