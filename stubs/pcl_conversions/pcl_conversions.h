#pragma once
#include <pcl/point_types.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl
{
template <class P> void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c)
{
  c.points.clear();
  for (uint32_t i = 0; i < m.width * m.height; i++)
  {
    P p;
    const float* f = reinterpret_cast<const float*>(m.data.data() + i * m.point_step);
    p.x = f[0]; p.y = f[1]; p.z = f[2];
    c.points.push_back(p);
  }
}
template <class P> void toROSMsg(const PointCloud<P>&, sensor_msgs::PointCloud2&) {}
}
namespace pcl_conversions
{
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000; }
inline void toPCL(const ros::Time& t, uint64_t& s) { s = t.toNSec() / 1000; }
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; t.fromNSec(s * 1000); return t; }
inline void fromPCL(const uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000); }
}
