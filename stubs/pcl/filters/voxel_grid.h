#pragma once
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class VoxelGrid
{
  typename PointCloud<P>::ConstPtr in_;
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  void setLeafSize(float, float, float) {}
  void filter(PointCloud<P>& out) { out = *in_; }
};
}
