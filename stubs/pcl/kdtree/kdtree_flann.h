#pragma once
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class KdTreeFLANN
{
  typename PointCloud<P>::ConstPtr in_;
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  int radiusSearch(const P& q, double r, std::vector<int>& i, std::vector<float>& d, unsigned int max = 0) const
  {
    i.clear(); d.clear();
    for (size_t n = 0; n < in_->points.size(); n++)
    {
      const P& p = in_->points[n];
      const float s = (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) + (p.z - q.z) * (p.z - q.z);
      if (s <= r * r) { i.push_back(n); d.push_back(s); if (max && i.size() >= max) break; }
    }
    return i.size();
  }
};
}
