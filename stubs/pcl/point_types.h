#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace pcl
{
struct PointXYZ { float x, y, z; PointXYZ() : x(0), y(0), z(0) {} PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
  Eigen::Vector3f getVector3fMap() const { return Eigen::Vector3f(x, y, z); } };
struct PointXYZI { float x, y, z, intensity; PointXYZI() : x(0), y(0), z(0), intensity(0) {} };
struct PCLHeader { uint32_t seq; uint64_t stamp; std::string frame_id; PCLHeader() : seq(0), stamp(0) {} };
struct PCLPointCloud2 { PCLHeader header; };
struct Vertices { std::vector<uint32_t> vertices; };
struct PolygonMesh { typedef boost::shared_ptr<PolygonMesh> Ptr; PCLHeader header; PCLPointCloud2 cloud; std::vector<Vertices> polygons; };
template <class P>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  PCLHeader header;
  std::vector<P> points;
  uint32_t width, height;
  bool is_dense;
  typedef typename std::vector<P>::iterator iterator;
  typedef typename std::vector<P>::const_iterator const_iterator;
  PointCloud() : width(0), height(0), is_dense(true) {}
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void push_back(const P& p) { points.push_back(p); }
  iterator erase(iterator p) { return points.erase(p); }
  iterator erase(iterator a, iterator b) { return points.erase(a, b); }
  void reserve(size_t n) { points.reserve(n); }
  void clear() { points.clear(); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  PointCloud& operator+=(const PointCloud& o) { points.insert(points.end(), o.points.begin(), o.points.end()); return *this; }
  Ptr makeShared() const { return Ptr(new PointCloud<P>(*this)); }
};
template <class P> void fromPCLPointCloud2(const PCLPointCloud2&, PointCloud<P>&) {}
}
