#pragma once
#include <pcl/point_types.h>
namespace pcl { namespace io {
template <class P> int loadPCDFile(const std::string&, PointCloud<P>&) { return -1; }
inline int loadPolygonFileOBJ(const std::string&, PolygonMesh&) { return -1; }
} }
