#pragma once
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
namespace laser_geometry { class LaserProjection { public:
  void projectLaser(const sensor_msgs::LaserScan&, sensor_msgs::PointCloud2&, double = -1.0, int = 0) {} }; }
