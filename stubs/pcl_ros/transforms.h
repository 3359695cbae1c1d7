#pragma once
#include <pcl/common/transforms.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
namespace tf2 { }
