#pragma once
#include <nav_msgs/GetMap.h>
enum MapMode { TRINARY, SCALE, RAW };
namespace map_server { inline void loadMapFromFile(nav_msgs::GetMap::Response*, const char*, double, bool, double, double, double*, MapMode = TRINARY) {} }
