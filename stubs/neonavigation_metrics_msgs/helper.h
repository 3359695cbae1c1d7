#pragma once
#include <string>
#include <vector>
#include <neonavigation_metrics_msgs/Metrics.h>
namespace neonavigation_metrics_msgs
{
inline Metric metric(const std::string& n, const double v, const std::string& u, const std::vector<std::string>& t = std::vector<std::string>())
{ Metric m; m.name = n; m.value = v; m.unit = u; m.tags = t; return m; }
inline Metric metric(const ros::Time& s, const std::string& n, const double v, const std::string& u, const std::vector<std::string>& t = std::vector<std::string>())
{ Metric m; m.stamp = s; m.name = n; m.value = v; m.unit = u; m.tags = t; return m; }
}
