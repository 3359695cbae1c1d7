#pragma once
#include <vector>
#include <functional>
#include <geometry_msgs/TransformStamped.h>
namespace tf2_ros { class StaticTransformBroadcaster { public:
  static std::function<void(const geometry_msgs::TransformStamped&)>& stub() { static std::function<void(const geometry_msgs::TransformStamped&)> f; return f; }
  void sendTransform(const geometry_msgs::TransformStamped& t) { if (stub()) stub()(t); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>&) {} }; }
