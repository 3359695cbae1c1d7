#pragma once
#include <functional>
#include <string>
#include <ros/ros.h>
#include <tf2/LinearMath/Transform.h>
#include <geometry_msgs/TransformStamped.h>
namespace tf2_ros
{
class BufferInterface {};
class Buffer : public BufferInterface
{
public:
  std::function<geometry_msgs::TransformStamped(const std::string&, const std::string&, const ros::Time&)> stub_lookup;
  Buffer(ros::Duration = ros::Duration(10.0), bool = false) {}
  geometry_msgs::TransformStamped lookupTransform(
      const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration = ros::Duration(0.0)) const
  {
    if (!stub_lookup) throw tf2::LookupException("no transform");
    return stub_lookup(target, source, t);
  }
  geometry_msgs::TransformStamped lookupTransform(
      const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time&,
      const std::string&, const ros::Duration = ros::Duration(0.0)) const
  {
    if (!stub_lookup) throw tf2::LookupException("no transform");
    return stub_lookup(target, source, tt);
  }
  bool canTransform(const std::string&, const std::string&, const ros::Time&, const ros::Duration = ros::Duration(0.0), std::string* = nullptr) const { return true; }
  template <class T> T transform(const T& in, const std::string&, ros::Duration = ros::Duration(0.0)) const { return in; }
  void clear() {}
  void setUsingDedicatedThread(bool) {}
};
}
