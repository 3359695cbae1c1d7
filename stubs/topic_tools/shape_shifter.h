#pragma once
#include <ros/ros.h>
namespace topic_tools { class ShapeShifter { public:
  typedef boost::shared_ptr<ShapeShifter> Ptr; typedef boost::shared_ptr<ShapeShifter const> ConstPtr;
  ros::Publisher advertise(ros::NodeHandle& nh, const std::string& t, uint32_t, bool = false) const { return ros::Publisher(nh.resolveName(t)); } }; }
