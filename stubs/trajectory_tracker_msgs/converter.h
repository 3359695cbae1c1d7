#pragma once
#include <limits>
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace trajectory_tracker_msgs
{
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const double vel)
{
  PathWithVelocity dst; dst.header = src.header;
  for (const auto& p : src.poses)
  { PoseStampedWithVelocity q; q.header = p.header; q.pose = p.pose; q.linear_velocity.x = vel; dst.poses.push_back(q); }
  return dst;
}
}
