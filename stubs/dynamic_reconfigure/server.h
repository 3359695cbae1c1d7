#pragma once
#include <boost/function.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <ros/ros.h>
namespace dynamic_reconfigure
{
template <class C>
class Server
{
public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& = ros::NodeHandle("~")) {}
  Server(boost::recursive_mutex&, const ros::NodeHandle& = ros::NodeHandle("~")) {}
  void setCallback(const CallbackType& cb) { C c; cb(c, ~0u); }
  void updateConfig(const C&) {}
};
}
