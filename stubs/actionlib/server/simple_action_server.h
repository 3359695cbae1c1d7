#pragma once
#include <std_msgs/Empty.h>
#include <string>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/ros.h>
namespace actionlib
{
template <class A>
class SimpleActionServer
{
public:
  typedef typename A::Goal Goal;
  typedef typename A::Result Result;
  typedef typename A::Feedback Feedback;
  typedef boost::shared_ptr<const Goal> GoalConstPtr;
  SimpleActionServer(ros::NodeHandle, std::string, bool) {}
  SimpleActionServer(ros::NodeHandle, std::string, boost::function<void(const GoalConstPtr&)>, bool) {}
  void registerGoalCallback(boost::function<void()>) {}
  void registerPreemptCallback(boost::function<void()>) {}
  void start() {}
  void shutdown() {}
  bool isActive() { return false; }
  bool isNewGoalAvailable() { return false; }
  bool isPreemptRequested() { return false; }
  GoalConstPtr acceptNewGoal() { return GoalConstPtr(); }
  void setSucceeded(const Result& = Result(), const std::string& = std::string()) {}
  void setAborted(const Result& = Result(), const std::string& = std::string()) {}
  void setPreempted(const Result& = Result(), const std::string& = std::string()) {}
  void publishFeedback(const Feedback&) {}
  void publishFeedback(const boost::shared_ptr<const Feedback>&) {}
};
}
