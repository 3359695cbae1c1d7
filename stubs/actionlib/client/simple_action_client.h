#pragma once
#include <string>
#include <boost/function.hpp>
#include <ros/ros.h>
namespace actionlib
{
class SimpleClientGoalState
{
public:
  enum StateEnum { PENDING, ACTIVE, RECALLED, REJECTED, PREEMPTED, ABORTED, SUCCEEDED, LOST };
  StateEnum state_;
  SimpleClientGoalState(const StateEnum& s) : state_(s) {}
  bool operator==(const SimpleClientGoalState& r) const { return state_ == r.state_; }
  bool operator==(const StateEnum& r) const { return state_ == r; }
  bool operator!=(const StateEnum& r) const { return state_ != r; }
  bool isDone() const { return false; }
};
template <class A>
class SimpleActionClient
{
public:
  SimpleActionClient(const std::string&, bool = true) {}
  void sendGoal(const typename A::Goal&) {}
  void cancelAllGoals() {}
  void cancelGoal() {}
  bool isServerConnected() const { return true; }
  SimpleClientGoalState getState() const { return SimpleClientGoalState(SimpleClientGoalState::LOST); }
};
}
