#pragma once
#include <boost/function.hpp>
#include <visualization_msgs/InteractiveMarker.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
namespace interactive_markers { class InteractiveMarkerServer { public:
  typedef boost::function<void(const visualization_msgs::InteractiveMarkerFeedbackConstPtr&)> FeedbackCallback;
  explicit InteractiveMarkerServer(const std::string&) {}
  void clear() {}
  void insert(const visualization_msgs::InteractiveMarker&, FeedbackCallback) {}
  void applyChanges() {} }; }
