#pragma once
namespace ros { namespace console {
inline void log(const char*, ...) {}
void ros_assert(bool);
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const char*, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
inline void ros_assert(bool) {}
} }
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define ROS_STUB_LOG(...) ::ros::console::log(__VA_ARGS__)
#define ROS_DEBUG(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_INFO(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_WARN(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_ERROR(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_FATAL(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_DEBUG_ONCE ROS_DEBUG
#define ROS_INFO_ONCE ROS_INFO
#define ROS_WARN_ONCE ROS_WARN
#define ROS_ERROR_ONCE ROS_ERROR
#define ROS_DEBUG_THROTTLE(r, ...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_ERROR_STREAM_THROTTLE(r, x) do { } while (0)
#define ROS_INFO_STREAM(x) do { } while (0)
#define ROS_WARN_STREAM(x) do { } while (0)
#define ROS_ERROR_STREAM(x) do { } while (0)
#define ROS_ASSERT(c) ::ros::console::ros_assert(static_cast<bool>(c))
#define ROS_ASSERT_MSG(c, ...) ::ros::console::ros_assert(static_cast<bool>(c))
#define ROS_BREAK() ::ros::console::ros_assert(false)
