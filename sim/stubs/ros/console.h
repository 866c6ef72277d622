#ifndef SIMROS_CONSOLE_H
#define SIMROS_CONSOLE_H
#include <ostream>
#include <ros/time.h>
namespace simros {
std::ostream& LogStream();              // null stream unless SIM_LOG is set
void LogF(int level, const char* fmt, ...);
void LogCount(int level);               // 0 info 1 warn 2 error
}
#define SIMROS_LOG(l, x) do { ::simros::LogCount(l); ::simros::LogStream() << x << "\n"; } while (0)
#define SIMROS_ONCE(l, x) do { static bool _hit = false; if (!_hit) { _hit = true; SIMROS_LOG(l, x); } } while (0)
#define SIMROS_THR(l, r, x) do { static double _last = 0.0; double _n = ::ros::Time::now().toSec(); \
  if (_last + (r) <= _n || _n < _last) { _last = _n; SIMROS_LOG(l, x); } } while (0)
#define ROS_DEBUG_STREAM(x) SIMROS_LOG(0, x)
#define ROS_DEBUG_STREAM_ONCE(x) SIMROS_ONCE(0, x)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) SIMROS_THR(0, r, x)
#define ROS_DEBUG_STREAM_COND(c, x) do { if (c) SIMROS_LOG(0, x); } while (0)
#define ROS_DEBUG_STREAM_NAMED(n, x) SIMROS_LOG(0, x)
#define ROS_DEBUG(...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_DEBUG_ONCE(...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_DEBUG_THROTTLE(r, ...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) ::simros::LogF(0, __VA_ARGS__); } while (0)
#define ROS_DEBUG_NAMED(n, ...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_INFO_STREAM(x) SIMROS_LOG(0, x)
#define ROS_INFO_STREAM_ONCE(x) SIMROS_ONCE(0, x)
#define ROS_INFO_STREAM_THROTTLE(r, x) SIMROS_THR(0, r, x)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) SIMROS_LOG(0, x); } while (0)
#define ROS_INFO_STREAM_NAMED(n, x) SIMROS_LOG(0, x)
#define ROS_INFO(...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_INFO_ONCE(...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_INFO_COND(c, ...) do { if (c) ::simros::LogF(0, __VA_ARGS__); } while (0)
#define ROS_INFO_NAMED(n, ...) ::simros::LogF(0, __VA_ARGS__)
#define ROS_WARN_STREAM(x) SIMROS_LOG(1, x)
#define ROS_WARN_STREAM_ONCE(x) SIMROS_ONCE(1, x)
#define ROS_WARN_STREAM_THROTTLE(r, x) SIMROS_THR(1, r, x)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) SIMROS_LOG(1, x); } while (0)
#define ROS_WARN_STREAM_NAMED(n, x) SIMROS_LOG(1, x)
#define ROS_WARN(...) ::simros::LogF(1, __VA_ARGS__)
#define ROS_WARN_ONCE(...) ::simros::LogF(1, __VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) ::simros::LogF(1, __VA_ARGS__)
#define ROS_WARN_COND(c, ...) do { if (c) ::simros::LogF(1, __VA_ARGS__); } while (0)
#define ROS_WARN_NAMED(n, ...) ::simros::LogF(1, __VA_ARGS__)
#define ROS_ERROR_STREAM(x) SIMROS_LOG(2, x)
#define ROS_ERROR_STREAM_ONCE(x) SIMROS_ONCE(2, x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) SIMROS_THR(2, r, x)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) SIMROS_LOG(2, x); } while (0)
#define ROS_ERROR_STREAM_NAMED(n, x) SIMROS_LOG(2, x)
#define ROS_ERROR(...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_ERROR_ONCE(...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_ERROR_COND(c, ...) do { if (c) ::simros::LogF(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_NAMED(n, ...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_FATAL_STREAM(x) SIMROS_LOG(2, x)
#define ROS_FATAL_STREAM_ONCE(x) SIMROS_ONCE(2, x)
#define ROS_FATAL_STREAM_THROTTLE(r, x) SIMROS_THR(2, r, x)
#define ROS_FATAL_STREAM_COND(c, x) do { if (c) SIMROS_LOG(2, x); } while (0)
#define ROS_FATAL_STREAM_NAMED(n, x) SIMROS_LOG(2, x)
#define ROS_FATAL(...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_FATAL_ONCE(...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_FATAL_THROTTLE(r, ...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_FATAL_COND(c, ...) do { if (c) ::simros::LogF(2, __VA_ARGS__); } while (0)
#define ROS_FATAL_NAMED(n, ...) ::simros::LogF(2, __VA_ARGS__)
#define ROS_LOG_STREAM_THROTTLE(r, x) SIMROS_THR(0, r, x)
#define ROS_ASSERT(c) do { if (!(c)) __builtin_trap(); } while (0)
#endif
