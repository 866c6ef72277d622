#ifndef SIMROS_TIME_H
#define SIMROS_TIME_H
#include <stdint.h>
#include <cmath>
#include <stdexcept>
namespace ros {
// Same representation and range checks as rostime's ros::Time.
struct Duration { int32_t sec, nsec; Duration() : sec(0), nsec(0) {}
  explicit Duration(double d) { sec = (int32_t)std::floor(d); nsec = (int32_t)std::round((d - sec) * 1e9); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; } };
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t sec64 = (int64_t)std::floor(t);
    if (!(t >= 0) || sec64 < 0 || sec64 > (int64_t)UINT32_MAX)
      throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)sec64;
    nsec = (uint32_t)std::round((t - sec) * 1e9);
    sec += (nsec / 1000000000ul);
    nsec %= 1000000000ul;
    return *this;
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
  Duration operator-(const Time& o) const { return Duration(((double)toNSec() - (double)o.toNSec()) * 1e-9); }
  static Time now();                     // simulated clock
};
typedef Time WallTime;
}
#endif
