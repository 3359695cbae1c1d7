#pragma once
// Stand-in for roscpp time types: enough to type-check (and, for demonstrations, run) /repo's nodes.
#include <cmath>
#include <cstdint>
namespace ros
{
template <class T>
class DurationBase
{
public:
  int32_t sec, nsec;
  DurationBase() : sec(0), nsec(0) {}
  DurationBase(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit DurationBase(double t) { fromSec(t); }
  T operator+(const T& r) const { return T(toSec() + r.toSec()); }
  T operator-(const T& r) const { return T(toSec() - r.toSec()); }
  T operator-() const { return T(-toSec()); }
  T operator*(double s) const { return T(toSec() * s); }
  T& operator+=(const T& r) { fromSec(toSec() + r.toSec()); return static_cast<T&>(*this); }
  T& operator-=(const T& r) { fromSec(toSec() - r.toSec()); return static_cast<T&>(*this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < static_cast<const T&>(*this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
  double toSec() const { return sec + 1e-9 * nsec; }
  int64_t toNSec() const { return sec * 1000000000LL + nsec; }
  T& fromSec(double t)
  {
    double s = std::floor(t);
    sec = static_cast<int32_t>(s);
    nsec = static_cast<int32_t>(std::lround((t - s) * 1e9));
    if (nsec >= 1000000000) { nsec -= 1000000000; sec++; }
    return static_cast<T&>(*this);
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { return true; }
};
class Duration : public DurationBase<Duration>
{
public:
  using DurationBase<Duration>::DurationBase;
  Duration() {}
};
class WallDuration : public DurationBase<WallDuration>
{
public:
  using DurationBase<WallDuration>::DurationBase;
  WallDuration() {}
};
template <class T, class D>
class TimeBase
{
public:
  uint32_t sec, nsec;
  TimeBase() : sec(0), nsec(0) {}
  TimeBase(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit TimeBase(double t) { fromSec(t); }
  D operator-(const T& r) const
  {
    int64_t ns = static_cast<int64_t>(toNSec()) - static_cast<int64_t>(r.toNSec());
    int64_t s = ns / 1000000000LL, n = ns % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    return D(static_cast<int32_t>(s), static_cast<int32_t>(n));
  }
  T operator+(const D& r) const { T t; t.fromNSec(toNSec() + r.toNSec()); return t; }
  T operator-(const D& r) const { T t; t.fromNSec(toNSec() - r.toNSec()); return t; }
  T& operator+=(const D& r) { fromNSec(toNSec() + r.toNSec()); return static_cast<T&>(*this); }
  T& operator-=(const D& r) { fromNSec(toNSec() - r.toNSec()); return static_cast<T&>(*this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < static_cast<const T&>(*this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
  double toSec() const { return sec + 1e-9 * nsec; }
  uint64_t toNSec() const { return sec * 1000000000ULL + nsec; }
  T& fromNSec(uint64_t t) { sec = t / 1000000000ULL; nsec = t % 1000000000ULL; return static_cast<T&>(*this); }
  T& fromSec(double t) { return fromNSec(static_cast<uint64_t>(std::llround(t * 1e9))); }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
class Time : public TimeBase<Time, Duration>
{
public:
  using TimeBase<Time, Duration>::TimeBase;
  Time() {}
  static Time& stub_clock() { static Time t(1000, 0); return t; }
  static Time now() { return stub_clock(); }
  static bool isSimTime() { return false; }
  static bool isSystemTime() { return true; }
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool sleepUntil(const Time&) { return true; }
  static void setNow(const Time& t) { stub_clock() = t; }
};
class WallTime : public TimeBase<WallTime, WallDuration>
{
public:
  using TimeBase<WallTime, WallDuration>::TimeBase;
  WallTime() {}
  static WallTime now() { return WallTime(); }
};
class Rate
{
public:
  explicit Rate(double hz) : d_(1.0 / hz) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { return true; }
  void reset() {}
  Duration expectedCycleTime() const { return d_; }
  Duration cycleTime() const { return d_; }
private:
  Duration d_;
};
}  // namespace ros
