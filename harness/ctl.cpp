// instantiates the header-only control helpers and composes them into the call sequences the analysis summarises
#include <trajectory_tracker/average.h>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/eigen_line.h>
#include <trajectory_tracker/filter.h>
template class trajectory_tracker::Average<float>;
template class trajectory_tracker::Average<double>;

namespace nn_harness
{
using trajectory_tracker::Average;
using trajectory_tracker::Filter;
using trajectory_tracker::VelAccLimitter;

// filters: the answers to one and two inputs after construction or after being set
float lpf_init(const float tc, const float o)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  return f.get();
}
float lpf_one(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  return f.in(a);
}
float lpf_two(const float tc, const float o, const float a, const float b)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  f.in(a);
  return f.in(b);
}
float lpf_three(const float tc, const float o, const float a, const float b, const float c)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  f.in(a);
  f.in(b);
  return f.in(c);
}
float lpf_get(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  f.in(a);
  return f.get();
}
float lpf_set_get(const float tc, const float o, const float a, const float s)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  f.in(a);
  f.set(s);
  return f.get();
}
float lpf_set_two(const float tc, const float o, const float z, const float s, const float a, const float b)
{
  Filter f(Filter::FILTER_LPF, tc, o);
  f.in(z);
  f.set(s);
  f.in(a);
  return f.in(b);
}
float hpf_init(const float tc, const float o)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  return f.get();
}
float hpf_one(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  return f.in(a);
}
float hpf_two(const float tc, const float o, const float a, const float b)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  f.in(a);
  return f.in(b);
}
float hpf_three(const float tc, const float o, const float a, const float b, const float c)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  f.in(a);
  f.in(b);
  return f.in(c);
}
float hpf_get(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  f.in(a);
  return f.get();
}
float hpf_set_get(const float tc, const float o, const float a, const float s)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  f.in(a);
  f.set(s);
  return f.get();
}
float hpf_set_two(const float tc, const float o, const float z, const float s, const float a, const float b)
{
  Filter f(Filter::FILTER_HPF, tc, o);
  f.in(z);
  f.set(s);
  f.in(a);
  return f.in(b);
}
float ang_init(const float tc, const float o)
{
  Filter f(Filter::FILTER_LPF, tc, o, true);
  return f.get();
}
float ang_one(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_LPF, tc, o, true);
  return f.in(a);
}
float ang_two(const float tc, const float o, const float a, const float b)
{
  Filter f(Filter::FILTER_LPF, tc, o, true);
  f.in(a);
  return f.in(b);
}
float ang_set_one(const float tc, const float o, const float z, const float s, const float a)
{
  Filter f(Filter::FILTER_LPF, tc, o, true);
  f.in(z);
  f.set(s);
  return f.in(a);
}
float hang_one(const float tc, const float o, const float a)
{
  Filter f(Filter::FILTER_HPF, tc, o, true);
  return f.in(a);
}

// running average
float avg_none()
{
  Average<float> m;
  return m;
}
float avg_one(const float a)
{
  Average<float> m;
  m += a;
  return m;
}
float avg_two(const float a, const float b)
{
  Average<float> m;
  m += a;
  m += b;
  return m;
}
float avg_four(const float a, const float b, const float c, const float d)
{
  Average<float> m;
  m += a;
  m += b;
  m += c;
  m += d;
  return m;
}
float avg_three(const float a, const float b, const float c)
{
  Average<float> m;
  m += a;
  m += b;
  m += c;
  return m;
}

// limiter: p is any value it may hold
float lim_first(const float v, const float vel, const float acc, const float dt)
{
  VelAccLimitter l;
  return l.set(v, vel, acc, dt);
}
float lim_ret(VelAccLimitter& l, const float v, const float vel, const float acc, const float dt)
{
  return l.set(v, vel, acc, dt);
}
float lim_get(VelAccLimitter& l)
{
  return l.get();
}
float lim_set_get(VelAccLimitter& l, const float v, const float vel, const float acc, const float dt)
{
  l.set(v, vel, acc, dt);
  return l.get();
}
float lim_incr(VelAccLimitter& l, const float v, const float vel, const float acc, const float dt)
{
  return l.increment(v, vel, acc, dt);
}
float lim_incr_get(VelAccLimitter& l, const float v, const float vel, const float acc, const float dt)
{
  l.increment(v, vel, acc, dt);
  return l.get();
}
float lim_clear(VelAccLimitter& l)
{
  l.clear();
  return l.get();
}
}  // namespace nn_harness
