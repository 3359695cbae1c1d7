// call sequences on the scalar Kalman filter the analysis summarises
#include <cmath>
#include <track_odometry/kalman_filter1.h>

namespace nn_harness
{
using track_odometry::KalmanFilter1;
double kf_default_x()
{
  KalmanFilter1 k;
  return k.x_;
}
double kf_default_sigma()
{
  KalmanFilter1 k;
  return k.sigma_;
}
double kf_init_x(const double x, const double s)
{
  KalmanFilter1 k(x, s);
  return k.x_;
}
double kf_init_sigma(const double x, const double s)
{
  KalmanFilter1 k(x, s);
  return k.sigma_;
}
double kf_set_x(KalmanFilter1& k, const double x, const double s)
{
  k.set(x, s);
  return k.x_;
}
double kf_set_sigma(KalmanFilter1& k, const double x, const double s)
{
  k.set(x, s);
  return k.sigma_;
}
double kf_clear_x(KalmanFilter1& k)
{
  k.set();
  return k.x_;
}
double kf_clear_sigma(KalmanFilter1& k)
{
  k.set();
  return k.sigma_;
}
double kf_predict_x(KalmanFilter1& k, const double x, const double s)
{
  k.predict(x, s);
  return k.x_;
}
double kf_predict_sigma(KalmanFilter1& k, const double x, const double s)
{
  k.predict(x, s);
  return k.sigma_;
}
double kf_measure_x(KalmanFilter1& k, const double x, const double s)
{
  k.measure(x, s);
  return k.x_;
}
double kf_measure_sigma(KalmanFilter1& k, const double x, const double s)
{
  k.measure(x, s);
  return k.sigma_;
}
double kf_now_x(const KalmanFilter1& k)
{
  return k.x_;
}
double kf_now_sigma(const KalmanFilter1& k)
{
  return k.sigma_;
}
}  // namespace nn_harness
