TT = 'trajectory_tracker/include/trajectory_tracker/'
BBF = 'planner_cspace/src/costmap_bbf.cpp'
HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <vector>
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); exit(1); } } while (0)
#define NEAR(a, b) CHECK(std::abs((a) - (b)) < 1e-4)
'''
CTL = HEAD + '#include <trajectory_tracker/basic_control.h>\nusing namespace trajectory_tracker;\n'
MAP = HEAD + r'''
#include <planner_cspace/bbf.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
using V3 = CyclicVecInt<3, 2>;
static int want(CostmapBBFImpl& b, int x, int y)
{
  int r = -1;
  b.forEach([&](const V3& p, bbf::BinaryBayesFilter& f) { if (p[0] == x && p[1] == y) r = std::lround(f.getNormalizedProbability() * 100.0); });
  return r;
}
static void same(CostmapBBFImpl& b, int w, int h)
{
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
      CHECK(b.getCost(V3(x, y, 0)) == want(b, x, y));
}
'''
SEEDS = [
    dict(id='t01-limit-from-rest', property='T01', edits=[(TT + 'basic_control.h', '''    else if (v < val_prev_ - dt * acc)
      v = val_prev_ - dt * acc;''', '''    else if (v < val_prev_ - dt * acc && (v >= 0 || val_prev_ <= 0))
      v = val_prev_ - dt * acc;''')],
         needs='a request of the opposite sign while the held value is still positive', breaks='the velocity jumps through zero faster than the acceleration limit',
         demo=CTL + r'''
int main()
{
  VelAccLimitter l;
  l.set(1.0, 10.0, 100.0, 1.0);
  NEAR(l.set(-1.0, 10.0, 0.5, 1.0), 0.5);
  NEAR(l.set(0.0, 10.0, 0.5, 1.0), 0.0);
  NEAR(l.set(-1.0, 10.0, 0.5, 1.0), -0.5);
}
'''),
    dict(id='t01-nonfinite-held', property='T01', edits=[(TT + 'basic_control.h', '''    if (!std::isfinite(v))
      v = 0;

    val_prev_ = v;
    return v;''', '''    val_prev_ = v;
    if (!std::isfinite(v))
      v = 0;

    return v;''')],
         needs='a non-finite request followed by any other one', breaks='the limiter holds a non-finite value and every later output is zero',
         demo=CTL + r'''
int main()
{
  VelAccLimitter l;
  NEAR(l.set(std::numeric_limits<float>::quiet_NaN(), 1.0, 1.0, 1.0), 0);
  NEAR(l.get(), 0);
  NEAR(l.set(0.5, 1.0, 1.0, 1.0), 0.5);
}
'''),
    dict(id='t03-angle-turns', property='T03', edits=[(TT + 'filter.h', 'in = out_ + remainder(in - out_, M_PI * 2.0);', """const float diff = in - out_;
      if (diff > M_PI)
        in -= M_PI * 2.0;
      else if (diff < -M_PI)
        in += M_PI * 2.0;""")],
         needs='angle mode with the held output more than one and a half turns from the input', breaks='the input is not brought next to the held output, which then swings through whole turns',
         demo=HEAD + r'''
#include <trajectory_tracker/filter.h>
int main()
{
  trajectory_tracker::Filter f(trajectory_tracker::Filter::FILTER_LPF, 5.0, 3.1, true);
  for (int i = 0; i < 20; ++i)
    f.in(-3.1);
  CHECK(std::abs(f.get() - 3.18) < 0.05);
  f.set(4 * M_PI);
  NEAR(f.in(0), 4 * M_PI);
}
'''),
    dict(id='t03-set-output-only', property='T03', edits=[(TT + 'filter.h', '''  void set(const float& out0)
  {
    x_ = (1 - k_[2]) * out0 / k_[3];
    out_ = out0;''', '''  void set(const float& out0)
  {
    x_ += (out0 - out_) / k_[3];
    out_ = out0;''')],
         needs='a filter that is set again after construction and then fed', breaks='the filter does not stay at the value it was set to',
         demo=HEAD + r'''
#include <trajectory_tracker/filter.h>
int main()
{
  trajectory_tracker::Filter f(trajectory_tracker::Filter::FILTER_LPF, 5.0, 1.0);
  f.in(1.0);
  f.set(3.0);
  NEAR(f.get(), 3.0);
  NEAR(f.in(3.0), 3.0);
}
'''),
    dict(id='t04-foot-at-end', property='T04', edits=[(TT + 'eigen_line.h', 'if ((a - b).dot(c - b) <= 0)', 'if ((b - a).dot(c - a) >= (b - a).norm() * (c - a).norm())')],
         needs='a point beyond the end of the segment and off its line', breaks='the distance to the extended line is returned instead of the distance to the end point',
         demo=HEAD + r'''
#include <trajectory_tracker/eigen_line.h>
using V = Eigen::Vector2d;
using namespace trajectory_tracker;
int main()
{
  NEAR(lineStripDistance(V(0, 0), V(1, 0), V(0.5, 2)), 2);
  NEAR(lineStripDistance(V(0, 0), V(1, 0), V(4, 0)), 3);
  NEAR(lineStripDistance(V(0, 0), V(1, 0), V(4, 4)), 5);
}
'''),
    dict(id='o01-unknown-start', property='O01', edits=[('track_odometry/include/track_odometry/kalman_filter1.h', '''      return;
    }
    double kt''', '''    }
    double kt''')],
         needs='the first measurement of a filter whose deviation is unknown', breaks='the first measurement is fused with itself and its deviation halves',
         demo=HEAD + r'''
#include <track_odometry/kalman_filter1.h>
int main()
{
  track_odometry::KalmanFilter1 k;
  k.measure(2.0, 0.5);
  NEAR(k.x_, 2.0);
  NEAR(k.sigma_, 0.5);
}
'''),
    dict(id='o01-gain-first-order', property='O01', edits=[('track_odometry/include/track_odometry/kalman_filter1.h', 'double kt = sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in);',
                                                            'double kt = sigma_ / (sigma_ + sigma_in * sigma_in / std::max(sigma_, sigma_in));'),
                                                           ('track_odometry/include/track_odometry/kalman_filter1.h', '#include <limits>', '#include <algorithm>\n#include <limits>')],
         needs='a measurement less certain than the estimate', breaks='the gain is not the Kalman gain when the measurement deviates more than the estimate',
         demo=HEAD + r'''
#include <track_odometry/kalman_filter1.h>
int main()
{
  track_odometry::KalmanFilter1 a(0.0, 1.0);
  a.measure(10.0, 1.0);
  NEAR(a.x_, 5.0);
  track_odometry::KalmanFilter1 k(0.0, 1.0);
  k.measure(10.0, 3.0);
  NEAR(k.x_, 1.0);
  NEAR(k.sigma_, 0.9);
}
'''),
    dict(id='p07-window-reset', property='P07', edits=[(BBF, '''  updated_max_ = VecInternal(
      std::max(updated_max_[0], std::min(size_[0] - 1, center[0] + range_max)),
      std::max(updated_max_[1], std::min(size_[1] - 1, center[1] + range_max)));''', '''  updated_max_ = VecInternal(
      std::max(updated_max_[0], std::min(size_[0] - 1, updated_min_[0] + 2 * range_max)),
      std::max(updated_max_[1], std::min(size_[1] - 1, updated_min_[1] + 2 * range_max)));''')],
         needs='two observations at different centers before one refresh', breaks='cells updated by the second observation keep their old cost',
         srcs=[BBF], demo=MAP + r'''
int main()
{
  CostmapBBFImpl b;
  const V3 size(12, 9, 2);
  b.reset(size);
  b.clear();
  BlockMemGridmap<char, 3, 2, 0x20> cm(size);
  cm.clear(0);
  cm[V3(3, 3, 0)] = 100;
  cm[V3(10, 8, 0)] = 100;
  b.remember(&cm, V3(3, 3, 0), 3.0, 0.7, 0, 2);
  b.updateCostmap();
  same(b, 12, 9);
  b.remember(&cm, V3(3, 3, 0), 3.0, 0.7, 0, 2);
  b.remember(&cm, V3(9, 7, 0), 3.0, 0.7, 0, 3);
  b.updateCostmap();
  same(b, 12, 9);
}
'''),
    dict(id='p07-inner-range-miss', property='P07', edits=[(BBF, '''      if (c == 100)
      {
        if (r_sq >= range_min_sq)
        {
          cm_hist_bbf_[gp].update(remember_hit_odds);
        }
      }
      else''', '''      if (c == 100 && r_sq >= range_min_sq)
      {
        cm_hist_bbf_[gp].update(remember_hit_odds);
      }
      else''')],
         needs='a lethal cell nearer than the inner range', breaks='obstacles close to the robot are erased from the remembered map',
         srcs=[BBF], demo=MAP + r'''
int main()
{
  CostmapBBFImpl b;
  const V3 size(12, 9, 2);
  b.reset(size);
  b.clear();
  BlockMemGridmap<char, 3, 2, 0x20> cm(size);
  cm.clear(0);
  cm[V3(5, 4, 0)] = 100;
  for (int i = 0; i < 3; ++i)
    b.remember(&cm, V3(4, 4, 0), 5.0, 0.5, 0, 2);
  b.updateCostmap();
  const int before = b.getCost(V3(5, 4, 0));
  CHECK(before > 50);
  b.remember(&cm, V3(4, 4, 0), 5.0, 0.5, 2, 3);
  b.updateCostmap();
  CHECK(b.getCost(V3(5, 4, 0)) == before);
}
'''),
    dict(id='p07-clamp-low', property='P07', edits=[('planner_cspace/include/planner_cspace/bbf.h', '''    odds_ *= odds;
    if (odds_ < MIN_ODDS)''', '''    odds_ *= odds;
    if (odds < 1.0f && odds_ < MIN_ODDS)''')],
         needs='odds constructed below the lower bound and then a small hit', breaks='the held odds leave the bounds',
         demo=HEAD + r'''
#include <planner_cspace/bbf.h>
using namespace planner_cspace::bbf;
int main()
{
  BinaryBayesFilter f(0.0f);
  CHECK(f.update(2.0f) >= MIN_ODDS);
  BinaryBayesFilter g(1.0f);
  g.update(0.001f);
  NEAR(g.get(), MIN_ODDS);
  g.update(2.0f);
  NEAR(g.get(), 2 * MIN_ODDS);
}
'''),
]
