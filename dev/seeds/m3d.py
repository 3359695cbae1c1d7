import os
exec(open(os.path.join('/verif/dev/seeds', 'core.py')).read().split('SEEDS = []')[0])
FILES = {
    'ros/ros.h': r'''
#pragma once
#include <cassert>
#include <cstdio>
#include <cstdint>
#define ROS_INFO(...) do { } while (0)
#define ROS_WARN(...) do { } while (0)
#define ROS_ERROR(...) do { } while (0)
#define ROS_DEBUG(...) do { } while (0)
#define ROS_ASSERT(x) assert(x)
#define ROS_ASSERT_MSG(x, ...) assert(x)
''',
    'costmap_cspace_msgs/MapMetaData3D.h': r'''
#pragma once
#include <cstdint>
namespace costmap_cspace_msgs
{
struct MapMetaData3D
{
  uint32_t width = 0, height = 0, angle = 0;
  float linear_resolution = 0, angular_resolution = 0;
};
}  // namespace costmap_cspace_msgs
''',
}
SRCS = ['planner_cspace/src/' + f for f in ('grid_astar_model_3dof.cpp', 'motion_cache.cpp', 'motion_primitive_builder.cpp', 'rotation_cache.cpp')]
M3 = 'planner_cspace/src/grid_astar_model_3dof.cpp'
MC = 'planner_cspace/src/motion_cache.cpp'
WORLD = HEAD + r'''
#include <memory>
#include <cmath>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/motion_cache.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
using namespace planner_cspace::planner_3d;
using Vec = CyclicVecInt<3, 2>;
using Vecf = CyclicVecFloat<3, 2>;
struct World
{
  static const int W = 40, ANG = 16, RANGE = 5;
  BlockMemGridmap<char, 3, 2, 0x20> cm, hyst, rough;
  BlockMemGridmap<float, 3, 2, 0x20> estim;
  CostCoeff cc;
  costmap_cspace_msgs::MapMetaData3D info;
  Vecf ec;
  std::unique_ptr<GridAstarModel3D> m;
  World()
  {
    info.width = info.height = W;
    info.angle = ANG;
    info.linear_resolution = 0.1;
    info.angular_resolution = M_PI * 2 / ANG;
    cm.reset(Vec(W, W, ANG));
    hyst.reset(Vec(W, W, ANG));
    rough.reset(Vec(W, W, 1));
    estim.reset(Vec(W, W, 1));
    cm.clear(0);
    hyst.clear(0);
    rough.clear(0);
    estim.clear(0);
    memset(&cc, 0, sizeof(cc));
    cc.weight_decel_ = 50;
    cc.weight_backward_ = 0.9;
    cc.weight_costmap_ = 50;
    cc.weight_costmap_turn_ = 10;
    cc.weight_costmap_turn_heuristics_ = 5;
    cc.weight_hysteresis_ = 5;
    cc.in_place_turn_ = 30;
    cc.min_curve_radius_ = 0.1;
    cc.max_vel_ = 0.3;
    cc.max_ang_vel_ = 0.6;
    cc.angle_resolution_aspect_ = 1;
    ec = Vecf(1 / cc.max_vel_ * 0.1f, 1 / cc.max_vel_ * 0.1f, 1 / cc.max_ang_vel_ * info.angular_resolution);
    m.reset(new GridAstarModel3D(info, ec, 30, estim, cm, hyst, rough, cc, RANGE));
  }
  float cost(Vec a, Vec b)
  {
    return m->cost(a, b, std::vector<GridAstarModelBase<3, 2>::VecWithCost>(), b);
  }
};
'''


def mk(i, prop, edits, needs, breaks, demo):
    return dict(id=i, property=prop, edits=edits, needs=needs, breaks=breaks, demo=WORLD + demo, files=FILES, srcs=SRCS)


SEEDS = [
    mk('p09-turn-last-cell', 'P09', [(M3, '''    for (int i = 0; i < std::abs(d[2]); i++)
    {
      const auto c = cm_[pos];
      if (c > 99)
        return -1;
''', '''    for (int i = 0; i < std::abs(d[2]); i++)
    {
      const auto c = cm_[pos];
      if (c > 99 && i + 1 < std::abs(d[2]))
        return -1;
''')], 'a turn on the spot whose only forbidden heading is the last one before the end heading',
       'The turn sweeps through a forbidden heading and is still offered with a cost.', r'''
int main()
{
  World w;
  for (int from = 0; from < World::ANG; ++from)
    for (int turn = -7; turn <= 7; ++turn)
    {
      if (!turn)
        continue;
      const int to = (from + turn + World::ANG) % World::ANG;
      CHECK(w.cost(Vec(20, 20, from), Vec(20, 20, to)) > 0);
      for (int k = 0; k <= std::abs(turn); ++k)
      {
        const Vec c(20, 20, (from + (turn < 0 ? -k : k) + World::ANG) % World::ANG);
        w.cm[c] = 100;
        CHECK(w.cost(Vec(20, 20, from), Vec(20, 20, to)) < 0);
        w.cm[c] = 0;
      }
    }
}
'''),
    mk('p09-curve-hysteresis', 'P09', [(M3, '''        const auto c = cm_[pos];
        if (c > 99)
          return -1;
        if (c >= cc_.turn_penalty_cost_threshold_)
        {
          sum_turn += c;
        }
        sum += c;

        if (hysteresis_)
          sum_hyst += cm_hyst_[pos];
''', '''        const auto c = cm_[pos];
        if (hysteresis_)
        {
          // cells next to the previous path were checked when it was made
          const auto h = cm_hyst_[pos];
          sum_hyst += h;
          if (h > 0 && c > 99)
            return -1;
        }
        else if (c > 99)
        {
          return -1;
        }
        if (c >= cc_.turn_penalty_cost_threshold_)
        {
          sum_turn += c;
        }
        sum += c;
''')], 'hysteresis enabled, a curve that follows the previous path (zero hysteresis cost) and a new obstacle on it',
       'A curve through a forbidden cell is accepted while it follows the previous path.', r'''
int main()
{
  World w;
  for (int hyst = 0; hyst < 2; ++hyst)
  {
    w.m->enableHysteresis(hyst);
    MotionCache mc;
    mc.reset(w.info.linear_resolution, w.info.angular_resolution, World::RANGE, w.cm.getAddressor(), 0.5, 0.1);
    int n = 0;
    for (const Vec& g : {Vec(4, 2, 2), Vec(4, -2, 14), Vec(4, 1, 1)})
    {
      const Vec a(20, 20, 0);
      const Vec b(20 + g[0], 20 + g[1], g[2]);
      CHECK(w.cost(a, b) > 0);
      for (const Vec& p : mc.find(0, g)->second.getMotion())
      {
        const Vec c(20 + p[0], 20 + p[1], p[2]);
        w.cm[c] = 100;
        CHECK(w.cost(a, b) < 0);
        w.cm[c] = 0;
        ++n;
      }
    }
    CHECK(n > 8);
  }
}
'''),
    mk('p09-estimate-wrap', 'P09', [(M3, '''  while (diff < -static_cast<int>(map_info_.angle) / 2)
    diff += static_cast<int>(map_info_.angle);

  cost += euclid_cost_coef_[2] * std::abs(diff);''', '''  if (diff < -static_cast<int>(map_info_.angle) / 2)
    diff = -diff - static_cast<int>(map_info_.angle) / 2;

  cost += euclid_cost_coef_[2] * std::abs(diff);''')], 'a current heading more than half a turn below the goal heading',
       'The estimate counts the wrong remaining turn and can exceed the true cost.', r'''
int main()
{
  World w;
  for (int a = 0; a < World::ANG; ++a)
    for (int b = 0; b < World::ANG; ++b)
    {
      const int d = std::min(std::abs(a - b), World::ANG - std::abs(a - b));
      const float e = w.m->costEstim(Vec(10, 10, a), Vec(20, 20, b));
      CHECK(std::abs(e - d * w.ec[2]) < 1e-3);
    }
}
'''),
    mk('p09-stale-lin-cache', 'P09', [(M3, '''  euclid_cost_coef_ = euclid_cost_coef;
  cc_ = cc;
  local_range_ = local_range;
  createEuclidCostCache();
''', '''  const bool same = euclid_cost_coef_[2] == euclid_cost_coef[2] && local_range_ == local_range && !motion_primitives_.empty();
  euclid_cost_coef_ = euclid_cost_coef;
  cc_ = cc;
  local_range_ = local_range;
  if (!same)
    createEuclidCostCache();
''')], 'a reconfiguration that changes the cost per distance but neither the cost per angle nor the local range',
       'Short motions keep the old distance cost after the coefficients are changed.', r'''
int main()
{
  World w;
  const float before = w.cost(Vec(20, 20, 0), Vec(23, 20, 0));
  Vecf ec = w.ec;
  ec[0] *= 2;
  ec[1] *= 2;
  w.m->updateCostParameters(ec, w.cc, 30);
  const float after = w.cost(Vec(20, 20, 0), Vec(23, 20, 0));
  CHECK(std::abs(after - 2 * before) < 1e-3);
}
'''),
]
