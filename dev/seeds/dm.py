import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from m3d import FILES
S = 'planner_cspace/src/'
D = S + 'distance_map.cpp'
DEMO = r'''
#include <omp.h>
#include <cmath>
#include <cstdio>
#include <limits>
#include <random>
#include <planner_cspace/planner_3d/distance_map.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
using Astar = GridAstar<3, 2>;
using V = Astar::Vec;
struct Fixture
{
  Astar::Gridmap<char, 0x80> rough, hyst;
  Astar::Gridmap<char, 0x40> cm;
  CostmapBBF::Ptr bbf;
  DistanceMap dm;
  Fixture(const int w, const int h, const int range)
    : bbf(new CostmapBBFNoOp()), dm(rough, bbf)
  {
    costmap_cspace_msgs::MapMetaData3D mi;
    mi.width = w;
    mi.height = h;
    mi.angle = 10;
    mi.linear_resolution = 1;
    mi.angular_resolution = M_PI * 2 / 10;
    CostCoeff cc;
    cc.weight_costmap_ = 1;
    cc.weight_remembered_ = 0;
    cc.angle_resolution_aspect_ = 2.0f / tanf(mi.angular_resolution);
    dm.setParams(cc, 16);
    const Astar::Vecf ec(0.5f, 0.5f, 0.2f);
    GridAstarModel3D::Ptr model(new GridAstarModel3D(mi, ec, range, dm.gridmap(), cm, hyst, rough, cc, 4));
    cm.reset(V(w, h, 10));
    hyst.reset(V(w, h, 10));
    rough.reset(V(w, h, 1));
    bbf->reset(V(w, h, 1));
    cm.clear(0);
    hyst.clear(0);
    rough.clear(0);
    DistanceMap::Params p;
    p.euclid_cost = ec;
    p.range = range;
    p.local_range = range;
    p.longcut_range = range;
    p.size = V(w, h, 1);
    p.resolution = 1;
    dm.init(model, p);
  }
};
// an incrementally updated map must agree with a map made anew up to the error of the rounding of long steps
int main()
{
  omp_set_num_threads(1);
  const float unknown = std::numeric_limits<float>::max();
  for (int seed = 0; seed < 120; seed++)
  {
    std::mt19937 rnd(seed);
    auto r = [&](const int n) { return static_cast<int>(rnd() % n); };
    const int range = RANGE;
    const int w = WIDTH, h = 6 + r(14);
    Fixture f(w, h, range);
    const V e(r(w), r(h), 0);
    V s(r(w), r(h), 0);
    const int density = r(60);
    auto cell = [&]() { return r(100) < density ? 100 : (r(4) ? 0 : r(100)); };
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++)
        f.rough[V(x, y, 0)] = cell();
    f.rough[e] = 0;
    f.dm.create(s, e);
    for (int k = 0; k < 6; k++)
    {
      V a(r(w), r(h), 0), b(r(w), r(h), 0);
      for (int i = 0; i < 2; i++)
        if (a[i] > b[i])
          std::swap(a[i], b[i]);
      for (int y = a[1]; y <= b[1]; y++)
        for (int x = a[0]; x <= b[0]; x++)
          if (!(x == e[0] && y == e[1]) && r(3))
            f.rough[V(x, y, 0)] = cell();
      if (r(2))
        s = V(r(w), r(h), 0);
      f.dm.update(s, e, DistanceMap::Rect(a, b));
      Fixture g(w, h, range);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          g.rough[V(x, y, 0)] = f.rough[V(x, y, 0)];
      g.dm.create(s, e);
      const float limit = g.dm[s];
      for (int y = 0; y < h; y++)
      {
        for (int x = 0; x < w; x++)
        {
          const float u = f.dm[V(x, y, 0)], v = g.dm[V(x, y, 0)];
          if (u == v || (range < 100 && (v == unknown || limit == unknown || v > limit + 1.5 * range - 1)))
            continue;
          if (std::abs(u - v) > 1.5)
          {
            printf("map %d update %d cell (%d, %d): %f instead of %f\n", seed, k, x, y, u, v);
            return 1;
          }
        }
      }
    }
  }
  return 0;
}
'''
SRCS = [S + f for f in ('distance_map.cpp', 'costmap_bbf.cpp', 'grid_astar_model_3dof.cpp', 'motion_cache.cpp', 'motion_primitive_builder.cpp', 'rotation_cache.cpp')]


def demo(rg, w):
    return DEMO.replace('RANGE', rg).replace('WIDTH', w)


SEEDS = [
    dict(id='p17-block-mark-next', property='P17', edits=[(D, 'edge_indexes.push_back(p[0] + p[1] * p_.size[0]);', 'edge_indexes.push_back(next[0] + next[1] * p_.size[0]);')],
         needs='a blocked step whose obstacle is removed later while the cell behind it is out of reach', breaks='the cell behind the obstacle is remembered instead of the one before it, so a reopened passage is never used',
         files=dict(FILES), srcs=SRCS, flags='-O2', demo=demo('100', '6 + r(20)')),
    dict(id='p17-start-left', property='P17', edits=[(D, 'if (g_[s_rough] > cost_min)', 'if (g_[s_rough] < cost_min)')],
         needs='an update between robot and goal in an area separated by four-neighbour obstacles', breaks='cells around the robot keep costs from before the change',
         files=dict(FILES), srcs=SRCS, flags='-O2', demo=demo('100', '6 + r(20)')),
    dict(id='p17-region-last-row', property='P17', edits=[(D, 'rect.max[1]; p[1]++)', 'rect.max[1] - 1; p[1]++)')],
         needs='the least cost of the changed region in its last row', breaks='cells of the last row keep costs from before the change',
         files=dict(FILES), srcs=SRCS, flags='-O2', demo=demo('100', '6 + r(20)')),
    dict(id='p17-cut-mark-stride', property='P17', edits=[(D, 'edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true', 'edges_buf_[center.v_[0] + center.v_[1] * p_.size[1]] = true')],
         needs='a map wider than high with cells beyond the longcut limit, and a robot that moves there', breaks='another cell is remembered as edge: the map is not extended when the robot moves away',
         files=dict(FILES), srcs=SRCS, flags='-O2', demo=demo('3', '20 + r(20)')),
]
