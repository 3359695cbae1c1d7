S = 'planner_cspace/src/'
A = 'planner_cspace/include/planner_cspace/'
HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <utility>
#include <vector>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); exit(1); } } while (0)
#define NEAR(a, b) CHECK(std::abs((a) - (b)) < 1e-3)
using namespace planner_cspace;
'''
JOINT = HEAD + r'''
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
using namespace planner_cspace::planner_2dof_serial_joints;
using M = GridAstarModel2DoFSerialJoint;
using V = M::Vec;
'''
ROT = HEAD + '#include <planner_cspace/planner_3d/rotation_cache.h>\nusing planner_cspace::planner_3d::RotationCache;\nusing V3 = CyclicVecInt<3, 2>;\n'
MOT = HEAD + '#include <list>\n#define private public\n#define protected public\n#include <planner_cspace/planner_3d/motion_cache.h>\n#undef private\n#undef protected\nusing planner_cspace::planner_3d::MotionCache;\nusing V3 = CyclicVecInt<3, 2>;\n'
SEEDS = [
    dict(id='p08-negative-sample', property='P08', edits=[(S + 'grid_astar_model_2dof_joints.cpp', '''    pos[0] = std::lround(v[0]);
    pos[1] = std::lround(v[1]);''', '''    pos[0] = static_cast<int>(v[0] + 0.5f);
    pos[1] = static_cast<int>(v[1] + 0.5f);''')],
         needs='a step that wraps below zero on one axis', breaks='samples at negative positions are rounded toward zero and miss the lethal cell',
         srcs=[S + 'grid_astar_model_2dof_joints.cpp'],
         demo=JOINT + r'''
int main()
{
  BlockMemGridmap<char, 2, 0, 0x20> cm(V(16, 16));
  cm.clear(0);
  cm[V(14, 3)] = 100;
  CostCoeff cc;
  cc.weight_cost_ = 1.0;
  M m(M::Vecf(1.0f, 1.0f), 16, cm, cc, 5);
  const std::vector<M::VecWithCost> none;
  CHECK(m.cost(V(1, 3), V(13, 3), none, V(0, 0)) < 0);
  cm[V(14, 3)] = 50;
  NEAR(m.cost(V(1, 3), V(13, 3), none, V(0, 0)), 4.5);
}
'''),
    dict(id='p08-far-axis-limit', property='P08', edits=[(S + 'grid_astar_model_2dof_joints.cpp', '''      (unsigned int)next[1] >= (unsigned int)resolution_ * 2)''', '''      next[1] >= resolution_ * 2)''')],
         needs='a step below zero on the second axis', breaks='a step outside the joint range is accepted',
         srcs=[S + 'grid_astar_model_2dof_joints.cpp'],
         demo=JOINT + r'''
int main()
{
  BlockMemGridmap<char, 2, 0, 0x20> cm(V(16, 16));
  cm.clear(0);
  CostCoeff cc;
  cc.weight_cost_ = 1.0;
  M m(M::Vecf(1.0f, 1.0f), 16, cm, cc, 5);
  const std::vector<M::VecWithCost> none;
  CHECK(m.cost(V(1, 1), V(-1, 1), none, V(0, 0)) < 0);
  CHECK(m.cost(V(1, 1), V(1, -1), none, V(0, 0)) < 0);
  CHECK(m.cost(V(1, 1), V(1, 32), none, V(0, 0)) < 0);
  CHECK(m.cost(V(1, 1), V(1, 3), none, V(0, 0)) > 0);
}
'''),
    dict(id='p11-last-row', property='P11', edits=[(S + 'rotation_cache.cpp', '''for (d[1] = 0; d[1] <= range * 2; d[1]++)''', '''for (d[1] = 0; d[1] < range * 2; d[1]++)''')],
         needs='a look-up at the far edge of the range on the second axis', breaks='the entry was never filled',
         srcs=[S + 'rotation_cache.cpp'],
         demo=ROT + r'''
int main()
{
  for (int k = 0; k < 8; ++k)
  {
    RotationCache c;
    c.reset(1.0 + k, M_PI / 2, 3);
    for (int a = 0; a < 4; ++a)
      for (int x = 0; x <= 6; ++x)
        for (int y = 0; y <= 6; ++y)
        {
          const auto& m = c.getMotion(a, V3(x, y, 1));
          NEAR(std::hypot(m[0], m[1]), (1.0 + k) * std::hypot(x - 3, y - 3));
        }
  }
}
'''),
    dict(id='p11-negative-yaw', property='P11', edits=[(A + 'planner_3d/motion_cache.h', '''    int i = start_yaw % page_size_;
    if (i < 0)
      i += page_size_;
    return cache_[i].find(goal);''', '''    int i = std::abs(start_yaw) % page_size_;
    return cache_[i].find(goal);''')],
         needs='a start heading given below zero', breaks='the motion is looked up under the mirrored heading',
         srcs=[],
         demo=MOT + r'''
int main()
{
  MotionCache c;
  c.page_size_ = 8;
  c.cache_.resize(8);
  for (int i = 0; i < 8; ++i)
    c.cache_[i][V3(1, 0, i)].distance_ = i;
  for (int i = -8; i < 16; ++i)
  {
    const int k = ((i % 8) + 8) % 8;
    const auto f = c.find(i, V3(1, 0, k));
    CHECK(f != c.end(i));
    NEAR(f->second.getDistance(), k);
  }
}
'''),
]
