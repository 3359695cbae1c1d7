// call sequences on the occupancy filter, and the source file of the map of filters
#include <planner_cspace/bbf.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>

namespace nn_harness
{
using planner_cspace::bbf::BinaryBayesFilter;
float bf_new(const float o)
{
  BinaryBayesFilter f(o);
  return f.get();
}
float bf_default()
{
  BinaryBayesFilter f;
  return f.get();
}
float bf_get(BinaryBayesFilter& f)
{
  return f.get();
}
float bf_update(BinaryBayesFilter& f, const float o)
{
  return f.update(o);
}
float bf_update_get(BinaryBayesFilter& f, const float o)
{
  f.update(o);
  return f.get();
}
float bf_twice(const float i, const float a, const float b)
{
  BinaryBayesFilter f(i);
  f.update(a);
  return f.update(b);
}
float bf_prob(const float o)
{
  BinaryBayesFilter f(o);
  return f.getProbability();
}
float bf_norm(const float o)
{
  BinaryBayesFilter f(o);
  return f.getNormalizedProbability();
}
float bf_back(const float p)
{
  return planner_cspace::bbf::oddsToProbability(planner_cspace::bbf::probabilityToOdds(p));
}
int bf_noop_cost(planner_cspace::planner_3d::CostmapBBFNoOp& m, const planner_cspace::planner_3d::CostmapBBF::Vec& p)
{
  return m.getCost(p);
}
}  // namespace nn_harness
