// instantiations of the templated search and grid storage that the analysis looks at
#include <limits>
#include <list>
#include <vector>
#include <planner_cspace/grid_astar.h>

namespace planner_cspace
{
template class CyclicVecBase<3, 2, int>;
template class CyclicVecBase<2, 0, int>;
template class CyclicVecBase<2, 2, int>;
template class GridAstarModelBase<3, 2>;
template class GridAstarModelBase<2, 0>;
template class BlockMemGridmap<float, 3, 2, 0x20>;
template class BlockMemGridmap<float, 2, 0, 0x20>;
template class BlockMemGridmap<float, 2, 2, 0x20>;
template class GridAstar<3, 2>;
template class GridAstar<2, 0>;
}  // namespace planner_cspace
