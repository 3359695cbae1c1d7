// instantiations of the grid storage the analysis looks at
#include <cstring>
#include <functional>
#include <limits>
#include <planner_cspace/blockmem_gridmap.h>

namespace planner_cspace
{
template class BlockMemGridmap<float, 3, 2, 0x20>;
template class BlockMemGridmap<char, 3, 2, 0x40>;
template class BlockMemGridmap<float, 3, 3, 0x20>;
template class BlockMemGridmap<float, 2, 0, 0x20>;
template class BlockMemGridmap<float, 3, 2, 0x20, true>;
}  // namespace planner_cspace
