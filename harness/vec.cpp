// instantiations of the cyclic vector members the analysis looks at
#include <planner_cspace/cyclic_vec.h>

namespace planner_cspace
{
template class CyclicVecBase<3, 2, int>;
template class CyclicVecBase<2, 0, int>;
template class CyclicVecBase<2, 2, int>;
}  // namespace planner_cspace
namespace nn_harness
{
using I3 = planner_cspace::CyclicVecInt<3, 2>;
using I2 = planner_cspace::CyclicVecInt<2, 0>;
using F3 = planner_cspace::CyclicVecFloat<3, 2>;
using F2 = planner_cspace::CyclicVecFloat<2, 2>;

template <class V>
void common(V& a, const V& b)
{
  a = a + b;
  a = a - b;
  a = a * b;
  a[0] = (a == b);
  a[0] = (a != b);
  a[0] = a.sqlen();
  a[0] = a.len();
  a[0] = a.norm();
  a[0] = a.cross2d(b);
  a[0] = a.dot2d(b);
  a[0] = a.distLine2d(a, b);
  a[0] = a.distLinestrip2d(a, b);
}
void use(I3& i3, I2& i2, F3& f3, F2& f2)
{
  common(i3, i3);
  common(i2, i2);
  common(f3, f3);
  common(f2, f2);
  i3.cycle(8);
  i3.cycleUnsigned(8);
  i2.cycle(8, 9);
  i2.cycleUnsigned(8, 9);
  i3.cycle(i3);
  i3.cycleUnsigned(i3);
  i2.cycle(i2);
  i2.cycleUnsigned(i2);
  f3.rotate(0.5);
  i3 = I3(f3);
  f3 = F3(i3);
  i3 = I3(1, 2, 3);
  i3 = I3(1.0f, 2.0f, 3.0f);
  f3 = F3(1.0f, 2.0f, 3.0f);
  f3 = F3(1, 2, 3);
  f3 = F3();
  i3 = I3();
}
}  // namespace nn_harness
