A = 'planner_cspace/include/planner_cspace/'
GA = A + 'grid_astar.h'
CV = A + 'cyclic_vec.h'
BM = A + 'blockmem_gridmap.h'

HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <vector>
#include <omp.h>
#include <planner_cspace/grid_astar.h>
using namespace planner_cspace;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); exit(1); } } while (0)
'''
# a small explicit graph on a line of n cells
GRAPH = HEAD + r'''
using Vec = CyclicVecInt<1, 1>;
class Model : public GridAstarModelBase<1, 1>
{
public:
  std::map<int, std::map<int, float>> edges_;
  std::map<int, float> estim_;
  std::vector<std::vector<Vec>> search_;
  mutable std::vector<std::pair<int, int>> asked_;
  explicit Model(int n) : search_(n) {}
  void add(int a, int b, float c) { edges_[a][b] = c; search_[a].push_back(Vec(b - a)); }
  float cost(const Vec& a, const Vec& b, const std::vector<VecWithCost>&, const Vec&) const final
  {
    return edges_.at(a[0]).at(b[0]);
  }
  float costEstim(const Vec& s, const Vec&) const final
  {
    auto it = estim_.find(s[0]);
    return it == estim_.end() ? 0.0f : it->second;
  }
  const std::vector<Vec>& searchGrids(const Vec& p, const std::vector<VecWithCost>&, const Vec&) const final
  {
    return search_[p[0]];
  }
};
using Astar = GridAstar<1, 1>;
static std::vector<int> flat(const std::list<Vec>& l)
{
  std::vector<int> r;
  for (const Vec& v : l) r.push_back(v[0]);
  return r;
}
static const Astar::ProgressCallback yes = [](const std::list<Vec>&, const SearchStats&) { return true; };
'''
SEEDS = []


def seed(**k):
    SEEDS.append(k)


seed(id='p01-skip-visited', property='P01',
     edits=[(GA, '            if (g[next] < gp)\n', '            if (g[next] < gp || parents_.find(next) != parents_.end())\n')],
     needs='a cell first reached over an expensive edge and later offered a cheaper way',
     breaks='cells that already have a predecessor are never improved, so the returned path is not the cheapest one',
     demo=GRAPH + r'''
int main()
{
  Model* m = new Model(4);
  m->add(0, 1, 10); m->add(0, 2, 1); m->add(2, 1, 1); m->add(1, 3, 1);
  Astar::VecWithCost s(Vec(0));
  Astar as(Vec(4)); as.setSearchTaskNum(1);
  std::list<Vec> path;
  CHECK(as.search({s}, Vec(3), path, GridAstarModelBase<1, 1>::Ptr(m), yes, 0, 1e9));
  CHECK(flat(path) == (std::vector<int>{0, 2, 1, 3}));
}
''')
seed(id='p01-parallel-overwrite', property='P01',
     edits=[(GA, '            if (g[u.getPos()] > u.getCost())\n', '            if (g[u.getPos()] >= u.getCost() || parents_[u.getPos()] != u.getParentPos())\n')],
     needs='several cells expanded in one round that reach the same neighbour at different costs, the costlier one applied last',
     breaks='an update computed in the same round replaces a smaller cost by a larger one',
     demo=GRAPH + r'''
int main()
{
  Model* m = new Model(5);
  m->add(0, 1, 1); m->add(0, 2, 2); m->add(1, 3, 1); m->add(2, 3, 8); m->add(3, 4, 1);
  Astar::VecWithCost s(Vec(0));
  Astar as(Vec(5)); as.setSearchTaskNum(2);
  omp_set_num_threads(1);
  std::list<Vec> path;
  CHECK(as.search({s}, Vec(4), path, GridAstarModelBase<1, 1>::Ptr(m), yes, 0, 1e9));
  CHECK(flat(path) == (std::vector<int>{0, 1, 3, 4}));
}
''')
seed(id='p01-max-estimate', property='P01',
     edits=[(GA, '            if (cost_estim < 0 || cost_estim == std::numeric_limits<float>::max())\n', '            if (cost_estim < 0)\n')],
     needs='a model that marks a cell as unreachable from the goal with the maximal estimate',
     breaks='cells whose estimate is maximal are entered',
     demo=GRAPH + r'''
class Probe : public Astar
{
public:
  explicit Probe(const Vec& s) : Astar(s) {}
  float g(int i) { return g_[Vec(i)]; }
};
int main()
{
  Model* m = new Model(4);
  m->add(0, 1, 1); m->add(0, 2, 1);
  m->estim_[1] = std::numeric_limits<float>::max();
  Astar::VecWithCost s(Vec(0));
  Probe as(Vec(4)); as.setSearchTaskNum(1);
  std::list<Vec> path;
  CHECK(!as.search({s}, Vec(3), path, GridAstarModelBase<1, 1>::Ptr(m), yes, 0, 1e9));
  CHECK(as.g(1) == std::numeric_limits<float>::max());
}
''')
seed(id='p02-first-parent', property='P02',
     edits=[(GA, '              parents_[u.getPos()] = u.getParentPos();\n', '              parents_.emplace(u.getPos(), u.getParentPos());\n')],
     needs='a cell that is improved twice',
     breaks='the predecessor recorded first stays when the cost is lowered',
     demo=GRAPH + r'''
int main()
{
  Model* m = new Model(4);
  m->add(0, 1, 10); m->add(0, 2, 1); m->add(2, 1, 1); m->add(1, 3, 1);
  Astar::VecWithCost s(Vec(0));
  Astar as(Vec(4)); as.setSearchTaskNum(1);
  std::list<Vec> path;
  CHECK(as.search({s}, Vec(3), path, GridAstarModelBase<1, 1>::Ptr(m), yes, 0, 1e9));
  CHECK(flat(path) == (std::vector<int>{0, 2, 1, 3}));
}
''')
seed(id='p02-queue-limit', property='P02',
     edits=[(GA, '              if (queue_size_limit_ > 0 && open_.size() > queue_size_limit_)\n', '              if (queue_size_limit_ > 0 && open_.size() >= queue_size_limit_)\n')],
     needs='a configured queue size limit that is reached but not exceeded',
     breaks='an entry is dropped although the limit is not exceeded',
     demo=GRAPH + r'''
class Probe : public Astar
{
public:
  explicit Probe(const Vec& s) : Astar(s) {}
  size_t n() { return open_.size(); }
};
int main()
{
  Model* m = new Model(4);
  m->add(0, 1, 1); m->add(0, 2, 2); 
  Astar::VecWithCost s(Vec(0));
  Probe as(Vec(4)); as.setSearchTaskNum(1);
  as.setQueueSizeLimit(2);
  std::list<Vec> path;
  size_t queued = 0;
  as.search({s}, Vec(3), path, GridAstarModelBase<1, 1>::Ptr(m),
            [&](const std::list<Vec>&, const SearchStats& st) { if (st.num_loop == 2) queued = st.num_search_queue; return true; }, 0, 0);
  CHECK(queued == 2);
}
''')
seed(id='p03-stale-queue', property='P03',
     edits=[(GA, '    open_.clear();\n    parents_.clear();\n', '    parents_.clear();\n')],
     needs='a second search on the same object after one that left entries in the queue',
     breaks='entries queued by an earlier search are expanded in the next one',
     demo=GRAPH + r'''
int main()
{
  Model* m = new Model(6);
  m->add(0, 1, 1); m->add(0, 4, 5); m->add(2, 3, 9); m->add(3, 4, 1);
  GridAstarModelBase<1, 1>::Ptr mp(m);
  Astar as(Vec(6)); as.setSearchTaskNum(1);
  std::list<Vec> path;
  Astar::VecWithCost s0(Vec(0)), s2(Vec(2));
  CHECK(as.search({s0}, Vec(1), path, mp, yes, 0, 1e9));
  path.clear();
  CHECK(as.search({s2}, Vec(4), path, mp, yes, 0, 1e9));
  CHECK(flat(path) == (std::vector<int>{2, 3, 4}));
}
''')
seed(id='p03-partial-path', property='P03',
     edits=[(GA, '      if (return_best)\n', '      if (return_best || !abort)\n')],
     needs='an unreachable goal without best effort being requested',
     breaks='a partial path is handed out although best effort was not requested',
     demo=GRAPH + r'''
int main()
{
  Model* m = new Model(4);
  m->add(0, 1, 1);
  Astar::VecWithCost s(Vec(0));
  Astar as(Vec(4)); as.setSearchTaskNum(1);
  std::list<Vec> path;
  CHECK(!as.search({s}, Vec(3), path, GridAstarModelBase<1, 1>::Ptr(m), yes, 0, 1e9));
  CHECK(path.empty());
}
''')
seed(id='p05-wrap-far', property='P05',
     edits=[(CV, '    e_[i] = e_[i] % res;\n    if (e_[i] < 0)\n      e_[i] += res;\n', '    e_[i] = (e_[i] + res) % res;\n')],
     needs='a component more than one period below zero',
     breaks='the unsigned wrap leaves negative values',
     demo=HEAD + r'''
int main()
{
  for (int v = -40; v < 40; ++v)
  {
    CyclicVecInt<3, 2> a(1, 2, v);
    a.cycleUnsigned(7);
    CHECK(a[2] >= 0 && a[2] < 7 && (a[2] - v) % 7 == 0);
  }
}
''')
seed(id='p05-signed-distance', property='P05',
     edits=[(CV, '    return std::abs(distLine2d(a, b));\n', '    return distLine2d(a, b);\n')],
     needs='a point on the right hand side of the segment, between its ends',
     breaks='the distance to a segment is negative on one side of it',
     demo=HEAD + r'''
int main()
{
  const CyclicVecFloat<3, 2> a(0.0f, 0.0f, 0.0f), b(4.0f, 0.0f, 0.0f);
  for (float y = -2; y < 2.1; y += 1)
  {
    const CyclicVecFloat<3, 2> p(2.0f, y, 0.0f);
    CHECK(std::fabs(p.distLinestrip2d(a, b) - std::fabs(y)) < 1e-4);
  }
}
''')
seed(id='p06-capacity', property='P06',
     edits=[(BM, '      ser_capacity_ = ser_size_;\n', '      ser_capacity_ = std::max(ser_capacity_, ser_size_);\n')],
     needs='a resize to less than half the capacity followed by a resize to something in between',
     breaks='the recorded capacity is larger than the allocation, so cells lie outside of it',
     flags='-fsanitize=address -fno-sanitize-recover=all',
     demo=HEAD + r'''
#include <planner_cspace/blockmem_gridmap.h>
using Vec = CyclicVecInt<3, 2>;
static void fill(BlockMemGridmap<float, 3, 2, 0x20>& gm, const Vec& s)
{
  gm.reset(s);
  Vec p;
  for (p[0] = 0; p[0] < s[0]; ++p[0])
    for (p[1] = 0; p[1] < s[1]; ++p[1])
      for (p[2] = 0; p[2] < s[2]; ++p[2])
        gm[p] = p[0] + 1000 * p[1] + p[2] * 0.001f;
}
int main()
{
  BlockMemGridmap<float, 3, 2, 0x20> gm;
  fill(gm, Vec(200, 200, 4));
  fill(gm, Vec(40, 40, 4));
  fill(gm, Vec(160, 160, 4));
}
''')
seed(id='p06-cyclic-radix', property='P06',
     edits=[(BM, '      addr *= size_[i];\n      addr += pos[i];\n', '      addr *= size_[NONCYCLIC];\n      addr += pos[i];\n')],
     needs='a map with two cyclic axes of different sizes',
     breaks='different cells share a storage element when a later cyclic axis is longer than the first',
     demo=HEAD + r'''
#include <planner_cspace/blockmem_gridmap.h>
using Vec = CyclicVecInt<2, 0>;
int main()
{
  BlockMemGridmap<float, 2, 0, 0x20> gm;
  const Vec s(5, 9);
  gm.reset(s);
  Vec p;
  for (p[0] = 0; p[0] < s[0]; ++p[0])
    for (p[1] = 0; p[1] < s[1]; ++p[1])
      gm[p] = p[0] * 100 + p[1];
  for (p[0] = 0; p[0] < s[0]; ++p[0])
    for (p[1] = 0; p[1] < s[1]; ++p[1])
      CHECK(gm[p] == p[0] * 100 + p[1]);
}
''')
