import os
exec(open(os.path.join('/verif/dev/seeds', 'core.py')).read().split('SEEDS = []')[0])
GRID = HEAD + r'''
#include <unistd.h>
using Vec = CyclicVecInt<2, 2>;
// open cells of a grid joined to their four neighbors; every third cell answers slowly
class Model : public GridAstarModelBase<2, 2>
{
public:
  int n_;
  int kind_;
  std::vector<Vec> a_, b_;
  Model(int n, int kind) : n_(n), kind_(kind)
  {
    a_ = {Vec(1, 0), Vec(-1, 0), Vec(0, 1), Vec(0, -1)};
    b_ = {Vec(0, -1), Vec(-1, 0), Vec(0, 1), Vec(1, 0)};
  }
  float cost(const Vec& a, const Vec& b, const std::vector<VecWithCost>&, const Vec&) const final
  {
    if (kind_)
      usleep((a[0] * 7 + a[1] * 3) % 3 * 40);
    return 1;
  }
  float costEstim(const Vec& s, const Vec& e) const final
  {
    return 0;
  }
  const std::vector<Vec>& searchGrids(const Vec& p, const std::vector<VecWithCost>&, const Vec&) const final
  {
    return (p[0] + p[1]) % 2 ? a_ : b_;
  }
};
using Astar = GridAstar<2, 2>;
static const Astar::ProgressCallback yes = [](const std::list<Vec>&, const SearchStats&) { return true; };
static void run(int n, int kind, int rounds)
{
  omp_set_dynamic(0);
  omp_set_num_threads(8);
  GridAstarModelBase<2, 2>::Ptr m(new Model(n, kind));
  for (int i = 0; i < rounds; ++i)
  {
    Astar as(Vec(n, n));
    as.setSearchTaskNum(64);
    std::list<Vec> path;
    CHECK(as.search({Astar::VecWithCost(Vec(0, 0))}, Vec(n - 1, n - 1), path, m, yes, 0, 1e9));
    CHECK(static_cast<int>(path.size()) == 2 * n - 1);
    Vec prev = path.front();
    CHECK(prev == Vec(0, 0));
    for (const Vec& v : path)
    {
      CHECK(v == path.front() || std::abs(v[0] - prev[0]) + std::abs(v[1] - prev[1]) == 1);
      prev = v;
    }
  }
}
'''
SEEDS = [
    dict(id='p04-unlocked-merge', property='P04', edits=[(GA, '''#pragma omp critical
        {
          for (const GridmapUpdate& u : updates)''', '''#pragma omp critical(grid_update)
        {
          num_total_updates += updates.size();
        }
        {
          for (const GridmapUpdate& u : updates)'''), (GA, '''          num_updates += n;
          num_total_updates += n;''', '''#pragma omp atomic
          num_updates += n;''')],
         needs='more than one search task per round on several threads', breaks='threads modify the open list and the predecessor map at the same time',
         demo=GRID + r'''
int main()
{
  alarm(40);
  run(60, 0, 60);
}
'''),
    dict(id='p04-shared-neighbors', property='P04', edits=[(GA, '''          const std::vector<Vec> search_list = model->searchGrids(p, ss_normalized, e);
''', '''          neighbors_ = model->searchGrids(p, ss_normalized, e);
          const std::vector<Vec>& search_list = neighbors_;
'''), (GA, '''  size_t search_task_num_;
};''', '''  size_t search_task_num_;
  std::vector<Vec> neighbors_;
};''')],
         needs='two threads expanding cells with different neighbor lists in the same round', breaks='one thread overwrites the neighbor list another one is walking',
         demo=HEAD + r'''
#include <unistd.h>
using Vec = CyclicVecInt<2, 2>;
// two separate corridors that are searched at the same time
class Model : public GridAstarModelBase<2, 2>
{
public:
  std::vector<Vec> l_[2];
  Model()
  {
    l_[0] = {Vec(1, 0), Vec(0, 1), Vec(0, 1), Vec(0, 1)};
    l_[1] = {Vec(0, -1), Vec(0, -1), Vec(0, -1), Vec(1, 0)};
  }
  float cost(const Vec& a, const Vec& b, const std::vector<VecWithCost>&, const Vec&) const final
  {
    usleep(100);
    return a[1] == b[1] ? 1 : -1;
  }
  float costEstim(const Vec& s, const Vec& e) const final
  {
    return 0;
  }
  const std::vector<Vec>& searchGrids(const Vec& p, const std::vector<VecWithCost>&, const Vec&) const final
  {
    usleep(20 * (p[1] + p[0] % 3));
    return l_[p[1]];
  }
};
using Astar = GridAstar<2, 2>;
int main()
{
  omp_set_dynamic(0);
  omp_set_num_threads(4);
  const int n = 40;
  GridAstarModelBase<2, 2>::Ptr m(new Model());
  for (int i = 0; i < 300; ++i)
  {
    Astar as(Vec(n, 2));
    as.setSearchTaskNum(8);
    std::list<Vec> path;
    CHECK(as.search({Astar::VecWithCost(Vec(0, 0)), Astar::VecWithCost(Vec(0, 1))}, Vec(n - 1, i % 2), path, m,
                    [](const std::list<Vec>&, const SearchStats&) { return true; }, -1, 1e9));
    CHECK(static_cast<int>(path.size()) == n);
  }
}
'''),
]
