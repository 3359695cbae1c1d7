import os
exec(open(os.path.join('/verif/dev/seeds', 'm3d.py')).read().split('\nSEEDS = [')[0])
REF = r'''
static const float LR = 0.1f;
static void sample(float ar, int yaw_i, const Vec& d, float ratio, double out[3], bool& straight)
{
  const double th = yaw_i * ar, te = d[2] * ar;
  const double dx = d[0] * LR, dy = d[1] * LR;
  const double x = dx * cos(th) + dy * sin(th), y = dy * cos(th) - dx * sin(th);
  const double rel = te - th;
  straight = std::abs(sin(rel)) < 0.1;
  if (straight)
  {
    out[0] = d[0] * ratio;
    out[1] = d[1] * ratio;
    out[2] = yaw_i;
    return;
  }
  const double r1 = y + x * cos(rel) / sin(rel), r2 = x / sin(rel);
  double dyaw = rel;
  if (dyaw < -M_PI)
    dyaw += 2 * M_PI;
  else if (dyaw > M_PI)
    dyaw -= 2 * M_PI;
  const double r = r1 * (1 - ratio) + r2 * ratio, a = th + ratio * dyaw;
  const double cx = -r1 * sin(th) * (1 - ratio) + (dx - r2 * sin(te)) * ratio;
  const double cy = r1 * cos(th) * (1 - ratio) + (dy + r2 * cos(te)) * ratio;
  out[0] = (cx + r * sin(a)) / LR;
  out[1] = (cy - r * cos(a)) / LR;
  out[2] = a / ar;
}
static bool near_(double a, double b) { return std::abs(a - b) < 5e-3; }
static bool half(double a) { return std::abs(a - std::floor(a) - 0.5) < 5e-3; }
'''
SEEDS = [
    mk('p10-registered-hoisted', 'P10', [(MC, '''        for (d[2] = 0; d[2] < angle; d[2]++)
        {
          Page page;
''', '''        std::unordered_map<CyclicVecInt<3, 2>, bool, CyclicVecInt<3, 2>> registered;
        for (d[2] = 0; d[2] < angle; d[2]++)
        {
          Page page;
          registered.erase(d);
'''), (MC, '''          std::unordered_map<CyclicVecInt<3, 2>, bool, CyclicVecInt<3, 2>> registered;
          registered[d] = true;
''', '''          registered[d] = true;
''')], 'a second motion of the same displacement (any end heading after the first) that passes a cell an earlier one passed',
       'Cells of a motion that an earlier end heading already passed are missing, so obstacles there are not seen.', REF + r'''
int main()
{
  MotionCache mc;
  const int A = 16;
  const float ar = M_PI * 2 / A;
  BlockMemGridmap<char, 3, 2, 0x20> gm(Vec(40, 40, A));
  mc.reset(LR, ar, 4, gm.getAddressor(), 0.2, 0.1);
  for (int yaw = 0; yaw < A; ++yaw)
    for (int ey = 0; ey < A; ++ey)
    {
      const Vec d(3, 2, ey);
      const auto it = mc.find(yaw, d);
      CHECK(it != mc.end(yaw));
      const int n = std::round(d.len() / 0.1);
      for (int s = 0; s < n; ++s)
      {
        double p[3];
        bool st;
        sample(ar, yaw, d, static_cast<float>(s) / n, p, st);
        if (half(p[0]) || half(p[1]) || half(p[2]))
          continue;
        Vec c(static_cast<int>(std::lround(p[0])), static_cast<int>(std::lround(p[1])), static_cast<int>(std::lround(p[2])));
        c.cycleUnsigned(A);
        if (c == d)
          continue;
        int found = 0;
        for (const Vec& m : it->second.getMotion())
          found += m == c;
        CHECK(found == 1);
      }
    }
}
'''),
    mk('p10-length-coarse', 'P10', [(MC, '''            if (step % interpolation_step == 0)
            {
              page.interpolated_motion_.push_back(posf);
            }
            if (ratio > 0)
              distf += (posf - posf_prev).len();
            posf_prev = posf;
''', '''            if (step % interpolation_step == 0)
            {
              page.interpolated_motion_.push_back(posf);
              if (ratio > 0)
                distf += (posf - posf_prev).len();
              posf_prev = posf;
            }
''')], 'an interpolation coarser than the enumeration of the cells and a tight curve',
       'The length of a curve is measured over few chords and comes out too short.', REF + r'''
int main()
{
  MotionCache mc;
  const int A = 16;
  const float ar = M_PI * 2 / A;
  BlockMemGridmap<char, 3, 2, 0x20> gm(Vec(40, 40, A));
  mc.reset(LR, ar, 5, gm.getAddressor(), 1.0, 0.1);
  for (int yaw = 0; yaw < A; ++yaw)
    for (int ey = 0; ey < A; ++ey)
    {
      const Vec d(3, -4, ey);
      const auto it = mc.find(yaw, d);
      CHECK(it != mc.end(yaw));
      const int n = std::round(d.len() / 0.1);
      double len = 0, q[2] = {0, 0};
      bool st = false;
      for (int s = 0; s < n; ++s)
      {
        double p[3];
        sample(ar, yaw, d, static_cast<float>(s) / n, p, st);
        if (s)
          len += std::hypot(p[0] - q[0], p[1] - q[1]);
        q[0] = p[0];
        q[1] = p[1];
      }
      len += std::hypot(d[0] - q[0], d[1] - q[1]);
      if (st)
        len = d.len();
      CHECK(std::abs(it->second.getDistance() - len) < 1e-3 * len + 1e-3);
    }
}
'''),
    mk('p10-path-duplicate-heading', 'P10', [(MC, '''    if (((*it_prev)[0] == (*it)[0]) && ((*it_prev)[1] == (*it)[1]))
    {
      result.push_back''', '''    if (((*it_prev)[0] == (*it)[0]) && ((*it_prev)[1] == (*it)[1]))
    {
      // the same place was just added
      if (it_prev != grid_path.begin() && (*std::prev(it_prev))[0] == (*it)[0] && (*std::prev(it_prev))[1] == (*it)[1])
        continue;
      result.push_back''')], 'a path with two turns on the spot after each other',
       'The heading between two turns on the spot is dropped from the expanded path.', REF + r'''
int main()
{
  MotionCache mc;
  const int A = 16;
  const float ar = M_PI * 2 / A;
  BlockMemGridmap<char, 3, 2, 0x20> gm(Vec(40, 40, A));
  mc.reset(LR, ar, 4, gm.getAddressor(), 0.1, 0.1);
  const std::list<Vec> in = {Vec(10, 10, 0), Vec(12, 10, 0), Vec(12, 10, 2), Vec(12, 10, 5), Vec(12, 10, 7), Vec(10, 8, 10)};
  const auto out = mc.interpolatePath(in);
  for (const Vec& p : in)
  {
    int n = 0;
    for (const Vecf& q : out)
      n += near_(p[0], q[0]) && near_(p[1], q[1]) && near_(p[2], q[2]);
    CHECK(n == 1);
  }
}
'''),
    mk('p10-shared-cells', 'P10', [(MC, '''  max_range_ = max_range;
''', '''  // Opposite motions pass the same cells
  max_range_ = max_range;
  for (int i = 0; i < 2; ++i)
    max_range_[i] = std::min(max_range_[i], range - 1);
''')], 'a straight motion of full range along an axis',
       'The reported extent is smaller than the cells of the longest straight motions reach.', REF + r'''
int main()
{
  MotionCache mc;
  const int A = 16;
  const float ar = M_PI * 2 / A;
  BlockMemGridmap<char, 3, 2, 0x20> gm(Vec(40, 40, A));
  mc.reset(LR, ar, 4, gm.getAddressor(), 0.5, 0.05);
  int mx[2] = {0, 0};
  for (int yaw = 0; yaw < A; ++yaw)
    for (int x = -4; x <= 4; ++x)
      for (int y = -4; y <= 4; ++y)
        for (int e = 0; e < A; ++e)
        {
          if (std::abs(std::sin((e - yaw) * ar)) > 0.09)
            continue;
          const auto it = mc.find(yaw, Vec(x, y, e));
          if (it == mc.end(yaw))
            continue;
          for (const Vec& c : it->second.getMotion())
          {
            mx[0] = std::max(mx[0], std::abs(c[0]));
            mx[1] = std::max(mx[1], std::abs(c[1]));
          }
        }
  CHECK(mx[0] <= mc.getMaxRange()[0] && mx[1] <= mc.getMaxRange()[1]);
}
'''),
]
for s in SEEDS:
    s['srcs'] = [MC]
