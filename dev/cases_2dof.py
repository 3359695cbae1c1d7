F = 'planner_cspace/src/grid_astar_model_2dof_joints.cpp'
P = ['P08']
LOOP = '''  for (int i = 0; i < dist; i++)
  {
    pos[0] = std::lround(v[0]);
    pos[1] = std::lround(v[1]);
    pos.cycleUnsigned(resolution_, resolution_);
    const auto c = cm_[pos];
    if (c > 99)
      return -1;
    sum += c;
    v[0] += dp[0];
    v[1] += dp[1];
  }
'''
CASES = [
    ('bound1', 'bug', F, 'next[1] >= (unsigned int)resolution_ * 2', 'next[1] >= (unsigned int)resolution_', P),
    ('bound2', 'bug', F, 'next[1] >= (unsigned int)resolution_ * 2', 'next[1] > (unsigned int)resolution_ * 2', P),
    ('bound3', 'bug', F, '(unsigned int)next[1] >= (unsigned int)resolution_ * 2', 'next[1] >= resolution_ * 2', P),
    ('nowrap', 'bug', F, '  d.cycle(resolution_, resolution_);\n', '', P),
    ('wrapu', 'bug', F, '  d.cycle(resolution_, resolution_);\n', '  d.cycleUnsigned(resolution_, resolution_);\n', P),
    ('lethal', 'bug', F, 'if (c > 99)', 'if (c > 100)', P),
    ('lethal2', 'bug', F, 'if (c > 99)', 'if (c > 98)', P),
    ('lethal-ret', 'bug', F, '''    if (c > 99)
      return -1;''', '''    if (c > 99)
      break;''', P),
    ('lethal-skip', 'bug', F, '''    if (c > 99)
      return -1;''', '''    if (c > 99 && i > 0)
      return -1;''', P),
    ('sum-weight', 'bug', F, 'sum * cc_.weight_cost_ / 100.0', 'sum * cc_.weight_cost_', P),
    ('sum-over', 'bug', F, 'sum += c;', 'sum = c;', P),
    ('expand', 'bug', F, 'sum * cc_.weight_cost_ / 100.0', 'sum * cc_.expand_ / 100.0', P),
    ('round', 'bug', F, 'pos[1] = std::lround(v[1]);', 'pos[1] = static_cast<int>(v[1]);', P),
    ('cyc', 'bug', F, '    pos.cycleUnsigned(resolution_, resolution_);\n', '', P),
    ('dist', 'bug', F, 'for (int i = 0; i < dist; i++)\n  {\n    pos', 'for (int i = 0; i < dist - 1; i++)\n  {\n    pos', P),
    ('dp', 'bug', F, 'dp[1] = static_cast<float>(d[1]) / dist;', 'dp[1] = static_cast<float>(d[0]) / dist;', P),
    ('coef', 'bug', F, 'std::abs(euclid_cost_coef_[i] * vc[i])', 'std::abs(euclid_cost_coef_[0] * vc[i])', P),
    ('noabs', 'bug', F, 'std::abs(euclid_cost_coef_[i] * vc[i])', 'euclid_cost_coef_[i] * std::abs(vc[i])', P),
    ('range', 'bug', F, 'p[1] <= range;', 'p[1] < range;', P),
    ('range2', 'bug', F, 'Vec p(-range, -range)', 'Vec p(-range + 1, -range)', P),
    ('estim', 'bug', F, 'const Vec d = goal - cur;', 'Vec d = goal - cur;\n  d.cycle(resolution_, resolution_);', P),
    ('estim-cost', 'bug', F, 'return euclidCost(d);', 'return euclidCost(d) * 1.5;', P),
    ('cells-next', 'bug', F, 'v[0] = cur[0];', 'v[0] = cur[0] + 1;', P),
    ('ok-order', 'ok', F, '  float cost = euclidCost(d);\n\n  float distf = std::hypot(static_cast<float>(d[0]), static_cast<float>(d[1]));', '  float distf = std::hypot(static_cast<float>(d[0]), static_cast<float>(d[1]));\n  float cost = euclidCost(d);\n', P),
    ('ok-bounds', 'ok', F, '''  if ((unsigned int)next[0] >= (unsigned int)resolution_ * 2 ||
      (unsigned int)next[1] >= (unsigned int)resolution_ * 2)
    return -1;''', '''  const int limit = 2 * resolution_;
  for (int i = 0; i < 2; ++i)
  {
    if (next[i] < 0 || next[i] >= limit)
      return -1;
  }''', P),
    ('ok-while', 'ok', F, LOOP, '''  int i = 0;
  while (i < dist)
  {
    pos = Vec(static_cast<int>(std::lround(cur[0] + i * dp[0])), static_cast<int>(std::lround(cur[1] + i * dp[1])));
    pos.cycleUnsigned(resolution_, resolution_);
    const int c = cm_[pos];
    if (c >= 100)
      return -1;
    sum += c;
    ++i;
  }
''', P),
    ('ok-flag', 'ok', F, LOOP, '''  bool hit = false;
  for (int i = 0; i < dist && !hit; i++)
  {
    pos[0] = std::lround(v[0]);
    pos[1] = std::lround(v[1]);
    pos.cycleUnsigned(resolution_, resolution_);
    const auto c = cm_[pos];
    hit = c > 99;
    sum += c;
    v[0] += dp[0];
    v[1] += dp[1];
  }
  if (hit)
    return -1;
''', P),
    ('ok-break', 'ok', F, LOOP, '''  bool hit = false;
  for (int i = 0; i < dist; i++)
  {
    pos[0] = std::lround(v[0]);
    pos[1] = std::lround(v[1]);
    pos.cycleUnsigned(resolution_, resolution_);
    const auto c = cm_[pos];
    if (c > 99)
    {
      hit = true;
      break;
    }
    sum += c;
    v[0] += dp[0];
    v[1] += dp[1];
  }
  if (hit)
    return -1;
''', P),
    ('ok-direct', 'ok', F, ['    sum += c;\n', '  cost += sum * cc_.weight_cost_ / 100.0;\n'], ['    cost += c * cc_.weight_cost_ / 100.0f;\n', ''], P),
    ('ok-helper', 'ok', F, ['float GridAstarModel2DoFSerialJoint::cost(', '    pos[0] = std::lround(v[0]);\n    pos[1] = std::lround(v[1]);\n    pos.cycleUnsigned(resolution_, resolution_);\n'],
     ['static GridAstarModel2DoFSerialJoint::Vec toCell(const float* v, const int res)\n{\n  GridAstarModel2DoFSerialJoint::Vec p(static_cast<int>(std::lround(v[0])), static_cast<int>(std::lround(v[1])));\n  p.cycleUnsigned(res, res);\n  return p;\n}\nfloat GridAstarModel2DoFSerialJoint::cost(', '    pos = toCell(v, resolution_);\n'], P),
    ('sqrt-noncyclic', 'bug', F, 'std::hypot(static_cast<float>(d[0]), static_cast<float>(d[1]))', 'd.len()', P),
    ('ok-sqrt2', 'ok', F, 'std::hypot(static_cast<float>(d[0]), static_cast<float>(d[1]))', 'std::sqrt(d[0] * d[0] + d[1] * d[1])', P),
    ('ok-ctor', 'ok', F, '''  for (Vec p(-range, -range); p[0] <= range; p[0]++)
  {
    for (p[1] = -range; p[1] <= range; p[1]++)
    {
      search_list_.push_back(p);
    }
  }''', '''  search_list_.reserve((2 * range_ + 1) * (2 * range_ + 1));
  for (int j = -range_; j <= range_; ++j)
    for (int i = -range_; i <= range_; ++i)
      search_list_.emplace_back(i, j);''', P),
    ('ok-euclid', 'ok', F, '''  auto vc = v;
  float cost = 0;
  for (int i = 0; i < 2; i++)
  {
    cost += std::abs(euclid_cost_coef_[i] * vc[i]);
  }
  return cost;''', '''  return std::abs(euclid_cost_coef_[0] * v[0]) + std::fabs(v[1] * euclid_cost_coef_[1]);''', P),
    ('ok-early', 'ok', F, '  float cost = euclidCost(d);\n', '  float cost = euclidCost(d);\n  if (d[0] == 0 && d[1] == 0)\n    return cost;\n', P),
    ('ok-dist0', 'ok', F, 'Vec pos;\n  for', 'Vec pos;\n  if (dist > 0)\n  for', P),
]
