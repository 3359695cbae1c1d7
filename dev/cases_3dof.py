F = 'planner_cspace/src/grid_astar_model_3dof.cpp'
P = ['P09']
STRAIGHT = '''      const auto c = cm_[pos];
      if (c > 99)
        return -1;
      sum += c;

      if (hysteresis_)
        sum_hyst += cm_hyst_[pos];
    }
    const float distf'''
CASES = [
    ('end', 'bug', F, '(cm_[cur] > 99) || (cm_[next] > 99)', '(cm_[cur] > 99) && (cm_[next] > 99)', P),
    ('start', 'bug', F, '(cm_[cur] > 99) || (cm_[next] > 99)', '(cm_[next] > 99)', P),
    ('turn-lethal', 'bug', F, '''      const auto c = cm_[pos];
      if (c > 99)
        return -1;
      if (c >= cc_''', '''      const auto c = cm_[pos];
      if (c >= cc_''', P),
    ('turn-dir', 'bug', F, 'd[2] < 0 ? -1 : 1', 'next[2] < cur[2] ? -1 : 1', P),
    ('turn-count', 'bug', F, 'i < std::abs(d[2])', 'i < std::abs(next[2] - cur[2])', P),
    ('turn-count2', 'bug', F, 'i < std::abs(d[2])', 'i < std::abs(d[2]) - 1', P),
    ('turn-wrap', 'bug', F, '''      if (pos[2] < 0)
        pos[2] += map_info_.angle;
''', '''      if (pos[2] < 0)
        pos[2] = 0;
''', P),
    ('turn-wrap2', 'bug', F, 'else if (pos[2] >= static_cast<int>(map_info_.angle))', 'else if (pos[2] > static_cast<int>(map_info_.angle))', P),
    ('turn-thr', 'bug', F, '''      if (c >= cc_.turn_penalty_cost_threshold_)
      {
        sum += c;''', '''      if (c > cc_.turn_penalty_cost_threshold_)
      {
        sum += c;''', P),
    ('turn-cost', 'bug', F, 'return cost + cc_.in_place_turn_ + sum', 'return cost + sum', P),
    ('turn-heur', 'bug', F, 'euclid_cost_coef_[2] / euclid_cost_coef_[0] *', 'euclid_cost_coef_[0] / euclid_cost_coef_[2] *', P),
    ('no-cycle', 'bug', F, '  d_raw.cycle(map_info_.angle);\n', '', P),
    ('rot-idx', 'bug', F, 'const Vec d2(d[0] + range_, d[1] + range_, next[2]);', 'const Vec d2(d[0] + range_, d[1] + range_, d[2]);', P),
    ('backward', 'bug', F, 'if (motion[0] < 0)', 'if (motion[1] < 0)', P),
    ('backward2', 'bug', F, 'cost *= 1.0 + cc_.weight_backward_;', 'cost *= cc_.weight_backward_;', P),
    ('straight-lethal', 'bug', F, STRAIGHT, STRAIGHT.replace('c > 99', 'c > 100'), P),
    ('straight-hyst', 'bug', F, STRAIGHT, STRAIGHT.replace('if (hysteresis_)', 'if (!hysteresis_)'), P),
    ('straight-hyst2', 'bug', F, STRAIGHT, STRAIGHT.replace('cm_hyst_[pos]', 'cm_hyst_[cur]'), P),
    ('straight-missing', 'bug', F, '''    if (cache_page == motion_cache_.end(cur[2]))
      return -1;
    const int num''', '''    const int num''', P),
    ('straight-key', 'bug', F, 'Vec d_index(d[0], d[1], next[2]);\n    d_index.cycleUnsigned', 'Vec d_index(d[0], d[1], d[2]);\n    d_index.cycleUnsigned', P),
    ('straight-num', 'bug', F, 'distf * cc_.weight_costmap_ / (100.0 * num);\n    cost += sum_hyst', 'distf * cc_.weight_costmap_ / 100.0;\n    cost += sum_hyst', P),
    ('straight-aspect', 'bug', F, 'std::abs(1.0 / aspect)', 'std::abs(aspect)', P),
    ('straight-aspect-sign', 'bug', F, 'std::abs(1.0 / aspect)', '(1.0 / aspect)', P),
    ('curve-border', 'bug', F, 'cur[0] >= max_boundary_[0]', 'cur[0] > max_boundary_[0]', P),
    ('curve-border2', 'bug', F, 'cur[1] < min_boundary_[1]', 'cur[1] < min_boundary_[0]', P),
    ('curve-decel', 'bug', F, 'std::abs(cc_.max_vel_ / r1) > cc_.max_ang_vel_', 'cc_.max_vel_ / r1 > cc_.max_ang_vel_', P),
    ('curve-rad', 'bug', F, '(r1 + r2) / 2', '(r1 - r2) / 2', P),
    ('curve-turnsum', 'bug', F, 'sum_turn * map_info_.angular_resolution * std::abs(d[2])', 'sum_turn * map_info_.angular_resolution * d[2]', P),
    ('curve-turnsum2', 'bug', F, '''          sum_turn += c;''', '''          sum_turn += 1;''', P),
    ('curve-cell', 'bug', F, '''        const Vec pos(
            cur[0] + pos_diff[0], cur[1] + pos_diff[1], pos_diff[2]);''', '''        const Vec pos(
            cur[0] + pos_diff[0], cur[1] + pos_diff[1], next[2]);''', P),
    ('2d-map', 'bug', F, 'base_->cm_rough_[pos]', 'base_->cm_[pos]', P),
    ('2d-lethal', 'bug', F, '''    const auto c = base_->cm_rough_[pos];
    if (c > 99)
      return -1;''', '''    const auto c = base_->cm_rough_[pos];
    if (c > 99)
      break;''', P),
    ('2d-sum', 'bug', F, 'distf * base_->cc_.weight_costmap_', 'distf * base_->cc_.weight_costmap_turn_', P),
    ('estim-unreach', 'bug', F, '''  if (cost == std::numeric_limits<float>::max())
    return std::numeric_limits<float>::max();
''', '', P),
    ('estim-nowrap', 'bug', F, '''  while (diff < -static_cast<int>(map_info_.angle) / 2)
    diff += static_cast<int>(map_info_.angle);
''', '', P),
    ('estim-sign', 'bug', F, 'euclid_cost_coef_[2] * std::abs(diff)', 'euclid_cost_coef_[2] * diff', P),
    ('estim-cell', 'bug', F, 'Vec s2(cur[0], cur[1], 0);', 'Vec s2(goal[0], goal[1], 0);', P),
    ('estim2', 'bug', F, '  const Vec d = goal - cur;\n  const float cost = base_->euclidCostRough(d);', '  const Vec d = goal - cur;\n  const float cost = base_->euclidCost(d);', P),
    ('search-local', 'bug', F, 'if (ds.sqlen() < local_range_sq)', 'if (ds.sqlen() > local_range_sq)', P),
    ('search-first', 'bug', F, '''      return motion_primitives_[p[2]];
    }
''', '''      return motion_primitives_[p[2]];
    }
    break;
''', P),
    ('search-heading', 'bug', F, 'return motion_primitives_[p[2]];', 'return motion_primitives_[es[2]];', P),
    ('rough-disc', 'bug', F, 'if (d.sqlen() > range_ * range_)', 'if (d.sqlen() >= range_ * range_)', P),
    ('rough-half', 'bug', F, 'for (d[1] = -range_; d[1] <= range_; d[1]++)', 'for (d[1] = -range_; d[1] < range_; d[1]++)', P),
    ('coef-order', 'bug', F, '''  euclid_cost_coef_ = euclid_cost_coef;
  cc_ = cc;
  local_range_ = local_range;
  createEuclidCostCache();''', '''  createEuclidCostCache();
  euclid_cost_coef_ = euclid_cost_coef;
  cc_ = cc;
  local_range_ = local_range;''', P),
    ('coef-prim', 'bug', F, 'motion_primitives_ = MotionPrimitiveBuilder::build(map_info_, cc_, range_);', '', P),
    ('cache-last', 'bug', F, 'rootsum < static_cast<int>(euclid_cost_lin_cache_.size()); ++rootsum)', 'rootsum < static_cast<int>(euclid_cost_lin_cache_.size()) - 1; ++rootsum)', P),
    ('cache-over', 'bug', F, '  if (rootsum < static_cast<int>(euclid_cost_lin_cache_.size()))', '  if (rootsum <= static_cast<int>(euclid_cost_lin_cache_.size()))', P),
    ('linear-map', 'bug', F, 'cm_rough_.getAddressor()', 'cm_.getAddressor()', P),
    ('border', 'bug', F, 'min_boundary_ = motion_cache_.getMaxRange();', 'min_boundary_ = motion_cache_linear_.getMaxRange();', P),
    # behaviour preserved
    ('ok-helper', 'ok', F, ['''float GridAstarModel3D::cost(
    const Vec& cur''', '  if ((cm_[cur] > 99) || (cm_[next] > 99))\n'], ['''static inline bool lethal(const char c)
{
  return c > 99;
}
float GridAstarModel3D::cost(
    const Vec& cur''', '  if (lethal(cm_[cur]) || lethal(cm_[next]))\n'], P),
    ('ok-turnmod', 'ok', F, '''      pos[2] += dir;
      if (pos[2] < 0)
        pos[2] += map_info_.angle;
      else if (pos[2] >= static_cast<int>(map_info_.angle))
        pos[2] -= map_info_.angle;
''', '''      pos[2] += dir;
      pos.cycleUnsigned(map_info_.angle);
''', P),
    ('ok-turnclosed', 'ok', F, ['''      const auto c = cm_[pos];
      if (c > 99)
        return -1;
      if (c >= cc_''', '''      pos[2] += dir;
      if (pos[2] < 0)
        pos[2] += map_info_.angle;
      else if (pos[2] >= static_cast<int>(map_info_.angle))
        pos[2] -= map_info_.angle;
'''], ['''      Vec pos(cur[0], cur[1], cur[2] + dir * i);
      pos.cycleUnsigned(map_info_.angle);
      const auto c = cm_[pos];
      if (c > 99)
        return -1;
      if (c >= cc_''', ''], P),
    ('ok-index-loop', 'ok', F, '''    for (const auto& pos_diff : cache_page->second.getMotion())
    {
      const Vec pos(
          cur[0] + pos_diff[0], cur[1] + pos_diff[1], pos_diff[2]);''', '''    const auto& cells = cache_page->second.getMotion();
    for (size_t k = 0; k < cells.size(); ++k)
    {
      const auto& pos_diff = cells[k];
      const Vec pos(
          cur[0] + pos_diff[0], cur[1] + pos_diff[1], pos_diff[2]);''', P),
    ('ok-hyst', 'ok', F, STRAIGHT, STRAIGHT.replace('''      if (hysteresis_)
        sum_hyst += cm_hyst_[pos];''', '''      sum_hyst += hysteresis_ ? cm_hyst_[pos] : 0;'''), P),
    ('ok-estim', 'ok', F, '''  while (diff > static_cast<int>(map_info_.angle) / 2)
    diff -= static_cast<int>(map_info_.angle);
  while (diff < -static_cast<int>(map_info_.angle) / 2)
    diff += static_cast<int>(map_info_.angle);

  cost += euclid''', '''  Vec turn(0, 0, diff);
  turn.cycle(map_info_.angle);
  diff = turn[2];

  cost += euclid''', P),
    ('ok-search', 'ok', F, '''  for (const VecWithCost& s : ss)
  {
    const Vec ds = s.v_ - p;

    if (ds.sqlen() < local_range_sq)
    {
      return motion_primitives_[p[2]];
    }
  }
  return search_list_rough_;''', '''  bool near = false;
  for (size_t i = 0; i < ss.size() && !near; ++i)
  {
    const Vec ds = ss[i].v_ - p;
    near = ds.sqlen() < local_range_sq;
  }
  return near ? motion_primitives_[p[2]] : search_list_rough_;''', P),
    ('ok-aspect', 'ok', F, '''    const float aspect = motion[0] / motion[1];
    cost += euclid_cost_coef_[2] * std::abs(1.0 / aspect)''', '''    cost += euclid_cost_coef_[2] * std::abs(motion[1] / motion[0])''', P),
    ('ok-sumfloat', 'ok', F, '      int sum = 0, sum_turn = 0, sum_hyst = 0;', '      float sum = 0, sum_turn = 0, sum_hyst = 0;', P),
    ('ok-split', 'ok', F, '''    cost += sum * map_info_.linear_resolution * distf * cc_.weight_costmap_ / (100.0 * num);
    cost += sum_hyst * map_info_.linear_resolution * distf * cc_.weight_hysteresis_ / (100.0 * num);
  }
  else''', '''    const float per_cell = map_info_.linear_resolution * distf / (100.0 * num);
    cost += per_cell * (sum * cc_.weight_costmap_ + sum_hyst * cc_.weight_hysteresis_);
  }
  else''', P),
    ('ok-roughlist', 'ok', F, '''      if (d.sqlen() > range_ * range_)
        continue;
      d[2] = 0;
      search_list_rough_.push_back(d);''', '''      if (d.sqlen() <= range_ * range_)
        search_list_rough_.push_back(Vec(d[0], d[1], 0));''', P),
]
