
H = 'planner_cspace/include/planner_cspace/bbf.h'
M = 'planner_cspace/include/planner_cspace/planner_3d/costmap_bbf.h'
C = 'planner_cspace/src/costmap_bbf.cpp'
P = ['P07']
CASES = [
    ('up-noclampmax', 'bug', H, '    else if (odds_ > MAX_ODDS)\n      odds_ = MAX_ODDS;\n', '', P),
    ('up-add', 'bug', H, 'odds_ *= odds;', 'odds_ += odds - 1;', P),
    ('up-prob', 'bug', H, 'return o / (1.0 + o);', 'return o / (1.0 - o);', P),
    ('up-norm', 'bug', H, '(MAX_PROBABILITY - MIN_PROBABILITY);\n  }', '(MAX_PROBABILITY + MIN_PROBABILITY);\n  }', P),
    ('up-ret', 'bug', H, '    return odds_;\n  }\n  float get()', '    return odds;\n  }\n  float get()', P),
    ('win-min', 'bug', C, 'std::max(0, center[0] - range_max)', 'std::max(0, center[0] - range_min)', P),
    ('win-replace', 'bug', C, 'std::min(updated_min_[0], std::max(0, center[0] - range_max))', 'std::max(0, center[0] - range_max)', P),
    ('win-maxoff', 'bug', C, 'std::min(size_[1] - 1, center[1] + range_max)', 'std::min(size_[1] - 1, center[1] + range_max - 1)', P),
    ('win-swap', 'bug', C, 'std::min(size_[1] - 1, center[1] + range_max)', 'std::min(size_[0] - 1, center[1] + range_max)', P),
    ('rem-rangemax', 'bug', C, 'if (r_sq > range_max_sq)', 'if (r_sq >= range_max_sq)', P),
    ('rem-rangemin', 'bug', C, 'if (r_sq >= range_min_sq)', 'if (r_sq > range_min_sq)', P),
    ('rem-unknown', 'bug', C, 'if (c < 0)', 'if (c < -1)', P),
    ('rem-99', 'bug', C, 'if (c == 100)', 'if (c >= 99)', P),
    ('rem-break', 'bug', C, 'if (r_sq > range_max_sq)\n        continue;', 'if (r_sq > range_max_sq)\n        break;', P),
    ('rem-height', 'bug', C, 'static_cast<size_t>(gp[1]) >= height', 'static_cast<size_t>(gp[1]) >= width', P),
    ('rem-loop', 'bug', C, 'p[1] = -range_max; p[1] <= range_max', 'p[1] = -range_max; p[1] < range_max', P),
    ('rem-cell', 'bug', C, '(*costmap)[Vec(gp[0], gp[1], 0)]', '(*costmap)[Vec(gp[1], gp[0], 0)]', P),
    ('rem-missmin', 'bug', C, '      else\n      {\n        cm_hist_bbf_[gp].update(remember_miss_odds);', '      else if (r_sq >= range_min_sq)\n      {\n        cm_hist_bbf_[gp].update(remember_miss_odds);', P),
    ('upd-empty', 'ok', C, 'updated_max_ = VecInternal(-1, -1);', 'updated_max_ = VecInternal(0, 0);', P),
    ('upd-excl', 'bug', C, 'p[0] <= updated_max_[0]', 'p[0] < updated_max_[0]', P),
    ('upd-trunc', 'bug', C, 'std::lround(cm_hist_bbf_[p].getNormalizedProbability() * 100.0)', 'cm_hist_bbf_[p].getNormalizedProbability() * 100.0', P),
    ('upd-prob', 'bug', C, 'getNormalizedProbability() * 100.0', 'getProbability() * 100.0', P),
    ('upd-rowstart', 'bug', C, 'for (p[0] = updated_min_[0]; p[0]', 'for (; p[0]', P),
    ('clr-odds', 'bug', M, 'bbf::BinaryBayesFilter(bbf::MIN_ODDS)', 'bbf::BinaryBayesFilter()', P),
    ('clr-win', 'bug', M, 'updated_max_ = VecInternal(size_[0] - 1, size_[1] - 1);', 'updated_max_ = VecInternal(size_[0], size_[1]);', P),
    ('rst-hist', 'bug', M, '    cm_hist_.reset(VecInternal(size[0], size[1]));\n', '', P),
    ('rst-size', 'bug', M, '    size_ = size;\n', '    size_ = Vec(size[1], size[0], size[2]);\n', P),
    ('get-swap', 'bug', M, 'cm_hist_[VecInternal(p[0], p[1])];', 'cm_hist_[VecInternal(p[1], p[0])];', P),
    ('each-skip', 'bug', C, 'for (p[0] = 0; p[0] < size_[0]; p[0]++)', 'for (p[0] = 0; p[0] < size_[0] - 1; p[0]++)', P),
    ('each-pos', 'bug', C, 'for (Vec p(0, 0, 0);', 'for (Vec p(0, 0, 1);', P),
    ('ok-clamp', 'ok', H, '    if (odds_ < MIN_ODDS)\n      odds_ = MIN_ODDS;\n    else if (odds_ > MAX_ODDS)\n      odds_ = MAX_ODDS;\n    return odds_;',
     '    const float raised = odds_ > MIN_ODDS ? odds_ : MIN_ODDS;\n    odds_ = raised < MAX_ODDS ? raised : MAX_ODDS;\n    return odds_;', P),
    ('ok-stdclamp', 'ok', H, ['    odds_ *= odds;\n    if (odds_ < MIN_ODDS)\n      odds_ = MIN_ODDS;\n    else if (odds_ > MAX_ODDS)\n      odds_ = MAX_ODDS;\n    return odds_;', 'namespace planner_cspace'],
     ['    return odds_ = std::min(std::max(odds_ * odds, MIN_ODDS), MAX_ODDS);', '#include <algorithm>\nnamespace planner_cspace'], P),
    ('ok-rem-range', 'ok', C, ['  for (VecInternal p(-range_max, 0); p[0] <= range_max; p[0]++)', '    for (p[1] = -range_max; p[1] <= range_max; p[1]++)', '      const VecInternal gp = VecInternal(center[0], center[1]) + p;\n      if (static_cast<size_t>(gp[0]) >= width ||\n          static_cast<size_t>(gp[1]) >= height)\n        continue;\n'],
     ['  for (VecInternal gp(std::max(0, center[0] - range_max), 0); gp[0] <= std::min(size_[0] - 1, center[0] + range_max); gp[0]++)', '    for (gp[1] = std::max(0, center[1] - range_max); gp[1] <= std::min(size_[1] - 1, center[1] + range_max); gp[1]++)', '      const VecInternal p = gp - VecInternal(center[0], center[1]);\n'], P),
    ('ok-rem-order', 'ok', C, ['for (VecInternal p(-range_max, 0); p[0] <= range_max; p[0]++)', 'for (p[1] = -range_max; p[1] <= range_max; p[1]++)'], ['for (VecInternal p(0, -range_max); p[1] <= range_max; p[1]++)', 'for (p[0] = -range_max; p[0] <= range_max; p[0]++)'], P),
    ('ok-rem-odds', 'ok', C, '      if (c == 100)\n      {\n        if (r_sq >= range_min_sq)\n        {\n          cm_hist_bbf_[gp].update(remember_hit_odds);\n        }\n      }\n      else\n      {\n        cm_hist_bbf_[gp].update(remember_miss_odds);\n      }',
     '      const bool hit = c == 100;\n      if (hit && r_sq < range_min_sq)\n        continue;\n      auto& cell = cm_hist_bbf_[gp];\n      cell.update(hit ? remember_hit_odds : remember_miss_odds);', P),
    ('ok-rem-helper', 'ok', C, ['void CostmapBBFImpl::updateCostmap()', 'if (static_cast<size_t>(gp[0]) >= width ||\n          static_cast<size_t>(gp[1]) >= height)'], ['static bool outside(const int x, const int y, const int w, const int h)\n{\n  return x < 0 || y < 0 || x >= w || y >= h;\n}\nvoid CostmapBBFImpl::updateCostmap()', 'if (outside(gp[0], gp[1], size_[0], size_[1]))'], P),
    ('ok-win-var', 'ok', C, '  updated_min_ = VecInternal(\n      std::min(updated_min_[0], std::max(0, center[0] - range_max)),\n      std::min(updated_min_[1], std::max(0, center[1] - range_max)));',
     '  for (int i = 0; i < 2; ++i)\n  {\n    const int lo = std::max(0, center[i] - range_max);\n    if (lo < updated_min_[i])\n      updated_min_[i] = lo;\n  }', P),
    ('ok-upd-loop', 'ok', C, '  for (VecInternal p = updated_min_; p[1] <= updated_max_[1]; p[1]++)\n  {\n    for (p[0] = updated_min_[0]; p[0] <= updated_max_[0]; p[0]++)\n    {\n      cm_hist_[p] =',
     '  for (int y = updated_min_[1]; y <= updated_max_[1]; ++y)\n  {\n    for (int x = updated_min_[0]; x <= updated_max_[0]; ++x)\n    {\n      const VecInternal p(x, y);\n      cm_hist_[p] =', P),
    ('ok-upd-all', 'ok', C, ['VecInternal p = updated_min_; p[1] <= updated_max_[1]', 'for (p[0] = updated_min_[0]; p[0] <= updated_max_[0]'], ['VecInternal p(0, 0); p[1] < size_[1]', 'for (p[0] = 0; p[0] < size_[0]'], P),
    ('ok-clr-win', 'ok', M, '    updated_min_ = VecInternal(0, 0);\n    updated_max_ = VecInternal(size_[0] - 1, size_[1] - 1);', '    updated_max_ = VecInternal(size_[0], size_[1]) - VecInternal(1, 1);\n    updated_min_ = VecInternal();\n    updated_min_[0] = 0;\n    updated_min_[1] = 0;', P),
    ('ok-each', 'ok', C, '  for (Vec p(0, 0, 0); p[1] < size_[1]; p[1]++)\n  {\n    for (p[0] = 0; p[0] < size_[0]; p[0]++)\n    {', '  for (int y = 0; y < size_[1]; ++y)\n  {\n    for (int x = 0; x < size_[0]; ++x)\n    {\n      const Vec p(x, y, 0);', P),
]
