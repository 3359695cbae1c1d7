D = 'planner_cspace/src/distance_map.cpp'
N = ['P17']
CASES = []


def b(n, o, w):
    CASES.append(('dm-' + n, 'bug', D, o, w, N))


def k(n, o, w):
    CASES.append(('ok-dm-' + n, 'ok', D, o, w, N))


b('stale-flip', 'if (center.p_raw_ > g_[center.v_])', 'if (center.p_raw_ >= g_[center.v_])')
b('no-overshoot', 'if (center.p_raw_ - range_overshoot > start_cost)', 'if (center.p_raw_ > start_cost)')
b('overshoot-local', '(p_.range + p_.local_range + p_.longcut_range)', '(p_.range + p_.local_range)')
b('cut-unmarked', 'edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;', '')
b('cut-mark-height', 'edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;', 'edges_buf_[center.v_[0] + center.v_[1] * p_.size[1]] = true;')
b('cut-break', '            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;\n            continue;', '            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;\n            break;')
b('i-on-stale', 'if (center.p_raw_ > g_[center.v_])\n            continue;', 'if (center.p_raw_ > g_[center.v_])\n          {\n            ++i;\n            continue;\n          }')
b('bound-x', 'static_cast<size_t>(next[0]) >= static_cast<size_t>(p_.size[0])', 'static_cast<size_t>(next[0]) > static_cast<size_t>(p_.size[0])')
b('bound-swap', 'static_cast<size_t>(next[1]) >= static_cast<size_t>(p_.size[1])', 'static_cast<size_t>(next[1]) >= static_cast<size_t>(p_.size[0])')
b('skip-noncost', 'if (gnext <= g_[p] + cost)', 'if (gnext <= g_[p] + cost * 2)')
b('coll-99', 'if (c > 99)', 'if (c > 100)')
b('coll-98', 'if (c > 99)', 'if (c > 98)')
b('coll-nobreak-lost', '                collision = true;\n                break;', '                collision = sum > 0;\n                break;')
b('sum-break', '              sum += c;', '              sum += c;\n              if (sum > 1000)\n                break;')
b('sum-d', 'const Astar::Vec pos = p + d;\n              const char', 'const Astar::Vec pos = next + d;\n              const char')
b('hist-next', 'bbf_costmap_->getCost(pos)', 'bbf_costmap_->getCost(next)')
b('edge-of-next', 'edge_indexes.push_back(p[0] + p[1] * p_.size[0]);', 'edge_indexes.push_back(next[0] + next[1] * p_.size[0]);')
b('edge-dropped', 'edge_indexes.push_back(p[0] + p[1] * p_.size[0]);', '')
b('weight-swap', '(sum * cc_.weight_costmap_ + sum_hist * cc_.weight_remembered_)', '(sum * cc_.weight_remembered_ + sum_hist * cc_.weight_costmap_)')
b('no-g2l', '(weight_linear * ds.grid_to_len) *', 'weight_linear *')
b('res', 'p_.resolution / 100.0', 'p_.resolution / 10.0')
b('neg-cost', '            if (cost < 0)\n            {\n              cost = 0;', '            if (cost < 0)\n            {')
b('zero-pos-cost', '            if (cost < 0)\n            {', '            if (cost < ds.euclid_cost)\n            {')
b('g-base', 'const float cost_next = it->p_raw_ + cost;', 'const float cost_next = it->p_ + cost;') if 0 else None
b('cand-p', 'updates.emplace_back(p, next, cost_next, cost_next);', 'updates.emplace_back(next, p, cost_next, cost_next);')
b('cand-cost', 'updates.emplace_back(p, next, cost_next, cost_next);', 'updates.emplace_back(p, next, cost_next, cost);')
b('apply-ge', 'if (g_[u.getPos()] > u.getCost())', 'if (g_[u.getPos()] >= u.getCost())')
b('apply-always', 'if (g_[u.getPos()] > u.getCost())', 'if (true)')
b('apply-noqueue', 'open.push(std::move(u.getPriorityVec()));', '')
b('apply-edge-false', 'edges_buf_[edge_index] = true;', 'edges_buf_[edge_index] = false;')
b('update-clear-late', '#pragma omp barrier\n#pragma omp critical', 'edge_indexes.clear();\n#pragma omp barrier\n#pragma omp critical')
b('end-1', 'if (centers.size() == 0)', 'if (centers.size() <= 1)')
b('open-1', 'if (open.size() < 1)\n            break;', 'if (open.size() <= 1)\n            break;')
b('radius', 'const int range_rough = 4;', 'const int range_rough = 3;')
b('sq', 'if (d.sqlen() > range_rough * range_rough)', 'if (d.sqlen() >= range_rough * range_rough)')
b('skip-axis', 'if (d[0] == 0 && d[1] == 0)', 'if (d[0] == 0 || d[1] == 0)')
b('dpy', 'static_cast<float>(d[1]) / dist', 'static_cast<float>(d[0]) / dist')
b('pos-first', 'for (int i = 0; i < dist; i++)', 'for (int i = 1; i < dist; i++)')
b('pos-back', "if (diffs.pos.size() == 0 || diffs.pos.back() != ipos)", "if (diffs.pos.size() == 0 || diffs.pos.back()[0] != ipos[0])")
b('ec-zero', 'model->euclidCostRough(d)', 'model->euclidCostRough(Astar::Vec(d[0], 0, 0))')
b('diffs-stay', '  search_diffs_.clear();\n', '')
b('init-goal', '  goal_ = Astar::Vec(-1, -1, -1);\n  p_ = p;', '  p_ = p;')
b('init-size', 'if (p.size[0] != p_.size[0] || p.size[1] != p_.size[1])', 'if (p.size[0] * p.size[1] != p_.size[0] * p_.size[1])')
b('init-edges', 'edges_buf_.resize(p_.size[0] * p_.size[1], false);', 'edges_buf_.resize(p_.size[0] * p_.size[0], false);')
b('upd-goal', 'if (e_rough != goal_)', 'if (e_rough[0] != goal_[0])')
b('upd-rect-x', 'p[0] <= rect.max[0]; p[0]++', 'p[0] < rect.max[0]; p[0]++')
b('upd-rect-y', 'p[1] <= rect.max[1]; p[1]++', 'p[1] < rect.max[1]; p[1]++')
b('upd-rect-min', 'for (p[0] = rect.min[0]; p[0]', 'for (p[0] = rect.min[1]; p[0]')
b('upd-min-cell', '        p_cost_min = p;\n', '        p_cost_min = s_rough;\n')
b('upd-min-flip', 'if (cost_min > g_[p])', 'if (cost_min < g_[p])')
b('upd-zero', 'if (cost_min == 0.0)', 'if (cost_min < 0.0)')
b('upd-noclear', '  pq_open_.clear();\n  pq_erase_.clear();\n\n  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))', '  pq_erase_.clear();\n\n  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))')
b('upd-noinval', '    goal_ = Astar::Vec(-1, -1, -1);\n    return;\n  }\n\n  if (cost_min', '    return;\n  }\n\n  if (cost_min')
b('upd-exceed-and', 'if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))', 'if (s_rough.isExceeded(cm_rough_.size()) && e_rough.isExceeded(cm_rough_.size()))')
b('upd-noerase', '    pq_erase_.emplace(0.0, 0.0, p_cost_min);', '')
b('upd-nostart', 'if (g_[s_rough] > cost_min)', 'if (g_[s_rough] < cost_min)')
b('fl-keep', '    g_[p] = std::numeric_limits<float>::max();\n\n    for', '    for')
b('fl-diag', 'if (!((d[0] == 0) ^ (d[1] == 0)))', 'if ((d[0] == 0) ^ (d[1] == 0))')
b('fl-x', 'for (Astar::Vec d(-1, 0, 0); d[0] <= 1; d[0]++)', 'for (Astar::Vec d(-1, 0, 0); d[0] < 1; d[0]++)')
b('fl-bound', '(unsigned int)next[1] >= (unsigned int)p_.size[1])\n          continue;\n        const float gn', '(unsigned int)next[1] > (unsigned int)p_.size[1])\n          continue;\n        const float gn')
b('fl-le', 'if (gn < cost_min)', 'if (gn <= cost_min)')
b('fl-ec', 'if (gn < cost_min)', 'if (gn < cost_min - p_.euclid_cost[0])') if 0 else None
b('fl-more', 'if (gn < cost_min)', 'if (gn < cost_min + 1)')
b('fl-open0', 'pq_open_.emplace(gn, gn, next);', 'pq_open_.emplace(cost_min, cost_min, next);')
b('fl-openp', 'pq_open_.emplace(gn, gn, next);', 'pq_open_.emplace(gn, gn, p);')
b('fl-unmark', '          pq_open_.emplace(gn, gn, next);\n', '          pq_open_.emplace(gn, gn, next);\n          edges_buf_[next[0] + next[1] * p_.size[0]] = false;\n')
b('fl-continue', '    if (g_[p] == std::numeric_limits<float>::max())\n      continue;\n    g_[p]', '    if (g_[p] == std::numeric_limits<float>::max())\n      break;\n    g_[p]')
b('rq-y', 'static_cast<int>(pos / p_.size[0])', 'static_cast<int>(pos / p_.size[1])')
b('rq-pos', '    ++pos;\n  }\n\n  if (pq_open_', '    if (!edge)\n      ++pos;\n  }\n\n  if (pq_open_')
b('rq-cost', '      const float p = g_[v];\n', '      const float p = g_[e_rough];\n')
b('rq-not', '    if (edge)\n', '    if (!edge)\n')
b('rq-break', '      pq_open_.emplace(p, p, v);\n', '      pq_open_.emplace(p, p, v);\n      break;\n')
b('seed-upd', '  if (pq_open_.size() == 0)\n  {\n    pq_open_.emplace(', '  if (pq_open_.size() > 0)\n  {\n    pq_open_.emplace(')
b('seed-where', 'pq_open_.emplace(-p_.euclid_cost[0] * 0.5, -p_.euclid_cost[0] * 0.5, e_rough);', 'pq_open_.emplace(-p_.euclid_cost[0] * 0.5, -p_.euclid_cost[0] * 0.5, s_rough);')
b('upd-fill-s', '  fillCostmap(pq_open_, s_rough);\n}\n\nvoid DistanceMap::create', '  fillCostmap(pq_open_, e_rough);\n}\n\nvoid DistanceMap::create')
b('cr-goal-early', '    goal_ = Astar::Vec(-1, -1, -1);\n    return;\n  }\n\n  pq_open_.clear();\n  pq_erase_.clear();\n  g_.clear', '    return;\n  }\n\n  pq_open_.clear();\n  pq_erase_.clear();\n  g_.clear')
b('cr-noclear', '  g_.clear(std::numeric_limits<float>::max());\n', '')
b('cr-q', '  pq_open_.clear();\n  pq_erase_.clear();\n  g_.clear', '  pq_erase_.clear();\n  g_.clear')
b('cr-goal0', '  g_[e_rough] = 0;\n', '')
b('cr-goal-s', '  g_[e_rough] = 0;\n', '  g_[s_rough] = 0;\n')
b('cr-seed-s', 'pq_open_.push(Astar::PriorityVec(g_[e_rough], g_[e_rough], e_rough));', 'pq_open_.push(Astar::PriorityVec(g_[e_rough], g_[e_rough], s_rough));')
b('cr-seed-stale', 'pq_open_.push(Astar::PriorityVec(g_[e_rough], g_[e_rough], e_rough));', 'pq_open_.push(Astar::PriorityVec(0, 0, e_rough));')
b('cr-goal-s2', '  goal_ = e_rough;\n', '  goal_ = s_rough;\n')

k('cond', 'if (center.p_raw_ > g_[center.v_])', 'if (g_[center.v_] < center.p_raw_)')
k('empty', 'if (open.size() < 1)\n            break;', 'if (open.empty())\n            break;')
k('erase-while', '  while (true)\n  {\n    if (pq_erase_.size() < 1)\n      break;\n', '  while (pq_erase_.size() > 0)\n  {\n')
k('minwrite', '      if (cost_min > g_[p])\n      {\n        p_cost_min = p;\n        cost_min = g_[p];\n      }', '      const float c = g_[p];\n      if (c >= cost_min)\n        continue;\n      cost_min = c;\n      p_cost_min = p;')
k('nextdir', '        if (!((d[0] == 0) ^ (d[1] == 0)))\n          continue;', '        if (std::abs(d[0]) + std::abs(d[1]) != 1)\n          continue;')
k('edges-loop', '  int pos = 0;\n  for (const auto& edge : edges_buf_)\n  {\n    if (edge)\n    {\n      const Astar::Vec v(static_cast<int>(pos % p_.size[0]), static_cast<int>(pos / p_.size[0]), 0);\n      const float p = g_[v];\n      pq_open_.emplace(p, p, v);\n    }\n    ++pos;\n  }', '  for (size_t i = 0; i < edges_buf_.size(); ++i)\n  {\n    if (!edges_buf_[i])\n      continue;\n    const int pos = i;\n    const Astar::Vec v(pos % p_.size[0], pos / p_.size[0], 0);\n    pq_open_.push(Astar::PriorityVec(g_[v], g_[v], v));\n  }')
k('edges-xy', '  int pos = 0;\n  for (const auto& edge : edges_buf_)\n  {\n    if (edge)\n    {\n      const Astar::Vec v(static_cast<int>(pos % p_.size[0]), static_cast<int>(pos / p_.size[0]), 0);\n      const float p = g_[v];\n      pq_open_.emplace(p, p, v);\n    }\n    ++pos;\n  }', '  for (int y = 0; y < p_.size[1]; ++y)\n  {\n    for (int x = 0; x < p_.size[0]; ++x)\n    {\n      if (!edges_buf_[x + y * p_.size[0]])\n        continue;\n      const Astar::Vec v(x, y, 0);\n      const float p = g_[v];\n      pq_open_.emplace(p, p, v);\n    }\n  }')
k('costmax', '            if (cost < 0)\n            {\n              cost = 0;\n#pragma omp atomic write\n              debug_data_.has_negative_cost = true;\n            }', '            cost = std::max(cost, 0.0f);')
k('flag', '                collision = true;\n                break;\n              }', '                collision = true;\n              }')
k('persum', '              sum_hist += bbf_costmap_->getCost(pos);', '              const float remembered = bbf_costmap_->getCost(pos);\n              sum_hist += remembered;')
k('create-else', '  goal_ = e_rough;\n\n  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))\n  {\n    // Out of the map\n    goal_ = Astar::Vec(-1, -1, -1);\n    return;\n  }\n', '  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))\n  {\n    // Out of the map\n    goal_ = Astar::Vec(-1, -1, -1);\n    return;\n  }\n  goal_ = e_rough;\n')
k('seed-var', '  g_[e_rough] = -p_.euclid_cost[0] * 0.5;  // Decrement to reduce calculation error\n  pq_open_.push(Astar::PriorityVec(g_[e_rough], g_[e_rough], e_rough));', '  const float seed = -0.5 * p_.euclid_cost[0];\n  g_[e_rough] = seed;\n  pq_open_.emplace(seed, seed, e_rough);')
k('apply-ref', '          if (g_[u.getPos()] > u.getCost())\n          {\n            g_[u.getPos()] = u.getCost();', '          float& g = g_[u.getPos()];\n          if (u.getCost() < g)\n          {\n            g = u.getCost();')
k('swap-loop', 'for (const SearchDiffs& ds : search_diffs_)\n        {', 'for (size_t k = 0; k < search_diffs_.size(); ++k)\n        {\n          const SearchDiffs& ds = search_diffs_[k];')
k('pos-line', '        pos[0] += dpx;\n        pos[1] += dpy;\n', '        pos = Astar::Vecf((i + 1) * dpx, (i + 1) * dpy, 0);\n')
k('whole-fresh', '  if (e_rough != goal_)\n  {', '  if (!(e_rough == goal_))\n  {')
CASES = [c for c in CASES if c]


H = 'planner_cspace/include/planner_cspace/planner_3d/distance_map.h'
SIG = '  void fillCostmap('
DEF = 'void DistanceMap::init(const GridAstarModel3D::Ptr model, const Params& p)'


def helper(n, edits, decl, body):
    CASES.append(('ok-dm-' + n, 'ok', [D] * (len(edits) + 1) + [H], [e[0] for e in edits] + [DEF, SIG],
                  [e[1] for e in edits] + [body + '\n' + DEF, decl + '\n' + SIG], N))


helper('helper-outside', [('''  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
  {
    // Out of the map
    goal_ = Astar::Vec(-1, -1, -1);
    return;
  }

  if (cost_min''', '''  if (forgetIfOutside(s_rough, e_rough))
    return;

  if (cost_min'''), ('''  if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
  {
    // Out of the map
    goal_ = Astar::Vec(-1, -1, -1);
    return;
  }

  pq_open''', '''  if (forgetIfOutside(s_rough, e_rough))
    return;

  pq_open''')], '  bool forgetIfOutside(const Astar::Vec& s, const Astar::Vec& e);', '''bool DistanceMap::forgetIfOutside(const Astar::Vec& s, const Astar::Vec& e)
{
  if (!s.isExceeded(cm_rough_.size()) && !e.isExceeded(cm_rough_.size()))
    return false;
  goal_ = Astar::Vec(-1, -1, -1);
  return true;
}
''')
helper('helper-index', [('edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true', 'edges_buf_[edgeIndex(center.v_)] = true'),
                        ('edge_indexes.push_back(p[0] + p[1] * p_.size[0]);', 'edge_indexes.push_back(edgeIndex(p));'),
                        ('edges_buf_[next[0] + next[1] * p_.size[0]] = false;', 'edges_buf_[edgeIndex(next)] = false;')],
       '  size_t edgeIndex(const Astar::Vec& p) const;', '''size_t DistanceMap::edgeIndex(const Astar::Vec& p) const
{
  return p[0] + p[1] * p_.size[0];
}
''')
SCAN = '''  Astar::Vec p_cost_min;
  float cost_min = std::numeric_limits<float>::max();
  for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)
  {
    for (p[0] = rect.min[0]; p[0] <= rect.max[0]; p[0]++)
    {
      if (cost_min > g_[p])
      {
        p_cost_min = p;
        cost_min = g_[p];
      }
    }
  }
'''
helper('helper-scan', [(SCAN, '  Astar::Vec p_cost_min;\n  const float cost_min = leastCost(rect, p_cost_min);\n')],
       '  float leastCost(const Rect& rect, Astar::Vec& p_cost_min) const;',
       'float DistanceMap::leastCost(const Rect& rect, Astar::Vec& p_cost_min) const\n{\n' + SCAN.replace('  Astar::Vec p_cost_min;\n', '') + '  return cost_min;\n}\n')
ER = '''    for (Astar::Vec d(-1, 0, 0); d[0] <= 1; d[0]++)
    {
      for (d[1] = -1; d[1] <= 1; d[1]++)
      {
        if (!((d[0] == 0) ^ (d[1] == 0)))
          continue;
        Astar::Vec next = p + d;
        next[2] = 0;
        if ((unsigned int)next[0] >= (unsigned int)p_.size[0] ||
            (unsigned int)next[1] >= (unsigned int)p_.size[1])
          continue;
        const float gn = g_[next];
        if (gn == std::numeric_limits<float>::max())
          continue;
        if (gn < cost_min)
        {
          pq_open_.emplace(gn, gn, next);
          continue;
        }
        pq_erase_.emplace(0.0, 0.0, next);
        edges_buf_[next[0] + next[1] * p_.size[0]] = false;
      }
    }
'''
helper('helper-erase', [(ER, '    eraseAround(p, cost_min);\n')], '  void eraseAround(const Astar::Vec& p, const float cost_min);',
       'void DistanceMap::eraseAround(const Astar::Vec& p, const float cost_min)\n{\n' + ER + '}\n')
k('neighbour-table', ER, '''    static const int offsets[4][2] = {{-1, 0}, {0, -1}, {0, 1}, {1, 0}};
    for (const auto& o : offsets)
    {
      const Astar::Vec next(p[0] + o[0], p[1] + o[1], 0);
      if (static_cast<unsigned int>(next[0]) >= static_cast<unsigned int>(p_.size[0]) ||
          static_cast<unsigned int>(next[1]) >= static_cast<unsigned int>(p_.size[1]))
        continue;
      const float gn = g_[next];
      if (gn == std::numeric_limits<float>::max())
        continue;
      if (gn < cost_min)
      {
        pq_open_.emplace(gn, gn, next);
        continue;
      }
      pq_erase_.emplace(0.0, 0.0, next);
      edges_buf_[next[0] + next[1] * p_.size[0]] = false;
    }
''')
SEL = '''          if (open.size() < 1)
            break;
          Astar::PriorityVec center(open.top());
          open.pop();
          if (center.p_raw_ > g_[center.v_])
            continue;
          if (center.p_raw_ - range_overshoot > start_cost)
          {
            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;
            continue;
          }
          centers.emplace_back(std::move(center));
          ++i;
'''
k('select-while', '        for (size_t i = 0; i < static_cast<size_t>(num_cost_estim_task_);)\n        {\n' + SEL + '        }\n', '''        while (centers.size() < static_cast<size_t>(num_cost_estim_task_) && open.size() > 0)
        {
          Astar::PriorityVec center(open.top());
          open.pop();
          if (center.p_raw_ > g_[center.v_])
            continue;
          if (center.p_raw_ - range_overshoot > start_cost)
          {
            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;
            continue;
          }
          centers.emplace_back(std::move(center));
        }
''')
k('select-else', SEL, '''          if (open.size() < 1)
            break;
          const Astar::PriorityVec center(open.top());
          open.pop();
          const bool stale = center.p_raw_ > g_[center.v_];
          if (!stale)
          {
            if (center.p_raw_ - range_overshoot > start_cost)
            {
              edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;
            }
            else
            {
              centers.push_back(center);
              ++i;
            }
          }
''')
SUM = '''            for (const auto& d : ds.pos)
            {
              const Astar::Vec pos = p + d;
              const char c = cm_rough_[pos];
              if (c > 99)
              {
                collision = true;
                break;
              }
              sum += c;
              sum_hist += bbf_costmap_->getCost(pos);
            }
'''
helper('helper-sum', [('''            bool collision = false;
''' + SUM + '            if (collision)\n', '            if (!sumCosts(p, ds, sum, sum_hist))\n')], '  bool sumCosts(const Astar::Vec& p, const SearchDiffs& ds, float& sum, float& sum_hist) const;',
       '''bool DistanceMap::sumCosts(const Astar::Vec& p, const SearchDiffs& ds, float& sum, float& sum_hist) const
{
  for (const auto& d : ds.pos)
  {
    const Astar::Vec pos = p + d;
    const char c = cm_rough_[pos];
    if (c > 99)
      return false;
    sum += c;
    sum_hist += bbf_costmap_->getCost(pos);
  }
  return true;
}
''')
