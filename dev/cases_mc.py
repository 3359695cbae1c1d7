F = 'planner_cspace/src/motion_cache.cpp'
P = ['P10']
def nth(s, n):
    return s
PUSHC = '''            if ((pos != d) && (registered.find(pos) == registered.end()))
            {
              page.motion_.push_back(pos);
              registered[pos] = true;
            }
'''
PUSHS = '''              if ((pos != d) && (registered.find(pos) == registered.end()))
              {
                page.motion_.push_back(pos);
                for (int i = 0; i < 3; ++i)
                  max_range[i] = std::max(max_range[i], std::abs(pos[i]));
                registered[pos] = true;
              }
'''
CASES = [
    ('range-strict', 'bug', F, 'if (d.sqlen() > range * range)', 'if (d.sqlen() >= range * range)', P),
    ('loop-short', 'bug', F, 'for (d[1] = -range; d[1] <= range; d[1]++)', 'for (d[1] = -range; d[1] < range; d[1]++)', P),
    ('zero-or', 'bug', F, 'if (d[0] == 0 && d[1] == 0)\n          continue;', 'if (d[0] == 0 || d[1] == 0)\n          continue;', P),
    ('break', 'bug', F, 'if (d.sqlen() > range * range)\n          continue;', 'if (d.sqlen() > range * range)\n          break;', P),
    ('headings', 'bug', F, 'for (d[2] = 0; d[2] < angle; d[2]++)', 'for (d[2] = 1; d[2] < angle; d[2]++)', P),
    ('page-size', 'bug', F, 'page_size_ = angle;', 'page_size_ = angle - 1;', P),
    ('straight-nomark', 'bug', F, PUSHS, PUSHS.replace('                registered[pos] = true;\n', ''), P),
    ('curve-nomark', 'bug', F, PUSHC, PUSHC.replace('              registered[pos] = true;\n', ''), P),
    ('curve-nofind', 'bug', F, PUSHC, PUSHC.replace(' && (registered.find(pos) == registered.end())', ''), P),
    ('mark-d', 'bug', F, PUSHC, PUSHC.replace('registered[pos] = true', 'registered[d] = true'), P),
    ('mark-before', 'bug', F, PUSHC, '            registered[pos] = true;\n' + PUSHC.replace('              registered[pos] = true;\n', ''), P),
    ('interp-only-new', 'bug', F, '''              registered[pos] = true;
            }
            if (step % interpolation_step == 0)''', '''              registered[pos] = true;
            }
            else if (step % interpolation_step == 0)''', P),
    ('interp-step', 'bug', F, 'std::max(1, static_cast<int>(std::round(interpolation_resolution / grid_enumeration_resolution)))', 'std::max(1, static_cast<int>(std::round(grid_enumeration_resolution / interpolation_resolution)))', P),
    ('interp-nomax', 'bug', F, 'std::max(1, static_cast<int>(std::round(interpolation_resolution / grid_enumeration_resolution)))', 'std::max(2, static_cast<int>(std::round(interpolation_resolution / grid_enumeration_resolution)))', P),
    ('total', 'bug', F, 'static_cast<int>(std::round(d.len() / grid_enumeration_resolution))', 'static_cast<int>(std::round(range / grid_enumeration_resolution))', P),
    ('total2', 'bug', F, 'static_cast<int>(std::round(d.len() / grid_enumeration_resolution))', 'static_cast<int>(std::round(d.sqlen() / grid_enumeration_resolution))', P),
    ('step1', 'bug', F, '''          for (int step = 0; step < total_step; ++step)
          {
            const float ratio''', '''          for (int step = 1; step < total_step; ++step)
          {
            const float ratio''', P),
    ('step-last', 'bug', F, '''          for (int step = 0; step < total_step; ++step)
          {
            const float ratio''', '''          for (int step = 0; step < total_step - 1; ++step)
          {
            const float ratio''', P),
    ('straight-heading', 'bug', F, 'yaw / angular_resolution);\n              CyclicVecInt<3, 2> pos(posf[0]', 'yaw_e / angular_resolution);\n              CyclicVecInt<3, 2> pos(posf[0]', P),
    ('nocycle', 'bug', F, '''            CyclicVecInt<3, 2> pos(posf[0], posf[1], posf[2]);
            pos.cycleUnsigned(angle);
            if''', '''            CyclicVecInt<3, 2> pos(posf[0], posf[1], posf[2]);
            if''', P),
    ('dist-straight', 'bug', F, 'page.distance_ = d.len();', 'page.distance_ = d.sqlen();', P),
    ('dist-last', 'bug', F, '          distf += (CyclicVecFloat<3, 2>(d) - posf_prev).len();\n', '', P),
    ('dist-prev', 'bug', F, '            posf_prev = posf;\n', '            if (ratio > 0)\n              posf_prev = CyclicVecFloat<3, 2>(pos);\n', P),
    ('dist-prev2', 'bug', F, '            posf_prev = posf;\n', '            if (step % interpolation_step == 0)\n              posf_prev = posf;\n', P),
    ('dist-shared', 'bug', F, '          float distf = 0.0;\n', '          float distf = d.len();\n', P),
    ('dist-step', 'bug', F, 'if (ratio > 0)\n              distf +=', 'if (step > 1)\n              distf +=', P),
    ('r1', 'bug', F, 'const float r1 = motion[1] + motion[0] * cos_v / sin_v;', 'const float r1 = motion[1] - motion[0] * cos_v / sin_v;', P),
    ('r2-sign', 'bug', F, 'motion[0] * sin_v);\n\n          float dyaw', 'motion[0]);\n\n          float dyaw', P),
    ('dyaw', 'bug', F, 'else if (dyaw > M_PI)\n            dyaw -= 2 * M_PI;', 'else if (dyaw > 2 * M_PI)\n            dyaw -= 2 * M_PI;', P),
    ('dyaw2', 'bug', F, '          if (dyaw < -M_PI)\n            dyaw += 2 * M_PI;\n          else if', '          if', P),
    ('ratio-r', 'bug', F, 'const float r = r1 * (1.0 - ratio) + r2 * ratio;', 'const float r = r1 * ratio + r2 * (1.0 - ratio);', P),
    ('centre', 'bug', F, 'const float cy2 = cy_s * (1.0 - ratio) + cy * ratio;', 'const float cy2 = cy_s * (1.0 - ratio) + cx * ratio;', P),
    ('thr', 'bug', F, 'if (std::abs(sin_v) < 0.1)', 'if (sin_v < 0.1)', P),
    ('thr2', 'bug', F, 'if (std::abs(sin_v) < 0.1)', 'if (std::abs(sin_v) < 0.3)', P),
    ('store-cond', 'bug', F, '          page.distance_ = distf;\n          cache_[syaw][d] = page;', '          page.distance_ = distf;\n          if (!page.motion_.empty())\n            cache_[syaw][d] = page;', P),
    ('store-key', 'bug', F, '          page.distance_ = distf;\n          cache_[syaw][d] = page;', '          page.distance_ = distf;\n          cache_[d[2]][d] = page;', P),
    ('extent', 'bug', F, 'std::max(max_range[i], std::abs(pos[i]))', 'std::max(max_range[i], pos[i])', P),
    ('extent-lost', 'bug', F, '''                for (int i = 0; i < 3; ++i)
                  max_range[i] = std::max(max_range[i], std::abs(pos[i]));
''', '', P),
    ('sort-unique', 'bug', F, 'std::sort(cache.second.motion_.begin(), cache.second.motion_.end(), comp);', 'std::sort(cache.second.motion_.begin(), cache.second.motion_.end(), comp);\n      cache.second.motion_.pop_back();', P),
    ('path-back', 'bug', F, '  result.push_back(CyclicVecFloat<3, 2>(grid_path.back()[0], grid_path.back()[1], grid_path.back()[2]));\n', '', P),
    ('path-front', 'bug', F, 'result.push_back(CyclicVecFloat<3, 2>(grid_path.back()[0], grid_path.back()[1], grid_path.back()[2]));', 'result.push_back(CyclicVecFloat<3, 2>(grid_path.front()[0], grid_path.back()[1], grid_path.back()[2]));', P),
    ('path-turn-drop', 'bug', F, '''      result.push_back(CyclicVecFloat<3, 2>((*it_prev)[0], (*it_prev)[1], (*it_prev)[2]));
      continue;''', '''      continue;''', P),
    ('path-or', 'bug', F, 'if (((*it_prev)[0] == (*it)[0]) && ((*it_prev)[1] == (*it)[1]))', 'if (((*it_prev)[0] == (*it)[0]) || ((*it_prev)[1] == (*it)[1]))', P),
    ('path-rel', 'bug', F, 'CyclicVecFloat<3, 2>((*it_prev)[0] + pos_diff[0], (*it_prev)[1] + pos_diff[1], pos_diff[2])', 'CyclicVecFloat<3, 2>((*it)[0] + pos_diff[0], (*it)[1] + pos_diff[1], pos_diff[2])', P),
    ('path-heading', 'bug', F, '(*it_prev)[1] + pos_diff[1], pos_diff[2])', '(*it_prev)[1] + pos_diff[1], (*it_prev)[2] + pos_diff[2])', P),
    ('path-find', 'bug', F, 'const auto motion_it = find(*it_prev, *it);', 'const auto motion_it = find(*it, *it_prev);', P),
    ('path-missing', 'bug', F, '''                (*it_prev)[0], (*it_prev)[1], (*it_prev)[2], (*it)[0], (*it)[1], (*it)[2]);
      result''', '''                (*it_prev)[0], (*it_prev)[1], (*it_prev)[2], (*it)[0], (*it)[1], (*it)[2]);
      break;
      result''', P),
    ('path-motion', 'bug', F, 'motion_it->second.getInterpolatedMotion()', 'motion_it->second.getMotion()', P),
    ('path-short', 'bug', F, 'if (grid_path.size() < 2)', 'if (grid_path.size() < 3)', P),
    # behaviour kept
    ('ok-nocheck-d', 'ok', F, PUSHC, PUSHC.replace('(pos != d) && ', ''), P),
    ('ok-count', 'ok', F, PUSHC, PUSHC.replace('registered.find(pos) == registered.end()', 'registered.count(pos) == 0'), P),
    ('ok-swap', 'ok', F, PUSHC, PUSHC.replace('''              page.motion_.push_back(pos);
              registered[pos] = true;
''', '''              registered[pos] = true;
              page.motion_.push_back(pos);
'''), P),
    ('ok-interp-first', 'ok', F, PUSHC + '''            if (step % interpolation_step == 0)
            {
              page.interpolated_motion_.push_back(posf);
            }
''', '''            if (step % interpolation_step == 0)
            {
              page.interpolated_motion_.push_back(posf);
            }
''' + PUSHC, P),
    ('ok-r2', 'ok', F, '''          const float r2 = std::copysign(
              std::sqrt(std::pow(motion[0], 2) + std::pow(motion[0] * cos_v / sin_v, 2)),
              motion[0] * sin_v);''', '''          const float r2 = motion[0] / sin_v;''', P),
    ('ok-sincos', 'ok', F, '''          const float cx_s = r1 * cosf(yaw + M_PI / 2);
          const float cy_s = r1 * sinf(yaw + M_PI / 2);''', '''          const float cx_s = -r1 * sinf(yaw);
          const float cy_s = r1 * cosf(yaw);''', P),
    ('ok-lerp', 'ok', F, 'const float r = r1 * (1.0 - ratio) + r2 * ratio;', 'const float r = r1 + (r2 - r1) * ratio;', P),
    ('ok-cond', 'ok', F, 'if (d[0] == 0 && d[1] == 0)\n          continue;\n        if (d.sqlen() > range * range)', 'if ((d[0] == 0 && d[1] == 0) || d.sqlen() > range * range)', P),
    ('ok-dist', 'ok', F, 'if (ratio > 0)\n              distf', 'if (step > 0)\n              distf', P),
    ('ok-dist2', 'ok', F, 'if (ratio > 0)\n              distf', '  distf', P),
    ('ok-dyaw', 'ok', F, '''          if (dyaw < -M_PI)
            dyaw += 2 * M_PI;
          else if (dyaw > M_PI)
            dyaw -= 2 * M_PI;''', '''          if (dyaw > M_PI)
          {
            dyaw = dyaw - 2 * M_PI;
          }
          else if (dyaw < -M_PI)
          {
            dyaw = dyaw + 2 * M_PI;
          }''', P),
    ('ok-empty', 'ok', F, 'if (grid_path.size() < 2)\n  {', 'if (grid_path.empty())\n    return result;\n  if (grid_path.size() == 1)\n  {', P),
    ('ok-short', 'ok', F, '''    for (const auto& p : grid_path)
    {
      result.push_back(CyclicVecFloat<3, 2>(p[0], p[1], p[2]));
    }
    return result;''', '''    if (!grid_path.empty())
    {
      const auto& p = grid_path.front();
      result.push_back(CyclicVecFloat<3, 2>(p[0], p[1], p[2]));
    }
    return result;''', P),
    ('ok-invert', 'ok', F, '''    if (motion_it == end((*it)[2]))
    {''', '''    const bool missing = motion_it == end((*it_prev)[2]);
    if (missing)
    {''', P),
    ('ok-while', 'ok', F, '''  auto it_prev = grid_path.begin();
  for (auto it = std::next(it_prev); it != grid_path.end(); ++it, ++it_prev)
  {''', '''  auto it_prev = grid_path.begin();
  auto it = it_prev;
  for (++it; it != grid_path.end(); it_prev = it, ++it)
  {''', P),
    ('ok-ctor', 'ok', F, 'CyclicVecFloat<3, 2>((*it_prev)[0], (*it_prev)[1], (*it_prev)[2]));\n      continue;', 'CyclicVecFloat<3, 2>(*it_prev));\n      continue;', P),
]
