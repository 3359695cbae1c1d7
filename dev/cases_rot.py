C = 'planner_cspace/src/rotation_cache.cpp'
H = 'planner_cspace/include/planner_cspace/planner_3d/rotation_cache.h'
M = 'planner_cspace/include/planner_cspace/planner_3d/motion_cache.h'
P = ['P11']
CASES = [
    ('rot-sign', 'bug', C, 'v.rotate(-i * angular_resolution)', 'v.rotate(i * angular_resolution)', P),
    ('rot-skip', 'bug', C, 'v.rotate(-i * angular_resolution)', 'if (i > 0)\n            v.rotate(-(i - 1) * angular_resolution)', P),
    ('off', 'bug', C, '(d[1] - range) * linear_resolution', 'd[1] * linear_resolution', P),
    ('loop', 'bug', C, 'd[1] <= range * 2', 'd[1] < range * 2', P),
    ('loop2', 'bug', C, 'd[0] <= range * 2', 'd[0] <= range', P),
    ('loop3', 'bug', C, 'd[2] < angle', 'd[2] < angle - 1', P),
    ('addr', 'bug', H, 'size_t addr = pos[2];\n      for (int i = 1; i >= 0; i--)', 'size_t addr = pos[2];\n      for (int i = 0; i >= 0; i--)', P),
    ('addr2', 'bug', H, 'addr = addr * size_[i] + pos[i];', 'addr = addr * size_[2] + pos[i];', P),
    ('size', 'bug', C, 'for (int i = 0; i < 3; i++)\n    ser_size', 'for (int i = 0; i < 2; i++)\n    ser_size', P),
    ('size2', 'bug', C, 'new std::pair<float, float>[ser_size]', 'new std::pair<float, float>[ser_size - 1]', P),
    ('r1', 'bug', C, 'v[1] + v[0] * cos_v / sin_v', 'v[1] - v[0] * cos_v / sin_v', P),
    ('r2', 'bug', C, 'v[0] * sin_v);', 'sin_v);', P),
    ('r2b', 'bug', C, 'std::pow(v[0], 2) + std::pow(v[0] * cos_v / sin_v, 2)', 'std::pow(v[0], 2) + std::pow(v[1] * cos_v / sin_v, 2)', P),
    ('pairswap', 'bug', C, 'std::pair<float, float>(r1, r2)', 'std::pair<float, float>(r2, r1)', P),
    ('pages', 'bug', C, 'pages_.resize(angle);\n', 'pages_.resize(angle - 1);\n', P),
    ('get', 'bug', H, 'return pages_[start_angle].radiuses(end);', 'return pages_[end[2]].radiuses(end);', P),
    ('cont', 'bug', C, 'r.motion(d) = v;\n', 'r.motion(d) = v;\n          if (d[0] == range && d[1] == range)\n            continue;\n', P),
    ('brk', 'bug', C, 'r.motion(d) = v;\n', 'r.motion(d) = v;\n          if (d[0] == range && d[1] == range)\n            break;\n', P),
    ('find-neg', 'bug', M, ['    int i = start_yaw % page_size_;\n    if (i < 0)\n      i += page_size_;\n    return cache_[i].find(goal);'], ['    const int i = std::abs(start_yaw) % page_size_;\n    return cache_[i].find(goal);'], P),
    ('find-end', 'bug', M, ['    int i = start_yaw % page_size_;\n    if (i < 0)\n      i += page_size_;\n    return cache_[i].cend();'], ['    return cache_[start_yaw].cend();'], P),
    ('find-le', 'bug', M, '    if (i < 0)\n      i += page_size_;\n    return cache_[i].find(goal);', '    if (i <= 0)\n      i += page_size_;\n    return cache_[i].find(goal);', P),
    ('find-goal', 'bug', M, 'to[1] - from[1], to[2])', 'to[1] - from[1], to[2] - from[2])', P),
    ('find-yaw', 'bug', M, 'const int start_yaw = from[2];', 'const int start_yaw = to[2];', P),
    ('ok-find', 'ok', M, '    int i = start_yaw % page_size_;\n    if (i < 0)\n      i += page_size_;\n    return cache_[i].find(goal);', '    return cache_[((start_yaw % page_size_) + page_size_) % page_size_].find(goal);', P),
    ('ok-find2', 'ok', M, ['  inline const typename Cache::const_iterator find(\n      const int start_yaw,', '    int i = start_yaw % page_size_;\n    if (i < 0)\n      i += page_size_;\n    return cache_[i].find(goal);', '    int i = start_yaw % page_size_;\n    if (i < 0)\n      i += page_size_;\n    return cache_[i].cend();'],
     ['  inline int pageOf(const int yaw) const\n  {\n    const int i = yaw % page_size_;\n    return i < 0 ? i + page_size_ : i;\n  }\n  inline const typename Cache::const_iterator find(\n      const int start_yaw,', '    return cache_[pageOf(start_yaw)].find(goal);', '    return cache_[pageOf(start_yaw)].cend();'], P),
    ('ok-addr', 'ok', H, 'size_t addr = pos[2];\n      for (int i = 1; i >= 0; i--)\n        addr = addr * size_[i] + pos[i];\n      return addr;', 'return pos[0] + size_[0] * (pos[1] + size_[1] * pos[2]);', P),
    ('ok-addr2', 'ok', H, 'size_t addr = pos[2];\n      for (int i = 1; i >= 0; i--)\n        addr = addr * size_[i] + pos[i];\n      return addr;', 'return (pos[0] * size_[1] + pos[1]) * size_[2] + pos[2];', P),
    ('ok-loops', 'ok', C, ['for (d[0] = 0; d[0] <= range * 2; d[0]++)', 'for (d[2] = 0; d[2] < angle; d[2]++)'], ['for (d[2] = 0; d[2] < angle; d[2]++)', 'for (d[0] = 0; d[0] <= range * 2; d[0]++)'], P),
    ('ok-r', 'ok', C, ['const float r1 = v[1] + v[0] * cos_v / sin_v;', 'std::sqrt(std::pow(v[0], 2) + std::pow(v[0] * cos_v / sin_v, 2))'], ['const float cot = cos_v / sin_v;\n          const float r1 = v[1] + v[0] * cot;', 'std::hypot(v[0], v[0] * cot)'], P),
    ('ok-r2', 'ok', C, 'std::copysign(\n              std::sqrt(std::pow(v[0], 2) + std::pow(v[0] * cos_v / sin_v, 2)),\n              v[0] * sin_v)', 'v[0] / sin_v', P),
    ('ok-make', 'ok', C, 'r.radiuses(d) = std::pair<float, float>(r1, r2);', 'auto& out = r.radiuses(d);\n          out.first = r1;\n          out.second = r2;', P),
    ('ok-neg', 'ok', C, ['for (d[1] = 0; d[1] <= range * 2; d[1]++)'], ['for (d[1] = 2 * range; d[1] >= 0; d[1]--)'], P),
    ('ok-helper', 'ok', C, ['void RotationCache::reset(', '''          const float sin_v = std::sin(v[2]);
          const float cos_v = std::cos(v[2]);
          const float r1 = v[1] + v[0] * cos_v / sin_v;
          const float r2 = std::copysign(
              std::sqrt(std::pow(v[0], 2) + std::pow(v[0] * cos_v / sin_v, 2)),
              v[0] * sin_v);
          r.radiuses(d) = std::pair<float, float>(r1, r2);'''], ['''static std::pair<float, float> calcRadiuses(const CyclicVecFloat<3, 2>& v)
{
  const float sin_v = std::sin(v[2]);
  const float cos_v = std::cos(v[2]);
  const float r1 = v[1] + v[0] * cos_v / sin_v;
  const float r2 = std::copysign(
      std::sqrt(std::pow(v[0], 2) + std::pow(v[0] * cos_v / sin_v, 2)),
      v[0] * sin_v);
  return std::make_pair(r1, r2);
}

void RotationCache::reset(''', '          r.radiuses(d) = calcRadiuses(v);'], P),
    ('ok-motion', 'ok', C, ['          auto v = CyclicVecFloat<3, 2>(', 'v.rotate(-i * angular_resolution);\n          r.motion(d) = v;'], ['          auto& v = r.motion(d);\n          v = CyclicVecFloat<3, 2>(', 'v.rotate(-i * angular_resolution);'], P),
    ('ok-lin', 'ok', C, ['    CyclicVecInt<3, 2> d;\n'], ['    CyclicVecInt<3, 2> d;\n    const float start_yaw = i * angular_resolution;\n'], P),
]
