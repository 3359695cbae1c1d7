D = 'costmap_cspace/include/costmap_cspace/'
F = D + 'costmap_3d_layer/footprint.h'
C = D + 'cspace3_cache.h'
B = D + 'costmap_3d_layer/base.h'
P = ['C02']
CASES = [
    ('noop', 'ok', F, '    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;\n    if (keep_unknown_)', '    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;\n    (void)yaw;\n    if (keep_unknown_)', P),
    ('comment', 'ok', F, '    Rect range =', '    // a comment\n    Rect range =', P),
    ('max', 'ok', F, '''          if (c > 0 && *cost_addr < c)
            *cost_addr = c;''', '''          if (c > 0)
            *cost_addr = std::max(*cost_addr, c);''', P),
    ('index-loop', 'ok', F, '''        for (int n = 0; n <= map_x_max - map_x_min; ++n, ++cost_addr, ++cs_addr)
        {
          const int8_t c = *cs_addr * val / 100;
          if (c > 0 && *cost_addr < c)
            *cost_addr = c;
        }''', '''        for (int map_x = map_x_min; map_x <= map_x_max; ++map_x)
        {
          int8_t& m = map->getCost(map_x, map_y, yaw);
          const int8_t c = cs_template_.e(map_x - gx, map_y - gy, yaw) * val / 100;
          if (c > 0 && m < c)
            m = c;
        }''', P),
    ('swap-conds', 'ok', F, 'if (c > 0 && *cost_addr < c)', 'if (*cost_addr < c && c > 0)', P),
    ('lambda-if', 'ok', F, ['''    const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
                              getMaskedRange :
                              std::function<void(const int, Rect&)>([](const int, Rect&) {});
''', 'getRange(i, range);'], ['''    const bool same_resolution = msg->info.resolution == map->info.linear_resolution;
''', 'if (same_resolution)\n        getMaskedRange(i, range);'], P),
    ('no-narrow', 'ok', F, 'getRange(i, range);', '', P),
    ('skip-flag', 'ok', F, '''        if (!unknown_buf_[i])
          continue;
        const int gx''', '''        const bool unknown = unknown_buf_[i];
        if (!unknown)
          continue;
        const int gx''', P),
    ('down', 'ok', F, '''      for (int map_y = map_y_min; map_y <= map_y_max; ++map_y)''', '''      for (int map_y = map_y_max; map_y >= map_y_min; --map_y)''', P),
    ('val-cond', 'ok', F, '''      const int8_t val = msg->data[i];
      if (val < 0)
      {
        continue;
      }
      const int gx''', '''      const int8_t val = msg->data[i];
      if (val <= -1)
        continue;
      const int gx''', P),
    ('restore-inline', 'ok', F, 'for (size_t i = 0; i < unknown_buf_.size(); i++)', 'for (size_t i = 0; i < msg->data.size(); i++)', P),
    ('tmpl-local', 'ok', F, '''          auto f = footprint_p_;
          f.move(x * info.linear_resolution,
                 y * info.linear_resolution,
                 yaw * info.angular_resolution);''', '''          Polygon f(footprint_p_);
          const float px = x * info.linear_resolution;
          const float py = y * info.linear_resolution;
          f.move(px, py, yaw * info.angular_resolution);''', P),
    ('tmpl-cost', 'ok', F, '''            if (d < linear_expand_)
            {
              cs_template_.e(x, y, yaw) = 100;
            }
            else if''', '''            auto& cell = cs_template_.e(x, y, yaw);
            if (d < linear_expand_)
            {
              cell = 100;
            }
            else if''', P),
    ('tmpl-nozero', 'ok', F, '''            else
            {
              cs_template_.e(x, y, yaw) = 0;
            }''', '', P),
    ('tmpl-xy', 'ok', F, '''      for (int y = -range_max_; y <= range_max_; y++)
      {
        for (int x = -range_max_; x <= range_max_; x++)
        {
          auto f''', '''      for (int x = -range_max_; x <= range_max_; x++)
      {
        for (int y = -range_max_; y <= range_max_; y++)
        {
          auto f''', P),
    ('tmpl-two-moves', 'ok', F, '''          f.move(x * info.linear_resolution,
                 y * info.linear_resolution,
                 yaw * info.angular_resolution);''', '''          f.move(0, 0, yaw * info.angular_resolution);
          f.move(x * info.linear_resolution, y * info.linear_resolution, 0);''', P),
    ('cache-e', 'ok', C, 'const size_t addr = yaw * stride_[2] + (y + center_[1]) * stride_[1] + (x + center_[0]);\n    ROS_ASSERT(addr < array_size_);\n\n    return c_[addr];\n  }\n  const', 'const int cx = x + center_[0];\n    const int cy = y + center_[1];\n    const size_t addr = yaw * stride_[2] + cy * stride_[1] + cx;\n    ROS_ASSERT(addr < array_size_);\n\n    return c_[addr];\n  }\n  const', P),
    ('update-cond', 'ok', F, '''    if (root_)
      generateCSpace(map_, map, region);
    else
      generateCSpace(map_overlay_, map, region);''', '''    generateCSpace(root_ ? map_ : map_overlay_, map, region);''', P),
    ('forget-nested', 'ok', F, '''        if (val < 0)
          continue;

        const int x =''', '''        if (msg->data[i] < 0)
          continue;

        const int x =''', P),
    # bugs
    ('y-range', 'bug', F, 'const int map_y_max = std::min(gy + range.y_max, static_cast<int>(map->info.height) - 1);', 'const int map_y_max = std::min(gy + range.y_max, static_cast<int>(map->info.width) - 1);', P),
    ('x-max', 'bug', F, 'const int map_x_max = std::min(gx + range.x_max, static_cast<int>(map->info.width) - 1);', 'const int map_x_max = std::min(gx + range.x_max, static_cast<int>(map->info.width) - 2);', P),
    ('n-lt', 'bug', F, 'n <= map_x_max - map_x_min', 'n < map_x_max - map_x_min', P),
    ('template-clip', 'bug', F, '&(cs_template_.e(map_x_min - gx, map_y - gy, yaw))', '&(cs_template_.e(range.x_min, map_y - gy, yaw))', P),
    ('template-flip', 'bug', F, '&(cs_template_.e(map_x_min - gx, map_y - gy, yaw))', '&(cs_template_.e(map_x_min - gx, gy - map_y, yaw))', P),
    ('val', 'bug', F, 'const int8_t c = *cs_addr * val / 100;', 'const int8_t c = *cs_addr;', P),
    ('last', 'bug', F, 'if (c > 0 && *cost_addr < c)', 'if (c > 0)', P),
    ('zero-too', 'bug', F, 'if (c > 0 && *cost_addr < c)', 'if (*cost_addr < c)', P),
    ('unknown-keep', 'bug', F, 'if (c > 0 && *cost_addr < c)', 'if (c > 0 && *cost_addr >= 0 && *cost_addr < c)', P),
    ('free-clears', 'bug', F, '''        if (m < 0)
          m = 0;''', '''        m = 0;''', P),
    ('free-none', 'bug', F, '''        if (m < 0)
          m = 0;''', '''        if (m < -1)
          m = 0;''', P),
    ('unknown-cell', 'bug', F, '''      if (val < 0)
      {
        continue;
      }
      const int gx''', '''      if (val < -1)
      {
        continue;
      }
      const int gx''', P),
    ('break', 'bug', F, '''      if (static_cast<size_t>(gx) >= map->info.width ||
          static_cast<size_t>(gy) >= map->info.height)
        continue;
      if (val == 0)''', '''      if (static_cast<size_t>(gx) >= map->info.width ||
          static_cast<size_t>(gy) >= map->info.height)
        break;
      if (val == 0)''', P),
    ('gy-w', 'bug', F, '''      const int gy = std::lround((i / msg->info.width) * resolution_scale) + oy;
      if (static_cast<size_t>(gx) >= map->info.width ||
          static_cast<size_t>(gy) >= map->info.height)
        continue;
      if (val''', '''      const int gy = std::lround((i / msg->info.height) * resolution_scale) + oy;
      if (static_cast<size_t>(gx) >= map->info.width ||
          static_cast<size_t>(gy) >= map->info.height)
        continue;
      if (val''', P),
    ('scale-inv', 'bug', F, '''    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;
    if (keep''', '''    const double resolution_scale = map->info.linear_resolution / msg->info.resolution;
    if (keep''', P),
    ('oy-x', 'bug', F, '''    const int oy =
        std::lround((msg->info.origin.position.y - map->info.origin.position.y) / map->info.linear_resolution);
    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;
    if''', '''    const int oy =
        std::lround((msg->info.origin.position.y - map->info.origin.position.x) / map->info.linear_resolution);
    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;
    if''', P),
    ('mask-gt', 'bug', F, "result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;", "result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) > 0)) ? 0 : range_max_;", P),
    ('mask-width', 'bug', F, "result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;", "result.y_min = (gy == 0 || (*(ptr - msg->info.height) >= *ptr)) ? 0 : -range_max_;", P),
    ('mask-side', 'bug', F, "result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;", "result.x_min = (gx == 0 || (*(ptr + 1) >= *ptr)) ? 0 : -range_max_;", P),
    ('mask-always', 'bug', F, 'getRange(i, range);', 'getMaskedRange(i, range);', P),
    ('range-small', 'bug', F, 'Rect range = {-range_max_, range_max_, -range_max_, range_max_};', 'Rect range = {-range_max_ + 1, range_max_, -range_max_, range_max_};', P),
    ('keep-or', 'bug', F, 'unknown_buf_[i] = msg->data[i] < 0 && map->getCost(gx, gy, yaw) < 0;', 'unknown_buf_[i] = msg->data[i] < 0 || map->getCost(gx, gy, yaw) < 0;', P),
    ('keep-0', 'bug', F, 'unknown_buf_[i] = msg->data[i] < 0 && map->getCost(gx, gy, yaw) < 0;', 'unknown_buf_[i] = msg->data[i] < 0 && map->getCost(gx, gy, 0) < 0;', P),
    ('keep-i', 'bug', F, 'for (size_t i = 0; i < unknown_buf_.size(); i++)', 'for (size_t i = 1; i < unknown_buf_.size(); i++)', P),
    ('keep-restore', 'bug', F, 'map->getCost(gx, gy, yaw) = -1;\n      }\n    }\n  }\n};', 'map->getCost(gx, gy, yaw) = 0;\n      }\n    }\n  }\n};', P),
    ('keep-resize', 'bug', F, 'unknown_buf_.resize(msg->data.size());', 'if (unknown_buf_.empty())\n        unknown_buf_.resize(msg->data.size());', P),
    ('yaw-lt', 'bug', F, '''    for (size_t yaw = 0; yaw < map->info.angle; yaw++)
    {
      generateSpecified''', '''    for (size_t yaw = 0; yaw + 1 < map->info.angle; yaw++)
    {
      generateSpecified''', P),
    ('root', 'bug', F, '''      generateCSpace(map_overlay_, map, region);''', '''      generateCSpace(map_, map, region);''', P),
    ('forget-unknown', 'bug', F, '''        if (val < 0)
          continue;

        const int x =''', '''        if (val <= 0)
          continue;

        const int x =''', P),
    ('forget-border', 'bug', F, 'if (x < range_max_ || static_cast<int>(msg->info.width) - range_max_ <= x)', 'if (x < range_max_ || static_cast<int>(msg->info.width) - range_max_ < x)', P),
    ('forget-y', 'bug', F, 'if (y < range_max_ || static_cast<int>(msg->info.height) - range_max_ <= y)', 'if (y < range_max_ || static_cast<int>(msg->info.width) - range_max_ <= y)', P),
    ('forget-max', 'bug', F, 'if (overlay_mode_ != OVERWRITE || root_)', 'if (root_)', P),
    ('forget-root', 'bug', F, 'if (overlay_mode_ != OVERWRITE || root_)', 'if (overlay_mode_ != OVERWRITE)', P),
    ('forget-0', 'bug', F, 'map->getCost(x2, y2, yaw) = -1;', 'map->getCost(x2, y2, yaw) = 0;', P),
    ('t-range', 'bug', F, 'std::ceil((footprint_radius_ + linear_expand_ + linear_spread_) / info.linear_resolution)', 'std::floor((footprint_radius_ + linear_expand_ + linear_spread_) / info.linear_resolution)', P),
    ('t-range2', 'bug', F, 'std::ceil((footprint_radius_ + linear_expand_ + linear_spread_) / info.linear_resolution)', 'std::ceil((footprint_radius_ + linear_spread_) / info.linear_resolution)', P),
    ('t-neg', 'bug', F, 'f.move(x * info.linear_resolution,', 'f.move(-x * info.linear_resolution,', P),
    ('t-yaw', 'bug', F, 'yaw * info.angular_resolution);\n          Vec p', '-(yaw * info.angular_resolution));\n          Vec p', P),
    ('t-le', 'bug', F, 'for (int x = -range_max_; x <= range_max_; x++)', 'for (int x = -range_max_; x < range_max_; x++)', P),
    ('t-minc', 'bug', F, '(100 - linear_spread_min_cost_) / linear_spread_;', '(99 - linear_spread_min_cost_) / linear_spread_;', P),
    ('t-div', 'bug', F, '(100 - linear_spread_min_cost_) / linear_spread_;', '(100 - linear_spread_min_cost_) / (linear_spread_ + linear_expand_);', P),
    ('t-dexp', 'bug', F, '100 - (d - linear_expand_) *', '100 - d *', P),
    ('t-ring', 'bug', F, 'else if (std::abs(linear_expand_ + linear_spread_ - d) < eps)', 'else if (std::abs(linear_expand_ + linear_spread_ - d) < 1.0)', P),
    ('t-center', 'bug', F, 'if (footprint_radius_ == 0)\n        cs_template_.e(0, 0, yaw) = 100;', 'if (footprint_radius_ == 0)\n        cs_template_.e(0, 0, 0) = 100;', P),
    ('t-center-no', 'bug', F, 'if (footprint_radius_ == 0)\n        cs_template_.e(0, 0, yaw) = 100;', '', P),
    ('t-inside', 'bug', F, 'if (f.inside(p))', 'if (f.dist(p) <= 0)', P),
    ('c-stride', 'bug', C, 'stride_[1] = size_[0];', 'stride_[1] = size_[0] - 1;', P),
    ('c-stride2', 'bug', C, 'stride_[2] = size_[0] * size_[1];', 'stride_[2] = size_[0] * size_[0] - 1;', P),
    ('c-center', 'bug', C, 'center_[0] = x;', 'center_[0] = y - 1;', P),
    ('c-const', 'bug', C, '''  const char& e(const int& x, const int& y, const int& yaw) const
  {
    const size_t addr = yaw * stride_[2] + (y + center_[1])''', '''  const char& e(const int& x, const int& y, const int& yaw) const
  {
    const size_t addr = yaw * stride_[2] + (x + center_[1])''', P),
    ('cfg-expand', 'bug', F, 'static_cast<double>(config["linear_spread"]),', 'static_cast<double>(config["linear_expand"]),', P),
    ('cfg-min', 'bug', F, 'linear_spread_min_cost_ = linear_spread_min_cost;', '', P),
    ('cfg-radius', 'bug', F, 'footprint_radius_ = footprint.radius();', 'footprint_radius_ = footprint_p_.radius() * 0.9;', P),
    ('cfg-keep', 'bug', F, 'setKeepUnknown(config["keep_unknown"]);', 'setKeepUnknown(true);', P),
]
