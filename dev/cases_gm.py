F='costmap_cspace/src/largemap_to_map.cpp'
K=['C05']
OUT="""        else if (x < 0 || y < 0 ||
                 x >= static_cast<int>(large_map_->info.width) ||
                 y >= static_cast<int>(large_map_->info.height))
        {
          map.data[addr] = -1;
        }
"""
CASES=[
('g-ok-none','ok',F,"    if (!large_map_)\n      return;\n","    if (large_map_ == nullptr)\n    {\n      return;\n    }\n",K),
('g-nomapcheck','bug',F,"    if (!large_map_)\n      return;\n","",K),
('g-noreturn','bug',F,"    {\n      return;\n    }\n\n    nav","    {\n    }\n\n    nav",K),
('g-frame','bug',F,"lookupTransform(large_map_->header.frame_id, robot_frame_","lookupTransform(robot_frame_, large_map_->header.frame_id",K),
('g-stamp','bug',F,"map.header.stamp = ros::Time::now();","map.header.stamp = large_map_->header.stamp;",K),
('g-noinfo','bug',F,"    map.info = large_map_->info;\n","    map.info.resolution = 0.05;\n",K),
('g-height','bug',F,"    map.info.height = width_;\n","",K),
('g-origin','bug',F,"map.info.origin.position.x = x - map.info.width * map.info.resolution * 0.5;","map.info.origin.position.x = x - map.info.width * 0.5;",K),
('g-originxy','bug',F,"static_cast<int>(pos.y() /","static_cast<int>(pos.x() /",K),
('g-unround','bug',F,"const float x = static_cast<int>(pos.x() / map.info.resolution) * map.info.resolution;","const float x = pos.x();",K),
('g-gx-trunc','bug',F,"std::lround((map.info.origin.position.x -","static_cast<int>((map.info.origin.position.x -",K),
('g-gx-sign','bug',F,"(map.info.origin.position.x - large_map_->info.origin.position.x)","(map.info.origin.position.x + large_map_->info.origin.position.x)",K),
('g-gy-x','bug',F,"(map.info.origin.position.y - large_map_->info.origin.position.y)","(map.info.origin.position.x - large_map_->info.origin.position.y)",K),
('g-half','bug',F,"const float half_width = width_ / 2.0;","const float half_width = width_ / 2;",K),
('g-addrl','bug',F,"y * large_map_->info.width + x","y * width_ + x",K),
('g-addrl2','bug',F,"y * large_map_->info.width + x","ly * large_map_->info.width + lx",K),
('g-neg','bug',F,"else if (x < 0 || y < 0 ||","else if (x < 0 ||",K),
('g-gt','bug',F,"x >= static_cast<int>(large_map_->info.width)","x > static_cast<int>(large_map_->info.width)",K),
('g-hw','bug',F,"y >= static_cast<int>(large_map_->info.height)","y >= static_cast<int>(large_map_->info.width)",K),
('g-outfree','bug',F,OUT,OUT.replace("-1","0"),K),
('g-round-order','bug',F,["        if (simulate_surrounded_ &&","        else if (round_local_map_ && r_sq > std::pow(half_width, 2))\n        {\n          map.data[addr] = -1;\n        }\n"],["        if (round_local_map_ && r_sq >= std::pow(half_width, 2))\n        {\n          map.data[addr] = -1;\n        }\n        else if (simulate_surrounded_ &&",""],K),
('g-ok-round-order','ok',F,["        if (simulate_surrounded_ &&","        else if (round_local_map_ && r_sq > std::pow(half_width, 2))\n        {\n          map.data[addr] = -1;\n        }\n"],["        if (round_local_map_ && r_sq > std::pow(half_width, 2))\n        {\n          map.data[addr] = -1;\n        }\n        else if (simulate_surrounded_ &&",""],K),
('g-ring','bug',F,"std::pow(half_width - 2, 2) <= r_sq","std::pow(half_width - 1, 2) <= r_sq",K),
('g-ring2','bug',F,"            r_sq <= std::pow(half_width, 2) &&\n","",K),
('g-rsq','bug',F,"std::pow(ly - half_width, 2)","std::pow(lx - half_width, 2)",K),
('g-lt','bug',F,"y < gy + width_","y < gy + width_ - 1",K),
('g-le','bug',F,"x = gx; x < gx + width_","x = gx + 1; x < gx + width_",K),
('g-rowcol','bug',F,"ly * width_ + lx","lx * width_ + ly",K),
('g-occ-off','bug',F,"    if (simulate_occlusion_)\n","    if (!simulate_occlusion_)\n",K),
('g-occ-val','bug',F,"if (map.data[addr] == 100)","if (map.data[addr] != 0)",K),
('g-occ-first','bug',F,"            map.data[a] = -1;\n","            map.data[a] = -1;\n            break;\n",K),
('g-occ-range','bug',F,"for (size_t addr = 0; addr < static_cast<size_t>(width_ * width_); ++addr)\n      {\n        if (map","for (size_t addr = width_; addr < static_cast<size_t>(width_ * width_); ++addr)\n      {\n        if (map",K),
('g-occ-free','bug',F,"            map.data[a] = -1;","            map.data[a] = 0;",K),
('g-occ-break','bug',F,"            map.data[a] = -1;\n          }\n        }","            map.data[a] = -1;\n          }\n          break;\n        }",K),
('g-tab-self','bug',F,"        cell.second.erase(self_it);","        cell.second.erase(cell.second.begin());",K),
('g-tab-noself','bug',F,"      if (self_it != cell.second.end())\n        cell.second.erase(self_it);","      (void)self_it;",K),
('g-tab-step','bug',F,"r += 0.5","r += 2.0",K),
('g-tab-end','bug',F,"r < l - 1.0","r < l",K),
('g-tab-start','bug',F,"float r = 1.0","float r = 0.0",K),
('g-tab-xy','bug',F,"const float y2 = y * r / l;","const float y2 = x * r / l;",K),
('g-tab-l','bug',F,"std::sqrt(x * x + y * y)","std::sqrt(x * x + x * y)",K),
('g-tab-swap','bug',F,"occlusion_table_[addr2].push_back(addr)","occlusion_table_[addr].push_back(addr2)",K),
('g-tab-addr','bug',F,"uy2 * width_ + ux2","ux2 * width_ + uy2",K),
('g-ok-hypot','ok',F,"std::sqrt(x * x + y * y)","std::hypot(x, y)",K),
('g-ok-single','ok',F,["""    for (int y = gy; y < gy + width_; ++y)
    {
      for (int x = gx; x < gx + width_; ++x)
      {
        const int lx = x - gx;
        const int ly = y - gy;
        const size_t addr = ly * width_ + lx;
"""],["""    for (int ly = 0; ly < width_; ++ly)
    {
      for (int lx = 0; lx < width_; ++lx)
      {
        const int x = lx + gx;
        const int y = ly + gy;
        const size_t addr = ly * width_ + lx;
"""],K),
('g-ok-xouter','ok',F,["    for (int y = gy; y < gy + width_; ++y)\n    {\n      for (int x = gx; x < gx + width_; ++x)"],["    for (int x = gx; x < gx + width_; ++x)\n    {\n      for (int y = gy; y < gy + width_; ++y)"],K),
('g-ok-flat','ok',F,["""    for (int y = gy; y < gy + width_; ++y)
    {
      for (int x = gx; x < gx + width_; ++x)
      {
        const int lx = x - gx;
        const int ly = y - gy;
        const size_t addr = ly * width_ + lx;
""","""          map.data[addr] = large_map_->data[addr_large];
        }
      }
"""],["""    {
      for (int addr = 0; addr < width_ * width_; ++addr)
      {
        const int lx = addr % width_;
        const int ly = addr / width_;
        const int x = lx + gx;
        const int y = ly + gy;
""","""          map.data[addr] = large_map_->data[addr_large];
        }
      }
"""],K),
('g-ok-helper','ok',F,["  void publishMap()\n",OUT+"        else\n        {\n          map.data[addr] = large_map_->data[addr_large];\n        }\n"],["""  int8_t largeCell(const int x, const int y) const
  {
    const int w = large_map_->info.width;
    const int h = large_map_->info.height;
    if (x < 0 || y < 0 || x >= w || y >= h)
      return -1;
    return large_map_->data[y * w + x];
  }
  void publishMap()
""","        else\n        {\n          map.data[addr] = largeCell(x, y);\n        }\n"],K),
('g-ok-mult','ok',F,["std::pow(lx - half_width, 2) + std::pow(ly - half_width, 2)"],["(lx - half_width) * (lx - half_width) + (ly - half_width) * (ly - half_width)"],K),
('g-ok-prefill','ok',F,[OUT,"        else\n        {\n          map.data[addr] = large_map_->data[addr_large];\n        }\n"],["        else\n        {\n          map.data[addr] = -1;\n          if (x >= 0 && y >= 0 && x < static_cast<int>(large_map_->info.width) && y < static_cast<int>(large_map_->info.height))\n            map.data[addr] = large_map_->data[addr_large];\n        }\n",""],K),
('g-cb','bug',F,"    large_map_ = msg;","    if (!large_map_)\n      large_map_ = msg;",K),
('g-timer','bug',F,"ros::Duration(1.0 / hz)","ros::Duration(hz)",K),
]
