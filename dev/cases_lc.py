B='costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h'
O='costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h'
U='costmap_cspace/include/costmap_cspace/costmap_3d_layer/unknown_handle.h'
S='costmap_cspace/include/costmap_cspace/costmap_3d_layer/stop_propagation.h'
C='costmap_cspace/include/costmap_cspace/costmap_3d.h'
N='costmap_cspace/src/costmap_3d.cpp'
K=['C03']
CASES=[
('merge-min','bug',B,"if (region.y_ < y_)\n      y_ = region.y_;","if (region.y_ > y_)\n      y_ = region.y_;",K),
('merge-noyaw','bug',B,"    if (yaw2 < myaw2)\n      yaw2 = myaw2;\n","",K),
('merge-width-first','bug',B,"    height_ = y2 - y_;","    height_ = std::max(height_, region.height_);",K),
('merge-stamp','bug',B,"if (region.stamp_ > stamp_)","if (region.stamp_ < stamp_)",K),
('merge-empty-angle','bug',B,"if (region.width_ == 0 || region.height_ == 0 || region.angle_ == 0)\n      return;","if (region.width_ == 0 && region.height_ == 0)\n      return;",K),
('merge-emptyself','bug',B,"    if (width_ == 0 || height_ == 0 || angle_ == 0)\n    {\n      *this = region;\n      return;\n    }\n","",K),
('merge-stampfirst','bug',B,"    if (region.width_ == 0 || region.height_ == 0 || region.angle_ == 0)\n      return;\n    if (region.stamp_ > stamp_)\n      stamp_ = region.stamp_;\n","    if (region.stamp_ > stamp_)\n      stamp_ = region.stamp_;\n    if (region.width_ == 0 || region.height_ == 0 || region.angle_ == 0)\n      return;\n",K),
('merge-ok-max','ok',B,"    if (x2 < mx2)\n      x2 = mx2;","    x2 = std::max(x2, mx2);",K),
('merge-ok-min','ok',B,"    if (region.x_ < x_)\n      x_ = region.x_;","    x_ = std::min(x_, region.x_);",K),
('merge-ok-order','ok',B,"if (region.stamp_ > stamp_)","if (stamp_ < region.stamp_)",K),
('norm-x','bug',B,"      update_width += update_x;\n      update_x = 0;","      update_x = 0;",K),
('norm-right','bug',B,"update_width = full_width - update_x;","update_width = full_width - update_x - 1;",K),
('norm-yw','bug',B,"if (update_y + update_height > full_height)","if (update_y + update_height > full_width)",K),
('norm-neg','bug',B,"    if (update_height < 0)\n    {\n      update_height = 0;\n    }\n","",K),
('norm-ok','ok',B,"    if (update_height < 0)\n    {\n      update_height = 0;\n    }\n","    update_height = std::max(0, update_height);\n",K),
('norm-ok2','ok',B,"    if (update_x + update_width > full_width)\n    {\n      update_width = full_width - update_x;\n    }","    update_width = std::min(update_width, full_width - update_x);",K),
('blt-yaw0','bug',B,"size_t a = yaw_;","size_t a = 0;",K),
('blt-angle','bug',B,"static_cast<int>(a) < yaw_ + angle_ && a < src->info.angle","static_cast<int>(a) < angle_ && a < src->info.angle",K),
('blt-row','bug',B,"static_cast<int>(y) < y_ + height_ && y < src->info.height","static_cast<int>(y) < y_ + height_ - 1 && y < src->info.height",K),
('blt-len','bug',B,"std::min<size_t>(width_, src->info.width - x_)","std::min<size_t>(width_ - 1, src->info.width - x_)",K),
('blt-src','bug',B,"auto src_pos = &src->data[src->address(x_, y_, a)];","auto src_pos = &src->data[src->address(x_, y_, 0)];",K),
('blt-stride','bug',B,"const auto src_stride = src->info.width * sizeof(src->data[0]);","const auto src_stride = copy_length;",K),
('blt-ok-len','ok',B,"std::min<size_t>(width_, src->info.width - x_)","static_cast<size_t>(width_)",K),
('blt-ok-addr','ok',B,["      auto dest_pos = &dest->data[dest->address(x_, y_, a)];\n      auto src_pos = &src->data[src->address(x_, y_, a)];\n      const auto dest_stride = dest->info.width * sizeof(dest->data[0]);\n      const auto src_stride = src->info.width * sizeof(src->data[0]);\n","        src_pos += src_stride;\n        dest_pos += dest_stride;\n","        memcpy(\n            dest_pos, src_pos, copy_length);"],["","","        memcpy(&dest->data[dest->address(x_, y, a)], &src->data[src->address(x_, y, a)], copy_length);"],K),
('blt-ok-cells','ok',B,["      auto dest_pos = &dest->data[dest->address(x_, y_, a)];\n      auto src_pos = &src->data[src->address(x_, y_, a)];\n      const auto dest_stride = dest->info.width * sizeof(dest->data[0]);\n      const auto src_stride = src->info.width * sizeof(src->data[0]);\n","        src_pos += src_stride;\n        dest_pos += dest_stride;\n","        memcpy(\n            dest_pos, src_pos, copy_length);"],["","","        for (int x = x_; x < x_ + width_; ++x)\n          dest->getCost(x, y, a) = src->getCost(x, y, a);\n"],K),
('addr','bug',B,"return (yaw * info.height + y) * info.width + x;","return (yaw * info.width + y) * info.width + x;",K),
('copy-up','bug',B,"(to_yaw * to.height + to_y) * to.width + to_x","(to_yaw * to.height + to_y) * from.info.width + to_x",K),
('addr-ok','ok',B,"return (yaw * info.height + y) * info.width + x;","return x + info.width * y + info.width * info.height * yaw;",K),
('chain-nomerge','bug',B,"    region_.merge(region);\n    region_.normalize","    region_ = region;\n    region_.normalize",K),
('chain-nonorm','bug',B,"    region_.normalize(map_->info.width, map_->info.height);\n\n","",K),
('chain-noprev','bug',B,"    region_prev_now.merge(region_prev_);\n","",K),
('chain-prevsave','bug',B,"    region_prev_ = region_;\n\n    region_prev_now.bitblt","    region_prev_ = region_prev_now;\n\n    region_prev_now.bitblt",K),
('chain-nosave','bug',B,"    region_prev_ = region_;\n\n    region_prev_now.bitblt","    region_prev_now.bitblt",K),
('chain-saveearly','bug',B,["    auto region_prev_now = region_;\n    region_prev_now.merge(region_prev_);\n    region_prev_ = region_;\n"],["    region_prev_ = region_;\n    auto region_prev_now = region_;\n    region_prev_now.merge(region_prev_);\n"],K),
('chain-bltrev','bug',B,"region_prev_now.bitblt(map_overlay_, map_);","region_prev_now.bitblt(map_, map_overlay_);",K),
('chain-bltlater','bug',B,["    region_prev_now.bitblt(map_overlay_, map_);\n","    if (updateChain(output))\n"],["","    region_prev_now.bitblt(map_overlay_, map_);\n    if (updateChain(output))\n"],K),
('chain-bltcond','bug',B,"    region_prev_now.bitblt(map_overlay_, map_);\n","    if (map_updated_)\n      region_prev_now.bitblt(map_overlay_, map_);\n",K),
('chain-bltregion','bug',B,"region_prev_now.bitblt(map_overlay_, map_);","region_.bitblt(map_overlay_, map_);",K),
('chain-frame','bug',B,"if (map_->header.frame_id == map_updated_->header.frame_id)","if (map_->header.frame_id != map_updated_->header.frame_id)",K),
('chain-noframe','bug',B,"if (map_->header.frame_id == map_updated_->header.frame_id)","if (true)",K),
('chain-drawregion','bug',B,"updateCSpace(map_updated_, region_);","updateCSpace(map_updated_, region);",K),
('chain-output','bug',B,"    if (updateChain(output))\n      output = false;","    updateChain(output);",K),
('chain-output2','bug',B,"return child_->updateChainEntry(region_, output);","return child_->updateChainEntry(region_);",K),
('chain-childregion','bug',B,"return child_->updateChainEntry(region_, output);","return child_->updateChainEntry(region, output);",K),
('chain-childprev','bug',B,"return child_->updateChainEntry(region_, output);","return child_->updateChainEntry(region_prev_, output);",K),
('chain-childonly','bug',B,"    if (child_)\n    {\n      return child_->updateChainEntry(region_, output);","    if (child_ && map_updated_)\n    {\n      return child_->updateChainEntry(region_, output);",K),
('chain-ok-helper','ok',B,["    if (map_updated_)\n    {\n      if (map_->header.frame_id == map_updated_->header.frame_id)\n      {\n        updateCSpace(map_updated_, region_);\n      }\n      else\n      {\n        ROS_ERROR(\"map and map_overlay must have same frame_id. skipping\");\n      }\n    }\n","  void setBaseMapChain()\n"],["    drawOverlay();\n","  void drawOverlay()\n  {\n    if (!map_updated_)\n      return;\n    if (map_updated_->header.frame_id != map_->header.frame_id)\n    {\n      ROS_ERROR(\"skip\");\n      return;\n    }\n    updateCSpace(map_updated_, region_);\n  }\n  void setBaseMapChain()\n"],K),
('chain-ok-order','ok',B,"    auto region_prev_now = region_;\n    region_prev_now.merge(region_prev_);\n","    UpdatedRegion region_prev_now(region_prev_);\n    region_prev_now.merge(region_);\n",K),
('chain-ok-return','ok',B,"    if (child_)\n    {\n      return child_->updateChainEntry(region_, output);\n    }\n    return false;","    if (!child_)\n      return false;\n    return child_->updateChainEntry(region_, output);",K),
('chain-ok-consumed','ok',B,"    if (updateChain(output))\n      output = false;","    const bool consumed = updateChain(output);\n    output = output && !consumed;",K),
('base-init','bug',B,"        map_->data[i + yaw * xy_size] = -1;\n      }\n    }\n    updateCSpace","        map_->data[i + yaw * xy_size] = 0;\n      }\n    }\n    updateCSpace",K),
('base-init-head','bug',B,"    for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        map_->data[i + yaw * xy_size] = -1;","    for (size_t yaw = 0; yaw < 1; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        map_->data[i + yaw * xy_size] = -1;",K),
('base-unk','bug',B,"        if (base_map->data[i] < 0)\n        {\n          map_->data[i + yaw * xy_size] = -1;","        if (base_map->data[i] < 0)\n        {\n          map_->data[i] = -1;",K),
('base-unk0','bug',B,"if (base_map->data[i] < 0)","if (base_map->data[i] <= 0)",K),
('base-unkidx','bug',B,"if (base_map->data[i] < 0)","if (base_map->data[yaw] < 0)",K),
('base-wh','bug',B,"map_->info.height = base_map->info.height;","map_->info.height = base_map->info.width;",K),
('base-res','bug',B,"map_->info.angular_resolution = 2.0 * M_PI / ang_grid_;","map_->info.angular_resolution = M_PI / ang_grid_;",K),
('base-origin','bug',B,"    map_->info.origin = base_map->info.origin;\n","",K),
('base-header','bug',B,"    map_->header = base_map->header;\n","",K),
('base-metaafter','bug',B,["    setMapMetaData(map_->info);\n\n    for","    *map_overlay_ = *map_;\n    if (child_)\n      child_->setBaseMapChain();\n\n    updateChainEntry("],["    for","    setMapMetaData(map_->info);\n    *map_overlay_ = *map_;\n    if (child_)\n      child_->setBaseMapChain();\n\n    updateChainEntry("],K),
('base-nochain','bug',B,"    if (child_)\n      child_->setBaseMapChain();\n\n    updateChainEntry(","    updateChainEntry(",K),
('base-chainafter','bug',B,["    if (child_)\n      child_->setBaseMapChain();\n\n    updateChainEntry(","            base_map->header.stamp));\n"],["    updateChainEntry(","            base_map->header.stamp));\n    if (child_)\n      child_->setBaseMapChain();\n"],K),
('base-overlay','bug',B,"    *map_overlay_ = *map_;\n    if (child_)\n      child_->setBaseMapChain();\n\n","    if (child_)\n      child_->setBaseMapChain();\n\n",K),
('base-share','bug',B,"    *map_overlay_ = *map_;\n    if (child_)\n      child_->setBaseMapChain();\n\n","    map_overlay_ = map_;\n    if (child_)\n      child_->setBaseMapChain();\n\n",K),
('base-region','bug',B,"0, 0, 0, map_->info.width, map_->info.height, map_->info.angle,\n            base_map->header.stamp","0, 0, 0, map_->info.width, map_->info.height, 1,\n            base_map->header.stamp",K),
('base-ok-flat','ok',B,"    for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        map_->data[i + yaw * xy_size] = -1;\n      }\n    }\n    updateCSpace","    for (size_t i = 0; i < xy_size * map_->info.angle; i++)\n    {\n      map_->data[i] = -1;\n    }\n    updateCSpace",K),
('base-ok-swap','ok',B,"    for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        if (base_map->data[i] < 0)\n        {\n          map_->data[i + yaw * xy_size] = -1;\n        }\n      }\n    }","    for (unsigned int i = 0; i < xy_size; i++)\n    {\n      if (base_map->data[i] >= 0)\n        continue;\n      for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n        map_->data[i + yaw * xy_size] = -1;\n    }",K),
('base-ok-range','ok',B,"    for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        map_->data[i + yaw * xy_size] = -1;\n      }\n    }\n    updateCSpace","    for (auto& c : map_->data)\n      c = -1;\n    updateCSpace",K),
('base-ok-assign','ok',B,["    map_->data.resize(xy_size * map_->info.angle);\n","    for (size_t yaw = 0; yaw < map_->info.angle; yaw++)\n    {\n      for (unsigned int i = 0; i < xy_size; i++)\n      {\n        map_->data[i + yaw * xy_size] = -1;\n      }\n    }\n    updateCSpace"],["    map_->data.assign(xy_size * map_->info.angle, -1);\n","    updateCSpace"],K),
('bchain-overlay','bug',B,"    setMapMetaData(map_->info);\n    *map_overlay_ = *map_;","    setMapMetaData(map_->info);\n    map_overlay_->info = map_->info;",K),
('bchain-meta','bug',B,"    setMapMetaData(map_->info);\n    *map_overlay_ = *map_;","    setMapMetaData(map_overlay_->info);\n    *map_overlay_ = *map_;",K),
('bchain-child','bug',B,"    *map_overlay_ = *map_;\n    if (child_)\n      child_->setBaseMapChain();\n  }\n};","    *map_overlay_ = *map_;\n  }\n};",K),
('ov-x','bug',B,"std::lround((msg->info.origin.position.y - map_->info.origin.position.y) /\n                    map_->info.linear_resolution)","std::lround((msg->info.origin.position.y - map_->info.origin.position.y) /\n                    msg->info.resolution)",K),
('ov-floor','bug',B,"std::lround((msg->info.origin.position.x - map_->info.origin.position.x) /","std::floor((msg->info.origin.position.x - map_->info.origin.position.x) /",K),
('ov-w','bug',B,"std::lround(msg->info.width * msg->info.resolution / map_->info.linear_resolution)","msg->info.width",K),
('ov-keep','bug',B,"    map_updated_ = msg;\n\n    region_ =","    if (!map_updated_)\n      map_updated_ = msg;\n\n    region_ =",K),
('ov-merge','bug',B,"region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);","region_.merge(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));",K),
('ov-ang','bug',B,"updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));","updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, ang_grid_ / 2, msg->header.stamp));",K),
('ov-always','bug',B,"    if (update_chain_entry)\n","    if (update_chain_entry || root_)\n",K),
('ov-stamp','bug',B,"region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);","region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, map_->header.stamp);",K),
('ov-ok','ok',B,"      updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));","      updateChainEntry(region_);",K),
('child-map','bug',B,"child_->setMap(getMapOverlay());","child_->setMap(getMap());",K),
('child-root','bug',B,"    child_->root_ = false;\n","",K),
('add-front','bug',C,"    costmaps_.back()->setChild(costmap_overlay);\n    costmaps_.push_back(costmap_overlay);\n\n    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr addLayer","    costmaps_.front()->setChild(costmap_overlay);\n    costmaps_.push_back(costmap_overlay);\n\n    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr addLayer",K),
('add-nopush','bug',C,"    costmaps_.push_back(costmap_overlay);\n\n    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr getRoot","    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr getRoot",K),
('add-mode','bug',C,"    costmap_overlay->setOverlayMode(overlay_mode);\n\n    costmaps_.back()->setChild(costmap_overlay);\n    costmaps_.push_back(costmap_overlay);\n\n    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr getRoot","    costmaps_.back()->setChild(costmap_overlay);\n    costmaps_.push_back(costmap_overlay);\n\n    return costmap_overlay;\n  }\n  Costmap3dLayerBase::Ptr getRoot",K),
('unk-cond','bug',U,"if (m < 0)","if (m <= 0)",K),
('unk-x','bug',U,"static_cast<int>(x) < region_.x_ + region_.width_ && x < map_->info.width","static_cast<int>(x) < region_.width_ && x < map_->info.width",K),
('unk-a','bug',U,"size_t a = region_.yaw_;","size_t a = 0;",K),
('unk-map','bug',U,"auto& m = map_overlay_->getCost(x, y, a);","auto& m = map_->getCost(x, y, a);",K),
('unk-copy','bug',U,"auto& m = map_overlay_->getCost(x, y, a);","auto m = map_overlay_->getCost(x, y, a);",K),
('unk-ret','bug',U,"    return false;\n  }\n  void updateCSpace","    return output;\n  }\n  void updateCSpace",K),
('unk-ok','ok',U,"          if (m < 0)\n            m = unknown_cost_;","          m = m < 0 ? unknown_cost_ : m;",K),
('unk-ok2','ok',U,"          auto& m = map_overlay_->getCost(x, y, a);\n          if (m < 0)\n            m = unknown_cost_;","          if (map_overlay_->getCost(x, y, a) >= 0)\n            continue;\n          map_overlay_->getCost(x, y, a) = unknown_cost_;",K),
('stop-reg','bug',S,"0, 0, 0, map_->info.width, map_->info.height, map_->info.angle, ros::Time(0)","0, 0, 0, map_->info.width, map_->info.height, 1, ros::Time(0)",K),
('stop-noreg','bug',S,"    region_ = UpdatedRegion(\n        0, 0, 0, map_->info.width, map_->info.height, map_->info.angle, ros::Time(0));\n","",K),
('stop-map','bug',S,"for (auto& c : map_overlay_->data)","for (auto c : map_overlay_->data)",K),
('stop-zero','bug',S,"c = -1;","c = 0;",K),
('stop-ok','ok',S,"    for (auto& c : map_overlay_->data)\n      c = -1;","    for (size_t i = 0; i < map_overlay_->data.size(); ++i)\n      map_overlay_->data[i] = -1;",K),
('out-static','bug',O,"    if (cb_ && output)\n      return cb_(map_);","    if (cb_)\n      return cb_(map_);",K),
('out-over','bug',O,"return cb_(map_);","return cb_(map_overlay_);",K),
('out-upd-cond','bug',O,"    auto update_msg = generateUpdateMsg();\n    if (cb_ && output)\n      return cb_(map_, update_msg);","    if (cb_ && output)\n      return cb_(map_, generateUpdateMsg());",K),
('out-ok','ok',O,"    if (cb_ && output)\n      return cb_(map_);\n    return true;","    if (!output || !cb_)\n      return true;\n    return cb_(map_);",K),
('upd-stamp','bug',O,"    map_->header.stamp = region_.stamp_;\n    update_msg->header = map_->header;","    update_msg->header = map_->header;\n    map_->header.stamp = region_.stamp_;",K),
('upd-noprev','bug',O,"    region_merged.merge(region_prev_);\n","",K),
('upd-prevmerged','bug',O,"    region_prev_ = region;\n","    region_prev_ = region_merged;\n",K),
('upd-noreset','bug',O,"    region_ = UpdatedRegion();\n","",K),
('upd-nosave','bug',O,"    region_prev_ = region;\n","",K),
('upd-x','bug',O,"update_msg->x = region_merged.x_;","update_msg->x = region.x_;",K),
('upd-ang','bug',O,"update_msg->angle = region_merged.angle_;","update_msg->angle = map_->info.angle;",K),
('upd-src','bug',O,"*map_, update_msg->x, update_msg->y + j, update_msg->yaw + k, update_msg->width","*map_, update_msg->x, update_msg->y + j, k, update_msg->width",K),
('upd-srcy','bug',O,"*map_, update_msg->x, update_msg->y + j, update_msg->yaw + k, update_msg->width","*map_, update_msg->x, j, update_msg->yaw + k, update_msg->width",K),
('upd-overlay','bug',O,"*map_, update_msg->x, update_msg->y + j, update_msg->yaw + k, update_msg->width","*map_overlay_, update_msg->x, update_msg->y + j, update_msg->yaw + k, update_msg->width",K),
('upd-len','bug',O,"update_msg->yaw + k, update_msg->width);","update_msg->yaw + k, region.width_);",K),
('upd-whole','bug',O,"if ((update_msg->x == 0) && (update_msg->y == 0) && (update_msg->yaw == 0) &&\n        (update_msg->width == map_->info.width) && (update_msg->height == map_->info.height) &&","if ((update_msg->x == 0) && (update_msg->y == 0) && (update_msg->yaw == 0) &&\n        (update_msg->height == map_->info.height) &&",K),
('upd-rows','bug',O,"for (unsigned int j = 0; j < update_msg->height; ++j)","for (unsigned int j = 1; j < update_msg->height; ++j)",K),
('upd-size','bug',O,"update_msg->data.resize(update_msg->width * update_msg->height * update_msg->angle);","update_msg->data.resize(update_msg->width * update_msg->height);",K),
('upd-ok-nowhole','ok',O,"    if ((update_msg->x == 0) && (update_msg->y == 0) && (update_msg->yaw == 0) &&\n        (update_msg->width == map_->info.width) && (update_msg->height == map_->info.height) &&\n        (update_msg->angle == map_->info.angle))\n    {\n      CSpace3DMsg::copyCells(*update_msg, 0, 0, 0, *map_, 0, 0, 0, update_msg->data.size());\n      return update_msg;\n    }\n","",K),
('upd-ok-order','ok',O,"    UpdatedRegion region_merged = region;\n    region_merged.merge(region_prev_);\n","    UpdatedRegion region_merged = region_prev_;\n    region_merged.merge(region);\n",K),
('upd-ok-swaploops','ok',O,"    for (unsigned int k = 0; k < update_msg->angle; ++k)\n    {\n      for (unsigned int j = 0; j < update_msg->height; ++j)\n      {","    for (unsigned int j = 0; j < update_msg->height; ++j)\n    {\n      for (unsigned int k = 0; k < update_msg->angle; ++k)\n      {",K),
('upd-ok-fix','ok',O,"    if (region.width_ == 0 || region.height_ == 0)\n    {\n      update_msg->width = update_msg->height = 0;","    if (region_merged.width_ == 0 || region_merged.height_ == 0)\n    {\n      update_msg->width = update_msg->height = 0;",K),
('cb-first','bug',N,"      for (auto& map : map_buffer_)\n        cbMapOverlay(map.first, map.second);","      cbMapOverlay(map_buffer_[0].first, map_buffer_[0].second);",K),
('cb-noclear','bug',N,"      map_buffer_.clear();\n","",K),
('cb-before','bug',N,["    map->setBaseMap(msg);\n    ROS_DEBUG(\"C-Space costmap generated\");\n","      map_buffer_.clear();\n    }\n"],["","      map_buffer_.clear();\n    }\n    map->setBaseMap(msg);\n"],K),
('cb-layer','bug',N,"costmap_cspace::Costmap3dLayerBase::Ptr>(msg, map));","costmap_cspace::Costmap3dLayerBase::Ptr>(msg, costmap_->getRootLayer()));",K),
('cb-drop','bug',N,"map_buffer_.push_back(\n          std::pair<nav_msgs::OccupancyGrid::ConstPtr,\n                    costmap_cspace::Costmap3dLayerBase::Ptr>(msg, map));\n","",K),
('cb-w','bug',N,"    if (map_msg->info.width < 1 ||\n        map_msg->info.height < 1)","    if (map_msg->info.width < 1 &&\n        map_msg->info.height > 1)",K),
('cb-false','bug',N,"map->processMapOverlay(msg, true);","map->processMapOverlay(msg, map_buffer_.empty());",K),
('cb-ok','ok',N,"    if (map_buffer_.size() > 0)\n    {\n      for (auto& map : map_buffer_)\n        cbMapOverlay(map.first, map.second);","    if (!map_buffer_.empty())\n    {\n      for (size_t i = 0; i < map_buffer_.size(); ++i)\n        cbMapOverlay(map_buffer_[i].first, map_buffer_[i].second);",K),
]
