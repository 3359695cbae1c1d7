P = ['S03']
F = 'safety_limiter/src/safety_limiter.cpp'
CASES = [
    # simulated motion
    ('angle-sign', 'bug', F, 'Eigen::AngleAxisf(-twist_.angular.z * dt_,', 'Eigen::AngleAxisf(twist_.angular.z * dt_,', P),
    ('y-dropped', 'bug', F, 'Eigen::Vector3f(-twist_.linear.x * dt_, -twist_.linear.y * dt_, 0.0)', 'Eigen::Vector3f(-twist_.linear.x * dt_, 0.0, 0.0)', P),
    ('inv-order', 'bug', F, '''        Eigen::Translation3f(Eigen::Vector3f(twist_.linear.x * dt_, twist_.linear.y * dt_, 0.0)) *
        Eigen::AngleAxisf(twist_.angular.z * dt_, Eigen::Vector3f::UnitZ());''', '''        Eigen::AngleAxisf(twist_.angular.z * dt_, Eigen::Vector3f::UnitZ()) *
        Eigen::Translation3f(Eigen::Vector3f(twist_.linear.x * dt_, twist_.linear.y * dt_, 0.0));''', P),
    ('mv-order', 'ok', F, 'move = move * motion;', 'move = motion * move;', P),
    ('search-move', 'bug', F, 'center = pcl::transformPoint(center, move_inv);', 'center = pcl::transformPoint(center, move);', P),
    ('escape-abs', 'bug', F, 'yaw_escape_remain -= std::abs(twist_.angular.z) * dt_;', 'yaw_escape_remain -= twist_.angular.z * dt_;', P),
    ('linear-x-only', 'bug', F, 'const double linear_vel = std::hypot(twist_.linear.x, twist_.linear.y);', 'const double linear_vel = std::abs(twist_.linear.x);', P),
    ('no-step-back', 'bug', F, '        d_col -= linear_vel * dt_;\n        yaw_col', '        yaw_col', P),
    ('escape-and', 'bug', F, 'if (d_escape_remain <= 0 || yaw_escape_remain <= 0)', 'if (d_escape_remain <= 0 && yaw_escape_remain <= 0)', P),
    ('escape-set-always', 'bug', F, '''        if (t == 0)
        {
          // The robot''', '''        if (t >= 0)
        {
          // The robot''', P),
    ('not-stopped', 'bug', F, 'd_col = yaw_col = 0;', 'd_col = 0;', P),
    ('skip-first-point', 'bug', F, '''        auto& p = pc->points[i];
''', '''        if (i == 0) continue;
        auto& p = pc->points[i];
''', P),
    ('now-not-reset', 'bug', F, '    has_collision_at_now_ = false;\n    const double', '    const double', P),
    ('break-at-first-free', 'bug', F, '''      if (num == 0)
        continue;
''', '''      if (num == 0)
        break;
''', P),
    ('one-hit', 'bug', F, '      if (num == 0)\n', '      if (num <= 1)\n', P),
    # ratio
    ('delay-no-dt', 'bug', F, 'const float delay = 1.0 * (1.0 / hz_) + dt_;', 'const float delay = 1.0 * (1.0 / hz_);', P),
    ('no-margin', 'bug', F, 'std::abs(d_col) - d_margin_ + acc_dtsq[0]', 'std::abs(d_col) + acc_dtsq[0]', P),
    ('margin-swap', 'bug', F, 'std::abs(yaw_col) - yaw_margin_ + acc_dtsq[1]', 'std::abs(yaw_col) - d_margin_ + acc_dtsq[1]', P),
    ('acc-swap', 'bug', F, 'std::sqrt(std::abs(2 * acc_[1] * yaw_col))', 'std::sqrt(std::abs(2 * acc_[0] * yaw_col))', P),
    ('pow1', 'bug', F, 'static_cast<float>(acc_[1] * std::pow(delay, 2)),', 'static_cast<float>(acc_[1] * delay),', P),
    ('ratio-max', 'bug', F, 'return std::min(d_r, yaw_r);', 'return std::max(d_r, yaw_r);', P),
    ('only-inf', 'bug', F, 'if (!std::isfinite(yaw_r))', 'if (std::isinf(yaw_r))', P),
    ('only-inf-d', 'bug', F, 'if (!std::isfinite(d_r))', 'if (std::isinf(d_r))', P),
    ('nan-zero', 'bug', F, '''    if (!std::isfinite(d_r))
      d_r = 1.0;''', '''    if (!std::isfinite(d_r))
      d_r = 0.0;''', P),
    ('yaw-signed', 'bug', F, '/ std::abs(twist_.angular.z);', '/ twist_.angular.z;', P),
    ('no-contact-zero', 'bug', F, '    if (!has_collision)\n      return 1.0;\n', '    if (!has_collision && !has_collision_at_now_)\n      return 1.0;\n', P),
    # points
    ('z-inverted', 'bug', F, 'if (p.z < this->z_range_[0] || this->z_range_[1] < p.z)', 'if (p.z < this->z_range_[0] && this->z_range_[1] < p.z)', P),
    ('z-min-only', 'bug', F, 'if (p.z < this->z_range_[0] || this->z_range_[1] < p.z)', 'if (p.z < this->z_range_[0])', P),
    ('z-strict', 'bug', F, 'p.z < this->z_range_[0] ||', 'p.z <= this->z_range_[0] ||', P),
    ('not-projected', 'bug', F, '      p.z = 0.0;\n', '', P),
    ('in-place', 'bug', F, 'pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);', 'pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);\n    *cloud_base = *cloud_accum_;', P),
    ('unmoved', 'bug', F, 'ds.setInputCloud(cloud_base);', 'ds.setInputCloud(cloud_accum_);', P),
    ('wrong-frame', 'bug', F, '''      fixed_to_base = tfbuf_.lookupTransform(
          base_frame_id_, cloud_accum_->header.frame_id, stamp);''', '''      fixed_to_base = tfbuf_.lookupTransform(
          cloud_accum_->header.frame_id, base_frame_id_, stamp);''', P),
    ('quat-order', 'bug', F, '''            fixed_to_base.transform.rotation.w,
            fixed_to_base.transform.rotation.x,
            fixed_to_base.transform.rotation.y,
            fixed_to_base.transform.rotation.z);''', '''            fixed_to_base.transform.rotation.x,
            fixed_to_base.transform.rotation.y,
            fixed_to_base.transform.rotation.z,
            fixed_to_base.transform.rotation.w);''', P),
    ('tf-fail-go', 'bug', F, '''e.what());
      return 0.0;''', '''e.what());
      return 1.0;''', P),
    ('empty-go', 'bug', F, '''    if (pc->size() == 0)
    {
      if (allow_empty_cloud_)
      {
        return 1.0;
      }
      ROS_WARN_THROTTLE(1.0, "safety_limiter: Empty pointcloud passed.");
      return 0.0;
    }''', '''    if (pc->size() == 0)
    {
      return 1.0;
    }''', P),
    ('kd-unfiltered', 'bug', F, 'kdtree.setInputCloud(pc);', 'kdtree.setInputCloud(cloud_base);', P),
    # footprint
    ('fp-not-closed', 'bug', F, '    footprint_p.v.push_back(footprint_p.v.front());\n', '', P),
    ('fp-closed-back', 'bug', F, 'footprint_p.v.push_back(footprint_p.v.front());', 'footprint_p.v.push_back(footprint_p.v.back());', P),
    ('fp-from-1', 'bug', F, 'for (int i = 0; i < footprint_xml.size(); i++)', 'for (int i = 1; i < footprint_xml.size(); i++)', P),
    ('fp-swap', 'bug', F, 'v[0] = static_cast<double>(footprint_xml[i][0]);', 'v[0] = static_cast<double>(footprint_xml[i][1]);', P),
    ('radius-x', 'bug', F, 'const float dist = std::hypot(v[0], v[1]);', 'const float dist = std::abs(v[0]);', P),
    ('radius-last', 'bug', F, '      if (dist > footprint_radius_)\n        footprint_radius_ = dist;', '      footprint_radius_ = dist;', P),
    ('radius-min', 'bug', F, 'if (dist > footprint_radius_)', 'if (dist < footprint_radius_)', P),
    # horizon
    ('tmax-one', 'bug', F, '    for (int i = 0; i < 2; i++)\n    {\n      auto t', '    for (int i = 0; i < 1; i++)\n    {\n      auto t', P),
    ('tmax-short', 'bug', F, 'tmax_ *= 1.5;', 'tmax_ *= 0.5;', P),
    ('tmax-min', 'bug', F, 'tmax_ += std::max(d_margin_ / vel_[0], yaw_margin_ / vel_[1]);', 'tmax_ += std::min(d_margin_ / vel_[0], yaw_margin_ / vel_[1]);', P),
    ('tmax-longer', 'ok', F, 'tmax_ *= 1.5;', 'tmax_ *= 2.0;', P),
    # status
    ('stuck-restart', 'bug', F, '''      if (stuck_started_since_ == ros::Time(0))
        stuck_started_since_ = ros::Time::now();''', '''      stuck_started_since_ = ros::Time::now();''', P),
    ('stuck-not-cleared', 'bug', F, '''    else
    {
      if (stuck_started_since_ != ros::Time(0))
        stuck_started_since_ = ros::Time(0);
    }''', '', P),
    ('stuck-simpler', 'ok', F, '''      if (stuck_started_since_ != ros::Time(0))
        stuck_started_since_ = ros::Time(0);''', '''      stuck_started_since_ = ros::Time(0);''', P),
    # accumulation
    ('no-clear', 'bug', F, '      cloud_clear_ = false;\n', '', P),
    ('never-cleared', 'bug', F, '    cloud_clear_ = true;\n', '', P),
    ('clear-always', 'bug', F, '    if (cloud_clear_)\n    {\n      cloud_clear_ = false;\n      cloud_accum_.reset', '    {\n      cloud_clear_ = false;\n      cloud_accum_.reset', P),
    ('wrong-fixed', 'bug', F, 'tfbuf_.lookupTransform(fixed_frame_id_, msg->header.frame_id, stamp);', 'tfbuf_.lookupTransform(base_frame_id_, msg->header.frame_id, stamp);', P),
    ('not-joined', 'bug', F, '*cloud_accum_ += *cloud_fixed;', '*cloud_accum_ = *cloud_fixed;', P),
    ('untransformed', 'bug', F, 'pcl::fromROSMsg(cloud_msg_fixed, *cloud_fixed);', 'pcl::fromROSMsg(*msg, *cloud_fixed);', P),
    ('frame-msg', 'bug', F, 'cloud_accum_->header.frame_id = fixed_frame_id_;', 'cloud_accum_->header.frame_id = msg->header.frame_id;', P),
    ('clear-after', 'bug', F, '''    if (cloud_clear_)
    {
      cloud_clear_ = false;
      cloud_accum_.reset(new pcl::PointCloud<pcl::PointXYZ>);
    }
    *cloud_accum_ += *cloud_fixed;''', '''    *cloud_accum_ += *cloud_fixed;
    if (cloud_clear_)
    {
      cloud_clear_ = false;
      cloud_accum_.reset(new pcl::PointCloud<pcl::PointXYZ>);
    }''', P),
    # refactorings
    ('helper-ratio', 'ok', F, '''    d_col = std::max<float>(
        0.0,
        std::abs(d_col) - d_margin_ + acc_dtsq[0] -
            std::sqrt(std::pow(acc_dtsq[0], 2) + 2 * acc_dtsq[0] * std::abs(d_col)));''', '''    const float d_abs = std::abs(d_col);
    const float d_rest = d_abs - d_margin_ + acc_dtsq[0] - std::sqrt(acc_dtsq[0] * (acc_dtsq[0] + 2 * d_abs));
    d_col = d_rest > 0.0f ? d_rest : 0.0f;''', P),
    ('index-loop', 'ok', F, '''      for (auto& i : indices)
      {
        auto& p = pc->points[i];''', '''      for (size_t j = 0; j < indices.size(); ++j)
      {
        auto& p = pc->points[indices[j]];''', P),
    ('empty()', 'ok', F, 'if (pc->size() == 0)', 'if (pc->points.empty())', P),
    ('nested-if', 'ok', F, '''      if (num == 0)
        continue;

      bool colliding = false;
      for (auto& i : indices)''', '''      bool colliding = false;
      for (auto& i : indices)''', P),
    ('isinf-nan', 'ok', F, 'if (!std::isfinite(d_r))', 'if (std::isnan(d_r) || std::isinf(d_r))', P),
    ('motion-inverse', 'ok', F, '''    Eigen::Affine3f motion_inv =
        Eigen::Translation3f(Eigen::Vector3f(twist_.linear.x * dt_, twist_.linear.y * dt_, 0.0)) *
        Eigen::AngleAxisf(twist_.angular.z * dt_, Eigen::Vector3f::UnitZ());''', '''    Eigen::Affine3f motion_inv = motion.inverse();''', P),
    ('use-in', 'ok', F, 'const double linear_vel = std::hypot(twist_.linear.x, twist_.linear.y);', 'const double linear_vel = std::hypot(in.linear.x, in.linear.y);', P),
    ('filter-lambda', 'ok', F, '''      if (p.z < this->z_range_[0] || this->z_range_[1] < p.z)
        return true;
      p.z = 0.0;
      return false;''', '''      const bool out_of_range = p.z < z_range_[0] || z_range_[1] < p.z;
      p.z = 0.0;
      return out_of_range;''', P),
    ('tmax-max', 'ok', F, '''    tmax_ = 0.0;
    for (int i = 0; i < 2; i++)
    {
      auto t = vel_[i] / acc_[i];
      if (tmax_ < t)
        tmax_ = t;
    }''', '''    tmax_ = std::max(0.0, std::max(vel_[0] / acc_[0], vel_[1] / acc_[1]));''', P),
    ('radius-std-max', 'ok', F, '''      if (dist > footprint_radius_)
        footprint_radius_ = dist;''', '''      footprint_radius_ = std::max(footprint_radius_, dist);''', P),
    ('clear-ptr', 'ok', F, '''    *cloud_accum_ += *cloud_fixed;
    cloud_accum_->header.frame_id = fixed_frame_id_;''', '''    cloud_accum_->header.frame_id = fixed_frame_id_;
    *cloud_accum_ += *cloud_fixed;''', P),
    ('helper-empty', 'ok', F, '''    if (cloud_accum_->size() == 0)
    {
      if (allow_empty_cloud_)
      {
        return 1.0;
      }
      ROS_WARN_THROTTLE(1.0, "safety_limiter: Empty pointcloud passed.");
      return 0.0;
    }''', '''    if (cloud_accum_->size() == 0)
      return allow_empty_cloud_ ? 1.0 : 0.0;''', P),
    ('steps-int', 'ok', F, '''    for (float t = 0; t < tmax_; t += dt_)
    {
      if (t != 0)''', '''    int step = 0;
    for (float t = 0; t < tmax_; t += dt_, ++step)
    {
      if (step > 0)''', P),
]
