P = ['S01']
F = 'safety_limiter/src/safety_limiter.cpp'
CASES = [
    ('no-limit-disabled', 'bug', F, 'pub_twist_.publish(limitMaxVelocities(twist_));', 'pub_twist_.publish(twist_);', P),
    ('watchdog-ignored', 'bug', F, '''else if (!has_cloud_ || watchdog_stop_)
    {
      geometry_msgs::Twist cmd_vel;''', '''else if (!has_cloud_)
    {
      geometry_msgs::Twist cmd_vel;''', P),
    ('disable-le', 'bug', F, 'if (now - last_disable_cmd_ < ros::Duration(disable_timeout_))', 'if (now - last_disable_cmd_ > ros::Duration(disable_timeout_))', P),
    ('no-y-scale', 'bug', F, '      out.linear.y *= r_lim_;\n', '', P),
    ('order', 'bug', F, 'limitMaxVelocities(limit(twist_))', 'limit(limitMaxVelocities(twist_))', P),
    ('limit-x-only', 'bug', F, 'const double out_linear_vel = std::hypot(out.linear.x, out.linear.y);', 'const double out_linear_vel = std::abs(out.linear.x);', P),
    ('ang-neg', 'bug', F, 'std::max(out.angular.z, -max_values_[1])', 'std::min(out.angular.z, -max_values_[1])', P),
    ('ang-neg2', 'bug', F, 'std::max(out.angular.z, -max_values_[1])', 'out.angular.z', P),
    ('hold-always', 'bug', F, 'if (now > hold_off_)\n        r_lim_ = 1.0;', 'r_lim_ = 1.0;', P),
    ('release-stopped', 'bug', F, '''      if (now > hold_off_)
        r_lim_ = 1.0;
    }
''', '''    }
    if (now > hold_off_)
      r_lim_ = 1.0;
''', P),
    ('ratio-overwritten', 'bug', F, 'if (r_lim_current < r_lim_)\n      r_lim_ = r_lim_current;', 'r_lim_ = r_lim_current;', P),
    ('stale-keeps-cloud', 'bug', F, '      has_cloud_ = false;\n      r_lim_ = 0;\n', '      r_lim_ = 0;\n', P),
    ('stale-keeps-ratio', 'bug', F, '      has_cloud_ = false;\n      r_lim_ = 0;\n', '      has_cloud_ = false;\n', P),
    ('stale-no-stop', 'bug', F, '''      geometry_msgs::Twist cmd_vel;
      pub_twist_.publish(cmd_vel);

      cloud_accum_.reset''', '''      cloud_accum_.reset''', P),
    ('watchdog-no-stop', 'bug', F, '''    r_lim_ = 0;
    geometry_msgs::Twist cmd_vel;
    pub_twist_.publish(cmd_vel);
''', '''    r_lim_ = 0;
''', P),
    ('watchdog-no-flag', 'bug', F, '    watchdog_stop_ = true;\n', '', P),
    ('cloud-clears-watchdog', 'bug', F, '    has_cloud_ = true;\n', '    has_cloud_ = true;\n    watchdog_stop_ = false;\n', P),
    ('cloud-failed-counts', 'bug', F, '''        ROS_WARN_THROTTLE(1.0, "safety_limiter: Transform failed: %s", e.what());
        return;
      }

      cloud_fixed''', '''        ROS_WARN_THROTTLE(1.0, "safety_limiter: Transform failed: %s", e.what());
        has_cloud_ = true;
        return;
      }

      cloud_fixed''', P),
    ('cloud-now', 'bug', F, 'last_cloud_stamp_ = msg->header.stamp;', 'last_cloud_stamp_ = ros::Time::now();', P),
    ('stamp-before', 'bug', F, '''    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_fixed(new pcl::PointCloud<pcl::PointXYZ>());
    if (!msg''', '''    last_cloud_stamp_ = msg->header.stamp;
    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_fixed(new pcl::PointCloud<pcl::PointXYZ>());
    if (!msg''', P),
    ('disable-false', 'bug', F, '    if (msg->data)\n    {\n      last_disable_cmd_ = ros::Time::now();\n    }', '    last_disable_cmd_ = ros::Time::now();', P),
    ('disable-off', 'bug', F, '      last_disable_cmd_ = ros::Time::now();\n    }', '      last_disable_cmd_ = ros::Time::now();\n    }\n    else\n      last_disable_cmd_ = ros::Time::now() - ros::Duration(1.0);', P),
    ('reset-no-timer', 'bug', F, '    watchdog_timer_.setPeriod(watchdog_interval_, true);\n', '', P),
    ('hold-min', 'bug', F, 'ros::Duration(std::max(config.hold, 1.0 / hz_))', 'ros::Duration(config.hold)', P),
    ('hold-zero', 'bug', F, 'if (r_lim_current < 1.0)\n      hold_off_', 'if (r_lim_current < r_lim_)\n      hold_off_', P),
    ('param-no-reset', 'bug', F, '    r_lim_ = 1.0;\n  }\n  double predict', '  }\n  double predict', P),
    ('timer-period', 'bug', F, 'nh_.createTimer(ros::Duration(1.0 / hz_), &SafetyLimiterNode::cbPredictTimer', 'nh_.createTimer(ros::Duration(hz_), &SafetyLimiterNode::cbPredictTimer', P),
    ('swap-timeout', 'bug', F, 'last_cloud_stamp_ > ros::Duration(timeout_)', 'last_cloud_stamp_ > ros::Duration(disable_timeout_)', P),
    ('cfg-swap', 'bug', F, 'max_values_[1] = config.max_angular_vel;', 'max_values_[1] = config.max_linear_vel;', P),
    ('predict-first', 'bug', F, '''    if (!has_twist_)
      return;
    if (!has_cloud_)
      return;
''', '''    if (!has_twist_)
      return;
''', P),
    ('init-cloud', 'bug', F, ', has_cloud_(false)', ', has_cloud_(true)', P),
    ('ok-helper', 'ok', F, '''    else if (!has_cloud_ || watchdog_stop_)
    {
      geometry_msgs::Twist cmd_vel;
      pub_twist_.publish(cmd_vel);
    }
    else
    {
      geometry_msgs::Twist cmd_vel = limitMaxVelocities(limit(twist_));
      pub_twist_.publish(cmd_vel);

      if (now > hold_off_)
        r_lim_ = 1.0;
    }
  }
''', '''    else
    {
      pub_twist_.publish(isStopped() ? geometry_msgs::Twist() : limitMaxVelocities(limit(twist_)));
      if (!isStopped() && hold_off_ < now)
        r_lim_ = 1.0;
    }
  }
  bool isStopped() const
  {
    return watchdog_stop_ || !has_cloud_;
  }
''', P),
    ('ok-clamp', 'ok', F, '''    out.angular.z = (out.angular.z > 0) ?
                        std::min(out.angular.z, max_values_[1]) :
                        std::max(out.angular.z, -max_values_[1]);
''', '''    out.angular.z = std::max(-max_values_[1], std::min(max_values_[1], out.angular.z));
''', P),
    ('ok-sqrt', 'ok', F, 'const double out_linear_vel = std::hypot(out.linear.x, out.linear.y);', 'const double out_linear_vel = std::sqrt(in.linear.x * in.linear.x + in.linear.y * in.linear.y);', P),
    ('ok-min', 'ok', F, 'if (r_lim_current < r_lim_)\n      r_lim_ = r_lim_current;', 'r_lim_ = std::min(r_lim_, r_lim_current);', P),
    ('ok-early', 'ok', F, '''    if (msg->data)
    {
      last_disable_cmd_ = ros::Time::now();
    }''', '''    if (!msg->data)
      return;
    last_disable_cmd_ = ros::Time::now();''', P),
    ('ok-stop', 'ok', F, '''    watchdog_stop_ = true;
    r_lim_ = 0;
    geometry_msgs::Twist cmd_vel;
    pub_twist_.publish(cmd_vel);

    diag_updater_.force_update();
  }''', '''    watchdog_stop_ = true;
    publishStop();
  }
  void publishStop()
  {
    r_lim_ = 0;
    geometry_msgs::Twist cmd_vel;
    cmd_vel.linear.x = cmd_vel.angular.z = 0.0;
    pub_twist_.publish(cmd_vel);
    diag_updater_.force_update();
  }''', P),
    ('ok-age', 'ok', F, 'if (ros::Time::now() - last_cloud_stamp_ > ros::Duration(timeout_))', 'const double age = (ros::Time::now() - last_cloud_stamp_).toSec();\n    if (timeout_ < age)', P),
    ('ok-ready', 'ok', F, '''    if (!has_twist_)
      return;
    if (!has_cloud_)
      return;
''', '''    if (!has_cloud_ || !has_twist_)
      return;
''', P),
]
