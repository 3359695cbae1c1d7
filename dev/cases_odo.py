P = ['O02']
F = 'track_odometry/src/track_odometry.cpp'
CASES = [
    ('prev-raw', 'bug', F, 'toPoint(toEigen(odom_prev_.pose.pose.position) + v)', 'toPoint(toEigen(odomraw_prev_.pose.pose.position) + v)', P),
    ('rot-order', 'bug', F, 'toEigen(odom.pose.pose.orientation) * toEigen(msg->pose.pose.orientation).inverse() * diff', 'toEigen(msg->pose.pose.orientation).inverse() * toEigen(odom.pose.pose.orientation) * diff', P),
    ('no-inv', 'bug', F, 'toEigen(msg->pose.pose.orientation).inverse() * diff', 'toEigen(msg->pose.pose.orientation) * diff', P),
    ('prev-store', 'bug', F, '    odom_prev_ = odom;\n', '    odom_prev_ = *msg;\n', P),
    ('raw-store', 'bug', F, '    odomraw_prev_ = *msg;\n', '    odomraw_prev_ = odom;\n', P),
    ('prev-skip', 'bug', F, '    odom_prev_ = odom;\n', '    if (!has_odom_ || !use_kf_)\n      odom_prev_ = odom;\n', P),
    ('slip-sign', 'bug', F, 'v *= 1.0 - slip_.x_;', 'v *= 1.0 + slip_.x_;', P),
    ('neg', 'bug', F, 'if (w_imu * w_odom < 0 && !negative_slip_)', 'if (w_imu * w_odom < 0 && negative_slip_)', P),
    ('neg2', 'bug', F, 'if (w_imu * w_odom < 0 && !negative_slip_)', 'if (w_imu < 0 && !negative_slip_)', P),
    ('abs', 'bug', F, 'if (std::abs(w_odom) > sigma_odom_ * 3)', 'if (w_odom > sigma_odom_ * 3)', P),
    ('inf', 'bug', F, '      if (std::abs(w_odom) < sigma_odom_)\n', '      if (w_odom < sigma_odom_)\n', P),
    ('noinf', 'bug', F, 'slip_ratio_per_angvel_sigma = std::numeric_limits<double>::infinity();', 'slip_ratio_per_angvel_sigma = sigma_odom_;', P),
    ('zdt', 'bug', F, '1.0 - (dt / z_filter_timeconst_)', '1.0 - (z_filter_timeconst_ / dt)', P),
    ('z-filter', 'bug', F, 'odom.pose.pose.position.z *= ', 'odom.pose.pose.position.y *= ', P),
    ('tf-raw', 'bug', F, 'toVector3(toEigen(odom.pose.pose.position))', 'toVector3(toEigen(msg->pose.pose.position))', P),
    ('tf-rot', 'bug', F, 'odom_trans.transform.rotation = odom.pose.pose.orientation;', 'odom_trans.transform.rotation = msg->pose.pose.orientation;', P),
    ('stamp', 'bug', F, 'odom.header.stamp += ros::Duration(tf_tolerance_);\n      odom.twist', 'odom.twist', P),
    ('reset-raw', 'bug', F, '    odom_prev_.pose.pose.position.z = msg->data;', '    odomraw_prev_.pose.pose.position.z = msg->data;', P),
    ('imu-stay', 'bug', F, '      has_imu_ = false;\n      return;', '      return;', P),
    ('imu-frame', 'bug', F, '''      tf2::doTransform(vin, vout, trans);
      imu_.angular_velocity = vout.vector;''', '''      tf2::doTransform(vin, vout, trans);
      imu_.angular_velocity = vin.vector;''', P),
    ('axis', 'bug', F, 'axis1.vector = tf2::toMsg(axis);', 'axis1.vector = vout.vector;', P),
    ('dt', 'bug', F, 'slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);', 'slip_.predict(-slip_.x_ * dt * predict_filter_tc_, sigma_predict_);', P),
    ('order', 'bug', F, '    cbImu(imu_msg);\n    cbOdom(odom_msg);', '    cbOdom(odom_msg);\n    cbImu(imu_msg);', P),
    ('child', 'bug', F, '      odom.child_frame_id = base_link_id_;\n      pub', '      pub', P),
    ('noimu', 'bug', F, '''        ROS_ERROR_THROTTLE(1.0, "IMU data not received");
        return;''', '''        ROS_ERROR_THROTTLE(1.0, "IMU data not received");''', P),
    ('w-imu', 'bug', F, 'slip_ratio = w_imu / w_odom;', 'slip_ratio = w_odom / w_imu;', P),
    ('ok-split', 'ok', F, '''      if (w_imu * w_odom < 0 && !negative_slip_)
        w_imu = w_odom;''', '''      const bool opposite = w_imu * w_odom < 0;
      if (!negative_slip_)
      {
        if (opposite)
          w_imu = w_odom;
      }''', P),
    ('ok-scale', 'ok', F, '''      if (use_kf_)
        v *= 1.0 - slip_.x_;
      else
        v *= slip_ratio;
''', '''      const double scale = use_kf_ ? 1.0 - slip_.x_ : slip_ratio;
      v *= scale;
''', P),
    ('ok-rot', 'ok', F, '''          toEigen(odom.pose.pose.orientation) * toEigen(msg->pose.pose.orientation).inverse() * diff;''', '''          toEigen(odom.pose.pose.orientation) * (toEigen(msg->pose.pose.orientation).inverse() * diff);''', P),
    ('ok-order', 'ok', F, '''    odomraw_prev_ = *msg;
    odom_prev_ = odom;
    has_odom_ = true;''', '''    has_odom_ = true;
    odom_prev_ = odom;
    odomraw_prev_ = *msg;''', P),
    ('ok-tf', 'ok', F, '''      if (publish_tf_)
        tf_broadcaster_.sendTransform(odom_trans);''', '''      if (!publish_tf_)
      {
        dist_ += 0.0;
      }
      else
      {
        tf_broadcaster_.sendTransform(odom_trans);
      }''', P),
    ('ok-early', 'ok', F, '''    if (has_odom_)
    {
      const double dt''', '''    const bool first = !has_odom_;
    if (!first)
    {
      const double dt''', P),
    ('ok-pow', 'ok', F, 'std::pow(w_odom * w_odom - sigma_odom_ * sigma_odom_, 2)', '((w_odom * w_odom - sigma_odom_ * sigma_odom_) * (w_odom * w_odom - sigma_odom_ * sigma_odom_))', P),
    ('ok-z', 'ok', F, '''        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);''', '''        odom.pose.pose.position.z -= odom.pose.pose.position.z * dt / z_filter_timeconst_;''', P),
    ('ok-abs', 'ok', F, 'if (std::abs(w_odom) < sigma_odom_)', 'if (w_odom < sigma_odom_ && w_odom > -sigma_odom_)', P),
]
