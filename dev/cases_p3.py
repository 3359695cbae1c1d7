F = 'planner_cspace/src/planner_3d.cpp'
G = ['P12']
CASES = [
 ('goal-frame-ignored', 'bug', F, "    if (msg.header.frame_id != map_header_.frame_id)\n    {\n      ROS_ERROR(\"Goal [%s]", "    if (has_map_ && msg.header.frame_id != map_header_.frame_id)\n    {\n      ROS_ERROR(\"Goal [%s]", G),
 ('original-kept', 'bug', F, "goal_original_ = goal_raw_ = goal_ = msg;", "goal_raw_ = goal_ = msg;\n    if (escape_status_ == TemporaryEscapeStatus::NOT_ESCAPING)\n      goal_original_ = msg;", G),
 ('escape-not-reset', 'bug', F, "      escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n      has_goal_ = true;\n", "      has_goal_ = true;\n", G),
 ('stuck-after', 'bug', F, "      cnt_stuck_ = 0;\n      if (!createCostEstimCache())\n      {\n        has_goal_ = false;\n        return false;\n      }\n", "      if (!createCostEstimCache())\n      {\n        has_goal_ = false;\n        return false;\n      }\n      cnt_stuck_ = 0;\n", G),
 ('dropped-goal-held', 'bug', F, "      if (!createCostEstimCache())\n      {\n        has_goal_ = false;\n        return false;", "      if (!createCostEstimCache())\n      {\n        return false;", G),
 ('clear-one-server', 'bug', F, "      if (act_tolerant_->isActive())\n        act_tolerant_->setSucceeded(planner_cspace_msgs::MoveWithToleranceResult(), \"Goal cleared.\");", "", G),
 ('clear-else', 'bug', F, "      if (act_tolerant_->isActive())\n        act_tolerant_->setSucceeded(planner_cspace_msgs::MoveWithToleranceResult(), \"Goal cleared.\");", "      else if (has_start_ && act_tolerant_->isActive())\n        act_tolerant_->setSucceeded(planner_cspace_msgs::MoveWithToleranceResult(), \"Goal cleared.\");", G),
 ('topic-during-tolerant', 'bug', F, "    if (act_->isActive() || act_tolerant_->isActive())\n    {\n      ROS_ERROR(\"Setting new goal is ignored since planner_3d is proceeding the action.\");", "    if (act_->isActive())\n    {\n      ROS_ERROR(\"Setting new goal is ignored since planner_3d is proceeding the action.\");", G),
 ('abort-other', 'bug', F, "    if (!setGoal(goal_tolerant_->target_pose))\n      act_tolerant_->setAborted(planner_cspace_msgs::MoveWithToleranceResult()", "    if (!setGoal(goal_tolerant_->target_pose))\n      act_->setAborted(move_base_msgs::MoveBaseResult()", G),
 ('tolerant-late', 'bug', F, "    goal_tolerant_ = act_tolerant_->acceptNewGoal();\n    if (!setGoal(goal_tolerant_->target_pose))", "    const auto goal = act_tolerant_->acceptNewGoal();\n    if (!goal_tolerant_)\n      goal_tolerant_ = goal;\n    if (!setGoal(goal->target_pose))", G),
 ('preempt-unguarded', 'bug', F, "    if (act_->isActive())\n      act_->setPreempted(", "    act_->setPreempted(", G),
 ('preempt-keeps-escape', 'bug', F, "    has_goal_ = false;\n    escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n", "    has_goal_ = false;\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n", G),
 ('stale-map', 'bug', F, "    // The current distance map is not for this goal\n    cost_estim_cache_created_ = false;\n", "", G),
 ('stale-map2', 'bug', F, ["    // The current distance map is not for this goal\n    cost_estim_cache_created_ = false;\n", "    is_start_occupied_ = false;\n\n    Astar::Vec s = metric2Grid(start_.pose);"], ["", "    cost_estim_cache_created_ = false;\n    is_start_occupied_ = false;\n\n    Astar::Vec s = metric2Grid(start_.pose);"], G),
 ('goal-not-raw', 'bug', F, "    Astar::Vec e = metric2Grid(goal_raw_.pose);\n    if (goal_changed)", "    Astar::Vec e = metric2Grid(goal_.pose);\n    if (goal_changed)", G),
 ('rock-not-counted', 'bug', F, "        ROS_WARN(\"Oops! You are in Rock!\");\n        ++cnt_stuck_;\n        is_start_occupied_ = true;", "        ROS_WARN(\"Oops! You are in Rock!\");\n        is_start_occupied_ = true;", G),
 ('revert-keeps-raw', 'bug', F, "          goal_raw_ = goal_ = goal_original_;\n          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          return true;", "          goal_ = goal_original_;\n          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          return true;", G),
 ('escape-no-crowd', 'bug', F, "        if (temporary_escape_ && enable_crowd_mode_)", "        if (temporary_escape_ || enable_crowd_mode_)", G),
 ('free-goal-not-reverted', 'bug', F, "        goal_ = goal_raw_;\n        break;\n    }\n", "        break;\n    }\n", G),
 ('moved-goal-raw', 'bug', F, "        goal_.pose = grid2MetricPose(e);\n        ROS_INFO(\"Goal moved.", "        goal_.pose = goal_raw_.pose = grid2MetricPose(e);\n        ROS_INFO(\"Goal moved.", G),
 ('hyst-kept', 'bug', F, "      clearHysteresis();\n      has_hysteresis_map_ = false;\n    }\n    const DiscretePoseStatus start", "      clearHysteresis();\n    }\n    const DiscretePoseStatus start", G),
 ('create-swapped', 'bug', F, "      cost_estim_cache_.create(s, e);", "      cost_estim_cache_.create(e, s);", G),
 ('start-unrelocated', 'bug', F, "      cost_estim_cache_.create(s, e);", "      cost_estim_cache_.create(metric2Grid(start_.pose), e);", G),
 ('ok-helper-clear', 'ok', F, ["    has_goal_ = false;\n    escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n  }\n", "  bool setGoal(const geometry_msgs::PoseStamped& msg)"], ["    dropGoal();\n  }\n", "  void dropGoal()\n  {\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n    escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n    has_goal_ = false;\n  }\n\n  bool setGoal(const geometry_msgs::PoseStamped& msg)"], G),
 ('ok-invert-if', 'ok', F, "    if (act_->isActive() || act_tolerant_->isActive())\n    {\n      ROS_ERROR(\"Setting new goal is ignored since planner_3d is proceeding the action.\");\n      return;\n    }\n    setGoal(*msg);", "    const bool busy = act_tolerant_->isActive() || act_->isActive();\n    if (!busy)\n    {\n      setGoal(*msg);\n      return;\n    }\n    ROS_ERROR(\"Setting new goal is ignored since planner_3d is proceeding the action.\");", G),
 ('ok-len2', 'ok', F, "    if (std::abs(len2 - 1.0) < 0.1)", "    const bool unit = 0.1 > std::fabs(1.0 - len2);\n    if (unit)", G),
 ('ok-switch-if', 'ok', F, "    switch (start_pose_status)\n    {\n      case DiscretePoseStatus::OUT_OF_MAP:\n        ROS_ERROR(\"You are on the edge of the world.\");\n        return false;\n      case DiscretePoseStatus::IN_ROCK:\n        ROS_WARN(\"Oops! You are in Rock!\");\n        ++cnt_stuck_;\n        is_start_occupied_ = true;\n        return true;\n      default:\n        break;\n    }\n", "    if (start_pose_status == DiscretePoseStatus::OUT_OF_MAP)\n    {\n      ROS_ERROR(\"You are on the edge of the world.\");\n      return false;\n    }\n    if (start_pose_status == DiscretePoseStatus::IN_ROCK)\n    {\n      is_start_occupied_ = true;\n      cnt_stuck_ += 1;\n      return true;\n    }\n", G),
 ('ok-goal-first', 'ok', F, ["    const DiscretePoseStatus start_pose_status = relocateDiscretePoseIfNeeded(s, tolerance_range_, tolerance_angle_);\n", "    const DiscretePoseStatus goal_pose_status = relocateDiscretePoseIfNeeded(e, tolerance_range_, tolerance_angle_);\n"], ["", "    const DiscretePoseStatus goal_pose_status = relocateDiscretePoseIfNeeded(e, tolerance_range_, tolerance_angle_);\n    const DiscretePoseStatus start_pose_status = relocateDiscretePoseIfNeeded(s, tolerance_range_, tolerance_angle_, false);\n"], G),
 ('ok-copy-order', 'ok', F, "goal_original_ = goal_raw_ = goal_ = msg;", "goal_ = msg;\n    goal_raw_ = goal_;\n    goal_original_ = goal_raw_;", G),
]
M = ['P15']
I = ['P13']
G = ['P14']
J = 'planner_cspace/include/planner_cspace/jump_detector.h'
CASES += [
 ('cy-stale-ge', 'bug', F, "      if (costmap_delay > costmap_watchdog_)\n", "      if (costmap_delay > costmap_watchdog_ && !isEscaping(escape_status_))\n", G),
 ('cy-stale-goes-on', 'bug', F, "        publishEmptyPath();\n      }\n      else\n      {\n        has_costmap = true;\n      }\n", "        publishEmptyPath();\n      }\n      has_costmap = true;\n", G),
 ('cy-stale-no-stop', 'bug', F, "        status_.error = planner_cspace_msgs::PlannerStatus::DATA_MISSING;\n        publishEmptyPath();\n", "        status_.error = planner_cspace_msgs::PlannerStatus::DATA_MISSING;\n        if (!has_goal_)\n          publishEmptyPath();\n", G),
 ('cy-cache-remade', 'bug', F, "    if (has_map_ && !cost_estim_cache_created_ && has_goal_)\n    {\n      createCost", "    if (has_map_ && has_start_ && !cost_estim_cache_created_ && has_goal_)\n    {\n      createCost", G),
 ('cy-done-keeps-goal', 'bug', F, "          has_goal_ = false;\n          // Don't publish", "          has_goal_ = keep_a_part_of_previous_path_;\n          // Don't publish", G),
 ('cy-done-one', 'bug', F, "          if (act_->isActive())\n            act_->setSucceeded(move_base_msgs::MoveBaseResult(), \"Goal reached.\");\n          if (act_tolerant_", "          if (act_->isActive())\n            act_->setSucceeded(move_base_msgs::MoveBaseResult(), \"Goal reached.\");\n          else if (!force_goal_orientation_ && act_tolerant_", G),
 ('cy-yaw-wrap', 'bug', F, "        else if (yaw_diff < -M_PI)\n          yaw_diff += M_PI * 2.0;\n        if (std::abs(yaw_diff) <\n", "        if (std::abs(yaw_diff) <\n", G),
 ('cy-yaw-goal', 'bug', F, "          yaw_g = tf2::getYaw(goal_raw_.pose.orientation);\n", "          yaw_g = tf2::getYaw(goal_original_.pose.orientation);\n", G),
 ('cy-tol', 'bug', F, "(act_tolerant_->isActive() ? goal_tolerant_->goal_tolerance_ang_finish", "(act_tolerant_->isActive() ? goal_tolerant_->goal_tolerance_ang", G),
 ('cy-giveup-goal', 'bug', F, "          status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n          has_goal_ = false;\n\n          publishEmptyPath();", "          status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n\n          publishEmptyPath();", G),
 ('cy-giveup-order', 'bug', F, "          status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n          has_goal_ = false;\n\n          publishEmptyPath();", "          status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n          has_goal_ = false;\n\n          if (has_costmap && !retain_last_error_status_)\n            publishEmptyPath();", G),
 ('cy-giveup-ge', 'bug', F, "if (max_retry_num_ != -1 && cnt_stuck_ > max_retry_num_)", "if (max_retry_num_ > 0 && cnt_stuck_ > max_retry_num_)", G),
 ('cy-giveup-skip', 'bug', F, "        else if (!cost_estim_cache_created_)\n        {\n          skip_path_planning = true;", "        else if (!cost_estim_cache_created_)\n        {\n          skip_path_planning = is_start_occupied_;", G),
 ('cy-err-swap', 'bug', F, "          if (is_start_occupied_)\n          {\n            status_.error = planner_cspace_msgs::PlannerStatus::IN_ROCK;", "          if (is_start_occupied_ && temporary_escape_)\n          {\n            status_.error = planner_cspace_msgs::PlannerStatus::IN_ROCK;", G),
 ('cy-err-stale', 'bug', F, "          status_.error = planner_cspace_msgs::PlannerStatus::GOING_WELL;\n        }\n\n        if (skip", "          if (status_.error != planner_cspace_msgs::PlannerStatus::DATA_MISSING)\n            status_.error = planner_cspace_msgs::PlannerStatus::GOING_WELL;\n        }\n\n        if (skip", G),
 ('cy-plan-raw', 'bug', F, "makePlan(start_.pose, goal_.pose, path, true);", "makePlan(start_.pose, goal_raw_.pose, path, true);", G),
 ('cy-plan-hyst', 'bug', F, "makePlan(start_.pose, goal_.pose, path, true);", "makePlan(start_.pose, goal_.pose, path, !isEscaping(escape_status_));", G),
 ('cy-plan-drop', 'bug', F, "          makePlan(start_.pose, goal_.pose, path, true);\n          publishPath(path);", "          if (makePlan(start_.pose, goal_.pose, path, true))\n            publishPath(path);", G),
 ('cy-esc-prev', 'bug', F, "          if (isEscaping(escape_status_) || isEscaping(previous_escape_status))", "          if (isEscaping(escape_status_))", G),
 ('cy-esc-late', 'bug', F, ["        TemporaryEscapeStatus previous_escape_status = escape_status_;\n        bool skip", "          if (isEscaping(escape_status_) ||"], ["        bool skip", "          const TemporaryEscapeStatus previous_escape_status = escape_status_;\n          if (isEscaping(escape_status_) ||"], G),
 ('cy-sw-first', 'bug', F, "            is_path_switchback_ = (sw_index >= 0);", "            is_path_switchback_ = (sw_index > 0);", G),
 ('cy-sw-kept', 'bug', F, "      is_path_switchback_ = false;\n      if (status_.status ==", "      if (status_.status ==", G),
 ('cy-status-time', 'bug', F, "    status_.header.stamp = now;\n    pub_status_.publish(status_);", "    pub_status_.publish(status_);\n    status_.header.stamp = now;", G),
 ('cy-idle-err', 'bug', F, "      if (!retain_last_error_status_)\n        status_.error", "      if (has_map_ && !retain_last_error_status_)\n        status_.error", G),
 ('cy-idle-nostop', 'bug', F, "    else if (!has_goal_)\n    {\n      if (!retain", "    else if (!has_goal_ && has_costmap)\n    {\n      if (!retain", G),
 ('cy-finish-pose', 'bug', F, "    if (force_goal_orientation_)\n      path.poses[0].pose = goal_raw_.pose;\n    else\n      path.poses[0].pose = goal_.pose;", "    path.poses[0].pose = goal_.pose;\n    if (force_goal_orientation_ && !isEscaping(escape_status_))\n      path.poses[0].pose = goal_raw_.pose;", G),
 ('cy-path-frame', 'bug', F, "    path.header.frame_id = robot_frame_;\n    path.header.stamp = ros::Time::now();\n    publishPath(path);", "    path.header.frame_id = map_header_.frame_id;\n    path.header.stamp = ros::Time::now();\n    publishPath(path);", G),
 ('cy-prev-path', 'bug', F, "    previous_path_ = path;\n", "    if (!path.poses.empty())\n      previous_path_ = path;\n", G),
 ('cy-upd-order', 'bug', F, "      updateStart();\n      applyCostmapUpdate(msg);\n      planPath(last_costmap_);", "      applyCostmapUpdate(msg);\n      updateStart();\n      planPath(last_costmap_);", G),
 ('cy-upd-time', 'bug', F, "      planPath(last_costmap_);", "      planPath(msg->header.stamp);", G),
 ('cy-wd-oneshot', 'bug', F, "    planPath(e.current_real);\n    no_map_update_timer_ =\n        nh_.createTimer(costmap_watchdog_, &Planner3dNode::cbNoMapUpdateTimer, this, true);", "    planPath(e.current_real);\n    if (has_goal_)\n      no_map_update_timer_ =\n          nh_.createTimer(costmap_watchdog_, &Planner3dNode::cbNoMapUpdateTimer, this, true);", G),
 ('cy-wd-expected', 'bug', F, "    planPath(e.current_real);", "    planPath(last_costmap_);", G),
 ('cy-start-kept', 'bug', F, "    catch (tf2::TransformException& e)\n    {\n      has_start_ = false;\n      return;", "    catch (tf2::TransformException& e)\n    {\n      return;", G),
 ('cy-wait-jump', 'bug', F, "          bbf_costmap_->clear();\n          // Robot pose jumped.\n          return;", "          bbf_costmap_->clear();", G),
 ('cy-wait-upd', 'bug', F, "        if (costmap_updated && previous_path_.poses.size() > 1)", "        if (costmap_updated && previous_path_.poses.size() > 2)", G),
 ('cy-wait-stamp', 'bug', F, ["      const ros::Time prev_map_update_stamp = last_costmap_;\n      ros::spinOnce();\n", "  void waitUntil(const ros::Time& next_replan_time)\n  {\n"], ["      ros::spinOnce();\n", "  void waitUntil(const ros::Time& next_replan_time)\n  {\n    ros::spinOnce();\n    const ros::Time prev_map_update_stamp = last_costmap_;\n"], G),
 ('cy-wait-first', 'bug', F, "            if (cm_[metric2Grid(path_pose.pose)] == 100)\n            {\n              // Obstacle on the path.\n              return;\n            }\n", "            if (cm_[metric2Grid(path_pose.pose)] == 100)\n            {\n              // Obstacle on the path.\n              return;\n            }\n            if (is_path_switchback_)\n              break;\n", G),
 ('cy-wait-base', 'bug', F, "            if (cm_[metric2Grid(path_pose.pose)] == 100)", "            if (cm_base_[metric2Grid(path_pose.pose)] == 100)", G),
 ('cy-wait-yaw', 'bug', F, "          yaw_diff = std::atan2(std::sin(yaw_diff), std::cos(yaw_diff));\n          if (len < goal", "          if (len < goal", G),
 ('cy-spin-order', 'bug', F, "        const ros::Time now = ros::Time::now();\n        planPath(now);", "        const ros::Time now = next_replan_time;\n        planPath(now);", G),
 ('cy-spin-sw', 'bug', F, "          next_replan_time = now + ros::Duration(sw_wait_);", "          next_replan_time = now + ros::Duration(sw_wait_ / freq_);", G),
 ('jd-order', 'bug', J, "map_trans.inverse() * map_trans_prev_ * (base_trans_prev_.inverse() * base_trans)", "map_trans_prev_.inverse() * map_trans * (base_trans_prev_.inverse() * base_trans)", G),
 ('jd-prev', 'bug', J, "    base_trans_prev_ = base_trans;\n    map_trans_prev_ = map_trans;\n", "    map_trans_prev_ = map_trans;\n    if (!init_)\n      base_trans_prev_ = base_trans;\n", G),
 ('jd-yaw', 'bug', J, "std::abs(yaw_diff) > yaw_jump_", "yaw_diff > yaw_jump_", G),
 ('jd-frames', 'bug', J, 'tfbuf_.lookupTransform(map_frame_, "base_link", ros::Time());\n', 'tfbuf_.lookupTransform(jump_detect_frame_, "base_link", ros::Time());\n', G),
 ('ok-cy-early', 'ok', F, "    else if (!has_goal_)\n    {\n      if (!retain_last_error_status_)\n        status_.error = planner_cspace_msgs::PlannerStatus::GOING_WELL;\n      publishEmptyPath();\n    }\n", "    else\n    {\n      const bool idle = !has_goal_;\n      if (idle && !retain_last_error_status_)\n        status_.error = planner_cspace_msgs::PlannerStatus::GOING_WELL;\n      if (idle)\n        publishEmptyPath();\n    }\n", G),
 ('ok-cy-skip', 'ok', F, ["          skip_path_planning = true;\n          if (is_start_occupied_)\n          {\n            status_.error = planner_cspace_msgs::PlannerStatus::IN_ROCK;\n          }\n          else\n          {\n            status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;\n          }\n"], ["          skip_path_planning = !cost_estim_cache_created_;\n          status_.error = is_start_occupied_ ? planner_cspace_msgs::PlannerStatus::IN_ROCK :\n                                               planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;\n"], G),
 ('ok-cy-feedback', 'ok', F, "        move_base_msgs::MoveBaseFeedback feedback;\n        feedback.base_position = start_;\n        act_->publishFeedback(feedback);", "        move_base_msgs::MoveBaseFeedback fb;\n        fb.base_position.header = start_.header;\n        fb.base_position.pose = start_.pose;\n        act_->publishFeedback(fb);", G),
 ('ok-cy-wait', 'ok', F, "      if (ros::Time::now() > next_replan_time)\n      {\n        return;\n      }\n      ros::Duration(0.01).sleep();", "      if (next_replan_time < ros::Time::now())\n        break;\n      ros::Duration(0.01).sleep();", G),
 ('ok-cy-anyof', 'ok', F, "          for (const auto& path_pose : previous_path_.poses)\n          {\n            if (cm_[metric2Grid(path_pose.pose)] == 100)\n            {\n              // Obstacle on the path.\n              return;\n            }\n          }\n", "          for (size_t i = 0; i < previous_path_.poses.size(); ++i)\n          {\n            const Astar::Vec cell = metric2Grid(previous_path_.poses[i].pose);\n            if (cm_[cell] == 100)\n              return;\n          }\n", G),
 ('ok-cy-finish', 'ok', F, "    path.poses.resize(1);\n    path.poses[0].header = path.header;\n    if (force_goal_orientation_)\n      path.poses[0].pose = goal_raw_.pose;\n    else\n      path.poses[0].pose = goal_.pose;\n    publishPath(path);", "    geometry_msgs::PoseStamped pose;\n    pose.header = path.header;\n    pose.pose = force_goal_orientation_ ? goal_raw_.pose : goal_.pose;\n    path.poses.push_back(pose);\n    publishPath(path);", G),
 ('ok-cy-update', 'ok', F, "    if (trigger_plan_by_costmap_update_)\n    {\n      no_map_update_timer_.stop();\n      updateStart();\n      applyCostmapUpdate(msg);\n      planPath(last_costmap_);", "    if (!trigger_plan_by_costmap_update_)\n    {\n      applyCostmapUpdate(msg);\n      return;\n    }\n    if (trigger_plan_by_costmap_update_)\n    {\n      no_map_update_timer_.stop();\n      updateStart();\n      applyCostmapUpdate(msg);\n      planPath(last_costmap_);", G),
 ('ok-jd', 'ok', J, "    const auto diff =\n        map_trans.inverse() * map_trans_prev_ * (base_trans_prev_.inverse() * base_trans);", "    const tf2::Transform map_move = map_trans.inverse() * map_trans_prev_;\n    const tf2::Transform base_move = base_trans_prev_.inverse() * base_trans;\n    const auto diff = map_move * base_move;", G),

 ('mp-esc-clear', 'bug', F, "          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          createCostEstimCache();\n          ROS_INFO(\"Escaped\");", "          createCostEstimCache();\n          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          ROS_INFO(\"Escaped\");", M),
 ('mp-esc-raw', 'bug', F, "          goal_ = goal_raw_ = goal_original_;\n          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          createCostEstimCache();\n          ROS_INFO(\"Escaped\");", "          goal_ = goal_original_;\n          escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n          createCostEstimCache();\n          ROS_INFO(\"Escaped\");", M),
 ('mp-cont-any', 'bug', F, "        if (act_tolerant_->isActive() && goal_tolerant_->continuous_movement_mode)\n        {\n          ROS_INFO(\"Robot reached", "        if (act_tolerant_->isActive())\n        {\n          ROS_INFO(\"Robot reached", M),
 ('mp-cont-abort', 'bug', F, "          act_tolerant_->setSucceeded(planner_cspace_msgs::MoveWithToleranceResult(),\n                                      \"Goal reached (Continuous movement mode).\");", "          act_tolerant_->setAborted(planner_cspace_msgs::MoveWithToleranceResult(),\n                                      \"Goal reached (Continuous movement mode).\");", M),
 ('mp-unreach-and', 'bug', F, "if (initial_2dof_cost == std::numeric_limits<float>::max() || cm_[end_grid] >= 100)", "if (initial_2dof_cost == std::numeric_limits<float>::max())", M),
 ('mp-unreach-start', 'bug', F, "cost_estim_cache_[Astar::Vec(start_grid[0], start_grid[1], 0)]", "cost_estim_cache_[Astar::Vec(end_grid[0], end_grid[1], 0)]", M),
 ('mp-unreach-pred', 'bug', F, "      ROS_WARN(\"Goal unreachable.\");\n      start_pose_predictor_.clear();", "      ROS_WARN(\"Goal unreachable.\");", M),
 ('mp-range', 'bug', F, "initial_2dof_cost - (local_range_ + range_) * ec_[0]", "initial_2dof_cost - local_range_ * ec_[0]", M),
 ('mp-limit', 'bug', F, "range_limit,\n                                              1.0f / freq_min_,", "range_limit,\n                                              1.0f / freq_,", M),
 ('mp-best', 'bug', F, "      if (!find_best_)\n        return false;", "      return false;", M),
 ('mp-fail-good', 'bug', F, "      ROS_WARN(\"Path plan failed (goal unreachable)\");\n      status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;\n      if (!find_best_)\n        return false;", "      ROS_WARN(\"Path plan failed (goal unreachable)\");\n      if (!find_best_)\n      {\n        status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;\n        return false;\n      }", M),
 ('mp-preserved', 'bug', F, "    path.poses = start_pose_predictor_.getPreservedPath().poses;\n", "    if (hyst)\n      path.poses = start_pose_predictor_.getPreservedPath().poses;\n", M),
 ('mp-hyst-svc', 'bug', F, "model_->enableHysteresis(hyst && has_hysteresis_map_);", "model_->enableHysteresis(has_hysteresis_map_);", M),
 ('mp-progress', 'bug', F, "      publishEmptyPath();\n      if (tdiff > search_timeout_abort_)", "      if (tdiff < search_timeout_abort_)\n        publishEmptyPath();\n      if (tdiff > search_timeout_abort_)", M),
 ('mp-same-first', 'bug', F, "    for (const auto s : starts)\n    {\n      if (s.v_ == end_grid)", "    for (const auto s : starts)\n    {\n      if (starts.front().v_ == end_grid)", M),
 ('mp-fin-ang', 'bug', F, "std::abs(remain[2]) <= g_tolerance_ang", "remain[2] <= g_tolerance_ang", M),
 ('mp-fin-cyc', 'bug', F, "    remain.cycle(map_info_.angle);\n    return (remain.sqlen()", "    return (remain.sqlen()", M),
 ('mp-fin-order', 'bug', F, ["    if (isEscaping(escape_status_))\n    {\n      g_tolerance_lin = temporary_escape_tolerance_lin_;", "    else if (act_tolerant_->isActive())\n    {\n      g_tolerance_lin = std::lround"], ["    if (isEscaping(escape_status_) && !act_tolerant_->isActive())\n    {\n      g_tolerance_lin = temporary_escape_tolerance_lin_;", "    else if (act_tolerant_->isActive())\n    {\n      g_tolerance_lin = std::lround"], M),
 ('mp-fin-res', 'bug', F, "std::lround(goal_tolerant_->goal_tolerance_ang / map_info_.angular_resolution)", "std::lround(goal_tolerant_->goal_tolerance_ang / map_info_.linear_resolution)", M),
 ('mp-st-half', 'bug', F, "((sf[1] - start_grid[1]) < 0.5 ? -1 : 1)", "((sf[1] - start_grid[1]) < 0.5 ? 1 : -1)", M),
 ('mp-st-val', 'bug', F, "          const Astar::Vec p = start_grid + Astar::Vec(x, y, 0);\n          if (!cm_.validate(p, range_))\n            continue;\n", "          const Astar::Vec p = start_grid + Astar::Vec(x, y, 0);\n", M),
 ('mp-st-occ', 'bug', F, "          if (cm_[p] > 99)\n            continue;\n\n          const Astar::Vecf diff", "          if (cm_[p] > 100)\n            continue;\n\n          const Astar::Vecf diff", M),
 ('mp-st-cost', 'bug', F, "std::hypot(diff[0] * ec_[0], diff[1] * ec_[0])", "std::hypot(diff[0] * ec_[0], diff[1] * ec_[1])", M),
 ('mp-st-plain', 'bug', F, "    else if (cm_[start_grid] < 100)\n", "    else if (cm_[start_grid] <= 100)\n", M),
 ('mp-st-floor', 'bug', F, "static_cast<int>(std::floor(sf[1])), std::lround(sf[2]));\n    start_grid.cycleUnsigned", "static_cast<int>(std::floor(sf[1])), std::floor(sf[2]));\n    start_grid.cycleUnsigned", M),
 ('mp-st-tol', 'bug', F, "searchAvailablePos(cm_, start_grid, tolerance_range_, tolerance_angle_)", "searchAvailablePos(cm_, start_grid, tolerance_range_, tolerance_range_)", M),
 ('mp-st-near', 'bug', F, "    for (const Astar::VecWithCost& s : result_start_poses)\n    {\n      if (isPathFinishing(s.v_, end_grid))", "    for (const Astar::VecWithCost& s : result_start_poses)\n    {\n      if (isPathFinishing(start_grid, end_grid))", M),
 ('mp-st-pred', 'bug', F, "    result_start_poses.clear();\n    start_pose_predictor_.clear();\n", "    result_start_poses.clear();\n", M),
 ('mp-st-predfin', 'bug', F, "return isPathFinishing(start_grid, end_grid) ? StartPoseStatus::FINISHING : StartPoseStatus::NORMAL;", "return isPathFinishing(expected_start_grid, end_grid) ? StartPoseStatus::FINISHING : StartPoseStatus::NORMAL;", M),
 ('mp-sa-range', 'bug', F, "          if (d.sqlen() > xy_range * xy_range)\n            continue;", "          if (d.sqlen() >= xy_range * xy_range)\n            continue;", M),
 ('mp-sa-valid', 'bug', F, "          s2.cycleUnsigned(map_info_.angle);\n          if (!cm_.validate(s2, range_))\n            continue;\n\n          if (cm_[s2] >= cost_acceptable)", "          s2.cycleUnsigned(map_info_.angle);\n\n          if (cm_[s2] >= cost_acceptable)", M),
 ('mp-sa-accept', 'bug', F, "          if (cm_[s2] >= cost_acceptable)", "          if (cm_[s2] > cost_acceptable)", M),
 ('mp-sa-min', 'bug', F, "          if (cost < range_min)\n          {\n            range_min = cost;\n            s_out = s2;\n          }\n        }\n      }\n    }\n\n    if (range_min == std::numeric_limits<float>::max())\n    {\n      if (cost_acceptable != 100)", "          if (cost < range_min)\n          {\n            s_out = s2;\n          }\n          range_min = cost;\n        }\n      }\n    }\n\n    if (range_min == std::numeric_limits<float>::max())\n    {\n      if (cost_acceptable != 100)", M),
 ('mp-sa-ang', 'bug', F, "for (d[2] = -angle_range; d[2] <= angle_range; d[2]++)", "for (d[2] = -angle_range; d[2] < angle_range; d[2]++)", M),
 ('mp-sa-retry', 'bug', F, "      if (cost_acceptable != 100)\n      {\n        return searchAvailablePos(cm, s, xy_range, angle_range, 100);", "      if (cost_acceptable != 100)\n      {\n        return searchAvailablePos(cm, s, xy_range, 0, 100);", M),
 ('mp-sa-def', 'bug', F, "    if (cost_acceptable == -1)\n    {\n      cost_acceptable = relocation_acceptable_cost_;", "    if (cost_acceptable < 100)\n    {\n      cost_acceptable = relocation_acceptable_cost_;", M),
 ('mp-re-full', 'bug', F, "    if (cm[pose_discrete] == 100)\n    {\n      if (searchAvailablePos(cm, pose", "    if (cm_[pose_discrete] == 100)\n    {\n      if (searchAvailablePos(cm, pose", M),
 ('mp-re-swap', 'bug', F, "        return DiscretePoseStatus::RELOCATED;\n      else\n        return DiscretePoseStatus::IN_ROCK;", "        return DiscretePoseStatus::OK;\n      else\n        return DiscretePoseStatus::IN_ROCK;", M),
 ('mp-re-rough', 'bug', F, "      pose_discrete[2] = 0;\n      return relocate", "      return relocate", M),
 ('ok-mp-fin', 'ok', F, "    return (remain.sqlen() <= g_tolerance_lin * g_tolerance_lin && std::abs(remain[2]) <= g_tolerance_ang);", "    if (remain[0] * remain[0] + remain[1] * remain[1] > g_tolerance_lin * g_tolerance_lin)\n      return false;\n    return -g_tolerance_ang <= remain[2] && remain[2] <= g_tolerance_ang;", M),
 ('ok-mp-sa', 'ok', F, "          if (d[0] == 0 && d[1] == 0 && d[2] == 0)\n            continue;\n          if (d.sqlen() > xy_range * xy_range)\n            continue;\n          if (d.sqlen() < min_xy_range * min_xy_range)\n            continue;\n", "          const int sqlen = d[0] * d[0] + d[1] * d[1];\n          if (sqlen > xy_range * xy_range || sqlen < min_xy_range * min_xy_range)\n            continue;\n          if (d[2] == 0 && d[1] == 0 && d[0] == 0)\n            continue;\n", M),
 ('ok-mp-sa-order', 'ok', F, "    for (d[2] = -angle_range; d[2] <= angle_range; d[2]++)\n    {\n      for (d[0] = -xy_range; d[0] <= xy_range; d[0]++)\n      {\n        for (d[1] = -xy_range; d[1] <= xy_range; d[1]++)\n        {\n          if (d[0] == 0", "    for (int da = -angle_range; da <= angle_range; da++)\n    {\n      for (int dx = -xy_range; dx <= xy_range; dx++)\n      {\n        for (int dy = -xy_range; dy <= xy_range; dy++)\n        {\n          const Astar::Vec d(dx, dy, da);\n          if (d[0] == 0", M),
 ('ok-mp-sa-occ', 'ok', F, "          if (cm_[s2] >= cost_acceptable)\n            continue;\n          const auto cost = model_->euclidCost(d);\n          if (cost < range_min)\n          {", "          const bool is_free = cm_[s2] < cost_acceptable;\n          const auto cost = model_->euclidCost(d);\n          if (is_free && cost < range_min)\n          {", M),
 ('ok-mp-same', 'ok', F, "    for (const auto s : starts)\n    {\n      if (s.v_ == end_grid)\n      {\n        ROS_DEBUG(\"The start grid is the same as the end grid. Path planning skipped.\");\n        path_grid.push_back(end_grid);\n        is_goal_same_as_start = true;\n        break;\n      }\n    }", "    for (size_t i = 0; i < starts.size() && !is_goal_same_as_start; ++i)\n      is_goal_same_as_start = starts[i].v_ == end_grid;\n    if (is_goal_same_as_start)\n      path_grid.push_back(end_grid);", M),
 ('ok-mp-case', 'ok', F, "    switch (buildStartPoses(start_metric, end_metric, starts))\n    {\n      case StartPoseStatus::START_OCCUPIED:\n        status_.error = planner_cspace_msgs::PlannerStatus::IN_ROCK;\n        return false;", "    const auto start_pose_status = buildStartPoses(start_metric, end_metric, starts);\n    if (start_pose_status == StartPoseStatus::START_OCCUPIED)\n    {\n      status_.error = planner_cspace_msgs::PlannerStatus::IN_ROCK;\n      return false;\n    }\n    switch (start_pose_status)\n    {", M),
 ('ok-mp-st', 'ok', F, "          const Astar::Vecf subpx = sf - Astar::Vecf(p[0] + 0.5f, p[1] + 0.5f, 0.0f);\n          if (subpx.sqlen() > 1.0)\n            continue;\n          if (cm_[p] > 99)\n            continue;\n\n          const Astar::Vecf diff = Astar::Vecf(p[0] + 0.5f, p[1] + 0.5f, 0.0f) - sf;\n          const double cost = std::hypot(diff[0] * ec_[0], diff[1] * ec_[0]) +", "          const Astar::Vecf subpx = sf - Astar::Vecf(p[0] + 0.5f, p[1] + 0.5f, 0.0f);\n          if (cm_[p] >= 100 || subpx.sqlen() > 1.0)\n            continue;\n\n          const double cost = std::hypot(subpx[0] * ec_[0], subpx[1] * ec_[0]) +", M),
 ('ok-mp-re', 'ok', F, "    if (cm[pose_discrete] == 100)\n    {\n      if (searchAvailablePos(cm, pose_discrete, tolerance_range, tolerance_angle))\n        return DiscretePoseStatus::RELOCATED;\n      else\n        return DiscretePoseStatus::IN_ROCK;\n    }\n    return DiscretePoseStatus::OK;", "    if (cm[pose_discrete] != 100)\n      return DiscretePoseStatus::OK;\n    const bool found = searchAvailablePos(cm, pose_discrete, tolerance_range, tolerance_angle);\n    return found ? DiscretePoseStatus::RELOCATED : DiscretePoseStatus::IN_ROCK;", M),
 ('mi-no-stop', 'bug', F, "    // Stop robot motion until next planning step\n    publishEmptyPath();\n", "", I),
 ('mi-ec-late', 'bug', F, "    ec_ = Astar::Vecf(\n        1.0f / cc_.max_vel_,\n        1.0f / cc_.max_vel_,\n        1.0f * cc_.weight_ang_vel_ / cc_.max_ang_vel_);\n\n    if (map_info_.linear_resolution != msg->info.linear_resolution ||\n        map_info_.angular_resolution != msg->info.angular_resolution)\n    {\n      map_info_ = msg->info;\n", "    ec_ = Astar::Vecf(\n        1.0f / cc_.max_vel_,\n        1.0f / cc_.max_vel_,\n        1.0f / cc_.max_ang_vel_);\n\n    if (map_info_.linear_resolution != msg->info.linear_resolution ||\n        map_info_.angular_resolution != msg->info.angular_resolution)\n    {\n      map_info_ = msg->info;\n", I),
 ('mi-res-ang', 'bug', F, "    if (map_info_.linear_resolution != msg->info.linear_resolution ||\n        map_info_.angular_resolution != msg->info.angular_resolution)", "    if (map_info_.linear_resolution != msg->info.linear_resolution)", I),
 ('mi-unknown', 'bug', F, "          if (c < 0)\n            c = unknown_cost_;\n          cm_[p] = c;\n          if (c < cost_min)\n            cost_min = c;", "          if (c < cost_min)\n            cost_min = c;\n          if (c < 0)\n            c = unknown_cost_;\n          cm_[p] = c;", I),
 ('mi-addr', 'bug', F, "          const size_t addr = ((p[2] * size[1]) + p[1]) * size[0] + p[0];\n          char c", "          const size_t addr = ((p[2] * size[0]) + p[1]) * size[0] + p[0];\n          char c", I),
 ('mi-base-early', 'bug', F, ["    bbf_costmap_->reset(size2d);\n", "    cm_rough_base_ = cm_rough_;\n    cm_base_ = cm_;\n"], ["    bbf_costmap_->reset(size2d);\n    cm_base_ = cm_;\n", "    cm_rough_base_ = cm_rough_;\n"], I),
 ('mi-hyst-val', 'bug', F, "    cm_hyst_.clear(100);\n    hyst_updated_cells_.clear();\n    has_hysteresis_map_ = false;\n", "    cm_hyst_.clear(0);\n    hyst_updated_cells_.clear();\n    has_hysteresis_map_ = false;\n", I),
 ('mi-hyst-cells', 'bug', F, "    cm_hyst_.clear(100);\n    hyst_updated_cells_.clear();\n    has_hysteresis_map_ = false;\n", "    cm_hyst_.clear(100);\n    has_hysteresis_map_ = false;\n", I),
 ('mi-bbf-kept', 'bug', F, "    cm_base_ = cm_;\n    bbf_costmap_->clear();\n", "    cm_base_ = cm_;\n", I),
 ('mi-prev-kept', 'bug', F, "    prev_map_update_x_max_ = 0;\n    prev_map_update_y_min_ = map_info_.height;", "    prev_map_update_y_min_ = map_info_.height;", I),
 ('mi-prev-swap', 'bug', F, "    prev_map_update_y_min_ = map_info_.height;", "    prev_map_update_y_min_ = map_info_.width;", I),
 ('mi-retain-old', 'bug', F, "    if (map_update_retained_ && map_update_retained_->header.stamp >= msg->header.stamp)", "    if (map_update_retained_)", I),
 ('mi-retain-strict', 'bug', F, "map_update_retained_->header.stamp >= msg->header.stamp", "map_update_retained_->header.stamp > msg->header.stamp", I),
 ('mi-retain-keep', 'bug', F, "      cbMapUpdate(map_update_retained_);\n    }\n    map_update_retained_ = nullptr;", "      cbMapUpdate(map_update_retained_);\n    }", I),
 ('mi-cache-first', 'bug', F, ["    has_map_ = true;\n\n", "    createCostEstimCache();\n\n    if (map_update_retained_"], ["    has_map_ = true;\n    createCostEstimCache();\n\n", "    if (map_update_retained_"], I),
 ('mi-static', 'bug', F, "    createCostEstimCache();\n\n    if (map_update_retained_", "    createCostEstimCache(enable_crowd_mode_ && has_start_);\n\n    if (map_update_retained_", I),
 ('mi-size3', 'bug', F, "    cm_updates_.reset(size2d);", "    cm_updates_.reset(Astar::Vec(size[1], size[0], 1));", I),
 ('mi-rough-unk', 'bug', F, "          int cost_min = 100;\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)", "          int cost_min = 100;\n          for (p[2] = 1; p[2] < static_cast<int>(msg->angle); p[2]++)", I),
 ('mu-range', 'bug', F, "    const int map_update_x_max = std::max(static_cast<int>(msg->x + msg->width) - 1, 0);", "    const int map_update_x_max = std::max(static_cast<int>(msg->x + msg->width), 1) - 1 + (msg->width ? 0 : 1);", I),
 ('mu-fit', 'bug', F, "        msg->angle > map_info_.angle)\n", "        msg->angle != map_info_.angle)\n", I),
 ('mu-fit-h', 'bug', F, "static_cast<size_t>(map_update_y_max) >= map_info_.height", "static_cast<size_t>(map_update_y_max) >= map_info_.width", I),
 ('mu-stamp', 'bug', F, "    last_costmap_ = now;\n", "    last_costmap_ = msg->header.stamp;\n", I),
 ('mu-stamp-early', 'bug', F, ["    last_costmap_ = now;\n\n", "    const int map_update_x_min = static_cast<int>(msg->x);\n"], ["", "    last_costmap_ = now;\n    const int map_update_x_min = static_cast<int>(msg->x);\n"], I),
 ('mu-undo-new', 'bug', F, "        cm_rough_base_,\n        Astar::Vec(prev_map_update_x_min_, prev_map_update_y_min_, 0),\n        Astar::Vec(prev_map_update_x_max_, prev_map_update_y_max_, 0));", "        cm_rough_base_,\n        Astar::Vec(map_update_x_min, map_update_y_min, 0),\n        Astar::Vec(map_update_x_max, map_update_y_max, 0));", I),
 ('mu-undo-angle', 'bug', F, "static_cast<int>(map_info_.angle) - 1));\n    cm_rough_", "static_cast<int>(msg->angle) - 1));\n    cm_rough_", I),
 ('mu-undo-val', 'bug', F, "    cm_updates_.clear_partially(\n        -1,", "    cm_updates_.clear_partially(\n        0,", I),
 ('mu-search', 'bug', F, "        std::min(prev_map_update_x_min_, map_update_x_min) - 1);", "        std::min(prev_map_update_x_min_, map_update_x_min));", I),
 ('mu-search-new', 'bug', F, "        std::max(prev_map_update_y_max_, map_update_y_max) + 1);", "        map_update_y_max + 1);", I),
 ('mu-search-order', 'bug', F, ["    prev_map_update_x_min_ = map_update_x_min;\n", "    // Should search 1px"], ["", "    prev_map_update_x_min_ = map_update_x_min;\n    // Should search 1px"], I),
 ('mu-static', 'bug', F, "std::max(cost_estim_cache_static_update_.max[1], map_update_y_max)", "std::max(cost_estim_cache_static_update_.max[1], map_update_x_max)", I),
 ('mu-min-neg', 'bug', F, "            const char c = msg->data[addr];\n            if (c < cost_min)\n              cost_min = c;\n            if (c == 100", "            const char c = msg->data[addr];\n            if (c >= 0 && c < cost_min)\n              cost_min = c;\n            if (c == 100", I),
 ('mu-hyst-lt', 'bug', F, "cm_hyst_[gp + p] == 0)", "cm_hyst_[gp + p] < 100)", I),
 ('mu-hyst-cell', 'bug', F, "cm_hyst_[gp + p] == 0)", "cm_hyst_[gp_rough + p] == 0)", I),
 ('mu-hyst-reset', 'bug', F, ["          int cost_min = 100;\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)\n          {\n            const size_t addr = ((p[2] * msg->height) + p[1]) * msg->width + p[0];\n            const char c = msg->data[addr];\n            if (c < cost_min)\n              cost_min = c;\n            if (c == 100 && "], ["          int cost_min = 100;\n          if (cm_updates_[gp_rough + p] > 50) clear_hysteresis = false;\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)\n          {\n            const size_t addr = ((p[2] * msg->height) + p[1]) * msg->width + p[0];\n            const char c = msg->data[addr];\n            if (c < cost_min)\n              cost_min = c;\n            if (c == 100 && "], I),
 ('mu-rough-set', 'bug', F, "          if (cost_min > cm_rough_[gp_rough + p])\n            cm_rough_[gp_rough + p] = cost_min;", "          cm_rough_[gp_rough + p] = cost_min;", I),
 ('mu-ow', 'bug', F, "              if (c >= 0)\n                cm_[gp + p] = c;", "              if (c > 0)\n                cm_[gp + p] = c;", I),
 ('mu-ow-flip', 'bug', F, "              if (cm_[gp + p] < c)\n                cm_[gp + p] = c;", "              if (cm_base_[gp + p] < c)\n                cm_[gp + p] = c;", I),
 ('mu-break', 'bug', F, "            if (overwrite_cost_)\n            {\n              if (c >= 0)", "            if (c < 0 && p[2] > 0)\n              break;\n            if (overwrite_cost_)\n            {\n              if (c >= 0)", I),
 ('mu-hyst-flag', 'bug', F, "      clearHysteresis();\n      has_hysteresis_map_ = false;\n    }\n\n    if (!has_start_)", "      clearHysteresis();\n    }\n\n    if (!has_start_)", I),
 ('mu-retained', 'bug', F, "    map_update_retained_ = nullptr;\n    const auto ts_cm_init_end", "    const auto ts_cm_init_end", I),
 ('mu-rem-map', 'bug', F, "      bbf_costmap_->remember(\n          &cm_updates_, s,", "      bbf_costmap_->remember(\n          &cm_rough_, s,", I),
 ('mu-rem-order', 'bug', F, ["      publishRememberedMap();\n      bbf_costmap_->updateCostmap();", "    const Astar::Vec s = metric2Grid(start_.pose);\n\n    if (remember_updates_)\n    {\n      const auto ts = boost::chrono::high_resolution_clock::now();\n"], ["      publishRememberedMap();", "    const Astar::Vec s = metric2Grid(start_.pose);\n\n    if (remember_updates_)\n    {\n      const auto ts = boost::chrono::high_resolution_clock::now();\n      bbf_costmap_->updateCostmap();\n"], I),
 ('mu-fast-goal', 'bug', F, "    if (!cost_estim_cache_created_ || cm_[e] == 100)", "    if (!cost_estim_cache_created_ || cm_base_[e] == 100)", I),
 ('mu-fast-created', 'bug', F, "    if (!cost_estim_cache_created_ || cm_[e] == 100)", "    if (cm_[e] == 100)", I),
 ('mu-dm-static', 'bug', F, "    if (!fast_map_update_)\n    {\n      createCostEstimCache(false);", "    if (!fast_map_update_)\n    {\n      createCostEstimCache();", I),
 ('mu-dm-goal', 'bug', F, "    const Astar::Vec e = metric2Grid(goal_.pose);\n\n    if (!cost_estim_cache_created_", "    const Astar::Vec e = metric2Grid(goal_raw_.pose);\n\n    if (!cost_estim_cache_created_", I),
 ('ok-mi-order', 'ok', F, "    cm_hyst_.clear(100);\n    hyst_updated_cells_.clear();\n    has_hysteresis_map_ = false;\n\n    cm_updates_.clear(0);\n", "    hyst_updated_cells_.clear();\n    has_hysteresis_map_ = false;\n    cm_updates_.clear(0);\n    cm_hyst_.clear(100);\n", I),
 ('ok-mi-fill', 'ok', F, "          if (c < 0)\n            c = unknown_cost_;\n          cm_[p] = c;\n          if (c < cost_min)\n            cost_min = c;", "          c = c < 0 ? unknown_cost_ : c;\n          cm_[p] = c;\n          cost_min = std::min<int>(cost_min, c);", I),
 ('ok-mi-info', 'ok', F, "    if (map_info_.linear_resolution != msg->info.linear_resolution ||\n        map_info_.angular_resolution != msg->info.angular_resolution)\n    {\n      map_info_ = msg->info;\n", "    const bool changed = map_info_.linear_resolution != msg->info.linear_resolution ||\n        map_info_.angular_resolution != msg->info.angular_resolution;\n    if (changed)\n    {\n      map_info_ = msg->info;\n", I),
 ('ok-mu-max', 'ok', F, "          if (cost_min > cm_rough_[gp_rough + p])\n            cm_rough_[gp_rough + p] = cost_min;", "          cm_rough_[gp_rough + p] = std::max<int>(cm_rough_[gp_rough + p], cost_min);", I),
 ('ok-mu-cell', 'ok', F, "            if (overwrite_cost_)\n            {\n              if (c >= 0)\n                cm_[gp + p] = c;\n            }\n            else\n            {\n              if (cm_[gp + p] < c)\n                cm_[gp + p] = c;\n            }", "            char& cell = cm_[gp + p];\n            if (overwrite_cost_ ? c >= 0 : cell < c)\n              cell = c;", I),
 ('ok-mu-flag', 'ok', F, "            if (c == 100 && !clear_hysteresis && cm_hyst_[gp + p] == 0)\n              clear_hysteresis = true;", "            clear_hysteresis = clear_hysteresis || (c == 100 && cm_hyst_[gp + p] == 0);", I),
 ('ok-mu-fast', 'ok', F, "    if (!fast_map_update_)\n    {\n      createCostEstimCache(false);\n      return;\n    }\n\n    const Astar::Vec e = metric2Grid(goal_.pose);\n\n    if (!cost_estim_cache_created_ || cm_[e] == 100)", "    const Astar::Vec e = metric2Grid(goal_.pose);\n\n    if (!fast_map_update_ || !cost_estim_cache_created_ || cm_[e] == 100)", I),
 ('ok-mu-onepass', 'ok', F, ["          p[2] = 0;\n          cm_updates_[gp_rough + p] = cost_min;\n          if (cost_min > cm_rough_[gp_rough + p])\n            cm_rough_[gp_rough + p] = cost_min;\n\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)\n          {\n            const size_t addr = ((p[2] * msg->height) + p[1]) * msg->width + p[0];\n            const char c = msg->data[addr];\n            if (overwrite_cost_)\n            {\n              if (c >= 0)\n                cm_[gp + p] = c;\n            }\n            else\n            {\n              if (cm_[gp + p] < c)\n                cm_[gp + p] = c;\n            }\n          }\n", "              clear_hysteresis = true;\n          }\n"], ["          p[2] = 0;\n          cm_updates_[gp_rough + p] = cost_min;\n          if (cost_min > cm_rough_[gp_rough + p])\n            cm_rough_[gp_rough + p] = cost_min;\n", "              clear_hysteresis = true;\n            if (overwrite_cost_)\n            {\n              if (c >= 0)\n                cm_[gp + p] = c;\n            }\n            else\n            {\n              if (cm_[gp + p] < c)\n                cm_[gp + p] = c;\n            }\n          }\n"], I),
 ('ok-mu-rows', 'ok', F, "      for (Astar::Vec p(0, 0, 0); p[0] < static_cast<int>(msg->width); p[0]++)\n      {\n        for (p[1] = 0; p[1] < static_cast<int>(msg->height); p[1]++)\n        {\n          int cost_min = 100;\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)", "      Astar::Vec p(0, 0, 0);\n      for (p[1] = 0; p[1] < static_cast<int>(msg->height); p[1]++)\n      {\n        for (p[0] = 0; p[0] < static_cast<int>(msg->width); p[0]++)\n        {\n          int cost_min = 100;\n          for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)", I),
]
E = ['P16']
def b(n, o, w):
    CASES.append((n, 'bug', F, o, w, E))
def k(n, o, w):
    CASES.append((n, 'ok', F, o, w, E))
b('te-origin', 'Astar::Vec te(start_grid);\n      if (!searchAvailablePos', 'Astar::Vec te;\n      if (!searchAvailablePos')
b('te-gate', 'if (!has_map_ || !has_goal_ || !has_start_)\n    {\n      if (log_on', 'if (!has_map_ || !has_start_)\n    {\n      if (log_on')
b('te-switch', '    if (is_path_switchback_)\n    {\n      ROS_INFO("Skipping', '    if (is_path_switchback_ && enable_crowd_mode_)\n    {\n      ROS_INFO("Skipping')
b('te-min', 'esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_)', 'esc_range_, esc_angle_, relocation_acceptable_cost_)')
b('te-rawonly', '      goal_raw_.pose = grid2MetricPose(te);\n      goal_ = goal_raw_;', '      goal_.pose = grid2MetricPose(te);')
b('te-order', '      goal_raw_.pose = grid2MetricPose(te);\n      goal_ = goal_raw_;\n', '      createCostEstimCache();\n      goal_raw_.pose = grid2MetricPose(te);\n      goal_ = goal_raw_;\n      return;\n')
b('te-fin', '      if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING)\n      {\n        ROS_INFO("Planner was finishing but temporary escape is triggered. Clearing finishing state.");\n        status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n      }\n\n      createCostEstimCache();\n      return;', '      createCostEstimCache();\n      return;')
b('te-edge', 'if (!cm_.validate(s, esc_range_))', 'if (!cm_.validate(s, esc_range_min_))')
b('te-edge2', 'if (!cm_.validate(s, esc_range_))', 'if (!cm_.validate(start_grid))')
b('te-gorig', 'const Astar::Vec g_orig = metric2Grid(goal_original_.pose);', 'const Astar::Vec g_orig = metric2Grid(goal_.pose);')
b('te-reg', '          cost_estim_cache_static_update_.max[0] = 0;\n', '')
b('te-reg2', 'DistanceMap::Rect(Astar::Vec(1, 1, 0), Astar::Vec(0, 0, 0)));', 'cost_estim_cache_static_update_);')
b('te-regh', '          cost_estim_cache_static_update_.min[1] = map_info_.height;\n          cost_estim_cache_static_update_.max[1] = 0;', '          cost_estim_cache_static_update_.min[1] = map_info_.width;\n          cost_estim_cache_static_update_.max[1] = 0;')
b('te-local', 'const Astar::Vec local_size(local_width + 1, local_width + 1, 1);', 'const Astar::Vec local_size(local_width, local_width, 1);')
b('te-center', 'arrivable_map_.create(local_center, local_center);', 'arrivable_map_.create(local_center, g_orig - local_origin);')
b('te-copy', 'Astar::Vec(0, 0, 0), cm_rough_, local_origin, local_origin + local_range);', 'Astar::Vec(0, 0, 0), cm_, local_origin, local_origin + local_range);')
b('te-copy2', '      cm_local_esc_.copy_partially(\n          Astar::Vec(0, 0, 0), cm_rough_, local_origin, local_origin + local_range);\n      arrivable_map_.create(local_center, local_center);', '      arrivable_map_.create(local_center, local_center);\n      cm_local_esc_.copy_partially(\n          Astar::Vec(0, 0, 0), cm_rough_, local_origin, local_origin + local_range);')
b('te-range', 'for (Astar::Vec d(0, -esc_range_, 0); d[1] <= esc_range_; d[1]++)', 'for (Astar::Vec d(0, -esc_range_, 0); d[1] < esc_range_; d[1]++)')
b('te-circle', 'if (sqlen > esc_range_sq)', 'if (sqlen >= esc_range_sq)')
b('te-mapw', '(unsigned int)te[1] >= (unsigned int)map_info_.height)\n          {\n            continue;\n          }\n          if (!cm_rough_.validate(te, range_))', '(unsigned int)te[1] >= (unsigned int)map_info_.width)\n          {\n            continue;\n          }\n          if (!cm_rough_.validate(te, range_))')
b('te-valid', 'if (!cm_rough_.validate(te, range_))\n          {\n            continue;\n          }\n\n          // Check arr', 'if (!cm_rough_.validate(te))\n          {\n            continue;\n          }\n\n          // Check arr')
b('te-arr', 'arrivable_map_[te - local_origin] == std::numeric_limits<float>::max()', 'arrivable_map_[d + local_center] == 0')
b('te-backocc', 'te[1] == g_orig[1] && cm_[g_orig] < 100)', 'te[1] == g_orig[1])')
b('te-back1', 'if (te[0] == g_orig[0] && te[1] == g_orig[1] && cm', 'if (te[0] == g_orig[0] && te[0] == g_orig[1] && cm')
b('te-backstate', '            escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n            createCostEstimCache();\n            return;', '            createCostEstimCache();\n            return;')
b('te-backraw', '            goal_ = goal_raw_ = goal_original_;\n            escape_status_', '            goal_ = goal_original_;\n            escape_status_')
b('te-backcont', '            createCostEstimCache();\n            return;\n          }\n\n          if ((d[0]', '            createCostEstimCache();\n            continue;\n          }\n\n          if ((d[0]')
b('te-backmin', 'if (sqlen > esc_range_sq)', 'if (sqlen > esc_range_sq || sqlen < esc_range_min_sq)')
b('te-self', 'if ((d[0] == 0 && d[1] == 0) || sqlen < esc_range_min_sq)', 'if (sqlen < esc_range_min_sq)')
b('te-minsq', 'sqlen < esc_range_min_sq)', 'sqlen < esc_range_min_)')
b('te-rough', 'if (cm_rough_[te] >= relocation_acceptable_cost_)', 'if (cm_rough_[te] > relocation_acceptable_cost_)')
b('te-rough2', 'if (cm_rough_[te] >= relocation_acceptable_cost_)', 'if (cm_rough_[te] >= 100)')
b('te-cost', 'const auto cost = cost_estim_cache_static_[te];', 'const auto cost = cost_estim_cache_[te];')
b('te-skip', '          if (cost >= cost_min)\n          {\n            continue;\n          }', '          if (cost >= cost_min && cost_min < 0)\n          {\n            continue;\n          }\n          cost_min = std::min<float>(cost_min, cost);')
b('te-gradinf', 'if (cost2 == std::numeric_limits<float>::max())', 'if (cost2 == 0)')
b('te-gradsign', 'grad[1] += -cost_diff * d[1];', 'grad[1] += cost_diff * d[1];')
b('te-gradswap', 'grad[1] += -cost_diff * d[1];', 'grad[1] += -cost_diff * d[0];')
b('te-flat', 'if (grad[0] == 0 && grad[1] == 0)', 'if (grad[0] == 0 || grad[1] == 0)')
b('te-yaw', 'std::atan2(grad[1], grad[0])', 'std::atan2(grad[0], grad[1])')
b('te-yawcell', 'static_cast<int>(yaw / map_info_.angular_resolution);\n\n          te.cycle', 'static_cast<int>(yaw * map_info_.angular_resolution);\n\n          te.cycle')
b('te-nocycle', '          te.cycleUnsigned(map_info_.angle);\n          if (cm_[te] >= relocation', '          if (cm_[te] >= relocation')
b('te-occ', '          te.cycleUnsigned(map_info_.angle);\n          if (cm_[te] >= relocation_acceptable_cost_)\n          {\n            continue;\n          }\n', '          te.cycleUnsigned(map_info_.angle);\n')
b('te-keep', '            cost_min = cost;\n            te_out = te;', '            te_out = te;\n            cost_min = 0;')
b('te-first', '            cost_min = cost;\n            te_out = te;', '            if (cost_min == std::numeric_limits<float>::max()) te_out = te;\n            cost_min = cost;')
b('te-none', '      if (cost_min == std::numeric_limits<float>::max())\n      {\n        ROS_WARN("No valid temporary escape goal");\n        return;\n      }\n', '')
b('te-improve', 'cost_min < cost_estim_cache_static_[s] ?', 'cost_min <= cost_estim_cache_static_[s] ?')
b('te-improve2', 'cost_min < cost_estim_cache_static_[s] ?', 'cost_min < cost_estim_cache_[s] ?')
b('te-near', 'if (isPathFinishing(start_grid, te_out))', 'if (isPathFinishing(s, te_out))')
b('te-near2', '        // This temporary goal is too close and it will be immediately goes escaped state\n        escape_status_ = TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;', '        escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;')
b('te-nearb', '      escape_status_ =\n          cost_min < cost_estim_cache_static_[s] ?\n              TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT :\n              TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;\n      if (isPathFinishing(start_grid, te_out))\n', '      const bool near = isPathFinishing(start_grid, te_out);\n      escape_status_ =\n          cost_min < cost_estim_cache_static_[s] ?\n              TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT :\n              TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;\n      if (near)\n')
b('te-out', 'goal_raw_.pose = grid2MetricPose(te_out);', 'goal_raw_.pose = grid2MetricPose(Astar::Vec(te_out[0], te_out[1], start_grid[2]));')
b('te-orig', '      goal_raw_.pose = grid2MetricPose(te_out);\n      goal_ = goal_raw_;', '      goal_raw_.pose = grid2MetricPose(te_out);\n      goal_ = goal_original_ = goal_raw_;')
b('te-cache', '        status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n      }\n\n      createCostEstimCache();\n    }', '        status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n        createCostEstimCache();\n      }\n    }')
b('te-trig', '    if (!has_map_)\n    {\n      // metric2Grid requires map_info_\n      return;\n    }\n', '')
b('te-trig2', 'updateTemporaryEscapeGoal(metric2Grid(start_.pose), false);', 'updateTemporaryEscapeGoal(metric2Grid(goal_.pose), false);')
b('te-warn', '    if (!enable_crowd_mode_)\n    {\n      // Just', '    if (!enable_crowd_mode_ || !log_on_unready)\n    {\n      // Just')
H = A + 'planner_3d/temporary_escape.h' if 'A' in dir() else 'planner_cspace/include/planner_cspace/planner_3d/temporary_escape.h'
CASES += [
 ('te-err', 'bug', H, '    case TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT:\n      return planner_cspace_msgs::PlannerStatus::GOING_WELL;\n    case', '      return planner_cspace_msgs::PlannerStatus::GOING_WELL;\n    case TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT:\n    case', E),
 ('te-is', 'bug', H, 'return r != TemporaryEscapeStatus::NOT_ESCAPING;', 'return r == TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT;', E),
 ('ok-te-is', 'ok', H, 'return r != TemporaryEscapeStatus::NOT_ESCAPING;', 'return r == TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT || r == TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;', E),
]
k('ok-te-d', 'Astar::Vec te(start_grid[0] + d[0], start_grid[1] + d[1], 0);', 'Astar::Vec te = s + d;')
k('ok-te-arr', 'arrivable_map_[te - local_origin] ==', 'arrivable_map_[d + local_center] ==')
k('ok-te-map', 'if ((unsigned int)te[0] >= (unsigned int)map_info_.width ||\n              (unsigned int)te[1] >= (unsigned int)map_info_.height)\n          {\n            continue;\n          }\n          if (!cm_rough_', 'if (te[0] < 0 || te[1] < 0 || te[0] >= static_cast<int>(map_info_.width) ||\n              te[1] >= static_cast<int>(map_info_.height))\n          {\n            continue;\n          }\n          if (!cm_rough_')
k('ok-te-grad', '              const float cost_diff = cost2 - cost;\n              grad[0] += -cost_diff * d[0];\n              grad[1] += -cost_diff * d[1];', '              grad[0] += (cost - cost2) * d[0];\n              grad[1] -= (cost2 - cost) * d[1];')
k('ok-te-less', '          if (cost < cost_min)\n          {\n            cost_min = cost;\n            te_out = te;\n          }\n        }\n      }\n      if (cost_min', '          cost_min = cost;\n          te_out = te;\n        }\n      }\n      if (cost_min')
k('ok-te-later', '          if (cost >= cost_min)\n          {\n            continue;\n          }\n\n          // Calc', '          // Calc')
k('ok-te-loops', '      for (Astar::Vec d(0, -esc_range_, 0); d[1] <= esc_range_; d[1]++)\n      {\n        for (d[0] = -esc_range_; d[0] <= esc_range_; d[0]++)\n        {\n          const int sqlen', '      for (Astar::Vec d(-esc_range_, 0, 0); d[0] <= esc_range_; d[0]++)\n      {\n        for (d[1] = -esc_range_; d[1] <= esc_range_; d[1]++)\n        {\n          const int sqlen')
k('ok-te-stat', '      escape_status_ =\n          cost_min < cost_estim_cache_static_[s] ?\n              TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT :\n              TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;\n', '      escape_status_ = TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT;\n      if (cost_estim_cache_static_[s] > cost_min)\n        escape_status_ = TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT;\n')
k('ok-te-set', ['      goal_raw_.pose = grid2MetricPose(te_out);\n      goal_ = goal_raw_;\n\n      if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING)\n      {\n        ROS_INFO("Planner was finishing but temporary escape is triggered. Clearing finishing state.");\n        status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n      }\n\n      createCostEstimCache();\n', '      goal_raw_.pose = grid2MetricPose(te);\n      goal_ = goal_raw_;\n\n      if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING)\n      {\n        ROS_INFO("Planner was finishing but temporary escape is triggered. Clearing finishing state.");\n        status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n      }\n\n      createCostEstimCache();\n', '  void updateTemporaryEscapeGoal(const'],
  ['      setTemporaryGoal(te_out);\n', '      setTemporaryGoal(te);\n', '  void setTemporaryGoal(const Astar::Vec& cell)\n  {\n    goal_raw_.pose = grid2MetricPose(cell);\n    goal_ = goal_raw_;\n    if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING)\n      status_.status = planner_cspace_msgs::PlannerStatus::DOING;\n    createCostEstimCache();\n  }\n\n  void updateTemporaryEscapeGoal(const'])
k('ok-te-yaw', '          const float yaw = std::atan2(grad[1], grad[0]);\n          te[2] = static_cast<int>(yaw / map_info_.angular_resolution);', '          const int h = std::atan2(grad[1], grad[0]) / map_info_.angular_resolution;\n          te[2] = h;')
CASES.append(('mi-regh', 'bug', F, 'cost_estim_cache_static_update_.min[1] = map_info_.height;', 'cost_estim_cache_static_update_.min[1] = map_info_.width;', I))
