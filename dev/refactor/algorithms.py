def ed(f,*prs):
    f='/tmp/al/t/'+f
    s=open(f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b,1)
    open(f,'w').write('#include <algorithm>\n#include <numeric>\n'+s)
ed('planner_cspace/src/planner_3d.cpp',
('''    for (const Astar::Vec& p : hyst_updated_cells_)
    {
      cm_hyst_[p] = 100;
    }
''','''    std::for_each(hyst_updated_cells_.begin(), hyst_updated_cells_.end(), [this](const Astar::Vec& p) { cm_hyst_[p] = 100; });
'''),
('''    for (const auto s : starts)
    {
      if (s.v_ == end_grid)
      {
        ROS_DEBUG("The start grid is the same as the end grid. Path planning skipped.");
        path_grid.push_back(end_grid);
        is_goal_same_as_start = true;
        break;
      }
    }
''','''    if (std::any_of(starts.begin(), starts.end(), [&](const Astar::VecWithCost& s) { return s.v_ == end_grid; }))
    {
      path_grid.push_back(end_grid);
      is_goal_same_as_start = true;
    }
'''),
('''    for (const Astar::VecWithCost& s : result_start_poses)
    {
      if (isPathFinishing(s.v_, end_grid))
      {
        return StartPoseStatus::FINISHING;
      }
    }
    return StartPoseStatus::NORMAL;
''','''    const bool fin = std::any_of(result_start_poses.cbegin(), result_start_poses.cend(),
                                 [this, &end_grid](const Astar::VecWithCost& s)
                                 {
                                   return isPathFinishing(s.v_, end_grid);
                                 });
    return fin ? StartPoseStatus::FINISHING : StartPoseStatus::NORMAL;
'''))
ed('trajectory_tracker/src/trajectory_tracker.cpp',('''  for (const auto& path_pose : path_)
  {
    if (std::isfinite(path_pose.velocity_) && path_pose.velocity_ < -0.0)
    {
      ROS_ERROR_THROTTLE(1.0, "path_velocity.velocity.x must be positive");
      path_.clear();
      return;
    }
  }
''','''  const auto negative = std::find_if(path_.begin(), path_.end(), [](const trajectory_tracker::Pose2D& p)
                                     { return std::isfinite(p.velocity_) && p.velocity_ < -0.0; });
  if (negative != path_.end())
  {
    path_.clear();
    return;
  }
'''))
ed('safety_limiter/src/safety_limiter.cpp',('''      for (auto& p : v)
      {
        const auto tmp = p;
        p[0] = cos_v * tmp[0] - sin_v * tmp[1] + x;
        p[1] = sin_v * tmp[0] + cos_v * tmp[1] + y;
      }
''','''      std::for_each(v.begin(), v.end(), [&](vec& p)
      {
        const auto tmp = p;
        p[0] = cos_v * tmp[0] - sin_v * tmp[1] + x;
        p[1] = sin_v * tmp[0] + cos_v * tmp[1] + y;
      });
'''),('''      bool colliding = false;
      for (auto& i : indices)
      {
        auto& p = pc->points[i];
        auto point = pcl::transformPoint(p, move);
        vec v(point.x, point.y);
        if (footprint_p.inside(v))
        {
          geometry_msgs::Point32 pos;
          pos.x = p.x;
          pos.y = p.y;
          pos.z = p.z;
          col_points.points.push_back(pos);
          colliding = true;
          break;
        }
      }
''','''      const bool colliding = std::any_of(indices.begin(), indices.end(), [&](const int i)
      {
        auto& p = pc->points[i];
        auto point = pcl::transformPoint(p, move);
        if (!footprint_p.inside(vec(point.x, point.y)))
          return false;
        geometry_msgs::Point32 pos;
        pos.x = p.x;
        pos.y = p.y;
        pos.z = p.z;
        col_points.points.push_back(pos);
        return true;
      });
'''))
ed('costmap_cspace/src/costmap_3d.cpp',('''      for (auto& map : map_buffer_)
        cbMapOverlay(map.first, map.second);
''','''      std::for_each(map_buffer_.begin(), map_buffer_.end(), [this](auto& map) { cbMapOverlay(map.first, map.second); });
'''))
ed('costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h',('''    for (auto it = points_.begin(); it != points_.end();)
    {
      if (it->stamp_ + time_to_hold_ < points.stamp_)
      {
        it = points_.erase(it);
        continue;
      }
      break;
    }
''','''    while (!points_.empty() && points_.front().stamp_ + time_to_hold_ < points.stamp_)
      points_.pop_front();
'''))
