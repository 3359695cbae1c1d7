P = 'planner_cspace/src/planner_3d.cpp'
G = 'planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h'
N = ['P18']
CASES = []


def bug(n, o, w, f=P):
    CASES.append(('ps-' + n, 'bug', f, o, w, N))


def ok(n, o, w, f=P):
    CASES.append(('ps-ok-' + n, 'ok', f, o, w, N))


FR = '''    if (req.start.header.frame_id != map_header_.frame_id ||
        req.goal.header.frame_id != map_header_.frame_id)'''
bug('nomap', '''      ROS_ERROR("make_plan service is called without map.");
      return false;''', '''      ROS_ERROR("make_plan service is called without map.");''')
bug('frame-and', FR, FR.replace('||', '&&'))
bug('frame-same', FR, FR.replace('req.goal', 'req.start'))
S = 'relocateDiscretePoseIfNeeded(s, tolerance_range, tolerance_angle_, true);'
E_ = 'relocateDiscretePoseIfNeeded(e, tolerance_range, tolerance_angle_, true);'
bug('rough-start', S, S.replace(', true', ''))
bug('tol', S, S.replace('tolerance_range,', 'tolerance_range_,'))
bug('angle', E_, E_.replace('tolerance_angle_', 'tolerance_range'))
bug('reloc-s', E_, E_.replace('(e,', '(s,'))
bug('tol-res', 'std::lround(req.tolerance / map_info_.linear_resolution)', 'std::lround(req.tolerance * map_info_.linear_resolution)')
bug('tol-floor', 'std::lround(req.tolerance / map_info_.linear_resolution)', 'static_cast<int>(req.tolerance / map_info_.linear_resolution)')
R = '''        ROS_ERROR("Given %s is %s.");
        return false;'''
for a in ('start', 'goal'):
    for b in ('not on the map', 'in Rock'):
        bug('%s-%s' % (a, b[:2]), R % (a, b), (R % (a, b)).replace('return false', 'break'))
bug('goal-status', 'switch (goal_status)', 'switch (start_status)')
bug('s-pose', 'Astar::Vec e = metric2Grid(req.goal.pose);', 'Astar::Vec e = metric2Grid(req.start.pose);')
bug('starts', '    starts.emplace_back(s);\n    if (!as_.search', '    starts.emplace_back(e);\n    if (!as_.search')
bug('start-early', '    const int tolerance_range = std::lround(req.tolerance', "    const Astar::Vec s0 = s;\n    const int tolerance_range = std::lround(req.tolerance")
CASES.pop()
bug('start-raw', '    starts.emplace_back(s);\n    if (!as_.search', '    starts.emplace_back(metric2Grid(req.start.pose));\n    if (!as_.search')
Q = '''            starts, e, path_grid,
            model_2d,
            cb_progress,
            0, 1.0f / freq_min_, find_best_))'''
bug('swap', Q, Q.replace('e, path', 's, path'))
bug('model3', Q, Q.replace('model_2d', 'model_'))
bug('limit', Q, Q.replace('0, 1.0f', '1, 1.0f'))
bug('freq', Q, Q.replace('1.0f / freq_min_', '1.0f / freq_'))
bug('best', Q, Q.replace('find_best_', 'true'))
bug('failed', '''      ROS_WARN("Path plan failed (goal unreachable)");
      return false;''', '''      ROS_WARN("Path plan failed (goal unreachable)");
      return find_best_;''')
bug('progress', '''    const auto cb_progress = [](const std::list<Astar::Vec>& /* path_grid */, const SearchStats& /* stats */)
    {
      return true;
    };

    const auto ts = boost::chrono::high_resolution_clock::now();

    GridAstarModel2D''', '''    const auto cb_progress = [](const std::list<Astar::Vec>& /* path_grid */, const SearchStats& /* stats */)
    {
      return false;
    };

    const auto ts = boost::chrono::high_resolution_clock::now();

    GridAstarModel2D''')
bug('header', '''    path.header = map_header_;
    path.header.stamp = ros::Time::now();

    const std::list<Astar::Vecf> path_interpolated = model_->''', '''    path.header = req.start.header;
    path.header.frame_id = "";

    const std::list<Astar::Vecf> path_interpolated = model_->''')
bug('plan-header', '    res.plan.header = map_header_;\n', '')
bug('poses-from1', '    for (size_t i = 0; i < path.poses.size(); ++i)\n    {\n      res.plan', '    for (size_t i = 1; i < path.poses.size(); ++i)\n    {\n      res.plan')
bug('poses-last', '    for (size_t i = 0; i < path.poses.size(); ++i)\n    {\n      res.plan', '    for (size_t i = 0; i + 1 < path.poses.size(); ++i)\n    {\n      res.plan')
bug('poses-rev', 'res.plan.poses[i] = path.poses[i];', 'res.plan.poses[i] = path.poses[path.poses.size() - 1 - i];')
bug('poses-size', 'res.plan.poses.resize(path.poses.size());', 'res.plan.poses.resize(path_grid.size());')
bug('node-goal', '    Astar::Vec e = metric2Grid(req.goal.pose);', '    goal_ = req.goal;\n    Astar::Vec e = metric2Grid(req.goal.pose);')
bug('ret', '''      res.plan.poses[i] = path.poses[i];
    }
    return true;''', '''      res.plan.poses[i] = path.poses[i];
    }
    return !path.poses.empty() && find_best_;''')
# conversions
bug('floor', 'x = static_cast<int>(std::floor((gx - map_info.origin.position.x) / map_info.linear_resolution));', 'x = static_cast<int>((gx - map_info.origin.position.x) / map_info.linear_resolution);', G)
bug('origin', 'y = static_cast<int>(std::floor((gy - map_info.origin.position.y)', 'y = static_cast<int>(std::floor((gy - map_info.origin.position.x)', G)
bug('yaw-floor', 'yaw = std::lround(gyaw / map_info.angular_resolution);', 'yaw = static_cast<int>(std::floor(gyaw / map_info.angular_resolution));', G)
bug('half', 'gy = (y + 0.5) *', 'gy = y *', G)
bug('half-inside', 'gx = (x + 0.5) * map_info.linear_resolution + map', 'gx = x * map_info.linear_resolution + 0.5 + map', G)
bug('nocyc', '    grid.cycleUnsigned(map_info_.angle);\n    return grid;', '    return grid;')
bug('cyc', '    grid.cycleUnsigned(map_info_.angle);\n    return grid;', '    grid.cycle(map_info_.angle);\n    return grid;')
bug('pose-xy', '    pose.position.x = x;\n    pose.position.y = y;', '    pose.position.x = x;\n    pose.position.y = x;')
bug('pose-axis', '    pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0.0, 0.0, 1.0), yaw));\n    pose.position.x = x;', '    pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0.0, 1.0, 0.0), yaw));\n    pose.position.x = x;')
bug('path-header', '    ps.header = path.header;\n', '', G)
bug('path-yaw', 'tf2::Quaternion(tf2::Vector3(0.0, 0.0, 1.0), yaw)', 'tf2::Quaternion(tf2::Vector3(0.0, 0.0, 1.0), p[2])', G)
bug('path-z', 'ps.pose.position.z = 0;', 'ps.pose.position.z = map_info.origin.position.z;', G)
bug('path-skip', '    path.poses.push_back(ps);', '    if (path.poses.empty() || path.poses.back().pose.position.x != ps.pose.position.x)\n      path.poses.push_back(ps);', G)
bug('point-yaw', '    point.x = x;\n    point.y = y;', '    point.x = x;\n    point.y = yaw;')
# rewritings
ok('assign', '''    res.plan.poses.resize(path.poses.size());
    for (size_t i = 0; i < path.poses.size(); ++i)
    {
      res.plan.poses[i] = path.poses[i];
    }
''', '''    res.plan.poses = path.poses;
''')
ok('push', '''    res.plan.poses.resize(path.poses.size());
    for (size_t i = 0; i < path.poses.size(); ++i)
    {
      res.plan.poses[i] = path.poses[i];
    }
''', '''    res.plan.poses.clear();
    for (const auto& p : path.poses)
      res.plan.poses.push_back(p);
''')
ok('whole', '''    res.plan.header = map_header_;
    res.plan.poses.resize(path.poses.size());
    for (size_t i = 0; i < path.poses.size(); ++i)
    {
      res.plan.poses[i] = path.poses[i];
    }
''', '''    res.plan = path;
    res.plan.header = map_header_;
''')
ok('copy', '''    for (size_t i = 0; i < path.poses.size(); ++i)
    {
      res.plan.poses[i] = path.poses[i];
    }
''', '''    std::copy(path.poses.begin(), path.poses.end(), res.plan.poses.begin());
''')
ok('frames', FR, '''    const auto in_map = [this](const geometry_msgs::PoseStamped& p)
    {
      return p.header.frame_id == map_header_.frame_id;
    };
    if (!in_map(req.start) || !in_map(req.goal))''')
ok('ifs', '''    switch (goal_status)
    {
      case DiscretePoseStatus::OUT_OF_MAP:
        ROS_ERROR("Given goal is not on the map.");
        return false;
      case DiscretePoseStatus::IN_ROCK:
        ROS_ERROR("Given goal is in Rock.");
        return false;
      case DiscretePoseStatus::RELOCATED:
        ROS_INFO("Given goal is moved (%d, %d)", e[0], e[1]);
        break;
      default:
        break;
    }''', '''    if (goal_status == DiscretePoseStatus::OUT_OF_MAP || goal_status == DiscretePoseStatus::IN_ROCK)
    {
      ROS_ERROR("Given goal cannot be used.");
      return false;
    }''')
ok('brace', '''    std::vector<GridAstarModel3D::VecWithCost> starts;
    starts.emplace_back(s);
    if (!as_.search''', '''    const std::vector<GridAstarModel3D::VecWithCost> starts = {GridAstarModel3D::VecWithCost(s)};
    if (!as_.search''')
ok('result', '''    if (!as_.search(
            starts, e, path_grid,
            model_2d,
            cb_progress,
            0, 1.0f / freq_min_, find_best_))
    {''', '''    const bool found = as_.search(starts, e, path_grid, model_2d, cb_progress, 0, 1.0f / freq_min_, find_best_);
    if (!found)
    {''')
ok('lambda', '''            cb_progress,
            0, 1.0f / freq_min_, find_best_))
    {
      ROS_WARN("Path plan failed (goal''', '''            [](const std::list<Astar::Vec>&, const SearchStats&) { return true; },
            0, 1.0f / freq_min_, find_best_))
    {
      ROS_WARN("Path plan failed (goal''')
ok('center', '  gx = (x + 0.5) * map_info.linear_resolution + map_info.origin.position.x;', '  const double res = map_info.linear_resolution;\n  gx = x * res + res / 2 + map_info.origin.position.x;', G)
ok('emplace', '    path.poses.push_back(ps);', '    path.poses.emplace_back(std::move(ps));', G)
ok('iter', '  for (const auto& p : path_grid)\n  {\n    float x, y, yaw;', '  for (auto it = path_grid.begin(); it != path_grid.end(); ++it)\n  {\n    const auto& p = *it;\n    float x, y, yaw;', G)
ok('order', '    const DiscretePoseStatus start_status = ' + S + '\n    const DiscretePoseStatus goal_status = ' + E_, '    const DiscretePoseStatus goal_status = ' + E_ + '\n    const DiscretePoseStatus start_status = ' + S)
ok('make-shared', 'GridAstarModel2D::Ptr model_2d(new GridAstarModel2D(model_));\n\n    std::list', 'GridAstarModel2D::Ptr model_2d = std::make_shared<GridAstarModel2D>(model_);\n\n    std::list')
LOOP = '''    res.plan.poses.resize(path.poses.size());
    for (size_t i = 0; i < path.poses.size(); ++i)
    {
      res.plan.poses[i] = path.poses[i];
    }
'''
bug('copy-part', LOOP, '''    res.plan.poses.resize(path.poses.size());
    std::copy(path.poses.begin() + 1, path.poses.end(), res.plan.poses.begin());
''')
ok('assign2', LOOP, '    res.plan.poses.assign(path.poses.begin(), path.poses.end());\n')
ok('insert', LOOP, '    res.plan.poses.clear();\n    res.plan.poses.insert(res.plan.poses.end(), path.poses.begin(), path.poses.end());\n')
ok('vecctor', LOOP, '    res.plan.poses = std::vector<geometry_msgs::PoseStamped>(path.poses.begin(), path.poses.end());\n')
ok('swap', LOOP, '    res.plan.poses.swap(path.poses);\n')
ok('moved', LOOP, '    res.plan.poses = std::move(path.poses);\n')
SW = '''    switch (start_status)
    {
      case DiscretePoseStatus::OUT_OF_MAP:
        ROS_ERROR("Given start is not on the map.");
        return false;
      case DiscretePoseStatus::IN_ROCK:
        ROS_ERROR("Given start is in Rock.");
        return false;
      case DiscretePoseStatus::RELOCATED:
        ROS_INFO("Given start is moved (%d, %d)", s[0], s[1]);
        break;
      default:
        break;
    }
    switch (goal_status)
    {
      case DiscretePoseStatus::OUT_OF_MAP:
        ROS_ERROR("Given goal is not on the map.");
        return false;
      case DiscretePoseStatus::IN_ROCK:
        ROS_ERROR("Given goal is in Rock.");
        return false;
      case DiscretePoseStatus::RELOCATED:
        ROS_INFO("Given goal is moved (%d, %d)", e[0], e[1]);
        break;
      default:
        break;
    }
'''
HEAD = '  bool cbMakePlan(nav_msgs::GetPlan::Request& req,'
CASES.append(('ps-ok-helper-status', 'ok', P, [SW, HEAD], ['''    if (!isUsable(start_status, "start", s) || !isUsable(goal_status, "goal", e))
      return false;
''', '''  bool isUsable(const DiscretePoseStatus status, const char* name, const Astar::Vec& cell) const
  {
    switch (status)
    {
      case DiscretePoseStatus::OUT_OF_MAP:
        ROS_ERROR("Given %s is not on the map.", name);
        return false;
      case DiscretePoseStatus::IN_ROCK:
        ROS_ERROR("Given %s is in Rock.", name);
        return false;
      case DiscretePoseStatus::RELOCATED:
        ROS_INFO("Given %s is moved (%d, %d)", name, cell[0], cell[1]);
        return true;
      default:
        return true;
    }
  }
''' + HEAD], N))
CONV = '''    nav_msgs::Path path;
    path.header = map_header_;
    path.header.stamp = ros::Time::now();

    const std::list<Astar::Vecf> path_interpolated = model_->interpolatePath(path_grid);
    grid_metric_converter::appendGridPath2MetricPath(map_info_, path_interpolated, path);

    res.plan.header = map_header_;
'''
CASES.append(('ps-ok-helper-path', 'ok', P, [CONV, HEAD], ['''    const nav_msgs::Path path = toMetricPath(path_grid);

    res.plan.header = map_header_;
''', '''  nav_msgs::Path toMetricPath(const std::list<Astar::Vec>& path_grid) const
  {
    nav_msgs::Path path;
    path.header = map_header_;
    path.header.stamp = ros::Time::now();
    grid_metric_converter::appendGridPath2MetricPath(map_info_, model_->interpolatePath(path_grid), path);
    return path;
  }
''' + HEAD], N))
CASES.append(('ps-ok-helper-cell', 'ok', G, ['''  x = static_cast<int>(std::floor((gx - map_info.origin.position.x) / map_info.linear_resolution));
  y = static_cast<int>(std::floor((gy - map_info.origin.position.y) / map_info.linear_resolution));''', '''inline void metric2Grid(
    const costmap_cspace_msgs::MapMetaData3D& map_info,
    int& x,'''], ['''  x = cellOf(gx, map_info.origin.position.x, map_info.linear_resolution);
  y = cellOf(gy, map_info.origin.position.y, map_info.linear_resolution);''', '''inline int cellOf(const float p, const double origin, const double resolution)
{
  return static_cast<int>(std::floor((p - origin) / resolution));
}
inline void metric2Grid(
    const costmap_cspace_msgs::MapMetaData3D& map_info,
    int& x,'''], N))
ok('while', LOOP, '''    res.plan.poses.resize(path.poses.size());
    size_t i = 0;
    while (i < path.poses.size())
    {
      res.plan.poses[i] = path.poses[i];
      ++i;
    }
''')
ok('backwards', LOOP, '''    res.plan.poses.resize(path.poses.size());
    for (size_t i = path.poses.size(); i > 0; --i)
    {
      res.plan.poses[i - 1] = path.poses[i - 1];
    }
''')
ok('iterators', LOOP, '''    res.plan.poses.resize(path.poses.size());
    auto out = res.plan.poses.begin();
    for (const auto& p : path.poses)
    {
      *out = p;
      ++out;
    }
''')
ok('nested', '''    if (!has_map_)
    {
      ROS_ERROR("make_plan service is called without map.");
      return false;
    }

    if (req.start''', '''    const bool ready = has_map_;
    if (!ready)
    {
      ROS_ERROR("make_plan service is called without map.");
      return false;
    }

    if (req.start''')
