import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nodes
S = 'planner_cspace/src/'
P = S + 'planner_3d.cpp'
G = 'planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h'
SRCS = [S + n + '.cpp' for n in ('distance_map', 'costmap_bbf', 'grid_astar_model_3dof', 'motion_cache', 'motion_primitive_builder', 'rotation_cache', 'start_pose_predictor')]
WORLD = r'''
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
const int W = 32, H = 24, A = 4;
const double R = 0.1;
costmap_cspace_msgs::CSpace3D::Ptr map(const char fill)
{
  costmap_cspace_msgs::CSpace3D::Ptr m(new costmap_cspace_msgs::CSpace3D);
  m->header.frame_id = "map";
  m->info.width = W;
  m->info.height = H;
  m->info.angle = A;
  m->info.linear_resolution = R;
  m->info.angular_resolution = M_PI * 2 / A;
  m->info.origin.orientation.w = 1;
  m->data.resize(W * H * A, fill);
  return m;
}
size_t at(const int x, const int y, const int yaw, const int w = W, const int h = H)
{
  return (yaw * h + y) * w + x;
}
void cell(costmap_cspace_msgs::CSpace3D& m, const int x, const int y, const char c)
{
  for (int yaw = 0; yaw < A; yaw++)
    m.data[at(x, y, yaw)] = c;
}
geometry_msgs::PoseStamped pose(const double x, const double y)
{
  geometry_msgs::PoseStamped p;
  p.header.frame_id = "map";
  p.pose.position.x = x;
  p.pose.position.y = y;
  p.pose.orientation.w = 1;
  return p;
}
bool plan(Planner3dNode& n, const double x, const double y, const double tolerance = 0, const double sx = 0.75, const double sy = 1.35)
{
  nav_msgs::GetPlan::Request req;
  nav_msgs::GetPlan::Response res;
  req.start = pose(sx, sy);
  req.goal = pose(x, y);
  req.tolerance = tolerance;
  return n.cbMakePlan(req, res) && res.plan.poses.size() > 0;
}
costmap_cspace_msgs::CSpace3DUpdate::Ptr update(const int x, const int y, const int w, const int h, const char fill)
{
  costmap_cspace_msgs::CSpace3DUpdate::Ptr u(new costmap_cspace_msgs::CSpace3DUpdate);
  u->header.frame_id = "map";
  u->x = x;
  u->y = y;
  u->yaw = 0;
  u->width = w;
  u->height = h;
  u->angle = A;
  u->data.resize(w * h * A, fill);
  return u;
}
'''


def p3(i, prop, edits, needs, breaks, demo):
    return nodes.node(i, prop, edits, needs, breaks, P, WORLD + demo, srcs=SRCS)


SEEDS = [
    p3('p18-left-of-origin', 'P18', [(G, 'static_cast<int>(std::floor((gx - map_info.origin.position.x) / map_info.linear_resolution))', 'static_cast<int>((gx - map_info.origin.position.x) / map_info.linear_resolution)'),
                                     (G, 'static_cast<int>(std::floor((gy - map_info.origin.position.y) / map_info.linear_resolution))', 'static_cast<int>((gy - map_info.origin.position.y) / map_info.linear_resolution)')],
       'a pose less than one cell left of or below the origin of the map',
       'the pose is put into the first cell of the map instead of outside: a plan to a goal outside the map is answered', r'''
int main()
{
  Planner3dNode n;
  n.cbMap(map(0));
  using V = GridAstar<3, 2>::Vec;
  CHECK(plan(n, 2.05, 1.05));
  CHECK(!plan(n, -0.05, 1.05));
  CHECK(!plan(n, 3.25, 1.05));
  CHECK(n.metric2Grid(pose(2.05, 1.05).pose) == V(20, 10, 0));
  CHECK(n.metric2Grid(pose(0.05, 0.05).pose) == V(0, 0, 0));
  CHECK(n.metric2Grid(pose(-0.05, 1.05).pose) == V(-1, 10, 0));
  CHECK(n.metric2Grid(pose(2.05, -0.05).pose) == V(20, -1, 0));
}
'''),
    p3('p18-goal-tolerance', 'P18', [(P, 'relocateDiscretePoseIfNeeded(e, tolerance_range, tolerance_angle_, true);', 'relocateDiscretePoseIfNeeded(e, std::max(tolerance_range, tolerance_range_), tolerance_angle_, true);')],
       'a request with a goal in an obstacle and a tolerance below the one of the navigation',
       'the goal is relocated farther than the tolerance of the request and the plan is answered', r'''
int main()
{
  Planner3dNode n;
  Planner3DConfig c;
  c.tolerance_range = 0.3;
  n.cbParameter(c, 0);
  auto m = map(0);
  cell(*m, 10, 6, 100);
  n.cbMap(m);
  CHECK(plan(n, 1.05, 1.05));
  CHECK(plan(n, 1.05, 0.65, 0.2));
  CHECK(!plan(n, 1.05, 0.65, 0.0));
}
'''),
    p3('p15-second-search', 'P15', [(P, 'return searchAvailablePos(cm, s, xy_range, angle_range, 100);', 'return searchAvailablePos(cm, s, xy_range, angle_range, 101);')],
       'no cell below the acceptable cost within the tolerance, so the search is made again with a weaker limit',
       'an occupied cell is taken as the relocated pose (and the search does not end in failure)', r'''
int main()
{
  Planner3dNode n;
  auto m = map(0);
  for (int x = 6; x < W; x++)
    for (int y = 0; y < H; y++)
      cell(*m, x, y, 100);
  cell(*m, 12, 6, 80);
  n.cbMap(m);
  using V = GridAstar<3, 2>::Vec;
  V s(11, 6, 0);
  CHECK(n.searchAvailablePos(n.cm_, s, 2, 0));
  CHECK(s == V(12, 6, 0));
  V far(11, 2, 0);
  CHECK(!n.searchAvailablePos(n.cm_, far, 2, 0));
  CHECK(far == V(11, 2, 0));
}
'''),
    p3('p13-overwrite-free', 'P13', [(P, '              if (c >= 0)\n                cm_[gp + p] = c;', '              if (c > 0)\n                cm_[gp + p] = c;')],
       'updates configured to overwrite, and an update with a free cell where the map has an obstacle',
       'the cell keeps the obstacle of the map although the update says it is free', r'''
int main()
{
  Planner3dNode n;
  Planner3DConfig c;
  c.overwrite_cost = true;
  n.cbParameter(c, 0);
  auto m = map(0);
  cell(*m, 10, 6, 100);
  n.cbMap(m);
  using V = GridAstar<3, 2>::Vec;
  CHECK(n.cm_[V(10, 6, 1)] == 100);
  auto u = update(8, 4, 5, 5, -1);
  for (int yaw = 0; yaw < A; yaw++)
    u->data[at(1, 1, yaw, 5, 5)] = 30;
  n.cbMapUpdate(u);
  CHECK(n.cm_[V(10, 6, 1)] == 100);
  CHECK(n.cm_[V(9, 5, 1)] == 30);
  n.cbMapUpdate(update(8, 4, 5, 5, 0));
  CHECK(n.cm_[V(10, 6, 1)] == 0);
  CHECK(n.cm_[V(9, 5, 1)] == 0);
}
'''),
    p3('p13-previous-path-place', 'P13', [(P, 'if (c == 100 && !clear_hysteresis && cm_hyst_[gp + p] == 0)', 'if (c == 100 && !clear_hysteresis && cm_hyst_[p] == 0)')],
       'a previous path, and an update whose region does not start in the corner of the map with a new obstacle on that path',
       'the obstacle is looked up at another place: the preference for the previous path is kept although the path is blocked', r'''
int main()
{
  Planner3dNode n;
  n.cbMap(map(0));
  using V = GridAstar<3, 2>::Vec;
  n.cm_hyst_[V(10, 6, 0)] = 0;
  n.hyst_updated_cells_.push_back(V(10, 6, 0));
  n.has_hysteresis_map_ = true;
  auto u = update(8, 4, 5, 5, 0);
  n.cbMapUpdate(u);
  CHECK(n.has_hysteresis_map_);
  for (int yaw = 0; yaw < A; yaw++)
    u->data[at(0, 0, yaw, 5, 5)] = 100;
  n.cbMapUpdate(u);
  CHECK(n.has_hysteresis_map_);
  for (int yaw = 0; yaw < A; yaw++)
    u->data[at(2, 2, yaw, 5, 5)] = 100;
  n.cbMapUpdate(u);
  CHECK(!n.has_hysteresis_map_);
}
'''),
    p3('p12-cancel-escape', 'P12', [(P, '    has_goal_ = false;\n    escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n  }\n\n  bool setGoal', '    has_goal_ = false;\n    if (status_.status != planner_cspace_msgs::PlannerStatus::DONE)\n      escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;\n    status_.status = planner_cspace_msgs::PlannerStatus::DONE;\n  }\n\n  bool setGoal')],
       'the planner is escaping and its status is already done when it is cancelled',
       'the escape outlives the cancel', r'''
int main()
{
  Planner3dNode n;
  n.cbMap(map(0));
  n.has_goal_ = true;
  n.escape_status_ = TemporaryEscapeStatus::ESCAPING_WITH_IMPROVEMENT;
  n.cbPreempt();
  CHECK(!n.has_goal_);
  CHECK(n.escape_status_ == TemporaryEscapeStatus::NOT_ESCAPING);
}
'''),
    p3('p14-final-turn-wrap', 'P14', [(P, '        if (yaw_diff > M_PI)\n          yaw_diff -= M_PI * 2.0;\n        else if (yaw_diff < -M_PI)\n          yaw_diff += M_PI * 2.0;\n', '        if (yaw_diff > M_PI)\n          yaw_diff -= M_PI * 2.0;\n')],
       'the final orientation is just below +pi and the robot has reached it from the other side (just above -pi)',
       'the difference of orientation stays near two pi, so the goal is never finished', r'''
int main()
{
  for (const double side : {1.0, -1.0})
  {
    Planner3dNode n;
    n.cbMap(map(0));
    n.goal_ = n.goal_raw_ = n.start_ = pose(2.05, 1.05);
    n.goal_raw_.pose.orientation = n.goal_.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), side * 3.13));
    n.start_.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), side * 2.5));
    n.has_goal_ = n.has_start_ = true;
    n.status_.status = planner_cspace_msgs::PlannerStatus::FINISHING;
    n.planPath(ros::Time(10.0));
    CHECK(n.has_goal_);
    n.start_.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), side * -3.13));
    n.planPath(ros::Time(11.0));
    CHECK(!n.has_goal_);
    CHECK(n.status_.status == planner_cspace_msgs::PlannerStatus::DONE);
  }
}
'''),
    p3('p16-finishing-escape', 'P16', [(P, '''      goal_raw_.pose = grid2MetricPose(te);
      goal_ = goal_raw_;

      if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING)
''', '''      goal_raw_.pose = grid2MetricPose(te);
      goal_ = goal_raw_;

      if (status_.status == planner_cspace_msgs::PlannerStatus::FINISHING && temporary_escape_)
''')],
       'the escape is requested from outside while the planner turns to the final orientation, with escape on failure switched off',
       'the planner stays in the final turn and ends the temporary goal by its orientation instead of planning to it', r'''
int main()
{
  for (const bool temporary_escape : {true, false})
  {
    Planner3dNode n;
    Planner3DConfig c;
    c.temporary_escape = temporary_escape;
    c.esc_range = 0.3;
    n.cbParameter(c, 0);
    n.cbMap(map(0));
    n.goal_ = n.goal_raw_ = n.goal_original_ = n.start_ = pose(2.05, 1.05);
    n.has_goal_ = n.has_start_ = true;
    n.status_.status = planner_cspace_msgs::PlannerStatus::FINISHING;
    n.cbTemporaryEscape(std_msgs::Empty::ConstPtr());
    CHECK(n.escape_status_ == TemporaryEscapeStatus::ESCAPING_WITHOUT_IMPROVEMENT);
    CHECK(n.status_.status == planner_cspace_msgs::PlannerStatus::DOING);
  }
}
'''),
    p3('p13-waiting-same-stamp', 'P13', [(P, 'map_update_retained_->header.stamp >= msg->header.stamp', 'map_update_retained_->header.stamp > msg->header.stamp')],
       'an update beyond the present map that arrives before the larger map it belongs to and has the stamp of that map',
       'the waiting update is dropped when the map arrives', r'''
int main()
{
  using V = GridAstar<3, 2>::Vec;
  for (const double t : {4.0, 5.0, 6.0})
  {
    Planner3dNode n;
    auto m = map(0);
    m->info.width = 10;
    m->info.height = 8;
    n.cbMap(m);
    auto u = update(12, 10, 5, 5, 70);
    u->header.stamp = ros::Time(t);
    n.cbMapUpdate(u);
    m = map(0);
    m->header.stamp = ros::Time(5.0);
    n.cbMap(m);
    CHECK(n.cm_[V(14, 12, 1)] == (t < 5 ? 0 : 70));
  }
}
'''),
]
