"""Planted bugs in ROS nodes and in the costmap: the demonstrations run the real node code over stand-ins of the ROS headers (copied beside them)."""
import os
import re
import subprocess
import tempfile
V = '/verif'
PARAM = 'template <class T> bool param(const std::string&, T& v, const T& d) const { v = d; return false; }'
PARAM2 = '''static std::map<std::string, double>& stub_params() { static std::map<std::string, double> m; return m; }
  template <class T> static void stub_set(const std::string& n, T& v, std::true_type) { if (stub_params().count(n)) v = stub_params()[n]; }
  template <class T> static void stub_set(const std::string& n, T& v, std::false_type) {}
  template <class T> bool param(const std::string& n, T& v, const T& d) const { v = d; stub_set(n, v, std::is_arithmetic<T>()); return false; }'''
HAS = 'bool hasParam(const std::string&) const { return false; }'
FLAGS = '-I. -Icostmap_cspace/include -Ineonavigation_common/include -Isafety_limiter/include -Wl,--unresolved-symbols=ignore-all -w'
TOP = r'''
#include <bits/stdc++.h>
#include <boost/thread.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <ros/ros.h>
#define CHECK(c) do { if (!(c)) { std::printf("line %d: not %s\n", __LINE__, #c); std::exit(1); } } while (0)
'''


def closure(demo):
    """the stand-in headers a demonstration needs"""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'demo.cpp')
        open(p, 'w').write(demo)
        r = subprocess.run('g++ -std=c++17 -M -fopenmp %s -I%s/stubs -I%s/.build/stubs -Iplanner_cspace/include -Itrajectory_tracker/include -Itrack_odometry/include -I/usr/include/eigen3 %s'
                           % (FLAGS.split(' -Wl')[0], V, V, p), shell=True, cwd='/repo', stdout=subprocess.PIPE, text=True, check=True)
    out = {}
    for f in re.findall(r'\S+', r.stdout):
        for root in (V + '/stubs/', V + '/.build/stubs/'):
            if f.startswith(root) and os.path.basename(f) != 'omp.h':
                t = open(f).read()
                if f.endswith('ros/ros.h'):
                    assert PARAM in t and HAS in t
                    t = t.replace(PARAM, PARAM2)
                out[f[len(root):]] = t
    return out


def node(id, prop, edits, needs, breaks, src, demo, flags='', **kw):
    inc = '#define private public\n#define protected public\n#define main node_main\n#include "%s"\n#undef main\n' % src
    d = TOP + inc + demo
    return dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=d, files=closure(d), flags=FLAGS + ' ' + flags, **kw)


JI = 'joystick_interrupt/src/joystick_interrupt.cpp'
JM = 'joystick_interrupt/src/joystick_mux.cpp'
TO = 'track_odometry/src/track_odometry.cpp'
LM = 'costmap_cspace/src/largemap_to_map.cpp'
PM = 'costmap_cspace/src/pointcloud2_to_map.cpp'
SL = 'safety_limiter/src/safety_limiter.cpp'
CI = 'costmap_cspace/include/costmap_cspace/'
SEEDS = [
    node('j01-input-during-interrupt', 'J01', [(JI, '    last_input_twist_ = *msg;\n', '    if (last_joy_msg_ == ros::Time(0) || ros::Time::now() - last_joy_msg_ > ros::Duration(timeout_))\n      last_input_twist_ = *msg;\n')],
         'an input command that arrives while the operator holds the button, and then the release',
         'the input command is not kept while interrupted: after the release the one from before the interrupt is published', JI, r'''
int main()
{
  std::vector<double> out;
  ros::stub_on_publish() = [&out](const std::string& t, const void* m)
  {
    if (t.find("cmd_vel") != std::string::npos)
      out.push_back(static_cast<const geometry_msgs::Twist*>(m)->linear.x);
  };
  JoystickInterrupt n;
  sensor_msgs::Joy::Ptr joy(new sensor_msgs::Joy);
  joy->buttons.resize(8, 0);
  joy->axes.resize(8, 0);
  geometry_msgs::Twist::Ptr in(new geometry_msgs::Twist);
  in->linear.x = 0.3;
  n.cbTwist(in);
  CHECK(out.size() == 1 && out[0] == 0.3);
  joy->buttons[6] = 1;
  joy->axes[1] = 1;
  n.cbJoy(joy);
  CHECK(out.size() == 2 && out[1] == 0.5);
  in->linear.x = 0.1;
  n.cbTwist(in);
  CHECK(out.size() == 2);
  joy->buttons[6] = 0;
  n.cbJoy(joy);
  CHECK(out.size() == 3 && out[2] == 0.1);
}
'''),
    node('j02-broken-message-counts', 'J02', [(JM, '''    if (static_cast<size_t>(interrupt_button_) >= msg->buttons.size())
    {
''', '''    last_joy_msg_ = ros::Time::now();
    if (static_cast<size_t>(interrupt_button_) >= msg->buttons.size())
    {
'''), (JM, '''      return;
    }

    last_joy_msg_ = ros::Time::now();
''', '''      return;
    }

''')],
         'the button pressed, and from then on only joystick messages that do not have the button, for longer than the timeout',
         'a joystick message without the button counts as a sign of life: the second input stays selected for ever', JM, r'''
int main()
{
  JoystickMux n;
  sensor_msgs::Joy::Ptr joy(new sensor_msgs::Joy);
  joy->buttons.resize(8, 0);
  joy->buttons[5] = 1;
  n.cbJoy(joy);
  CHECK(n.selected_ == 1);
  sensor_msgs::Joy::Ptr bad(new sensor_msgs::Joy);
  for (int i = 0; i < 20; ++i)
  {
    ros::Time::setNow(ros::Time::now() + ros::Duration(0.1));
    n.cbJoy(bad);
    n.cbTimer(ros::TimerEvent());
  }
  CHECK(n.selected_ == 0);
}
'''),
    node('o02-slip-outlier', 'O02', [(TO, 'if (w_imu * w_odom < 0 && !negative_slip_)', 'if (std::abs(w_odom - w_imu) > std::abs(w_odom) && !negative_slip_)')],
         'the IMU turning more than twice as fast as the wheels, in the same direction',
         'such a turn counts as no slip, so the displacement is not scaled', TO, r'''
int main()
{
  double x = -1;
  ros::stub_on_publish() = [&x](const std::string& t, const void* m)
  {
    x = static_cast<const nav_msgs::Odometry*>(m)->pose.pose.position.x;
  };
  TrackOdometryNode n;
  n.use_kf_ = false;
  n.base_link_id_ = "base_link";
  n.has_imu_ = true;
  n.imu_.orientation.w = 1;
  n.imu_.angular_velocity.z = 0.5;
  nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry);
  o->child_frame_id = "base_link";
  o->header.stamp = ros::Time(100);
  o->pose.pose.orientation.w = 1;
  o->twist.twist.angular.z = 0.2;
  n.cbOdom(o);
  CHECK(x == -1);
  o.reset(new nav_msgs::Odometry(*o));
  o->header.stamp = ros::Time(101);
  o->pose.pose.position.x = 1;
  n.cbOdom(o);
  CHECK(std::abs(x - 2.5) < 1e-6);
}
'''),
    node('c05-odd-window', 'C05', [(LM, '''        const int ux2 = x2 + width_ / 2.0;
        const int uy2 = y2 + width_ / 2.0;''', '''        const int ux2 = x2 + width_ / 2;
        const int uy2 = y2 + width_ / 2;''')],
         'a window of an odd number of cells, with occlusion',
         'the rays are half a cell off: other cells hide behind an occupied cell than those the rays through it reach', LM, r'''
int main()
{
  ros::NodeHandle::stub_params()["width"] = 31;
  ros::NodeHandle::stub_params()["simulate_occlusion"] = 1;
  LargeMapToMapNode n;
  const int w = 31;
  std::map<size_t, std::set<size_t>> expect;
  for (int ay = 0; ay < w; ++ay)
    for (int ax = 0; ax < w; ++ax)
    {
      const float x = ax - w / 2.0, y = ay - w / 2.0;
      const float l = std::sqrt(x * x + y * y);
      for (float r = 1.0; r < l - 1.0; r += 0.5)
      {
        const int cx = w / 2.0 + x * r / l, cy = w / 2.0 + y * r / l;
        const size_t by = cy * w + cx;
        if (by != static_cast<size_t>(ay * w + ax))
          expect[by].insert(ay * w + ax);
      }
    }
  std::map<size_t, std::set<size_t>> table;
  for (auto& t : n.occlusion_table_)
    if (t.second.size())
      table[t.first].insert(t.second.begin(), t.second.end());
  size_t diff = 0, all = 0;
  for (size_t a = 0; a < w * w; ++a)
    for (size_t b = 0; b < w * w; ++b)
    {
      all += expect[a].count(b);
      diff += expect[a].count(b) != table[a].count(b);
    }
  CHECK(diff * 100 < all);  // rounding of single samples aside
}
'''),
    node('c04-upper-limit-absolute', 'C04', [(PM, 'z_max_ < *iter_z - robot_z)', 'z_max_ < *iter_z)')],
         'a robot above or below the ground level of the map frame',
         'the upper limit of the height band is not relative to the robot: obstacles on an upper floor are not in the map', PM, r'''
int main()
{
  int occupied = -1;
  ros::stub_on_publish() = [&occupied](const std::string& t, const void* m)
  {
    occupied = 0;
    for (const auto c : static_cast<const nav_msgs::OccupancyGrid*>(m)->data)
      occupied += c == 100;
  };
  Pointcloud2ToMapNode n;
  n.tfbuf_.stub_lookup = [](const std::string& target, const std::string& source, const ros::Time&)
  {
    geometry_msgs::TransformStamped t;
    t.header.frame_id = target;
    t.transform.rotation.w = 1;
    t.transform.translation.z = source == "base_link" ? 4 : 0;
    return t;
  };
  sensor_msgs::PointCloud2::Ptr c(new sensor_msgs::PointCloud2);
  c->header.frame_id = "map";
  c->header.stamp = ros::Time(100);
  for (const std::string& f : {"x", "y", "z"})
  {
    sensor_msgs::PointField pf;
    pf.name = f;
    pf.offset = (f[0] - 'x') * 4;
    pf.datatype = 7;
    pf.count = 1;
    c->fields.push_back(pf);
  }
  c->height = 1;
  c->width = 3;
  c->point_step = 12;
  c->row_step = 36;
  c->data.resize(36);
  sensor_msgs::PointCloud2Iterator<float> x(*c, "x"), y(*c, "y"), z(*c, "z");
  const float zs[3] = {4.5, 0.5, 5.5};
  for (int i = 0; i < 3; ++i, ++x, ++y, ++z)
  {
    *x = 0.05 + 0.3 * i;
    *y = 0.05;
    *z = zs[i];
  }
  n.cbCloud(c, false);
  CHECK(occupied == 1);
}
'''),
    node('s01-limit-order', 'S01', [(SL, 'limitMaxVelocities(limit(twist_))', 'limit(limitMaxVelocities(twist_))')],
         'a command faster than the velocity limits while the ratio is below one',
         'the command is first limited and then scaled: the robot is slowed down twice', SL, r'''
int main()
{
  geometry_msgs::Twist out;
  ros::stub_on_publish() = [&out](const std::string& t, const void* m)
  {
    if (t.find("cmd_vel") != std::string::npos)
      out = *static_cast<const geometry_msgs::Twist*>(m);
  };
  alignas(safety_limiter::SafetyLimiterNode) static char mem[sizeof(safety_limiter::SafetyLimiterNode)] = {};
  auto& n = *reinterpret_cast<safety_limiter::SafetyLimiterNode*>(mem);  // the constructor needs a footprint, the command callback does not
  n.pub_twist_.topic_ = "cmd_vel";
  n.max_values_[0] = 1;
  n.max_values_[1] = 1;
  n.disable_timeout_ = 0.1;
  n.has_cloud_ = true;
  n.r_lim_ = 0.5;
  n.hold_off_ = ros::Time(100000);
  geometry_msgs::Twist::Ptr in(new geometry_msgs::Twist);
  in->linear.x = 2;
  in->angular.z = -1.5;
  n.cbTwist(in);
  CHECK(std::abs(out.linear.x - 1) < 1e-9 && std::abs(out.angular.z + 0.75) < 1e-9);
}
'''),
    node('c01-half-open-down', 'C01', [(CI + 'polygon.h', '          (v2[1] <= a[1] && a[1] < v1[1]))', '          (v2[1] < a[1] && a[1] <= v1[1]))')],
         'a point exactly level with a vertex of the outline',
         'edges going down are closed at the other end: a vertex counts twice or not at all', CI + 'costmap_3d.h', r'''
int main()
{
  costmap_cspace::Polygon p;
  const float c[5][2] = {{2, 0}, {0, 2}, {-2, 0}, {0, -2}, {2, 0}};
  for (const auto& q : c)
  {
    costmap_cspace::Vec v;
    v[0] = q[0];
    v[1] = q[1];
    p.v.push_back(v);
  }
  costmap_cspace::Vec a;
  for (int x = -5; x <= 5; ++x)
    for (int y = -5; y <= 5; ++y)
    {
      if (std::abs(x) + std::abs(y) == 4)
        continue;
      a[0] = x * 0.5;
      a[1] = y * 0.5;
      CHECK(p.inside(a) == (std::abs(x) + std::abs(y) < 4));
    }
}
'''),
    node('c02-graded-neighbours', 'C02', [(CI + 'costmap_3d_layer/footprint.h', '(gx == 0 || (*(ptr - 1) >= *ptr)) ? 0', '(gx == 0 || (*(ptr - 1) > 0)) ? 0')],
         'a map with cells of different cost side by side, the cheaper one on the left',
         'an occupied cell is not spread to the left of a cheaper neighbour: costs near it are too low', 'costmap_cspace/include/costmap_cspace/costmap_3d.h', r'''
using namespace costmap_cspace;
int main()
{
  Costmap3dLayerFootprint l;
  l.setAngleResolution(4);
  l.setExpansion(0.3, 0.4);
  Polygon p;
  const float c[4][2] = {{0.15, 0.15}, {-0.15, 0.15}, {0, -0.15}, {0.15, 0.15}};
  for (const auto& q : c)
  {
    Vec v;
    v[0] = q[0];
    v[1] = q[1];
    p.v.push_back(v);
  }
  l.setFootprint(p);
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->info.width = m->info.height = 31;
  m->info.resolution = 0.1;
  m->info.origin.orientation.w = 1;
  m->data.resize(31 * 31, 0);
  m->data[15 * 31 + 14] = 20;
  m->data[15 * 31 + 15] = 100;
  l.setBaseMap(m);
  const int r = l.getRangeMax();
  for (int yaw = 0; yaw < 4; ++yaw)
    for (int y = -r; y <= r; ++y)
      for (int x = -r; x <= r; ++x)
        CHECK(l.getMap()->getCost(15 + x, 15 + y, yaw) >= l.getTemplate().e(x, y, yaw));
}
'''),
    node('c03-union-down', 'C03', [(CI + 'costmap_3d_layer/base.h', '    int y2 = y_ + height_;\n', ''), (CI + 'costmap_3d_layer/base.h', '    if (region.y_ < y_)\n      y_ = region.y_;\n', '    if (region.y_ < y_)\n      y_ = region.y_;\n    int y2 = y_ + height_;\n')],
         'a region united with one that starts below it and ends before it does',
         'the far end of the first region is lost: its cells are neither redrawn nor published', 'costmap_cspace/include/costmap_cspace/costmap_3d.h', r'''
using namespace costmap_cspace;
int main()
{
  for (int i = 0; i < 6 * 6 * 6 * 6; ++i)
  {
    const int ax = i % 6, aw = i / 6 % 6 + 1, bx = i / 36 % 6, bw = i / 216 + 1;
    UpdatedRegion a(1, ax, 0, 2, aw, 4, ros::Time(1)), b(2, bx, 0, 3, bw, 4, ros::Time(2));
    a.merge(b);
    CHECK(a.y_ == std::min(ax, bx) && a.y_ + a.height_ == std::max(ax + aw, bx + bw));
    CHECK(a.x_ == 1 && a.width_ == 4 && a.stamp_ == ros::Time(2));
  }
}
'''),
]
