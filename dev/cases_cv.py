A='costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h'
P='costmap_cspace/src/pointcloud2_to_map.cpp'
L='costmap_cspace/src/laserscan_to_map.cpp'
K=['C04']
LOOP="""    for (auto it = points_.begin(); it != points_.end();)
    {
      if (it->stamp_ + time_to_hold_ < points.stamp_)
      {
        it = points_.erase(it);
        continue;
      }
      break;
    }
"""
MARK="""          if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
            continue;
"""
CASES=[
# accumulator
('acc-skip','bug',A,"it != points_.end();)","it != points_.end(); ++it)",K),
('acc-none','bug',A,LOOP,"",K),
('acc-one','bug',A,"        it = points_.erase(it);\n        continue;","        it = points_.erase(it);\n        break;",K),
('acc-le','bug',A,"it->stamp_ + time_to_hold_ < points.stamp_","it->stamp_ + time_to_hold_ <= points.stamp_",K),
('acc-rev','bug',A,"it->stamp_ + time_to_hold_ < points.stamp_","points.stamp_ + time_to_hold_ < it->stamp_",K),
('acc-nohold','bug',A,"it->stamp_ + time_to_hold_ < points.stamp_","it->stamp_ < points.stamp_",K),
('acc-front','bug',A,"    points_.push_back(points);\n  }\n\n  typename","    if (points_.empty())\n      points_.push_back(points);\n  }\n\n  typename",K),
('acc-clear','bug',A,"    points_.push_back(points);\n  }\n\n  typename","    if (time_to_hold_.isZero())\n      points_.clear();\n    points_.push_back(points);\n  }\n\n  typename",K),
('acc-reset-noclear','bug',A,"    time_to_hold_ = duration;\n    clear();","    time_to_hold_ = duration;",K),
('acc-reset-nohold','bug',A,"    time_to_hold_ = duration;\n    clear();","    clear();",K),
('acc-popback','bug',A,LOOP,"    while (!points_.empty() && points_.front().stamp_ + time_to_hold_ < points.stamp_)\n      points_.pop_back();\n",K),
('acc-ok-while','ok',A,LOOP,"    while (!points_.empty() && points_.front().stamp_ + time_to_hold_ < points.stamp_)\n      points_.pop_front();\n",K),
('acc-pop-if','bug',A,LOOP,"    if (!points_.empty() && points_.front().stamp_ + time_to_hold_ < points.stamp_)\n      points_.pop_front();\n",K),
('acc-ok-removeif','ok',A,LOOP,"    const ros::Duration hold = time_to_hold_;\n    points_.remove_if([&](const Points& p) { return p.stamp_ + hold < points.stamp_; });\n",K),
('acc-removeif-bug','bug',A,LOOP,"    const ros::Duration hold = time_to_hold_;\n    points_.remove_if([&](const Points& p) { return p.stamp_ - hold < points.stamp_; });\n",K),
('acc-ok-full','ok',A,LOOP,LOOP.replace("      break;\n","      ++it;\n"),K),
('acc-ok-else','ok',A,LOOP,"    auto it = points_.begin();\n    while (it != points_.end())\n    {\n      if (it->stamp_ + time_to_hold_ >= points.stamp_)\n        break;\n      it = points_.erase(it);\n    }\n",K),
('acc-ok-helper','ok',A,["  void push(const Points& points)\n  {\n"+LOOP],["  void discard(const ros::Time& now)\n  {\n    auto it = points_.begin();\n    while (it != points_.end() && it->stamp_ + time_to_hold_ < now)\n      it = points_.erase(it);\n  }\n  void push(const Points& points)\n  {\n    discard(points.stamp_);\n"],K),
('acc-begin1','bug',A,"auto it = points_.begin(); it != points_.end();)","auto it = points_.empty() ? points_.begin() : ++points_.begin(); it != points_.end();)",K),
# clouds
('pc-noreturn','bug',P,"      ROS_WARN(\"%s\", e.what());\n      return;\n    }\n    tf2::doTransform","      ROS_WARN(\"%s\", e.what());\n    }\n    tf2::doTransform",K),
('pc-noreturn2','bug',P,"      ROS_WARN(\"%s\", e.what());\n      return;\n    }\n    for","      ROS_WARN(\"%s\", e.what());\n    }\n    for",K),
('pc-swapbuf','bug',P,"singleshot ? 1 : 0","singleshot ? 0 : 1",K),
('pc-onebuf','bug',P,"singleshot ? 1 : 0","0",K),
('pc-hold','bug',P,"accums_[1].reset(ros::Duration(0.0))","accums_[1].reset(ros::Duration(accum_duration))",K),
('pc-noreset','bug',P,"    accums_[0].reset(ros::Duration(accum_duration));\n","",K),
('pc-time0','bug',P,"                                     cloud->header.stamp, ros::Duration(0.5));","                                     ros::Time(0), ros::Duration(0.5));",K),
('pc-frame','bug',P,"lookupTransform(global_frame_, cloud->header.frame_id","lookupTransform(robot_frame_, cloud->header.frame_id",K),
('pc-untransformed','bug',P,"        cloud_global, cloud_global.header.stamp));","        *cloud, cloud_global.header.stamp));",K),
('pc-now','bug',P,"        cloud_global, cloud_global.header.stamp));","        cloud_global, ros::Time::now()));",K),
('pc-rate-first','bug',P,"""    const int buffer""","""    if (published_ + publish_interval_ > cloud->header.stamp)
      return;
    const int buffer""",K),
('pc-rate-off','bug',P,"    published_ = now;\n","",K),
('pc-rate-inv','bug',P,"if (published_ + publish_interval_ > now)","if (published_ + publish_interval_ < now)",K),
('pc-rate-late','bug',P,["    published_ = now;\n","    for (auto& cell : map_.data)"],["","    published_ = now + publish_interval_;\n    for (auto& cell : map_.data)"],K),
('pc-rate-singleshot','bug',P,"if (published_ + publish_interval_ > now)","if (!singleshot && published_ + publish_interval_ > now)",K),
('pc-hz','bug',P,"publish_interval_ = ros::Duration(1.0 / hz)","publish_interval_ = ros::Duration(hz)",K),
('pc-noclear','bug',P,"    for (auto& cell : map_.data)\n      cell = 0;\n","",K),
('pc-clear-unknown','bug',P,"      cell = 0;","      cell = -1;",K),
('pc-clear-part','bug',P,"    for (auto& cell : map_.data)\n      cell = 0;\n","    for (size_t i = 0; i + 1 < map_.data.size(); ++i)\n      map_.data[i] = 0;\n",K),
('pc-ok-clear-index','ok',P,"    for (auto& cell : map_.data)\n      cell = 0;\n","    for (size_t i = 0; i < map_.data.size(); ++i)\n      map_.data[i] = 0;\n",K),
('pc-ok-clear-assign','ok',P,"    for (auto& cell : map_.data)\n      cell = 0;\n","    map_.data.assign(map_.info.width * map_.info.height, 0);\n",K),
('pc-ok-clear-fill','ok',P,["#include <cmath>\n","    for (auto& cell : map_.data)\n      cell = 0;\n"],["#include <algorithm>\n#include <cmath>\n","    std::fill(map_.data.begin(), map_.data.end(), 0);\n"],K),
('pc-fill-part','bug',P,["#include <cmath>\n","    for (auto& cell : map_.data)\n      cell = 0;\n"],["#include <algorithm>\n#include <cmath>\n","    std::fill(map_.data.begin(), map_.data.begin() + width_, 0);\n"],K),
('pc-clear-late','bug',P,["    for (auto& cell : map_.data)\n      cell = 0;\n","    pub_map_.publish(map_);"],["","    pub_map_.publish(map_);\n    for (auto& cell : map_.data)\n      cell = 0;"],K),
('pc-noz','bug',P,"++iter_x, ++iter_y, ++iter_z","++iter_x, ++iter_y",K),
('pc-band-abs','bug',P,"*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z","*iter_z < z_min_ || z_max_ < *iter_z",K),
('pc-band-half','bug',P,"*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z","*iter_z - robot_z < z_min_ || z_max_ < *iter_z",K),
('pc-band-and','bug',P,"*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z","*iter_z - robot_z < z_min_ && z_max_ < *iter_z - robot_z",K),
('pc-band-break','bug',P,MARK,MARK.replace("continue","break"),K),
('pc-zmax-param','bug',P,'"z_max", z_max_, 1.0','"z_max", z_min_, 1.0',K),
('pc-trunc','bug',P,"static_cast<int>(std::floor(\n              (*iter_x - map_.info.origin.position.x) / map_.info.resolution))","static_cast<int>(\n              (*iter_x - map_.info.origin.position.x) / map_.info.resolution)",K),
('pc-swapxy','bug',P,"map_.data[x + y * map_.info.width] = 100","map_.data[y + x * map_.info.width] = 100",K),
('pc-inside-or','bug',P,"x >= map_.info.width || y >= map_.info.height","x > map_.info.width || y >= map_.info.height",K),
('pc-inside-break','bug',P,"          if (x >= map_.info.width || y >= map_.info.height)\n            continue;","          if (x >= map_.info.width || y >= map_.info.height)\n            break;",K),
('pc-mark1','bug',P,"= 100;","= 1;",K),
('pc-first-accum','bug',P,"    for (auto& accum : accums_)\n    {\n","    {\n      auto& accum = accums_[buffer];\n",K),
('pc-latest-only','bug',P,"      for (auto& pc : accum)\n      {\n","      for (auto it = accum.begin(); it != accum.end(); ++it)\n      {\n        auto& pc = *it;\n        if (pc.stamp_ != cloud_global.header.stamp)\n          continue;\n",K),
('pc-ok-listit','ok',P,"      for (auto& pc : accum)\n      {\n","      for (auto it = accum.begin(); it != accum.end(); ++it)\n      {\n        auto& pc = *it;\n",K),
('pc-ok-positive','ok',P,[MARK,"          if (x >= map_.info.width || y >= map_.info.height)\n            continue;\n          map_.data[x + y * map_.info.width] = 100;"],["          const float dz = *iter_z - robot_z;\n          if (!(z_min_ <= dz && dz <= z_max_))\n            continue;\n","          if (x < map_.info.width && y < map_.info.height)\n            map_.data[y * map_.info.width + x] = 100;"],K),
('pc-ok-signed','ok',P,["unsigned int x =","unsigned int y =","x >= map_.info.width || y >= map_.info.height"],["const int x =","const int y =","x < 0 || y < 0 || x >= static_cast<int>(map_.info.width) || y >= static_cast<int>(map_.info.height)"],K),
('pc-signed-noneg','bug',P,["unsigned int x =","unsigned int y =","x >= map_.info.width || y >= map_.info.height"],["const int x =","const int y =","x < 0 || x >= static_cast<int>(map_.info.width) || y >= static_cast<int>(map_.info.height)"],K),
('pc-center','bug',P,"map_.info.origin.position.x = x - map_.info.width * map_.info.resolution * 0.5;","map_.info.origin.position.x = x;",K),
('pc-center-y','bug',P,"map_.info.origin.position.y = y - map_.info.height * map_.info.resolution * 0.5;","map_.info.origin.position.y = x - map_.info.height * map_.info.resolution * 0.5;",K),
('pc-center-nores','bug',P,"map_.info.origin.position.x = x - map_.info.width * map_.info.resolution * 0.5;","map_.info.origin.position.x = x - map_.info.width * 0.5;",K),
('pc-ok-origin','ok',P,["map_.info.origin.position.x = x - map_.info.width * map_.info.resolution * 0.5;"],["map_.info.origin.position.x = x - width_ * map_.info.resolution / 2.0;"],K),
('pc-ok-floorpos','ok',P,"float x = static_cast<int>(pos.x() / map_.info.resolution)","float x = static_cast<int>(std::floor(pos.x() / map_.info.resolution))",K),
('pc-robotframe','bug',P,"lookupTransform(global_frame_, robot_frame_, ros::Time(0))","lookupTransform(robot_frame_, global_frame_, ros::Time(0))",K),
('pc-posx','bug',P,"float y = static_cast<int>(pos.y()","float y = static_cast<int>(pos.x()",K),
('pc-quat','bug',P,"      map_.info.origin.orientation.w = 1.0;\n","",K),
('pc-size','bug',P,"map_.data.resize(map_.info.width * map_.info.height)","map_.data.resize(map_.info.width + map_.info.height)",K),
('pc-resol','bug',P,"    map_.info.resolution = resolution;\n","",K),
('pc-frameid','bug',P,"map_.header.frame_id = global_frame_","map_.header.frame_id = robot_frame_",K),
('pc-bind','bug',P,"cbCloud, this, _1, true","cbCloud, this, _1, false",K),
('pc-ok-helper','ok',P,["private:\n  void cbCloud","          if (x >= map_.info.width || y >= map_.info.height)\n            continue;\n          map_.data[x + y * map_.info.width] = 100;"],["private:\n  void mark(const unsigned int x, const unsigned int y)\n  {\n    if (x >= map_.info.width || y >= map_.info.height)\n      return;\n    map_.data[x + y * map_.info.width] = 100;\n  }\n  void cbCloud","          mark(x, y);"],K),
('pc-ok-trans','ok',P,"      auto pos = trans.getOrigin();","      const auto pos = trans.getOrigin();",K),
('pc-ok-geom','ok',P,["""      tf2::Stamped<tf2::Transform> trans;
      tf2::fromMsg(tfbuf_.lookupTransform(global_frame_, robot_frame_, ros::Time(0)), trans);

      auto pos = trans.getOrigin();""","pos.x()","pos.y()","pos.z()"],["""      const geometry_msgs::TransformStamped robot = tfbuf_.lookupTransform(global_frame_, robot_frame_, ros::Time(0));
      const auto& pos = robot.transform.translation;""","pos.x","pos.y","pos.z"],K),
('pc-ok-rate','ok',P,"    if (published_ + publish_interval_ > now)\n      return;","    if (now - published_ < publish_interval_)\n      return;",K),
('pc-ok-ifbuf','ok',P,["    const int buffer = singleshot ? 1 : 0;\n    accums_[buffer].push(costmap_cspace::PointcloudAccumulator<sensor_msgs::PointCloud2>::Points(\n        cloud_global, cloud_global.header.stamp));"],["    const costmap_cspace::PointcloudAccumulator<sensor_msgs::PointCloud2>::Points pts(cloud_global, cloud_global.header.stamp);\n    if (singleshot)\n      accums_[1].push(pts);\n    else\n      accums_[0].push(pts);"],K),
# laser
('ls-noreturn','bug',L,"      ROS_WARN(\"%s\", e.what());\n      return;\n    }\n    accum","      ROS_WARN(\"%s\", e.what());\n    }\n    accum",K),
('ls-noz','bug',L,"++itr_x, ++itr_y, ++itr_z","++itr_x, ++itr_y",K),
('ls-noy','bug',L,"++itr_x, ++itr_y, ++itr_z","++itr_x, ++itr_z",K),
('ls-yfield','bug',L,'(pc, "y")','(pc, "x")',K),
('ls-projlate','bug',L,"    projector_.projectLaser(*scan, cloud);\n    try","    try",K),
('ls-rz','bug',L,"robot_z = pos.z();","robot_z = pos.y();",K),
('ls-accparam','bug',L,"accum_.reset(ros::Duration(accum_duration));","accum_.reset(ros::Duration(1.0));",K),
('ls-height','bug',L,"map.info.height = height_;","map.info.height = 30;",K),
('ls-return-empty','bug',L,"      auto itr_x =","      if (pc.width == 0)\n        return;\n      auto itr_x =",K),
('ls-ok-return','ok',L,"    ros::Time now = scan->header.stamp;","    const ros::Time now(scan->header.stamp);",K),
('ls-ok-while','ok',L,["      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)\n      {"],["      const auto end = itr_x.end();\n      for (; itr_x != end; ++itr_x, ++itr_y, ++itr_z)\n      {"],K),
]
