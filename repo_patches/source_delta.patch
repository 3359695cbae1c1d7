From 3090c454d824eef79648cda9a838f2d4fce78fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 01/12] fix: synchronise the best-so-far candidate between
 search threads

---
 planner_cspace/include/planner_cspace/grid_astar.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..d65b6a4 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -306,11 +306,14 @@ protected:
           if (c > gp)
             continue;
 
-          if (c_estim - c < cost_estim_min)
+#pragma omp critical
           {
-            cost_estim_min = c_estim - c;
-            better = p;
-          }
+            if (c_estim - c < cost_estim_min)
+            {
+              cost_estim_min = c_estim - c;
+              better = p;
+            }
+          }  // omp critical
 
           const std::vector<Vec> search_list = model->searchGrids(p, ss_normalized, e);
 
-- 
2.43.0


From 0db8a76b6fb773646c01030c6974b803e61b7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 02/12] fix: write the negative cost flag atomically in the
 parallel distance map update

---
 planner_cspace/src/distance_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index e4bcb55..c4372ba 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -149,6 +149,7 @@ void DistanceMap::fillCostmap(
             if (cost < 0)
             {
               cost = 0;
+#pragma omp atomic write
               debug_data_.has_negative_cost = true;
             }
           }
-- 
2.43.0


From 72df8831b288db9f67da07a6d4bc9be1c43303ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 03/12] fix: keep the accumulated cloud of safety_limiter in
 the fixed frame on prediction

---
 safety_limiter/src/safety_limiter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..0e29538 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,13 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    // cloud_accum_ must be kept in the fixed frame since it may be used by the next prediction
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From 0e6d3a5646c4a270219cf522c5209b6a9e68a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 04/12] fix: stamp costmap updates with the time of their own
 region

---
 costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
index a11271e..65cf493 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
@@ -111,8 +111,8 @@ protected:
   costmap_cspace_msgs::CSpace3DUpdate::Ptr generateUpdateMsg()
   {
     costmap_cspace_msgs::CSpace3DUpdate::Ptr update_msg(new costmap_cspace_msgs::CSpace3DUpdate);
-    update_msg->header = map_->header;
     map_->header.stamp = region_.stamp_;
+    update_msg->header = map_->header;
 
     UpdatedRegion region = region_;
     region.normalize(map_->info.width, map_->info.height);
-- 
2.43.0


From fde74e492994c61a9c126f7d6053cd1235e3fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 05/12] fix: discard every expired cloud in
 PointcloudAccumulator

erase() already returns the next element; incrementing it again skipped
every other expired cloud and could step beyond the end of the list.
---
 costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..4728896 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,7 +74,7 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    for (auto it = points_.begin(); it != points_.end();)
     {
       if (it->stamp_ + time_to_hold_ < points.stamp_)
       {
-- 
2.43.0


From c1b5d460057289f27ad62f364384192caf691983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 06/12] fix: advance the height with the point in
 laserscan_to_map

The height of the first point was used for the height band of all points.
---
 costmap_cspace/src/laserscan_to_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index ed8f77e..b033d9a 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -160,7 +160,7 @@ private:
       auto itr_x = sensor_msgs::PointCloud2ConstIterator<float>(pc, "x");
       auto itr_y = sensor_msgs::PointCloud2ConstIterator<float>(pc, "y");
       auto itr_z = sensor_msgs::PointCloud2ConstIterator<float>(pc, "z");
-      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y)
+      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-- 
2.43.0


From 0255a1e4a3693e8e3a9377af29819681f9b39046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 07/12] fix: drop scans without transform in laserscan_to_map

An empty cloud without fields was accumulated, and the iterators over its
points throw.
---
 costmap_cspace/src/laserscan_to_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index b033d9a..df1c9b7 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -121,6 +121,7 @@ private:
     catch (tf2::TransformException& e)
     {
       ROS_WARN("%s", e.what());
+      return;
     }
     accum_.push(costmap_cspace::PointcloudAccumurator<sensor_msgs::PointCloud2>::Points(
         cloud_global, cloud_global.header.stamp));
-- 
2.43.0


From 205b429534a625eebb86b8b7019a213e770be457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 08/12] fix: round the cell of a point down in the map
 converters

Points up to one cell beyond the lower borders of the window were marked
in the border cells.
---
 costmap_cspace/src/laserscan_to_map.cpp   | 9 +++++----
 costmap_cspace/src/pointcloud2_to_map.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index df1c9b7..2088018 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -36,6 +36,7 @@
 #include <tf2_ros/transform_listener.h>
 #include <tf2_sensor_msgs/tf2_sensor_msgs.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 
@@ -165,10 +166,10 @@ private:
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-        unsigned int x = int(
-            (*itr_x - map.info.origin.position.x) / map.info.resolution);
-        unsigned int y = int(
-            (*itr_y - map.info.origin.position.y) / map.info.resolution);
+        unsigned int x = static_cast<int>(std::floor(
+            (*itr_x - map.info.origin.position.x) / map.info.resolution));
+        unsigned int y = static_cast<int>(std::floor(
+            (*itr_y - map.info.origin.position.y) / map.info.resolution));
         if (x >= map.info.width || y >= map.info.height)
           continue;
         map.data[x + y * map.info.width] = 100;
diff --git a/costmap_cspace/src/pointcloud2_to_map.cpp b/costmap_cspace/src/pointcloud2_to_map.cpp
index 2d4ec5c..c9e390c 100644
--- a/costmap_cspace/src/pointcloud2_to_map.cpp
+++ b/costmap_cspace/src/pointcloud2_to_map.cpp
@@ -35,6 +35,7 @@
 #include <nav_msgs/OccupancyGrid.h>
 #include <sensor_msgs/PointCloud2.h>
 
+#include <cmath>
 #include <string>
 #include <vector>
 
@@ -174,10 +175,10 @@ private:
         {
           if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
             continue;
-          unsigned int x = int(
-              (*iter_x - map_.info.origin.position.x) / map_.info.resolution);
-          unsigned int y = int(
-              (*iter_y - map_.info.origin.position.y) / map_.info.resolution);
+          unsigned int x = static_cast<int>(std::floor(
+              (*iter_x - map_.info.origin.position.x) / map_.info.resolution));
+          unsigned int y = static_cast<int>(std::floor(
+              (*iter_y - map_.info.origin.position.y) / map_.info.resolution));
           if (x >= map_.info.width || y >= map_.info.height)
             continue;
           map_.data[x + y * map_.info.width] = 100;
-- 
2.43.0


From 761643b43794ca8bba0f1f8ba45eb03691efa697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:07 +0000
Subject: [PATCH 09/12] fix: planner_3d: do not plan on the distance map of the
 previous goal

createCostEstimCache() left cost_estim_cache_created_ set when the goal
arrived while the start pose or the map was not available, so the next
cycle planned with the distance map of the old goal.
---
 planner_cspace/src/planner_3d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8c83251..e1b3417 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -559,6 +559,9 @@ protected:
     if (!has_goal_)
       return true;
 
+    // The current distance map is not for this goal
+    cost_estim_cache_created_ = false;
+
     if (!has_map_ || !has_start_)
     {
       ROS_ERROR("Goal received, however map/goal/start are not ready. (%d/%d/%d)",
@@ -566,7 +569,6 @@ protected:
       return true;
     }
 
-    cost_estim_cache_created_ = false;
     is_start_occupied_ = false;
 
     Astar::Vec s = metric2Grid(start_.pose);
-- 
2.43.0


From e75fe889fb65cade620c84809f9e3e1be651e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:21 +0000
Subject: [PATCH 10/12] fix: planner_3d: don't update a distance map that was
 not created for the goal

With fast_map_update, applyCostmapUpdate looked up the goal cell and updated
the distance map even if createCostEstimCache had not accepted the goal
(e.g. the goal is out of the new map): the lookup is out of bounds.
---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index e1b3417..06b1cc8 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -926,7 +926,7 @@ protected:
 
     const Astar::Vec e = metric2Grid(goal_.pose);
 
-    if (cm_[e] == 100)
+    if (!cost_estim_cache_created_ || cm_[e] == 100)
     {
       createCostEstimCache(false);
       return;
-- 
2.43.0


From 5116ff4469f9acbb1c41506c3561c3a16104d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:11 +0000
Subject: [PATCH 11/12] fix: look for a temporary escape goal around the robot,
 not around the origin of the map

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 06b1cc8..52fa3c2 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2116,7 +2116,7 @@ protected:
     if (!enable_crowd_mode_)
     {
       // Just find available (not occupied) pose
-      Astar::Vec te;
+      Astar::Vec te(start_grid);
       if (!searchAvailablePos(cm_, te, esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_))
       {
         ROS_WARN("No valid temporary escape goal");
-- 
2.43.0


From a35ebc369f045b725ac6fa2f5f8d98f5c1f77340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:18 +0000
Subject: [PATCH 12/12] fix: recompute the distance map after the robot or the
 goal was out of the map

---
 planner_cspace/src/distance_map.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index c4372ba..d97b7b6 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -284,6 +284,7 @@ void DistanceMap::update(
   if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
   {
     // Out of the map
+    goal_ = Astar::Vec(-1, -1, -1);
     return;
   }
 
@@ -363,6 +364,7 @@ void DistanceMap::create(const Astar::Vec& s, const Astar::Vec& e)
   if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
   {
     // Out of the map
+    goal_ = Astar::Vec(-1, -1, -1);
     return;
   }
 
-- 
2.43.0

