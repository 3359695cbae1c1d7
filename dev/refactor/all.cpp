// a unit that sees every header, for the lister of edits
#include <costmap_cspace/costmap_3d_layer/base.h>
#include <costmap_cspace/costmap_3d_layer/unknown_handle.h>
#include <costmap_cspace/costmap_3d_layer/stop_propagation.h>
#include <costmap_cspace/costmap_3d_layer/class_loader.h>
#include <costmap_cspace/costmap_3d_layer/plain.h>
#include <costmap_cspace/costmap_3d_layer/output.h>
#include <costmap_cspace/costmap_3d_layer/footprint.h>
#include <costmap_cspace/costmap_3d.h>
#include <costmap_cspace/pointcloud_accumulator.h>
#include <costmap_cspace/polygon.h>
#include <costmap_cspace/cspace3_cache.h>
#include <neonavigation_common/compatibility.h>
#include <planner_cspace/planner_3d/distance_map.h>
#include <planner_cspace/planner_3d/motion_cache.h>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/start_pose_predictor.h>
#include <planner_cspace/planner_3d/temporary_escape.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/planner_3d/rotation_cache.h>
#include <planner_cspace/planner_3d/pose_status.h>
#include <planner_cspace/jump_detector.h>
#include <planner_cspace/grid_astar_model.h>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/bbf.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/reservable_priority_queue.h>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include <track_odometry/kalman_filter1.h>
#include <track_odometry/tf_projection.h>
#include <trajectory_tracker/average.h>
#include <trajectory_tracker/filter.h>
#include <trajectory_tracker/path2d.h>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/eigen_line.h>
#include "/verif/harness/astar.cpp"
#include "/verif/harness/bbf.cpp"
#include "/verif/harness/ctl.cpp"
#include "/verif/harness/grid.cpp"
#include "/verif/harness/kalman.cpp"
#include "/verif/harness/vec.cpp"
