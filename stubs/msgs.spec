# <pkg>/<Name> : fields  (type name[;]) ; constants  NAME=val type prefix "const"
std_msgs/Header: uint32 seq; time stamp; string frame_id
std_msgs/Bool: uint8 data
std_msgs/Empty:
std_msgs/Float32: float32 data
std_msgs/Int32: int32 data
std_msgs/String: string data
geometry_msgs/Point: float64 x; float64 y; float64 z
geometry_msgs/Point32: float32 x; float32 y; float32 z
geometry_msgs/Vector3: float64 x; float64 y; float64 z
geometry_msgs/Quaternion: float64 x; float64 y; float64 z; float64 w
geometry_msgs/Pose: geometry_msgs/Point position; geometry_msgs/Quaternion orientation
geometry_msgs/PoseStamped: std_msgs/Header header; geometry_msgs/Pose pose
geometry_msgs/PointStamped: std_msgs/Header header; geometry_msgs/Point point
geometry_msgs/PoseArray: std_msgs/Header header; geometry_msgs/Pose[] poses
geometry_msgs/PoseWithCovariance: geometry_msgs/Pose pose; float64[36] covariance
geometry_msgs/PoseWithCovarianceStamped: std_msgs/Header header; geometry_msgs/PoseWithCovariance pose
geometry_msgs/Transform: geometry_msgs/Vector3 translation; geometry_msgs/Quaternion rotation
geometry_msgs/TransformStamped: std_msgs/Header header; string child_frame_id; geometry_msgs/Transform transform
geometry_msgs/Twist: geometry_msgs/Vector3 linear; geometry_msgs/Vector3 angular
geometry_msgs/TwistStamped: std_msgs/Header header; geometry_msgs/Twist twist
geometry_msgs/TwistWithCovariance: geometry_msgs/Twist twist; float64[36] covariance
geometry_msgs/Polygon: geometry_msgs/Point32[] points
geometry_msgs/PolygonStamped: std_msgs/Header header; geometry_msgs/Polygon polygon
geometry_msgs/Vector3Stamped: std_msgs/Header header; geometry_msgs/Vector3 vector
geometry_msgs/QuaternionStamped: std_msgs/Header header; geometry_msgs/Quaternion quaternion
nav_msgs/MapMetaData: time map_load_time; float32 resolution; uint32 width; uint32 height; geometry_msgs/Pose origin
nav_msgs/OccupancyGrid: std_msgs/Header header; nav_msgs/MapMetaData info; int8[] data
nav_msgs/Path: std_msgs/Header header; geometry_msgs/PoseStamped[] poses
nav_msgs/Odometry: std_msgs/Header header; string child_frame_id; geometry_msgs/PoseWithCovariance pose; geometry_msgs/TwistWithCovariance twist
nav_msgs/GetMapRequest:
nav_msgs/GetMapResponse: nav_msgs/OccupancyGrid map
nav_msgs/GetPlanRequest: geometry_msgs/PoseStamped start; geometry_msgs/PoseStamped goal; float32 tolerance
nav_msgs/GetPlanResponse: nav_msgs/Path plan
srv nav_msgs/GetMap
srv nav_msgs/GetPlan
std_srvs/EmptyRequest:
std_srvs/EmptyResponse:
srv std_srvs/Empty
sensor_msgs/ChannelFloat32: string name; float32[] values
sensor_msgs/PointCloud: std_msgs/Header header; geometry_msgs/Point32[] points; sensor_msgs/ChannelFloat32[] channels
sensor_msgs/PointField: string name; uint32 offset; uint8 datatype; uint32 count; const uint8 FLOAT32=7
sensor_msgs/PointCloud2: std_msgs/Header header; uint32 height; uint32 width; sensor_msgs/PointField[] fields; uint8 is_bigendian; uint32 point_step; uint32 row_step; uint8[] data; uint8 is_dense
sensor_msgs/LaserScan: std_msgs/Header header; float32 angle_min; float32 angle_max; float32 angle_increment; float32 time_increment; float32 scan_time; float32 range_min; float32 range_max; float32[] ranges; float32[] intensities
sensor_msgs/Joy: std_msgs/Header header; float32[] axes; int32[] buttons
sensor_msgs/JointState: std_msgs/Header header; string[] name; float64[] position; float64[] velocity; float64[] effort
sensor_msgs/Imu: std_msgs/Header header; geometry_msgs/Quaternion orientation; float64[9] orientation_covariance; geometry_msgs/Vector3 angular_velocity; float64[9] angular_velocity_covariance; geometry_msgs/Vector3 linear_acceleration; float64[9] linear_acceleration_covariance
trajectory_msgs/JointTrajectoryPoint: float64[] positions; float64[] velocities; float64[] accelerations; float64[] effort; duration time_from_start
trajectory_msgs/JointTrajectory: std_msgs/Header header; string[] joint_names; trajectory_msgs/JointTrajectoryPoint[] points
costmap_cspace_msgs/MapMetaData3D: time map_load_time; uint32 width; uint32 height; uint32 angle; float32 linear_resolution; float32 angular_resolution; geometry_msgs/Pose origin
costmap_cspace_msgs/CSpace3D: std_msgs/Header header; costmap_cspace_msgs/MapMetaData3D info; int8[] data
costmap_cspace_msgs/CSpace3DUpdate: std_msgs/Header header; uint32 x; uint32 y; uint32 yaw; uint32 width; uint32 height; uint32 angle; int8[] data
planner_cspace_msgs/PlannerStatus: std_msgs/Header header; uint8 status; uint8 error; const uint8 DONE=0; const uint8 DOING=1; const uint8 FINISHING=2; const uint8 GOING_WELL=0; const uint8 IN_ROCK=1; const uint8 PATH_NOT_FOUND=2; const uint8 DATA_MISSING=3; const uint8 INTERNAL_ERROR=4; const uint8 OUT_OF_MAP=5
planner_cspace_msgs/MoveWithToleranceGoal: geometry_msgs/PoseStamped target_pose; float32 goal_tolerance_lin; float32 goal_tolerance_ang; float32 goal_tolerance_ang_finish; uint8 continuous_movement_mode
planner_cspace_msgs/MoveWithToleranceResult:
planner_cspace_msgs/MoveWithToleranceFeedback: geometry_msgs/PoseStamped base_position
act planner_cspace_msgs/MoveWithTolerance
move_base_msgs/MoveBaseGoal: geometry_msgs/PoseStamped target_pose
move_base_msgs/MoveBaseResult:
move_base_msgs/MoveBaseFeedback: geometry_msgs/PoseStamped base_position
act move_base_msgs/MoveBase
trajectory_tracker_msgs/PoseStampedWithVelocity: std_msgs/Header header; geometry_msgs/Pose pose; geometry_msgs/Vector3 linear_velocity
trajectory_tracker_msgs/PathWithVelocity: std_msgs/Header header; trajectory_tracker_msgs/PoseStampedWithVelocity[] poses
trajectory_tracker_msgs/TrajectoryTrackerStatus: std_msgs/Header header; float64 distance_remains; float64 angle_remains; int32 status; std_msgs/Header path_header; const int32 NO_PATH=0; const int32 FAR_FROM_PATH=1; const int32 FOLLOWING=2; const int32 GOAL=3
trajectory_tracker_msgs/TrajectoryServerStatus: std_msgs/Header header; string filename; uint32 id
trajectory_tracker_msgs/ChangePathRequest: string filename; uint32 id
trajectory_tracker_msgs/ChangePathResponse: uint8 success
srv trajectory_tracker_msgs/ChangePath
safety_limiter_msgs/SafetyLimiterStatus: std_msgs/Header header; float32 limit_ratio; uint8 is_cloud_available; uint8 has_watchdog_timed_out; time stuck_started_since
map_organizer_msgs/OccupancyGridArray: nav_msgs/OccupancyGrid[] maps
neonavigation_metrics_msgs/Metric: time stamp; string name; float64 value; string unit; string[] tags
neonavigation_metrics_msgs/Metrics: std_msgs/Header header; neonavigation_metrics_msgs/Metric[] data
diagnostic_msgs/DiagnosticStatus: uint8 level; string name; string message; const uint8 OK=0; const uint8 WARN=1; const uint8 ERROR=2; const uint8 STALE=3
std_msgs/ColorRGBA: float32 r; float32 g; float32 b; float32 a
visualization_msgs/Marker: std_msgs/Header header; string ns; int32 id; int32 type; int32 action; geometry_msgs/Pose pose; geometry_msgs/Vector3 scale; std_msgs/ColorRGBA color; const uint8 ARROW=0; const uint8 SPHERE=2
visualization_msgs/MenuEntry: uint32 id; uint32 parent_id; string title; string command; uint8 command_type; const uint8 FEEDBACK=0
visualization_msgs/InteractiveMarkerControl: string name; geometry_msgs/Quaternion orientation; uint8 orientation_mode; uint8 interaction_mode; uint8 always_visible; visualization_msgs/Marker[] markers; const uint8 INHERIT=0; const uint8 MENU=2; const uint8 MOVE_ROTATE=6
visualization_msgs/InteractiveMarker: std_msgs/Header header; geometry_msgs/Pose pose; string name; string description; float32 scale; visualization_msgs/MenuEntry[] menu_entries; visualization_msgs/InteractiveMarkerControl[] controls
visualization_msgs/InteractiveMarkerUpdate: string server_id; uint64 seq_num; uint8 type; visualization_msgs/InteractiveMarker[] markers; const uint8 KEEP_ALIVE=0; const uint8 UPDATE=1
visualization_msgs/InteractiveMarkerFeedback: std_msgs/Header header; string client_id; string marker_name; string control_name; uint8 event_type; geometry_msgs/Pose pose; uint32 menu_entry_id; const uint8 KEEP_ALIVE=0; const uint8 POSE_UPDATE=1; const uint8 MENU_SELECT=2; const uint8 BUTTON_CLICK=3; const uint8 MOUSE_DOWN=4; const uint8 MOUSE_UP=5
