A = 'planner_cspace/include/planner_cspace/'
TESTS = 'The existing tests run a handful of fixed maps, sizes and goals; '

prop('P01', 'Graph search: sound and complete cost relaxation',
     'Whatever map, model, start set and goal the grid search is given, a cell\'s accumulated cost is only ever replaced by a strictly smaller one that equals the '
     'cost of the live queue entry being expanded plus the model\'s cost of one step the model offers from that cell, to a cell inside the map (cyclic axes wrapped), '
     'never over a step whose cost or estimate is negative or maximal. '
     'Start states enter wrapped, with their own cost and a priority of cost plus estimate. '
     'Every live fetched entry is expanded, every offered valid step that improves a cell is recorded, and a cell is closed only if its expansion recorded nothing.',
     ['inputs', 'schedules'], 'all grid contents, start sets, goals, cost models and numbers of worker threads',
     TESTS + 'they never enumerate models with negative or maximal costs on every axis combination.',
     [A + 'grid_astar.h'], [('searchImpl', A + 'grid_astar.h'), ('GridmapUpdate', A + 'grid_astar.h')],
     'guarded value-flow (gated SSA over the clang AST) with a linear-arithmetic entailment domain',
     'Every obligation is decided for all inputs of the analysed instantiations (2D and 3D search); float rounding, integer overflow and thread interleaving inside one round are not modelled (see P04 for the latter).')

prop('P02', 'Graph search: costs, predecessors and open list stay coupled',
     'Whenever the search lowers a cell\'s cost it also overwrites that cell\'s predecessor with the cell that was expanded and queues the cell with that cost and a priority of cost plus estimate, '
     'and it changes predecessors in no other case. The open list yields the smallest priority first; entries taken from its front are expanded or end the search, and other entries are dropped, '
     'from the back only, exclusively while a configured size limit is exceeded (there is none by default).',
     ['inputs', 'histories'], 'all searches with and without a queue limit',
     TESTS + 'a missed coupling only shows for cells that are improved twice or when the limit is hit.',
     [A + 'grid_astar.h', A + 'reservable_priority_queue.h'],
     [('searchImpl update application', A + 'grid_astar.h'), ('PriorityVec ordering', A + 'grid_astar.h'), ('reservable_priority_queue', A + 'reservable_priority_queue.h')],
     'guarded value-flow with equivalence of gating conditions', 'Decided for all inputs of the analysed instantiations; heap semantics of std::priority_queue are trusted.')

prop('P03', 'Graph search: fresh state, honest success, abort, path reconstruction',
     'Each search starts from cleared costs, predecessors and queue, fails for an empty start set or a start equal to the goal, stops expanding once the progress callback refuses, and otherwise gives up only when no entry is left. '
     'It succeeds only if the wrapped goal, or an entry whose remaining estimate is below the leave threshold, was taken from the queue; a partial path is handed out on failure only if best effort was requested. '
     'The path lists, goal last, the chain of recorded predecessors and is complete only when it ends at a start state; reconstruction always terminates and keeps the search state.',
     ['inputs', 'histories'], 'all search requests and any sequence of searches on one search object',
     TESTS + 'stale state, refusal and wrapped goals appear only in particular call sequences.',
     [A + 'grid_astar.h'], [('searchImpl', A + 'grid_astar.h'), ('findPath', A + 'grid_astar.h')],
     'guarded value-flow with loop-phi reasoning (typestate of the search object)', 'Decided for all inputs of the analysed instantiations; at least one worker task is assumed.')

prop('P05', 'Cyclic grid vectors: wrap, bounds, equality, arithmetic, geometry',
     'For every vector and every positive cyclic size, wrapping leaves noncyclic components alone and maps each cyclic one to the congruent value in [0,n) (unsigned form) or [floor(n/2)-n, floor(n/2)) (signed form). '
     'The bounds test is true exactly for vectors with a noncyclic component outside [0,size); equality compares all components and hashing depends on components only; float-to-integer construction rounds to nearest. '
     'Component-wise arithmetic, planar lengths, products, line and segment distances and rotation equal their mathematical definitions.',
     ['inputs'], 'all component values and sizes, all instantiated dimensions',
     'Tests sample a few component values; wrap-around, sign and rounding errors sit at values they do not sample.',
     [A + 'cyclic_vec.h'], [('CyclicVecBase', A + 'cyclic_vec.h')],
     'symbolic value summaries compared modulo linear arithmetic and residues', 'Mathematical integers and reals: int overflow and float rounding are not modelled.')

prop('P06', 'Block grid storage: one distinct element per cell, exact region operations',
     'For every size and every cell inside it, mutable and constant access reach the same storage element, different cells reach different elements, and all of them lie inside the allocation, also after any sequence of resizes. '
     'The range predicate (with margin) is exact; fill touches every cell, partial fill and partial copy exactly the inclusive region with the stated source values, and assignment reproduces size and full contents.',
     ['inputs', 'histories'], 'all sizes, cells, regions, margins and resize histories, for each instantiated dimension and block width',
     'Tests compare a few sizes; an aliasing pair of cells or a missed border cell at another size stays invisible.',
     [A + 'blockmem_gridmap.h'], [('block_addr', A + 'blockmem_gridmap.h'), ('reset', A + 'blockmem_gridmap.h'), ('copy_partially', A + 'blockmem_gridmap.h')],
     'closed-form index derivation with a mixed-radix bijection certificate; exact loop-coverage analysis', 'Sizes positive, products within the index type; allocation failure not modelled.')

TT = 'trajectory_tracker/include/trajectory_tracker/'
NUMERIC = 'Tests compare sampled values of one call; '

prop('T01', 'Velocity limiter, clipping, angle normalisation, optimal turn speed',
     'For any held value and non-negative limits, the limited velocity is the admissible value nearest to the request clipped to the velocity limit: it never changes by more than acceleration times the time step, stays inside the velocity limit once inside, '
     'becomes zero instead of a non-finite value, and is exactly what the limiter then holds (incremental requests add to the held value, clearing holds zero, a new limiter starts at rest). '
     'Normalising an angle changes it by whole turns into [-pi, pi], clipping returns the nearest value in the symmetric range, and the time-optimal turn speed opposes the angle with magnitude sqrt(2*|angle*acceleration|).',
     ['inputs', 'histories'], 'all requests, limits, time steps and held values',
     NUMERIC + 'limit violations need particular combinations of held value, request and limits, or a non-finite input.',
     [TT + 'basic_control.h'], [('VelAccLimitter', TT + 'basic_control.h'), ('clip, angleNormalized, timeOptimalControl', TT + 'basic_control.h')],
     'symbolic value summaries of call sequences with linear-arithmetic entailment; loop induction terms', 'Real arithmetic: float rounding not modelled.')

prop('T03', 'First-order filters and running average',
     'After construction or being set, a filter reports exactly that value, and then answers every input like the one-pole low- or high-pass filter of its time constant, for the first input as for later ones: a low-pass filter fed its own value stays, a constant input is approached geometrically, a high-pass filter decays to zero. '
     'In angle mode the input is first moved by whole turns next to the held output. '
     'A running average of any values is their arithmetic mean, and zero for none.',
     ['inputs', 'histories'], 'all time constants, initial values and input sequences',
     NUMERIC + 'the tests run single step responses with one time constant and a tolerance.',
     [TT + 'filter.h', TT + 'average.h'], [('Filter', TT + 'filter.h'), ('Average', TT + 'average.h')],
     'value summaries of call sequences as exact rational functions, compared by cross-multiplication with the reference recurrence', 'Real arithmetic; inputs finite.')

prop('T04', 'Path geometry: curvature, line and segment distances, projection',
     'For all points, the curvature through three points is the signed inverse of the circumscribed circle\'s radius (twice the doubled signed area over the product of the side lengths, positive for left turns), the distance to a line is the signed perpendicular distance, and the projection lies on the line at the foot of the perpendicular. '
     'The distance to a segment is the perpendicular distance when the foot lies inside it and otherwise the distance to the nearer end point; its signed variant is negative exactly when the point lies before the start.',
     ['inputs'], 'all point triples',
     NUMERIC + 'sign and end-point mistakes appear only in particular arrangements.',
     [TT + 'eigen_line.h'], [('curv3p, lineDistance, lineStripDistance, projection2d', TT + 'eigen_line.h')],
     'symbolic value summaries compared as exact rational functions with square roots', 'Real arithmetic; degenerate (coinciding) points divide by zero as in the definition.')

prop('O01', 'One-dimensional Kalman filter: prediction, fusion, unknown start',
     'For every state and input, predicting adds the motion to the estimate and its deviation to the held deviation; measuring moves the estimate by the gain s^2/(s^2+r^2) toward the measurement and scales the deviation accordingly. '
     'A filter whose deviation is infinite adopts the first finite measurement and its deviation exactly, a measurement of infinite deviation changes nothing, and construction, setting and clearing establish exactly the stated values.',
     ['inputs', 'histories'], 'all states, motions and measurements, including infinite deviations',
     NUMERIC + 'infinite deviations and repeated operations are not sampled.',
     ['track_odometry/include/track_odometry/kalman_filter1.h'], [('KalmanFilter1', 'track_odometry/include/track_odometry/kalman_filter1.h')],
     'value summaries of call sequences compared as exact rational functions, with infinity handled as an explicit case', 'Real arithmetic: float rounding not modelled.')

prop('P07', 'Remembered-obstacle map: bounded odds, observation rule, fresh costs',
     'Every observation multiplies a cell\'s odds and keeps them within the odds of probabilities 0.1 and 0.9, probability and normalised probability are exact functions of the odds, and a reset or cleared map is everywhere free. '
     'An observation updates exactly the cells of the map within the outer range of the center: lethal ones not nearer than the inner range with the hit odds, other known ones with the miss odds, unknown ones not at all. '
     'After a refresh the cost of every cell is its normalised probability in percent, however many observations preceded it, and enumeration visits each cell once with its own filter.',
     ['inputs', 'histories'], 'all maps, centers, ranges, odds and sequences of observations, refreshes and clears',
     'Tests observe a few fixed maps; missed refresh windows need particular sequences of centers and ranges.',
     [A + 'bbf.h', A + 'planner_3d/costmap_bbf.h', 'planner_cspace/src/costmap_bbf.cpp'],
     [('BinaryBayesFilter', A + 'bbf.h'), ('CostmapBBFImpl::remember, updateCostmap', 'planner_cspace/src/costmap_bbf.cpp')],
     'per-cell solution of loop index expressions with linear entailment; inferred inductive window bounds', 'Storage addressing trusted from P06; float rounding not modelled.')


prop('P08', 'Two-joint planning model: collision-free steps, honest costs, full neighborhood',
     'A step to a cell outside the joint range [0, 2*resolution) is refused. Otherwise the displacement is wrapped to the shortest signed turn on both axes and the straight line is sampled once per unit of its length starting at the start cell, each sample rounded and wrapped into the map: '
     'if any sample is lethal (above 99) the step is refused, else its cost is the weighted absolute displacement plus the weighted mean-percent sum of the samples. '
     'The estimate is the weighted absolute distance to the goal, and every cell of the square neighborhood is offered exactly once.',
     ['inputs'], 'all maps, start and goal cells, weights, resolutions and ranges',
     'The tests evaluate a few steps; a missed lethal sample or wrong wrap needs particular cells next to the joint limit.',
     ['planner_cspace/src/grid_astar_model_2dof_joints.cpp', A + 'planner_2dof_serial_joints/grid_astar_model.h'],
     [('GridAstarModel2DoFSerialJoint::cost', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp'), ('costEstim, searchGrids', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp')],
     'guarded value-flow with induction over the sampling loop and exact rational comparison', 'Real arithmetic; steps of length below one are divided by zero samples as in the code.')

prop('P10', 'Known motions: complete cells, true geometry and length, faithful expansion',
     'For every start heading, every nonzero displacement within the range and every end heading a motion is known; its cells are exactly those of its samples, each once and never the end cell, its kept samples are the regular ones, and the reported extent covers the cells of all straight motions. '
     'Samples of (nearly) parallel headings lie on the straight line at the start heading; the others follow the linearly interpolated centre, radius and shorter heading change; the length is that of the displacement, respectively the sum of the distances between samples up to the end. '
     'An expanded path contributes, per step, the kept samples of the known motion shifted by the start cell, or the start pose for a turn on the spot or an unknown motion, and ends with the last pose; a single pose is returned as it is.',
     ['inputs'], 'all resolutions, ranges, headings, displacements and paths',
     'The tests look at a few motions; a missing cell or a wrong turn direction affects only certain displacement and heading combinations.',
     ['planner_cspace/src/motion_cache.cpp', A + 'planner_3d/motion_cache.h'],
     [('MotionCache::reset, interpolatePath', 'planner_cspace/src/motion_cache.cpp')],
     'induction over sampling loops, exact rational comparison of trigonometric value summaries, solved coverage of nested loops', 'Real arithmetic; float rounding is not modelled.')
prop('P11', 'Rotation and motion caches: every entry filled, found and correct',
     'For every start heading and end cell of the covered range, the rotation cache holds its own entry, filled during preparation, and looking it up returns the displacement rotated by minus the start heading with its heading normalised. '
     'The cached radii are those of the two circles tangent to the start heading and through the end pose: y + x*cot(heading), and the distance of the end to the turning point signed like x*sin(heading). '
     'A motion is looked up under the start heading wrapped into the headings that exist and the displacement between the two cells, and the end marker belongs to the same page.',
     ['inputs'], 'all ranges, resolutions, start headings and end cells',
     'The tests compare a few motions with tolerances; an aliased or swapped entry at other headings stays invisible.',
     ['planner_cspace/src/rotation_cache.cpp', A + 'planner_3d/rotation_cache.h', A + 'planner_3d/motion_cache.h'],
     [('RotationCache::reset', 'planner_cspace/src/rotation_cache.cpp'), ('RotationCache::Page::addr', A + 'planner_3d/rotation_cache.h'), ('MotionCache::find', A + 'planner_3d/motion_cache.h')],
     'mixed-radix index matching and exact rational comparison of value summaries', 'Real arithmetic; non-negative range and positive resolutions.')

prop('P04', 'Parallel planning: no unsynchronised access to shared data',
     'While the path search or the distance map is computed by several threads, no two threads access the same shared data at the same time unless both only read: every write to shared data happens while the rest of the team is held at a barrier, under a common lock, or touches an element no other thread touches. '
     'All threads of a team take the same branches around barriers, so none is left waiting.',
     ['schedules'], 'all thread counts, task counts and interleavings',
     'The tests use one task per round or one schedule; a race shows only under particular timing.',
     [A + 'grid_astar.h', 'planner_cspace/src/distance_map.cpp'],
     [('parallel region of searchImpl', A + 'grid_astar.h'), ('parallel region of fillCostmap', 'planner_cspace/src/distance_map.cpp')],
     'barrier-phase dataflow with interprocedural effect summaries (static race detection)',
     'Decided for every parallel region in the analysed units; library containers are assumed safe for concurrent const access.')

prop('P09', 'Planner models of a mobile base: safe motions, defined costs, right neighborhood',
     'A motion is refused when its start or end cell, or any cell along it (the cells of the shorter turn for a turn on the spot, the cells of the known motion otherwise), is forbidden (above 99), when the motion is unknown, or when a curve starts closer to the border than the longest motion; '
     'otherwise its cost is the straight distance and turn, plus the configured extra for turning on the spot, going backward and slow curves, plus the mean map costs along it with their weights, hysteresis only while enabled. '
     'The estimate is the cached remaining distance plus the weighted shorter turn and stays unreachable where that is; near a start all motions of the heading are offered, elsewhere exactly the displacements within the range, and a change of the coefficients renews everything derived from them.',
     ['inputs'], 'all maps, poses, coefficients, ranges and numbers of headings',
     'The tests cost a handful of motions on simple maps; one unchecked cell or a stale coefficient shows only for particular motions, headings and obstacles.',
     ['planner_cspace/src/grid_astar_model_3dof.cpp', A + 'planner_3d/grid_astar_model.h'],
     [('GridAstarModel3D::cost, costEstim, searchGrids', 'planner_cspace/src/grid_astar_model_3dof.cpp'), ('GridAstarModel2D', 'planner_cspace/src/grid_astar_model_3dof.cpp')],
     'guarded value-flow with induction over the cells of a motion and exact rational comparison', 'Real arithmetic; even number of headings; given cells are inside the map.')

SLF = 'safety_limiter/src/safety_limiter.cpp'
prop('S01', 'Safety limiter: every command answered within its limits, stop on lost data',
     'Each command received is answered by exactly one output: while the last true disable request is younger than its timeout the command kept within the velocity limits, otherwise zero while no cloud is available or the watchdog has expired, otherwise the command scaled by the current ratio (a ratio within 1e-6 of one counts as one) and kept within the velocity limits. '
     'Clouds are unavailable until one is received and transformed and again once the last one is older than its timeout, and the watchdog is expired from its timeout to the next reset; either event at once publishes a zero command and sets the ratio to zero. '
     'The ratio otherwise only falls to the predicted one and returns to one only with a command after the hold time (at least one prediction period) since the last prediction below one, or on reconfiguration.',
     ['inputs', 'histories'], 'all commands, clouds, requests, configurations and orders of callbacks',
     'The tests play a few sequences in real time; a state left over by one callback shows only in particular orders.',
     [SLF],
     [('SafetyLimiterNode::cbTwist, limit, limitMaxVelocities', SLF), ('cbPredictTimer, cbWatchdogTimer, cbCloud, cbDisable, cbParameter', SLF)],
     'transition summaries of every callback over an arbitrary state, exact rational comparison of published values', 'Single-threaded spinner as in the node; times are real numbers.')

prop('S03', 'Safety limiter: predicted motion stops before the first obstacle in the way',
     'A prediction moves the robot along the constant last command in steps of the period until braking from the maximum velocities and the margins are covered, and tests every accumulated point within the height range, in the robot frame, against the configured footprint; a contact at the start may be left as long as the escape distance and angle are not used up, any other ends the motion one step before it. '
     'Without such a contact the ratio is one, otherwise it is the smaller, over translation and rotation, of the speed from which the distance left after margin and reaction delay suffices to brake to the commanded speed; in a contact that cannot be left it is zero, as it is without transform, and without points unless empty clouds are allowed. '
     'Clouds accumulate in the fixed frame until a prediction has used them and predictions do not change them; the time since when the robot is stuck is that of the first of the predictions in contact.',
     ['inputs', 'histories'], 'all clouds, commands, footprints, configurations and orders of callbacks',
     'The tests drive a few straight and turning scenes with one obstacle; directions, sideways motion, repeated predictions and borders are not sampled.',
     [SLF],
     [('SafetyLimiterNode::predict, cbPredictTimer, cbCloud, cbParameter, SafetyLimiterNode', SLF)],
     'fixpoint summary of the simulation loops, planar rigid motions as products, exact rational-function comparison of the ratio, value flow of the points', 'Real arithmetic; the radius search and the voxel grid of the point cloud library are trusted.')

JI = 'joystick_interrupt/src/joystick_interrupt.cpp'
prop('J01', 'Joystick interrupt: operator commands win, the input is kept and restored',
     'While the interrupt button is pressed, each joystick message yields exactly one command: per axis the larger in magnitude of the two configured axes (an axis not given or not in the message counts as zero) times the configured velocity, and times the high speed ratio while that button is held; its time is taken. '
     'When the button is released after an interrupt the last input command is published once and the interrupt is over; a message without the button ends it and publishes nothing. '
     'Every input command is kept, and passed on unchanged exactly when the last interrupt is older than the timeout or, with simulated time, none is active; each input is answered with one status telling whether it was passed on, and no interrupt is active at the start.',
     ['inputs', 'histories'], 'all joystick messages, commands, configurations and orders of callbacks',
     'The tests press a few buttons; a wrong axis, a short message or a release without interrupt is not sampled.',
     [JI], [('JoystickInterrupt::cbJoy, cbTwist, getJoyValue', JI)],
     'transition summaries of every callback over an arbitrary state, exact comparison of published values', 'Single-threaded spinner as in the node; times are real numbers.')
JM = 'joystick_interrupt/src/joystick_mux.cpp'
prop('J02', 'Joystick multiplexer: exactly the selected input is passed on',
     'A message of an input is passed on unchanged, once, exactly while that input is selected. The first input is selected at the start, the second while the button is pressed and the first when it is released; a joystick message without the button changes nothing and does not count as a sign of life. '
     'When no joystick message was seen for longer than the timeout the first input is selected.',
     ['inputs', 'histories'], 'all messages, button states, timeouts and orders of callbacks',
     'The tests switch once in each direction; a message arriving in another order or without the button is not sampled.',
     [JM], [('JoystickMux::cbJoy, cbTopic, cbTimer', JM)],
     'transition summaries of every callback over an arbitrary state', 'Single-threaded spinner as in the node; times are real numbers.')
TO = 'track_odometry/src/track_odometry.cpp'
prop('O02', 'Odometry with IMU: pose integrates the slip-corrected motion in IMU heading',
     'The first odometry is only kept and nothing is published before IMU data transformed into the base frame; each later odometry yields one pose: the previous output plus its displacement turned from its orientation to that of the IMU and scaled by one minus the estimated slip, or without the filter by the ratio of turn rates for turns above three times the noise; '
     'the height is multiplied by 1 - dt/time constant while that is positive, orientation and angular velocity are those of the IMU, the time is that of the odometry plus the tolerance, and the transform, if enabled, is the same pose. '
     'The slip is forgotten with the configured constant and then measured from the two turn rates (opposite signs count as no slip unless enabled), turns slower than the noise are not measured; the output is kept as the next base, and a height reset replaces only its height.',
     ['inputs', 'histories'], 'all odometry and IMU messages, configurations and sequences',
     'The tests drive a few trajectories with tolerances; a state kept wrongly or a turn in the wrong order shows only for combined rotations or particular sequences.',
     [TO], [('TrackOdometryNode::cbOdom, cbImu, cbResetZ, cbTimer', TO)],
     'transition summaries over an arbitrary state, exact rational comparison of poses with quaternion algebra', 'Real arithmetic; unit quaternions; the filter itself is the subject of T04.')

CI = 'costmap_cspace/include/costmap_cspace/'
prop('C01', 'Polygonal outlines: membership, distance, rigid motion, radius',
     'For every closed outline a point is inside exactly if a horizontal ray from it crosses the edges an odd number of times (each edge half-open in height, so no vertex counts twice), and its distance is the smallest distance to any edge, segments with their ends included. '
     'Moving an outline turns every vertex by the angle and then shifts it, and nothing else; the radius is the largest distance of a vertex from the origin. '
     'An outline is built from all given points in order and closed; fewer than three points, or a point that is not a pair of numbers, is an error.',
     ['inputs'], 'all outlines, points and motions',
     'Tests sample points far from vertices of simple outlines; a vertex level with the point or an unchecked edge is not sampled.',
     [CI + 'polygon.h', SLF],
     [('costmap_cspace::Polygon', CI + 'polygon.h'), ('SafetyLimiterNode::polygon', SLF)],
     'guarded value-flow with induction over the edges and exact rational comparison', 'Real arithmetic.')

FP = CI + 'costmap_3d_layer/footprint.h'
prop('C02', 'Costmap footprint layer: template of costs and its stamping',
     'For every heading and every offset within the range (radius, expansion and spread, rounded up to cells) the template is 100 where the outline moved there covers or comes closer than the expansion to the obstacle, falls linearly to the smallest cost over the spread and is zero beyond (the border within a hundredth of a cell may count as the smallest cost); an outline of no size keeps its centre occupied. '
     'Every occupied map cell inside the costmap raises each costmap cell within the range, at every heading, to the template value there times the cell over 100 and lowers none; free cells make unknown costmap cells free, other map cells change nothing, and where configured cells unknown in both stay unknown. '
     'The base layer writes the base costmap, other layers the overlay, in overwriting mode after making unknown all cells that the map knows and that lie at least the range away from its border.',
     ['inputs'], 'all maps, resolutions, outlines, expansions and headings',
     'The tests stamp a few obstacles with one small outline; clipping at a border, an asymmetric outline or differing resolutions are not sampled.',
     [FP, CI + 'cspace3_cache.h'],
     [('Costmap3dLayerFootprint::setMapMetaData', FP), ('generateSpecifiedCSpace, generateCSpace, clearTravelableArea', FP), ('CSpace3Cache', CI + 'cspace3_cache.h')],
     'closed-form pointer and index derivation, exact loop coverage, guarded value flow', 'One finding is listed: the stamp is cut beside higher neighbours and at the border of the map message. Real arithmetic in the template.')
LB = CI + 'costmap_3d_layer/base.h'
LO = CI + 'costmap_3d_layer/output.h'
prop('C03', 'Costmap layer chain: regions, hand-over, overlays and published updates',
     'A layer restarts from the map below on every cell touched by its current or previous region, draws the kept overlay map there if the frames agree, takes its own step and hands its region and the pending output request on to the next layer; a base map fills all headings, keeps its unknown cells unknown and starts every layer as a copy of the map below. '
     'Regions unite to the smallest enclosing box with the later time, are clipped to the map and copied cell by cell at every heading; unknown cells of a region get the configured cost, and a stopping layer hides everything below it. '
     'A published update carries the time of its own region and exactly the current cells of the box around the current and previous region; overlays received before the base map are kept and drawn once it arrives.',
     ['inputs', 'histories'], 'all maps, regions, layer orders and sequences of messages',
     'The tests exercise a few two-layer chains with small maps; other orders of layers, off-map regions and longer histories are not sampled.',
     [LB, LO, CI + 'costmap_3d_layer/unknown_handle.h', CI + 'costmap_3d_layer/stop_propagation.h', CI + 'costmap_3d.h', 'costmap_cspace/src/costmap_3d.cpp'],
     [('UpdatedRegion, Costmap3dLayerBase', LB), ('Costmap3dUpdateLayerOutput, Costmap3dStaticLayerOutput', LO), ('Costmap3DOFNode', 'costmap_cspace/src/costmap_3d.cpp')],
     'guarded value flow over region algebra, exact cell coverage, order of effects', 'Two findings are listed: cells restored because of the previous region are not handed on to the following layer, and an update outside the map forgets the previous region.')

PA = CI + 'pointcloud_accumulator.h'
PM = 'costmap_cspace/src/pointcloud2_to_map.cpp'
LM = 'costmap_cspace/src/laserscan_to_map.cpp'
prop('C04', 'Maps from scans and point clouds: all recent obstacles, and only these',
     'A received scan or cloud is moved to the map frame at its own time and kept; one without a transform leaves everything as it was. A new cloud discards exactly the kept ones of its input older than the hold time (zero for one-shot clouds), and no others. '
     'A map is published exactly when the configured interval has passed since the last one and the robot pose is known: a window of the configured size centred on the cell of the robot, in which a cell is occupied exactly if a kept point of any input lies in it within the height band relative to the robot, all others being free.',
     ['inputs', 'histories'], 'all sequences of scans and clouds, transforms and configurations',
     'No unit test covers these nodes; a skipped cloud, a coordinate taken from another point or a point outside the window shows only for particular clouds.',
     [PA, PM, LM], [('PointcloudAccumulator::push', PA), ('Pointcloud2ToMapNode::cbCloud', PM), ('LaserscanToMapNode::cbScan', LM)],
     'guarded value flow with per-step induction over kept clouds and points', 'Clouds arrive in order of time. Real arithmetic, finite coordinates.')

GM = 'costmap_cspace/src/largemap_to_map.cpp'
prop('C05', 'Local map of a large map: the window around the robot, cell by cell',
     'At every tick with a large map and a robot pose one map is published in the frame and resolution of the large map, of the configured width and centred on the cell of the robot; without either nothing is. '
     'Each cell has the value of the large map at the nearest cell, or is unknown beyond it; if configured, cells farther from the centre than half the width are unknown and a ring of two cells inside that distance is occupied. '
     'With occlusion every occupied cell, taken in order, makes all other cells unknown whose ray from the centre passes through it, sampled every half cell from one cell after the centre to one cell before the hidden cell.',
     ['inputs'], 'all large maps, robot poses and configurations',
     'No unit test covers this node; a window across the border of the large map or an odd width is not sampled.',
     [GM], [('LargeMapToMapNode', GM)],
     'guarded value flow per cell, exact loop coverage, exact comparison of ray cells', 'Real arithmetic; the large map has as many cells as it says.')

PN = 'planner_cspace/src/planner_3d.cpp'
prop('P12', 'Planner goals: acceptance, replacement and end of actions',
     'A goal outside the frame of the map changes nothing and aborts the action that brought it; otherwise one of unit orientation (squared norm within a tenth of one) starts a new plan without escape or counted failures unless the map rules it out, which drops it, and any other orientation clears the current goal and ends running actions as succeeded. '
     'While an action runs, goals by topic and of the other action are ignored; cancelling ends running actions as preempted, drops goal and escape and reports done; an action is ended only while it runs. '
     'The distance map counts as made exactly when it was made for the current goal from the start and goal cells as moved to free space; an occupied goal is reported as not found, and reverts or escapes as configured.',
     ['inputs', 'histories'], 'all goals, orders of goals, actions and cancellations, maps and configurations',
     'No unit test covers this node (only integration tests with a ROS master); wrong combinations of running actions and goals show only for particular orders of events.',
     [PN], [('Planner3dNode: goal, action and cancel handlers, setGoal, createCostEstimCache', PN)],
     'transition summaries over an arbitrary node state with action servers as running or not', 'Callbacks run one at a time. Real arithmetic.')

prop('P13', 'Costmaps of the planner: whole map, region updates, side maps',
     'A new map stops the robot, replaces the kept map description (with a new model of moves when a resolution differs) and resizes and refills every map: each cell has the cost of the message with unknown cells as configured, the rough map has the least over the headings, the hysteresis, remembered costs and update region start empty, and the distance map is made after all that; an update that waited and is not older than the map is applied last. '
     'An update that exceeds the map waits and changes nothing else; any other first takes back the previous update in its region, then sets each of its cells to the greater of map and update (or to the known cost of the update if so configured) and no other cell, and counts as the latest costmap at its arrival. '
     'A new obstacle on the previous path drops the hysteresis; the update is remembered around the robot before the remembered costs are used, and the distance map for the goal is remade or updated over the old and new region with one cell of margin.',
     ['inputs', 'histories'], 'all maps, updates, sequences of them and configurations',
     'No unit test covers this node; regions that shrink, touch the map edge or precede their map are not sampled by the integration tests.',
     [PN], [('Planner3dNode::cbMap, applyCostmapUpdate', PN)],
     'transition summaries; stores of loop nests re-expressed per cell and compared with the wanted cost', 'Callbacks run one at a time. Message data is complete, no overflow; the first heading of an update is a heading of the map.')

prop('P14', 'Planning cycle: stop, plan, finish, and the reported status',
     'A cycle stops the robot by an empty path when the costmap is older than the watchdog, no goal is set, the distance map is missing or the retries are used up (which drops the goal and aborts the running actions); otherwise it plans from the current pose to the current goal and publishes that plan, or, near the goal, publishes the final pose until the orientation is within tolerance, which drops the goal and ends the running actions as succeeded. '
     'Except when giving up, the published status and error are those of the cycle at its time: old data, occupied start, no path, escaping, or going well. '
     'Cycles run at the configured rate or at each costmap update after applying it, and without updates at the watchdog period; waiting ends early exactly for a pose jump, a newly occupied cell on the published path, or arrival at a switch back.',
     ['inputs', 'histories'], 'all states of the node, costmaps, poses and configurations',
     'No unit test covers this node; a stale costmap together with other conditions or an occupied last pose is not reached by tests.',
     [PN, 'planner_cspace/include/planner_cspace/jump_detector.h'],
     [('Planner3dNode::planPath, spin, waitUntil, cbMapUpdate', PN), ('JumpDetector::detectJump', 'planner_cspace/include/planner_cspace/jump_detector.h')],
     'transition summaries over an arbitrary node state with the plan as an arbitrary outcome', 'Callbacks run one at a time. Real arithmetic, yaw angles in [-pi, pi].')

prop('P15', 'Making a plan: start cells, relocation to free cells, and its outcome',
     'A plan starts from the cell of the robot (or, when configured, from the free cells around it weighted by distance and occupancy, or from the predicted cell of the part of the previous path that is kept); when none of them is free it starts from the free cell that is cheapest to reach among all cells within tolerance, and without any such cell it fails as occupied without touching the path. '
     'Starts and goals in occupied cells are relocated by the same rule, never to a cell outside the map, occupied or too far; a start near the goal by the tolerances of the running goal ends a temporary escape, succeeds a goal in continuous movement, or starts the final orientation. '
     'Otherwise the goal is searched once with the configured limits and hysteresis unless a start cell is the goal; an unreachable or occupied goal and a failed search are reported as path not found, and the path is the kept part followed by the found cells.',
     ['inputs', 'histories'], 'all states of the node, poses, occupancies and configurations',
     'No unit test covers this node; the cells around a start at a map edge, the least cost among all cells and the order of outcomes are not sampled by tests.',
     [PN],
     [('Planner3dNode::makePlan, buildStartPoses, isPathFinishing, searchAvailablePos, relocateDiscretePoseIfNeeded', PN)],
     'transition summaries with the search as an arbitrary outcome; sweeps over the cells of a loop nest', 'Callbacks run one at a time. Real arithmetic, no overflow of the search bounds. A second pass for any unoccupied cell may disregard the minimum distance.')

prop('P16', 'Temporary escape: the temporary goal and how an escape ends',
     'A temporary goal is set only with a map, a goal and a pose and not while waiting at a switch back; otherwise, and when no suitable cell exists or the robot is too near the edge of the map, the goals, the state of the escape and the status stay as they are. '
     'Without crowd mode it is the free cell found around the robot within the escape range; with it, it is, among all cells of the range around the robot that are inside the map, reachable from it, far enough and acceptable, also in the heading down the static distance map, the one with the least static distance, the original goal being taken back if it is such a reachable cell and free. '
     'The goal and the costs to it are then renewed in this order, a finishing planner plans again, and the escape counts as improving only if the cell is nearer than the robot and not already reached.',
     ['inputs', 'histories'], 'all states of the node, occupancies, reachabilities, distance maps and configurations',
     'No unit test covers this node; ties, cells at the edge of the range or map, flat distances and original goals inside the range are not sampled by tests.',
     [PN, 'planner_cspace/include/planner_cspace/planner_3d/temporary_escape.h'],
     [('Planner3dNode::updateTemporaryEscapeGoal, cbTemporaryEscape', PN), ('TemporaryEscapeStatus', 'planner_cspace/include/planner_cspace/planner_3d/temporary_escape.h')],
     'transition summary; sweep over the cells of a loop nest; induction for the kept cell with the least cost', 'Callbacks run one at a time. Real arithmetic, no overflow of the search bounds; the reachability and distance maps are arbitrary (see P17 for their contents).')

prop('P17', 'Distance map: costs to the goal and their incremental update',
     'A computed distance map holds for each reached cell a cost to the goal that only cheaper free steps inside the map improve, each step costing its length plus its weighted cell costs; it starts from the goal alone with all other costs unknown, and only cells beyond the longcut limit past the start are left, remembered as edge for later. '
     'After a change of a region the update forgets exactly the cells at or beyond the least cost of the region (and of the start when it was not reached), lets every kept neighbour and every remembered edge cell spread its cost again, and relaxes until no queue entry is left. '
     'The map counts as computed for a goal only if start and goal were inside the map in this very computation; another goal or a change at the goal has it computed anew.',
     ['inputs', 'histories', 'sizes'], 'all maps, occupancies, goals, update regions, weights, queue contents and sequences of create and update',
     'The unit test compares a few maps of ten by ten cells; lengths of edges, non-square maps, goals outside of the map in between and changes far from the start are not sampled.',
     ['planner_cspace/src/distance_map.cpp', 'planner_cspace/include/planner_cspace/planner_3d/distance_map.h'],
     [('DistanceMap::create, update, fillCostmap, init', 'planner_cspace/src/distance_map.cpp')],
     'guarded value-flow summary over an arbitrary map; loops by an arbitrary iteration, step costs and the least cost of a region by induction',
     'Real arithmetic; update regions inside the map; weights and cell costs not negative; data races of the parallel relaxation are P04.')

prop('P18', 'Plan requests, and conversion between poses and cells',
     'A plan request is answered exactly if a map is there, both poses are in its frame, neither start nor goal is outside of the map or in an obstacle without a free cell within the requested tolerance, and the search on the planar map from the relocated start to the relocated goal finds a path; the answer holds a pose in the frame of the map for each cell of the path in order, and the running navigation is not changed by a request. '
     'A pose belongs to the cell that contains it and to the nearest heading, taken cyclically, also left of and below the origin of the map; a cell becomes the pose in its middle, facing in its heading.',
     ['inputs'], 'all requests, poses, map geometries and outcomes of relocation and search',
     'The unit test converts a few poses with positive coordinates; refused requests, poses left of the origin, relocated ends and empty paths are not sampled.',
     [PN, 'planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h'],
     [('Planner3dNode::cbMakePlan, metric2Grid, grid2MetricPose', PN), ('metric2Grid, grid2Metric, appendGridPath2MetricPath', 'planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h')],
     'guarded value-flow summary of the service; exact linear forms of the conversions; coverage of the poses by an arbitrary iteration',
     'Callbacks run one at a time. Real arithmetic; the resolutions are positive. Relocation itself is P15, the search P01 to P03.')
