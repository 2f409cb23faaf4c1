"""Source of properties.jsonl and MANIFEST.json: run gen.py after editing."""
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))

prop('S01', 'Sensor data is collated in time order, without loss or duplication',
     'Data fed to a trajectory from several sensors is handed on in non-decreasing time order (across all '
     'trajectories for the shared collator, within each trajectory for the per-trajectory one), each packet at '
     'most once, unchanged and under its own sensor, and only once every unfinished sensor has data pending. '
     'From the common start of a trajectory on no packet is ever lost; of the packets before it only the last one '
     'per sensor survives, and once trajectories are finished or flushed nothing stays behind. '
     'Data is not held back when it could be handed on, data of sensors nobody expects is ignored, and sensor types '
     'configured as uncollated pass straight through.',
     ['inputs', 'histories'],
     'any number of trajectories and sensors, any arrival interleaving and time stamps (ties included), '
     'trajectories added, finished or flushed at any point',
     'tests feed a handful of fixed packet sequences; the guarantee is over all interleavings, start offsets and finish points',
     ['cartographer/sensor/internal/ordered_multi_queue.cc', 'cartographer/sensor/internal/collator.cc',
      'cartographer/sensor/internal/trajectory_collator.cc', 'cartographer/mapping/internal/collated_trajectory_builder.cc'],
     [('merge-sorted dispatch with common start', 'sensor/internal/ordered_multi_queue.cc Dispatch'),
      ('uncollated pass-through', 'mapping/internal/collated_trajectory_builder.h AddSensorData')],
     'stateful property-based testing: generated feed histories against a stream model checked after every step',
     'random histories of feeding, adding and finishing trajectories; bounded to 6 trajectories and a few hundred packets per history')

prop('C01', 'Thread pool runs each task once, after all its dependencies',
     'A scheduled task runs exactly once, on a pool thread, and never before every task it depends on has completed, '
     'also when dependencies were scheduled later, are running or already completed, or are gone. '
     'Every scheduled task eventually runs when the tasks it depends on do (no lost wake-up, no deadlock), tasks that '
     'became ready in an order are taken in that order, and the state a task reports follows its life cycle. '
     'Destroying the pool waits for the work that is running.',
     ['schedules', 'histories'],
     'any acyclic task graph, any order of adding dependencies, scheduling and executing, any number of threads',
     'tests run a few fixed graphs with one lucky schedule each',
     ['cartographer/common/task.cc', 'cartographer/common/thread_pool.cc'],
     [('dependency counting', 'common/task.cc AddDependency, OnDependenyCompleted, Execute'),
      ('ready queue', 'common/thread_pool.cc NotifyDependenciesCompleted, DoWork')],
     'stateful property-based testing of generated task graphs and schedules against a state model, plus a real pool under generated timing',
     'deterministic facet steers the schedule; real-pool facets sample OS schedules')

prop('C02', 'Blocking queue is a bounded FIFO that loses and duplicates nothing',
     'Values pushed into the queue come out exactly once and in order, for any number of producers and consumers; '
     'the queue never holds more than its capacity. Pushing to a full queue and popping from an empty one block until '
     'there is room or a value, operations with a timeout report failure only if that did not happen and then '
     'change nothing, and waiting for the queue to become empty returns exactly when it is empty.',
     ['schedules', 'histories'],
     'any capacity (zero: unlimited), any interleaving of producers and consumers, any timeouts',
     'tests run one producer and one consumer with a fixed script',
     ['cartographer/common/internal/blocking_queue.h'],
     [('mutex-guarded bounded deque', 'common/internal/blocking_queue.h')],
     'model-based property testing of generated operation histories and thread schedules',
     'random histories, sequential and concurrent')

prop('C03', 'Configuration files are read back exactly as written; misuse stops the program',
     'Every value written in a configuration (booleans, numbers, strings, arrays, nested tables, choices between two '
     'values, included and read files) is returned unchanged by the getter of its type, the keys listed are exactly those '
     'written, and printing a configuration and reading the print gives the same configuration. '
     'A missing key, a value of the wrong type, a negative value where none is allowed, a file included twice or missing, '
     'a configuration function (choose, include, read) given the wrong arguments, '
     'and (with counting on) a value read never or twice stop the program, and nothing else does. '
     'A file is taken from the first configured directory that has it, the shipped one last.',
     ['inputs'],
     'any nesting of tables and values, any order of reading, any set of directories and includes',
     'tests read a few fixed snippets',
     ['cartographer/common/lua_parameter_dictionary.cc', 'cartographer/common/configuration_file_resolver.cc'],
     [('reference counting of keys', 'common/lua_parameter_dictionary.cc CheckAllKeysWereUsedExactlyOnceAndReset'),
      ('search path', 'common/configuration_file_resolver.cc GetFullPathOrDie')],
     'property-based testing: generated configurations with a value-tree model, and generated misuse plans with a predicted outcome',
     'tables up to three levels; up to a few dozen values')

prop('C04', 'Every configured option reaches the component that reads it, unmixed',
     'For the map builder and the trajectory builder, the value given to an option in the configuration arrives in the '
     'option of the same name and changes no other option, for every option and any values; optional tables may be '
     'absent and are then reported as absent. '
     'A configuration with an option missing, unknown, of the wrong type or outside its documented range stops the program.',
     ['inputs'],
     'any admissible values for any subset of the options shipped with the library, one fault at a time for the second part',
     'tests read the shipped defaults, where a mixed-up pair of options with equal values does not show',
     ['cartographer/mapping/map_builder_interface.cc', 'cartographer/mapping/map_builder.cc',
      'cartographer/mapping/trajectory_builder_interface.cc', 'cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.cc',
      'cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.cc', 'cartographer/mapping/pose_graph.cc'],
     [('option parsing', 'mapping/**/Create*Options')],
     'property-based testing: generated configurations, oracle = name-by-name comparison with the parsed options through reflection',
     'one configuration per case; all options are reached over the run')

prop('T01', 'Rigid transforms form a group and convert without loss',
     'Composing, inverting and applying 2D and 3D transforms agrees with the algebra of rigid motions to rounding, '
     'rotations stay normalized, projecting to 2D keeps the heading and embedding is its inverse, angles are normalized '
     'to within half a turn, and angle-axis and roll/pitch/yaw conversions agree with the rotation they describe. '
     'Transforms, vectors and stamped transforms survive serialization exactly, configuration tables describe the '
     'transform they spell out, and time stamps and durations convert between representations exactly to their resolution.',
     ['inputs'],
     'all translations and rotations, those near zero and half a turn included; all representable time stamps',
     'tests check a few fixed rotations',
     ['cartographer/transform/rigid_transform.h', 'cartographer/transform/transform.h', 'cartographer/transform/transform.cc',
      'cartographer/common/time.cc', 'cartographer/common/math.h'],
     [('quaternion and vector arithmetic', 'transform/rigid_transform.h'), ('angle conversions', 'transform/transform.h')],
     'property-based testing: algebraic laws and a differential oracle in extended precision',
     'tolerances scale with the magnitude of the inputs')

prop('T02', 'Poses are interpolated between stamped poses; the history keeps its window',
     'The pose at a time between two stamped poses lies on the line between the translations and on the shortest arc '
     'between the rotations, at the fraction of the time. '
     'A pose history answers exactly for the times from its earliest to its latest entry, returns entries unchanged at '
     'their own times, interpolates neighbours elsewhere, keeps the most recent entries up to its size limit, and refuses '
     'entries that go back in time.',
     ['inputs', 'histories'],
     'any two poses and times in between; any history of pushing, limiting, clearing and looking up',
     'tests look up a few fixed times',
     ['cartographer/transform/timestamped_transform.cc', 'cartographer/transform/transform_interpolation_buffer.cc'],
     [('slerp and lerp', 'transform/timestamped_transform.cc Interpolate'),
      ('bounded buffer', 'transform/transform_interpolation_buffer.cc')],
     'model-based property testing of histories plus an independent interpolation oracle',
     'times up to hours apart')

prop('S02', 'Compressing a point cloud moves no point by more than a millimetre',
     'A compressed point cloud decompresses to exactly as many points as went in, each within half a millimetre per axis '
     '(plus rounding) of the original, directly and after serialization, and iterating over it gives the same points; '
     'compressing a decompressed cloud again changes nothing. '
     'Points further out than the documented limit are refused.',
     ['inputs'],
     'any cloud within the documented limit: negative coordinates, duplicates, many points per block, empty clouds',
     'tests compress a few fixed points',
     ['cartographer/sensor/compressed_point_cloud.cc'],
     [('block-wise fixed-point coding', 'sensor/compressed_point_cloud.cc')],
     'property-based round-trip testing with an independent matching of points',
     'clouds up to a few thousand points')

prop('S03', 'Voxel filters keep one real point per voxel; clouds move and crop faithfully',
     'Filtering with a fixed voxel size keeps exactly one of the input points of every occupied voxel, unchanged, in '
     'input order and with its own intensity and time; the adaptive filter drops points out of range, keeps clouds that '
     'are already sparse, uses the coarsest voxels if these give enough points, and otherwise reaches the wanted number '
     'of points with voxels no finer than needed (within ten percent) whenever a hundredth of the coarsest size can. '
     'Transforming moves every point by the transform and cropping keeps exactly the points inside the height range, both '
     'keeping order, intensities and times.',
     ['inputs'],
     'any cloud, with or without intensities and times, any voxel size, target and range',
     'tests filter a few fixed points',
     ['cartographer/sensor/internal/voxel_filter.cc', 'cartographer/sensor/point_cloud.cc', 'cartographer/sensor/range_data.cc'],
     [('random representative per voxel', 'sensor/internal/voxel_filter.cc RandomizedVoxelFilterIndices'),
      ('bisection over voxel sizes', 'sensor/internal/voxel_filter.cc AdaptivelyVoxelFiltered')],
     'property-based testing with a voxel model computed from the input',
     'clouds of up to a few hundred points')

prop('S04', 'Sensor data stays available around the remaining nodes of a trajectory',
     'Data appended to a trajectory is kept in time order and found again by time; data that is not newer than the last '
     'is refused. When a node is trimmed, of the data between its neighbouring nodes only the first and the last are kept '
     '(only what lies inside when a neighbour is missing goes too), data elsewhere and of other trajectories is untouched, '
     'and a trajectory without data disappears.',
     ['histories'],
     'any history of appending data and nodes and trimming nodes, over any number of trajectories',
     'tests trim a few fixed nodes',
     ['cartographer/sensor/map_by_time.h'],
     [('trimming between neighbours', 'sensor/map_by_time.h Trim')],
     'stateful model-based property testing',
     'histories of up to 120 operations')

prop('S05', 'Sensor and node data survive serialization unchanged',
     'Inertial, odometry, fixed-frame, landmark, range and timed point data written to their serialized form and read '
     'back are identical in every field (absent poses, empty clouds and arbitrary names included), the older serialized '
     'form of point data still reads to the same points, and trajectory node data is identical except that points may '
     'move by up to a millimetre.',
     ['inputs'],
     'any values of any field',
     'tests convert one fixed value each',
     ['cartographer/sensor/imu_data.cc', 'cartographer/sensor/odometry_data.cc', 'cartographer/sensor/fixed_frame_pose_data.cc',
      'cartographer/sensor/landmark_data.cc', 'cartographer/sensor/range_data.cc', 'cartographer/sensor/timed_point_cloud_data.cc',
      'cartographer/mapping/trajectory_node.cc'],
     [('proto conversions', 'sensor/*.cc ToProto/FromProto')],
     'property-based round-trip testing through bytes',
     'small clouds; names with arbitrary bytes')

prop('M01', 'Nodes and submaps are stored under stable, ordered ids',
     'Appending to a trajectory gives the index after the last one, starting at zero; after an insertion at a chosen id or '
     'after the last element was trimmed appending is refused until the trajectory is empty, so no index is handed out twice. '
     'Insert, trim and update affect exactly the given id; iteration (forwards, backwards and per trajectory) visits exactly '
     'the stored elements ordered by trajectory and index, sizes, membership and the set of trajectories agree with it, and '
     'the search by time finds the first element of the trajectory that is not earlier.',
     ['histories'],
     'any history of append, insert, trim and update over any number of trajectories',
     'tests run short fixed histories',
     ['cartographer/mapping/id.h'],
     [('per-trajectory ordered maps', 'mapping/id.h MapById')],
     'stateful model-based property testing against a sorted-map model',
     'histories of up to a hundred operations')

prop('G01', 'Inserting a scan updates exactly the cells its rays hit and cross',
     'Inserting a scan into a 2D occupancy grid multiplies the odds of every cell holding a return by the hit odds and of '
     'every other cell crossed by a ray to a return or a miss by the miss odds, once per scan and cell, clamped to the '
     'allowed range; an unknown cell takes the probability of the update itself. '
     'All other cells keep their value, the grid grows to cover the scan, and no cell is marked free when free space is not inserted. '
     'A ray covers exactly the cells whose interior it passes through, in either direction.',
     ['inputs', 'histories'],
     'any sequence of scans, any sensor and point positions (cell borders, shared rows and columns, repeated points included), any odds and grid size',
     'tests insert one or two fixed scans on a tiny grid',
     ['cartographer/mapping/2d/probability_grid_range_data_inserter_2d.cc', 'cartographer/mapping/internal/2d/ray_to_pixel_mask.cc',
      'cartographer/mapping/2d/probability_grid.cc', 'cartographer/mapping/probability_values.cc'],
     [('subpixel ray casting', 'mapping/internal/2d/ray_to_pixel_mask.cc'), ('odds lookup tables with update marks', 'mapping/probability_values.cc')],
     'property-based testing: independent ray geometry and odds arithmetic for every cell after every scan; exact integer oracle for rays',
     'cells that a ray only grazes (within 0.2% of a cell) may go either way')

prop('G02', '2D grids keep every known cell through growing, cropping and serialization',
     'Occupancy and signed-distance grids return for each cell the value last written to within one quantization step, '
     'and growing to any point, cropping, and serializing and reading back leave every known cell at its place with '
     'its exact value and every other cell unknown; cropping yields the tightest box. '
     'Until an update is finished further updates of the same cell are ignored, unknown cells and cells outside read as '
     'the documented defaults, points lie in the cell they are assigned to, and the drawn texture shows exactly the known '
     'cells with their level at the place of the grid; older files without cost bounds still read.',
     ['inputs', 'histories'],
     'any history of writing, updating, growing, cropping, serializing and drawing',
     'tests check one operation on one fixed grid each',
     ['cartographer/mapping/2d/grid_2d.cc', 'cartographer/mapping/2d/probability_grid.cc', 'cartographer/mapping/internal/2d/tsdf_2d.cc',
      'cartographer/mapping/2d/map_limits.h', 'cartographer/mapping/value_conversion_tables.cc'],
     [('grow by doubling', 'mapping/2d/grid_2d.cc GrowLimits'), ('known cells box', 'mapping/2d/grid_2d.cc ComputeCroppedLimits')],
     'stateful model-based property testing against a world-fixed lattice of cells',
     'grids of up to a few thousand cells')

prop('G03', 'Signed-distance grids average the distances along every ray',
     'Inserting a scan into a 2D signed-distance grid updates exactly the cells crossed by rays to returns farther than the '
     'truncation distance, up to that distance behind the return (and, unless free space is updated, from that distance '
     'before it), whatever the height of the points and however far the grid has to grow. '
     'Each such cell becomes the weighted average of its old distance and the clamped distance to the return (along the '
     'scan normal if so configured) of the first ray to reach it, with the configured weights, capped at the maximum. '
     'Estimated normals of a straight wall are perpendicular to it and normals face the sensor.',
     ['inputs', 'histories'],
     'any sequence of scans, point heights, weighting options and grid sizes',
     'tests insert fixed scans in the plane',
     ['cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc', 'cartographer/mapping/internal/2d/normal_estimation_2d.cc'],
     [('weighted update along rays', 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc InsertHit')],
     'property-based testing: independent weighted-average oracle for every cell after every scan',
     'grazed cells may go either way; scans with nearly equal bearings are left out when normals are used')

prop('G04', '3D grids store cells exactly and mark hits and misses of scans',
     'A 3D grid returns for each cell the value last written or unknown, however far from the origin it had to grow, and '
     'iteration, serialization and reading back give exactly the known cells; every point lies in the cell it is assigned '
     'to. Inserting a scan updates each cell holding a return with the hit odds and the configured number of sample cells '
     'before each return with the miss odds, once per scan and cell with hits winning, and nothing else, and each cell '
     'holds the mean of the intensities of its returns below the intensity limit.',
     ['inputs', 'histories'],
     'any history of cell writes, updates, scans and serializations at any distance from the origin',
     'tests insert one fixed scan and write a few cells',
     ['cartographer/mapping/3d/hybrid_grid.h', 'cartographer/mapping/3d/range_data_inserter_3d.cc'],
     [('nested and dynamically growing grid', 'mapping/3d/hybrid_grid.h DynamicGrid'), ('update marks', 'mapping/3d/hybrid_grid.h HybridGrid::FinishUpdate')],
     'stateful model-based property testing against a map of cells; independent odds arithmetic',
     'cells up to 8191 cells from the origin; samples within 1e-3 of a cell border may go either way')

prop('G05', 'Submaps overlap, finish and contain exactly the scans given to them',
     'Every scan goes into at most two active submaps; a new one starts when the newest holds the configured number of '
     'scans, and a submap is finished and cropped with exactly twice that number, never changed again. '
     'The pose, the count, the finished flag and the contents of each submap (2D occupancy and signed distance; 3D at both '
     'resolutions, with intensities and rotation histogram) are those of inserting its scans one after another, survive '
     'serialization, and the drawn texture shows exactly these cells at their place. A submap that follows another through '
     'serialized states reports the count, finished flag and histogram of the last one and the grids last sent.',
     ['inputs', 'histories'],
     'any sequence of scans, overlap length, grid kind and submap pose',
     'tests use one fixed sequence of empty or single-point scans',
     ['cartographer/mapping/2d/submap_2d.cc', 'cartographer/mapping/3d/submap_3d.cc', 'cartographer/mapping/submaps.cc', 'cartographer/mapping/internal/submap_controller.cc'],
     [('active submaps', 'mapping/2d/submap_2d.cc ActiveSubmaps2D'), ('texture of a 3D submap', 'mapping/3d/submap_3d.cc')],
     'stateful property testing: documented schedule as model, independent replay of each submap\'s scans',
     'up to a few dozen scans with a few points each; the 3D texture at poses turned by quarter turns')

prop('L01', 'Extrapolated poses follow the observed motion and gravity',
     'For motion with constant velocity and turn rate the extrapolated pose at any later time lies on the motion, whether it '
     'is observed by poses only, with inertial data or with odometry in another frame. Without other sensors the velocity '
     'is the mean over the latest poses spanning at least the configured window and zero before; with odometry it is the mean since the latest reading not after the last pose. The pose added last is '
     'returned for its own time, even if that time was extrapolated before. Tracked orientation integrates the turn rate and '
     'is corrected so that gravity, the exponential average of the accelerations, points up; data from before the last pose is refused.',
     ['inputs', 'histories'],
     'any interleaving of poses, inertial data, odometry and queries',
     'tests feed a few fixed samples',
     ['cartographer/mapping/pose_extrapolator.cc', 'cartographer/mapping/imu_tracker.cc'],
     [('velocities from poses and odometry', 'mapping/pose_extrapolator.cc'), ('gravity tracking', 'mapping/imu_tracker.cc')],
     'stateful property testing against an analytic motion and an independent integrator',
     'turn rates up to 1.5 rad/s; starting almost upside down is left out as ill-conditioned')

prop('L02', 'Range data of several sensors is merged without loss; similar poses are skipped',
     'Merged range data covers successive time windows ending at the oldest pending message once every sensor has reported, '
     'or at the pending message when a sensor reports again. Each merged scan holds exactly the pending points of its window, '
     'each point in exactly one scan, in time order, with unchanged absolute time, its own sensor position and '
     'intensity; later points wait, earlier ones are dropped. The motion filter skips a pose exactly if time, distance '
     'and angle to the last pose kept are all within the limits.',
     ['inputs', 'histories'],
     'any interleaving of messages of up to four sensors, any limits',
     'tests merge a few fixed messages of two sensors',
     ['cartographer/mapping/internal/range_data_collator.cc', 'cartographer/mapping/internal/motion_filter.cc'],
     [('window cropping', 'mapping/internal/range_data_collator.cc CropAndMerge'), ('comparison with the last kept pose', 'mapping/internal/motion_filter.cc')],
     'stateful model-based property testing',
     'times on a 0.125 s lattice so that arithmetic is exact; messages of one sensor in time order')

prop('L03', 'Local 2D SLAM places every measured point by the motion at its own time',
     'Each 2D local SLAM result accumulates the configured number of scans; every point within the range limits is placed by '
     'the predicted pose at its own time, points beyond become misses at the configured length, points outside the height '
     'limits or too close are dropped, all in a gravity-aligned frame at the end of the scan. Results before the first '
     'inertial data (if used) are withheld; poses too similar to the last are not inserted; inserted scans and nodes carry the '
     'returned pose, and submaps hold exactly them. With realistic weights the pose follows the truth in simulated rooms.',
     ['inputs', 'histories'],
     'any interleaving of range, inertial and odometry data and any options',
     'the 2D local trajectory builder has no tests',
     ['cartographer/mapping/internal/2d/local_trajectory_builder_2d.cc'],
     [('accumulation and unwarping', 'mapping/internal/2d/local_trajectory_builder_2d.cc AddRangeData'), ('gravity alignment and cropping', 'TransformToGravityAlignedFrameAndFilter')],
     'stateful property testing against an independent account of the data flow, plus simulation with known truth',
     'sparse scans without points closer than the voxel size; tracking within 0.4 m for at most 15 scans')

prop('L04', 'Local 3D SLAM places every measured point by the motion at its own time',
     'Each 3D local SLAM result accumulates the configured number of scans; every point within the range limits is placed by '
     'the predicted pose at its own time and points beyond become misses at the maximum range. Nothing is returned before '
     'inertial data; poses too similar to the last are not inserted; nodes carry the returned pose, gravity direction, both '
     'point clouds and the rotation histogram, and submaps hold exactly the inserted scans. Missing intensities are refused '
     'if they are used. With realistic weights the pose follows the truth in simulated rooms.',
     ['inputs', 'histories'],
     'any interleaving of range, inertial and odometry data and any options',
     'one test follows one fixed curve and is not part of this build',
     ['cartographer/mapping/internal/3d/local_trajectory_builder_3d.cc', 'cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc'],
     [('accumulation and unwarping', 'mapping/internal/3d/local_trajectory_builder_3d.cc AddRangeData'), ('node and submap insertion', 'InsertIntoSubmap')],
     'stateful property testing against an independent account of the data flow, plus simulation with known truth',
     'sparse scans without points closer than the voxel size; tracking within 0.25 m for at most 8 scans')

prop('X01', '2D correlative matching returns the best-scoring pose of its search window',
     'Correlative matching of a 2D scan is exact: within the window of translations and rotations around the initial pose (or over '
     'the whole submap and all rotations) it reports a match exactly if some pose scores above the given minimum, and the pose and '
     'score it returns are those of the discretised best pose, whatever the depth of the search tree. The score of a pose is the mean occupancy under the scan '
     'points, unknown or outside cells counting as the minimum. Precomputed grids bound every cell they stand for. The real-time '
     'matcher returns the pose in its window with the best score after the configured penalties, for occupancy and signed-distance grids.',
     ['inputs'],
     'any grid, scan, initial pose, window, tree depth and minimum score',
     'tests match a handful of fixed scans against fixed grids',
     ['cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc',
      'cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc',
      'cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc'],
     [('branch and bound over precomputed grids', 'fast_correlative_scan_matcher_2d.cc BranchAndBound'),
      ('search window', 'correlative_scan_matcher_2d.cc SearchParameters'),
      ('penalized exhaustive search', 'real_time_correlative_scan_matcher_2d.cc')],
     'differential property testing against an exhaustive search with intervals for points near cell borders',
     'grids up to 40 cells, scans up to a few dozen points')

prop('X02', '3D correlative matching returns the best-scoring pose of its search window',
     'Correlative matching of a 3D scan is exact: within the window of translations and yaw angles around the initial pose (or over '
     'the whole submap and all yaw angles) no pose that passes the rotational and low-resolution minimum scores has a higher '
     'score than the one returned, and a match is reported exactly if such a pose scores above the minimum. Score, '
     'rotational score and low-resolution score belong to the returned pose. Precomputed grids are the largest of the '
     'cells they stand for. The real-time matcher returns the pose in its window with the best score after the configured penalties.',
     ['inputs'],
     'any grids, scan, histogram, tilted pose, window, tree depth and minimum scores',
     'tests match a handful of fixed scans against fixed grids',
     ['cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc',
      'cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.cc',
      'cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.cc',
      'cartographer/mapping/internal/3d/scan_matching/low_resolution_matcher.cc'],
     [('branch and bound over precomputed grids', 'fast_correlative_scan_matcher_3d.cc BranchAndBound'),
      ('precomputed grids', 'precomputation_grid_3d.cc PrecomputeGrid'),
      ('low-resolution check', 'low_resolution_matcher.cc')],
     'differential property testing against an exhaustive search with intervals for points near cell borders',
     'small grids and scans of a few dozen points')

prop('X03', 'Rotational histograms describe the wall directions of a scan and match by cosine',
     'The rotational histogram of a gravity-aligned 3D scan sums, per slice of 0.2 m height, the weighted directions (modulo half a '
     'turn) between neighbouring points around the slice\'s centroid, directions along the line of sight weighing nothing; the order '
     'of points does not matter. Rotating a histogram by an angle shifts it with linear interpolation, keeps its total, has a '
     'period of half a turn and agrees with rotating the scan. A match score is the cosine between stored and rotated '
     'histogram, one if either is empty, and a scan scores best when rotated back onto the submap.',
     ['inputs'],
     'any scan, number of buckets, histogram and angle',
     'tests check two or three fixed histograms',
     ['cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc'],
     [('histogram', 'rotational_scan_matcher.cc ComputeHistogram'), ('rotation with interpolation', 'rotational_scan_matcher.cc RotateHistogram')],
     'differential property testing against an independent computation, metamorphic tests under permutation and rotation',
     'cases within 1e-4 of a threshold are skipped')

prop('X04', 'Continuous scan matching minimises the stated cost and reports it faithfully',
     'Matching a scan by optimisation minimises the weighted sum of squares of: one minus the interpolated occupancy (2D: bicubic, 0.9 outside; 3D: '
     'smooth blend of the eight surrounding cells) under each point; for signed-distance grids the bilinear distance weighted by the interpolated share '
     'of the weights; for intensities the difference from the map for points up to the threshold, with Huber loss; and the '
     'deviations from target translation and initial rotation. Weights are divided by the root of the number of points. The derivatives agree, the '
     'returned pose has the reported cost, the cost never grows, and tilt is unchanged when only yaw may change.',
     ['inputs'],
     'any grids, scans, poses, weights and solver limits',
     'tests evaluate a few fixed residuals and a few fixed matches; the 3D matcher is not part of this build',
     ['cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc',
      'cartographer/mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.cc',
      'cartographer/mapping/internal/2d/scan_matching/tsdf_match_cost_function_2d.cc',
      'cartographer/mapping/internal/2d/scan_matching/interpolated_tsdf_2d.h',
      'cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc',
      'cartographer/mapping/internal/3d/scan_matching/interpolated_grid.h',
      'cartographer/mapping/internal/3d/scan_matching/intensity_cost_function_3d.h'],
     [('interpolated occupancy', 'occupied_space_cost_function_2d.cc, interpolated_grid.h'), ('interpolated distance', 'interpolated_tsdf_2d.h'),
      ('the objective', 'ceres_scan_matcher_2d.cc, ceres_scan_matcher_3d.cc')],
     'differential property testing against independently written residuals, numerical derivatives and objective',
     'small grids and scans; points within 0.001 cells of a change of interpolation cell are skipped where the function has a kink')

prop('O01', 'Error terms of the global optimization and inertial integration are exact',
     'For all poses, measurements and weights, the error of a relative pose measurement (2D, automatic and analytic; 3D) is the weighted difference of measured and '
     'actual relative pose, angles wrapped, and vanishes when satisfied; a landmark error uses the node pose interpolated at the observation time (2D nodes '
     'embedded with their gravity alignment); rotation and acceleration errors compare integrated inertial data with poses under calibration and gravity. '
     'All derivatives agree. Rotation steps restricted to yaw keep gravity, restricted to tilt turn about a horizontal axis. Inertial data are integrated '
     'piecewise constant over any interval, and extrapolation adds velocity and gravity.',
     ['inputs', 'histories'],
     'any poses, weights, time fractions, quaternion signs, calibrations, inertial histories and consecutive intervals',
     'tests evaluate single fixed residuals; the 3D terms have none',
     ['cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_2d.cc',
      'cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_3d.h',
      'cartographer/mapping/internal/optimization/cost_functions/cost_helpers_impl.h',
      'cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h',
      'cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_3d.h',
      'cartographer/mapping/internal/optimization/cost_functions/rotation_cost_function_3d.h',
      'cartographer/mapping/internal/optimization/cost_functions/acceleration_cost_function_3d.h',
      'cartographer/mapping/internal/3d/imu_integration.h',
      'cartographer/mapping/internal/3d/rotation_parameterization.h'],
     [('relative pose errors', 'spa_cost_function_2d.cc, spa_cost_function_3d.h, cost_helpers_impl.h'), ('interpolated nodes', 'cost_helpers_impl.h SlerpQuaternions, InterpolateNodes2D/3D'),
      ('inertial integration', 'imu_integration.h IntegrateImu')],
     'differential property testing against independently written residuals and numerical derivatives',
     'error rotations beyond pi - 0.05 and exactly opposite node orientations are skipped')

prop('O03', 'Trimming discards exactly the submaps its rule names',
     'Invoked after more than the configured number of submaps was added, the overlap trimmer discards exactly the finished submaps, dated by their latest own node, '
     'that are among the freshest covering submaps on less area than configured (counted in known cells on the first submap\'s lattice, without limit on size), and touches no '
     'others. The localization trimmer keeps the configured number of latest submaps of its trajectory only, and once that trajectory is finished discards all, marks it '
     'deleted and stops.',
     ['inputs', 'histories'],
     'any set of submaps, poses, known cells, constraints and nodes and any history of additions and trims',
     'tests use one or two submaps of one to four cells',
     ['cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc', 'cartographer/mapping/pose_graph_trimmer.cc'],
     [('freshness', 'overlapping_submaps_trimmer_2d.cc ComputeSubmapFreshness'), ('coverage', 'overlapping_submaps_trimmer_2d.cc FindSubmapIdsToTrim'),
      ('localization', 'pose_graph_trimmer.cc PureLocalizationTrimmer::Trim')],
     'model-based testing of histories against an independent implementation of the rule',
     'ties in freshness and cell centers within 1e-6 of a boundary are skipped; two cells of one submap falling into one cell may take one or two places')

prop('O04', 'Trajectory connectivity is the transitive closure of the connections made',
     'After any history of adding and connecting trajectories, two are connected iff linked by a chain of connections, each pair reports the number of its direct '
     'connections, components partition the known trajectories, and their serialized form is sorted. Connecting an unknown trajectory makes it known. The last '
     'connection time of a pair is the time two components were joined for all pairs across them, later connections of the pair move it forward only, '
     'and it is the beginning of time otherwise. Concurrent connections are all counted.',
     ['histories', 'schedules'],
     'any history of additions, connections and queries, in either argument order, and concurrent connections',
     'tests run a few fixed sequences',
     ['cartographer/mapping/internal/connected_components.cc', 'cartographer/mapping/internal/trajectory_connectivity_state.cc'],
     [('disjoint sets', 'connected_components.cc Union, FindSet'), ('connection times', 'trajectory_connectivity_state.cc Connect')],
     'model-based testing of random histories against a plain component model; threads with a final-state oracle',
     'up to 10 trajectories and 30 operations')

prop('O05', 'Loop closure search reports exactly the constraints it finds, once and complete',
     'For any history of local and global searches, ends of nodes and result requests, under any task schedule and in 2D and 3D, the result is reported exactly once, after '
     'all its searches and nodes finished, and holds in order exactly one constraint for every search that was near enough, selected by the sampling ratio of its submap (global ones always) '
     'and scored above the respective threshold, with its ids, the configured weights and the refined relative pose, and nothing from earlier results. '
     'Forgetting a submap restarts its sampling and changes no result.',
     ['inputs', 'histories', 'schedules'],
     'any submaps, scans, guesses, options, histories and task interleavings',
     'tests use an empty submap and one sequential pool',
     ['cartographer/mapping/internal/constraints/constraint_builder_2d.cc', 'cartographer/mapping/internal/constraints/constraint_builder_3d.cc'],
     [('search and refinement', 'constraint_builder_2d.cc, constraint_builder_3d.cc ComputeConstraint'), ('completion', 'NotifyEndOfNode, WhenDone, RunWhenDoneCallback')],
     'model-based testing under generated task schedules and real threads, with the scan matchers called directly as reference',
     'small submaps and scans; up to three result requests')

prop('I01', 'Serialized streams return exactly what was written, or a clean end',
     'Any sequence of messages written to a stream file is read back unchanged and in order, then the end is reported; cut the file at any byte after its signature and the reader returns exactly '
     'the messages that are complete, then the end. A file without the signature is refused, a failed write is reported on close, and the on-disk format '
     '(signature, 8-byte little-endian length, gzip) stays readable. In-memory streams behave the same. A map state is accepted only if it begins with a header of version 1 or 2, a pose graph, and as many trajectory options as trajectories; '
     'all further messages follow unchanged, and the summary tool counts each kind and skips the rest.',
     ['inputs', 'histories', 'crash_points'],
     'any message sequence, any truncation point, any ordering of the first messages',
     'tests write ten small messages to one file and never cut it',
     ['cartographer/io/proto_stream.cc', 'cartographer/io/proto_stream_deserializer.cc', 'cartographer/io/internal/in_memory_proto_stream.cc', 'cartographer/io/internal/pbstream_info.cc', 'cartographer/common/port.h'],
     [('framing and compression', 'proto_stream.cc ProtoStreamWriter::Write, ProtoStreamReader::Read; port.h FastGzipString, FastGunzipString'), ('order of a map state', 'proto_stream_deserializer.cc')],
     'round trip, exhaustive or sampled truncation faults, an independent encoder and decoder of the format',
     'files up to about 1 MB; lengths that were altered rather than cut off are not explored')

prop('I02', 'A saved map loads back as the same map, after any history',
     'Loading any well-formed state, with any trajectory ids, gaps and message order, once or repeatedly, into a 2D or 3D map gives each trajectory the next free id, reports the renaming, and shows and saves exactly the loaded '
     'submaps, nodes, poses, constraints, sensor data, landmarks, options and connections under it; frozen loading keeps poses fixed through optimization and drops only constraints and sensor data. '
     'Whatever was loaded, added, finished, frozen or deleted before, the file saved (with or without unfinished submaps) is complete, consistent and loads again; '
     'a file that cannot be written is reported, and a missing submap is an error, not a crash.',
     ['inputs', 'histories', 'fault_sequences'],
     'any state, any history of loads, trajectories, finishing, freezing, deletion and sensor data, in 2D and 3D',
     'the tests that save and load do not build here, and they use a few recorded scenarios',
     ['cartographer/mapping/map_builder.cc', 'cartographer/io/internal/mapping_state_serialization.cc', 'cartographer/mapping/pose_graph.cc',
      'cartographer/mapping/internal/2d/pose_graph_2d.cc', 'cartographer/mapping/internal/3d/pose_graph_3d.cc', 'cartographer/mapping/trajectory_node.cc'],
     [('loading', 'map_builder.cc LoadState'), ('saving', 'mapping_state_serialization.cc WritePbStream; pose_graph.cc PoseGraph::ToProto'),
      ('into the pose graph', 'pose_graph_2d.cc, pose_graph_3d.cc AddSubmapFromProto, AddNodeFromProto, AddSerializedConstraints, SetTrajectoryDataFromProto')],
     'round trips of generated states and histories against a plain model of the state',
     'saving while a background trim runs is not claimed; up to three trajectories per state, eight operations')

prop('O02', 'The pose graph keeps every node, submap and constraint right through any history',
     'Under any history and timing of nodes, finishing, freezing, deleting, trimming, landmarks and sensor data, each optimization is given exactly what was added and not yet removed: every node constrained to the submaps '
     'it was inserted into by its relative pose there, and one loop closure for each node and finished submap searched and matched - nearby if of one trajectory or recently connected, anywhere otherwise, at the sampling ratio - '
     'starting from poses extended from the latest results. It happens when enough nodes were added or one was asked for, and afterwards '
     'the graph reports the optimized poses, moves everything newer along, tells the callback what was included, connects trajectories, and removes what was deleted or trimmed with all that refers to it and nothing else.',
     ['histories', 'schedules', 'configurations'],
     'any history of up to three trajectories, any order in which background tasks run, real threads, 2D and 3D',
     'the pose graph tests do not run here with the real solver, and follow one trajectory with a fixed history',
     ['cartographer/mapping/internal/2d/pose_graph_2d.cc', 'cartographer/mapping/internal/3d/pose_graph_3d.cc', 'cartographer/mapping/pose_graph_data.h',
      'cartographer/mapping/internal/trajectory_connectivity_state.cc', 'cartographer/mapping/id.h'],
     [('adding', 'pose_graph_2d.cc, pose_graph_3d.cc AddNode, ComputeConstraintsForNode, InitializeGlobalSubmapPoses'), ('searching', 'ComputeConstraint, GetLatestNodeTime'),
      ('after an optimization', 'HandleWorkQueue, RunOptimization, DeleteTrajectoriesIfNeeded'), ('removal', 'TrimmingHandle::TrimSubmap'), ('poses shown', 'ComputeLocalToGlobalTransform, GetSubmapDataUnderLock')],
     'stateful model-based testing with a stand-in solver that checks its inputs and moves everything, tasks stepped in generated order, and runs with real threads whose outcome does not depend on timing',
     'deleting a trajectory that another one starts from, or one frozen while still fed, is not claimed; up to 60 operations')

prop('O06', 'Optimization settles where no single adjustment helps, keeping what is fixed',
     'For any graph of nodes, submaps, constraints, odometry, inertial, fixed-frame and landmark data, the poses that the optimization settles on leave no free pose, gravity or mounting that could be shifted or turned to '
     'reduce noticeably the weighted disagreement with that data: loop closures and landmarks are down-weighted when far off, inertial and consecutive-node terms join only nodes with neighboring numbers, measurements are interpolated to the time they are needed, and sensors not used by the chosen setting count for nothing. '
     'Frozen trajectories and landmarks, the position of the first submap (in 2D its heading too), heights if they are to be kept, and the inertial mounting unless it is estimated stay exactly as they were; fixed frames stay level and gravity positive. '
     'A problem that goes on from its last result reaches what a new one told that state would reach.',
     ['inputs', 'configurations', 'histories'],
     'graphs of up to three trajectories with up to five nodes each, any combination of sensors, weights and settings, 2D and 3D',
     'the optimization problem test of the repository needs an older solver library and does not run here; it recovers one noise-free-like trajectory',
     ['cartographer/mapping/internal/optimization/optimization_problem_2d.cc', 'cartographer/mapping/internal/optimization/optimization_problem_3d.cc',
      'cartographer/mapping/internal/optimization/cost_functions/', 'cartographer/mapping/internal/3d/rotation_parameterization.h', 'cartographer/mapping/internal/3d/imu_integration.h'],
     [('what is solved', 'optimization_problem_2d.cc, optimization_problem_3d.cc Solve, AddLandmarkCostFunctions, CalculateOdometryBetweenNodes, Interpolate'), ('terms', 'spa_cost_function_2d.cc, spa_cost_function_3d.h, landmark_cost_function_*.h, acceleration_cost_function_3d.h, rotation_cost_function_3d.h, cost_helpers_impl.h')],
     'generated worlds; the objective is written down a second time in the harness and probed along every free direction at the result; a direction that lowers it counts only if solving again from the better place returns',
     'the solver compatibility shim stands in for the older parameterization classes; inertial data begins no later than the first node')

prop('I03', 'Migrating an older map file adds submap histograms and loses nothing else',
     'A 3D map in the older format is refused when loaded, but once migrated it loads and saves with every trajectory, option, pose, node, submap, constraint, landmark and sensor reading it had, whatever the timing. '
     'Each migrated submap gains the sum of the histograms of exactly the nodes inserted into it, each turned by the heading of the node in the submap (spread linearly over the two buckets it then overlaps), '
     'and submaps without nodes gain none. 2D submaps and files already in the current format stay as they are, and unfinished submaps are left out only if that is asked for.',
     ['inputs', 'schedules'],
     'any saved state of up to three trajectories, histograms of 1 to 9 or 120 buckets, messages in either order, through memory and files',
     'the migration test has one submap, one node and no rotation',
     ['cartographer/io/serialization_format_migration.cc', 'cartographer/io/internal/mapping_state_serialization.cc', 'cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc'],
     [('streams', 'serialization_format_migration.cc MigrateStreamVersion1ToVersion2'), ('histograms', 'MigrateSubmapFormatVersion1ToVersion2, RotationalScanMatcher::RotateHistogram'), ('refusal', 'map_builder.cc LoadState')],
     'round trips of generated states through the migration against a model of the state, histograms recomputed in the harness',
     'trajectory ids of the file must be 0, 1, ... as the migration requires')

prop('I04', 'Point filters keep exactly the points asked for, with all they carry',
     'A pipeline built from a configuration applies its stages in the order written, in as many passes as they need, and each pass starts afresh. Filters pass on exactly the points within the (closed) range or height of the sensor, '
     'of the chosen frames, or in the chosen ratio (after n points the ratio times n, rounded up); the moving-object filter drops the points of a voxel that sensor rays, sampled at voxel distance, crossed at least the given factor as often as it was hit. '
     'Points keep their order, position, intensity, color, time, frame, trajectory and sensor origin; coloring stages set the color of exactly the batches addressed. An impossible configuration is refused.',
     ['inputs', 'configurations'],
     'up to six stages in any order and setting over any stream of batches with or without colors and intensities',
     'the pipeline tests only construct the stages; none of the filters has a test',
     ['cartographer/io/points_processor_pipeline_builder.cc', 'cartographer/io/points_batch.cc', 'cartographer/io/min_max_range_filtering_points_processor.cc', 'cartographer/io/vertical_range_filtering_points_processor.cc',
      'cartographer/io/fixed_ratio_sampling_points_processor.cc', 'cartographer/io/frame_id_filtering_points_processor.cc', 'cartographer/io/outlier_removing_points_processor.cc',
      'cartographer/io/coloring_points_processor.cc', 'cartographer/io/intensity_to_color_points_processor.cc', 'cartographer/common/fixed_ratio_sampler.cc'],
     [('stages', 'the Process and Flush functions of the processors'), ('construction', 'points_processor_pipeline_builder.cc CreatePipeline'), ('alignment', 'points_batch.cc RemovePoints')],
     'generated pipelines and streams against a model of every stage, observed at arbitrary places of the pipeline',
     'coordinates mostly on a lattice so that limits are met exactly; cases too close to a voxel boundary are discarded')

prop('I05', 'Files written from a point stream hold exactly the points that reached them',
     'A PLY, PCD or XYZ file holds the points that reached its writer in order (XYZ with six digits), with the colors and intensities all of them carry, under a header that counts and describes them; batches differing in what they carry are refused or written consistently, and writers pass everything on unchanged. '
     'A probability or hybrid grid file is the grid the points produce when inserted, its picture shows each known cell at its probability and the trajectories where they are, and an X-ray picture shows per column of voxels the mean color, '
     'more saturated the more voxels of it are occupied, per floor for the times spent there. A file that could not be opened or completely written is reported, at the latest when it is closed.',
     ['inputs', 'configurations', 'fault_sequences'],
     'streams of up to eight batches through up to four writers, rotated views, several floors, real files and a full disk',
     'one test writes one fixed grid as a protocol buffer; no other writer has a test',
     ['cartographer/io/ply_writing_points_processor.cc', 'cartographer/io/pcd_writing_points_processor.cc', 'cartographer/io/xyz_writing_points_processor.cc', 'cartographer/io/hybrid_grid_points_processor.cc',
      'cartographer/io/probability_grid_points_processor.cc', 'cartographer/io/xray_points_processor.cc', 'cartographer/io/file_writer.cc', 'cartographer/io/draw_trajectories.cc', 'cartographer/io/image.cc', 'cartographer/io/color.h'],
     [('clouds', 'the Process and Flush functions of the writers'), ('pictures', 'DrawProbabilityGrid, XRayPointsProcessor::WriteVoxels, DrawTrajectory, Image::WritePng'), ('files', 'StreamFileWriter')],
     'files read back by independent readers for each format and compared with what passed the writer; pictures recomputed; faults injected by unwritable paths and a full device',
     'the drawn line is checked at its ends and the middle of its pieces, not at its exact outline; a map without any known cell may be written or not')

prop('I06', 'Pictures of a map show each submap where it is, and images keep their pixels',
     'Painting submaps at any planar poses and resolutions gives a picture with x to the right and y up, large enough for all of them, in which each place shows the texture of the submaps there, blended in the order of their ids, '
     'on the background color elsewhere; submaps whose texture has not arrived hide no other. From a saved map every submap that has its grids is drawn at its pose in the pose graph, occupied, free and unknown cells being told apart. '
     'Images return the pixels set, turn clockwise, and survive being written as PNG or passed through a drawing surface.',
     ['inputs', 'histories'],
     'up to four submaps of any pose, size and content, some without texture; any saved 2D or 3D state; images up to 12 by 12 pixels through any sequence of turns and writes',
     'no test covers painting, textures or images',
     ['cartographer/io/submap_painter.cc', 'cartographer/io/image.cc'],
     [('painting', 'submap_painter.cc PaintSubmapSlices, CairoPaintSubmapSlices, DrawTexture, UnpackTextureData'), ('saved maps', 'DeserializeAndFillSubmapSlices, FillSubmapSlice'), ('images', 'image.cc')],
     'generated slices and states; expected pixels computed from the poses and textures',
     'where texture pixels do not coincide with pixels of the picture, textures of one color are used and their edges not compared')

prop('K01', 'Ground truth and accuracy figures follow from the pose graph as defined',
     'The ground truth of a solved map is, in order, every loop closure whose node is separated from the middle node of its submap by at least the given travelled distance and agrees with the solution within the given thresholds, with the times of both nodes, the travelled distance and the relative pose the closure implies. '
     'Relation files with Unix times and roll, pitch, yaw read as written, and malformed or missing ones stop the program. The error of a relation is (pose1^-1 pose2) expected^-1 with poses interpolated between the nodes and held outside; '
     'the tools report the mean and deviation of its size and angle, write one exact row per relation, and fail if the ground truth cannot be written.',
     ['inputs', 'configurations', 'fault_sequences'],
     'any single-trajectory map with contiguous nodes, any thresholds, any relation file; the two command line programs run on generated files',
     'no test covers ground truth',
     ['cartographer/ground_truth/autogenerate_ground_truth.cc', 'cartographer/ground_truth/autogenerate_ground_truth_main.cc', 'cartographer/ground_truth/relations_text_file.cc', 'cartographer/ground_truth/compute_relations_metrics_main.cc'],
     [('generation', 'autogenerate_ground_truth.cc GenerateGroundTruth'), ('text files', 'relations_text_file.cc ReadRelationsTextFile'), ('measures', 'compute_relations_metrics_main.cc')],
     'generated maps and relation files against a model in matrix form; the real programs are built and run, their files and reports read back',
     'trajectories that were trimmed and fewer than two relations are not claimed; Unix times are compared to 0.4 microseconds, table entries to six digits')

prop('K03', 'Floors of a building are found from the heights travelled',
     'A trajectory is cut wherever its height leaves the median of the piece so far by more than 2.5 m, and pieces whose medians are within 1 m of each other, directly or through others, form a level. The floors are exactly the levels with a piece at least 25 m long horizontally, '
     'sorted by height, at the median height of their long pieces. Each lists the time spans of all its pieces and of the short pieces directly before or after them that belong to no floor; no trajectory, however short, makes this fail.',
     ['inputs', 'histories'],
     'walks through buildings of up to five floors with landings, and arbitrary height profiles meeting the limits exactly',
     'the test has a few fixed walks',
     ['cartographer/mapping/detect_floors.cc'],
     [('cutting', 'SliceByAltitudeChange'), ('levels', 'GroupSegmentsByAltitude'), ('floors', 'FindFloors')],
     'generated walks against an independent grouping by connected components',
     'with two pieces in a row that belong to no floor only the floors and heights are compared, not the time spans')

prop('L05', 'Sensor data reaches local SLAM and the pose graph of its trajectory in order',
     'Whatever the order in which messages of different sensors and trajectories arrive, each trajectory of a map gives the same local SLAM results, nodes and submaps as processing its own messages by time: every result is reported once, with its trajectory and its node in the pose graph, '
     'and the pose graph keeps, in order, all its odometry (thinned by the configured motion filter), fixed-frame poses, landmark observations and, in 3D, inertial data. Each trajectory is listed with its options and sensors, one given a start on another begins at that relative pose, '
     'one for localization only keeps its configured number of newest submaps, and each submap present can be queried. Invalid poses and contradictory options are refused, and a map may be destroyed while its finished trajectories are still being worked on.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'up to three trajectories one after the other or together, any sensors and options, any arrival order of the sensors; 2D and 3D',
     'the tests feed one fixed trajectory whose data arrives in order',
     ['cartographer/mapping/map_builder.cc', 'cartographer/mapping/internal/global_trajectory_builder.cc', 'cartographer/mapping/internal/collated_trajectory_builder.cc', 'cartographer/mapping/internal/motion_filter.cc', 'cartographer/sensor/internal/collator.cc', 'cartographer/sensor/internal/trajectory_collator.cc'],
     [('delivery', 'map_builder.cc, collated_trajectory_builder.cc, global_trajectory_builder.cc'), ('start poses and trimming', 'MapBuilder::AddTrajectoryBuilder')],
     'simulated drives, fed in generated interleavings, against local SLAM run on the same messages sorted by time',
     'a trajectory whose data is still held back is finished only in one recorded history, which is a known finding; of trajectories not finished only the results so far are compared')

prop('E01', 'A robot driving around a room gets a true map and finds itself in it again',
     'With default-like options, driving around a furnished room of about 10 to 15 m with a laser scanner and odometry (2D) or a 3D scanner and inertial data, optionally with landmarks, inertial data or fixed-frame poses, gives after final optimization every node within 1.2 m and 0.4 rad of where it was, up to one rigid motion of the map, '
     'for two drives in the same room too once they are joined. A drive that returns recognizes the place; most occupied cells are at walls, most free cells inside the room, landmarks where they are. '
     'A new drive in the saved and loaded, frozen map that was matched to it ends within the same bounds of its true place.',
     ['inputs', 'schedules', 'configurations'],
     'random rooms, elliptic drives of 0.4 to 1.3 rounds, sensor noise to 2 cm, odometry scale errors to 2 percent',
     'one test drives through a fixed synthetic scene in 2D and 3D for a few seconds without loop closure',
     ['cartographer/mapping/map_builder.cc', 'cartographer/mapping/internal/2d/pose_graph_2d.cc', 'cartographer/mapping/internal/3d/pose_graph_3d.cc', 'cartographer/mapping/internal/2d/local_trajectory_builder_2d.cc', 'cartographer/mapping/internal/3d/local_trajectory_builder_3d.cc', 'cartographer/mapping/internal/constraints/constraint_builder_2d.cc', 'cartographer/mapping/internal/constraints/constraint_builder_3d.cc'],
     [('whole system', 'map_builder.cc, pose_graph_2d.cc, pose_graph_3d.cc and all below')],
     'simulated rooms, motion and sensors with known truth',
     'bounds are about twice the worst of 3000 measured runs (0.6 m, 0.2 rad); 2D drives have odometry since scans alone can slip along walls; gross failures only, the exact behavior of the parts is in the other properties')
