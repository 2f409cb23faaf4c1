From 63c192109a84e9b9a0c09c7b51fad32c34ae7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:46 +0000
Subject: [PATCH 01/18] fix: grow signed-distance grid for the part of rays
 behind hits off the plane

---
 .../internal/2d/tsdf_range_data_inserter_2d.cc     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
index 7e6bd3f..141fd77 100644
--- a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
+++ b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
@@ -34,11 +34,15 @@ void GrowAsNeeded(const sensor::RangeData& range_data,
                   const float truncation_distance, TSDF2D* const tsdf) {
   Eigen::AlignedBox2f bounding_box(range_data.origin.head<2>());
   for (const sensor::RangefinderPoint& hit : range_data.returns) {
-    const Eigen::Vector3f direction =
-        (hit.position - range_data.origin).normalized();
-    const Eigen::Vector3f end_position =
-        hit.position + truncation_distance * direction;
-    bounding_box.extend(end_position.head<2>());
+    // Rays are cast in the plane, so the height of the hit must not shorten
+    // the part behind it.
+    const Eigen::Vector2f ray =
+        hit.position.head<2>() - range_data.origin.head<2>();
+    const float range = ray.norm();
+    bounding_box.extend(hit.position.head<2>());
+    if (range < truncation_distance) continue;
+    bounding_box.extend(range_data.origin.head<2>() +
+                        (1.0f + truncation_distance / range) * ray);
   }
   // Padding around bounding box to avoid numerical issues at cell boundaries.
   constexpr float kPadding = 1e-6f;
-- 
2.43.0


From 7d7c27b8b226cb97c89bdb3a98e292aa4f084538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 02/18] fix: do not reuse an extrapolated pose from before the
 last added pose

---
 cartographer/mapping/pose_extrapolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..9941f16 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -76,6 +76,8 @@ void PoseExtrapolator::AddPose(const common::Time time,
         absl::make_unique<ImuTracker>(gravity_time_constant_, tracker_start);
   }
   timed_pose_queue_.push_back(TimedPose{time, pose});
+  // The cached pose was extrapolated from the previous pose.
+  cached_extrapolated_pose_.time = common::Time::min();
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
     timed_pose_queue_.pop_front();
-- 
2.43.0


From 69e4b0a9cfec5eb250a5fd28ce06b36591bff89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:36 +0000
Subject: [PATCH 03/18] fix: track trajectories that are connected before they
 were added

TrajectoryConnectivityState::Connect() is documented to start tracking
untracked trajectories, but stopped the program instead.
---
 cartographer/mapping/internal/trajectory_connectivity_state.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/mapping/internal/trajectory_connectivity_state.cc b/cartographer/mapping/internal/trajectory_connectivity_state.cc
index 73ddf46..2023528 100644
--- a/cartographer/mapping/internal/trajectory_connectivity_state.cc
+++ b/cartographer/mapping/internal/trajectory_connectivity_state.cc
@@ -26,6 +26,9 @@ void TrajectoryConnectivityState::Add(const int trajectory_id) {
 void TrajectoryConnectivityState::Connect(const int trajectory_id_a,
                                           const int trajectory_id_b,
                                           const common::Time time) {
+  // Untracked trajectories become tracked.
+  connected_components_.Add(trajectory_id_a);
+  connected_components_.Add(trajectory_id_b);
   if (TransitivelyConnected(trajectory_id_a, trajectory_id_b)) {
     // The trajectories are transitively connected, i.e. they belong to the same
     // connected component. In this case we only update the last connection time
-- 
2.43.0


From a68a07192c5ae324e19c3b4ca6730a017198e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:36 +0000
Subject: [PATCH 04/18] fix: do not merge neighboring cells when computing
 submap coverage

The centers of the cells of an aligned submap are exactly between two
whole numbers, so rounding put about a quarter of them into the cell of
their neighbor, and submaps with enough covered area were trimmed.
---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..da06700 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -17,6 +17,7 @@
 #include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
 
 #include <algorithm>
+#include <cmath>
 
 #include "cartographer/mapping/2d/submap_2d.h"
 
@@ -35,8 +36,11 @@ class SubmapCoverageGrid2D {
 
   void AddPoint(const Eigen::Vector2d& point, const SubmapId& submap_id,
                 const common::Time& time) {
-    CellId cell_id{common::RoundToInt64((offset_(0) - point(0)) / resolution_),
-                   common::RoundToInt64((offset_(1) - point(1)) / resolution_)};
+    // 'offset_' is a corner of a cell, so that centers of cells are well away
+    // from where the index changes.
+    CellId cell_id{
+        static_cast<int64>(std::floor((offset_(0) - point(0)) / resolution_)),
+        static_cast<int64>(std::floor((offset_(1) - point(1)) / resolution_))};
     cells_[cell_id].emplace_back(submap_id, time);
   }
 
-- 
2.43.0


From 18f9cfdb9f808786d780e3b430f70b4f134110ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:36 +0000
Subject: [PATCH 05/18] fix: count covered cells of large submaps without
 overflow

A submap with 256 x 256 cells overflowed the counter and was trimmed.
---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index da06700..ec3b136 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -149,8 +149,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int64 min_covered_cells_count) {
+  std::map<SubmapId, int64> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
-- 
2.43.0


From 8f202a22499b1e126c3fc453099f2e957c05661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 06/18] fix: do not read past the end when a stream summary
 meets an unknown message

---
 cartographer/io/internal/pbstream_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/internal/pbstream_info.cc b/cartographer/io/internal/pbstream_info.cc
index 194d9d1..213a4c1 100644
--- a/cartographer/io/internal/pbstream_info.cc
+++ b/cartographer/io/internal/pbstream_info.cc
@@ -80,6 +80,7 @@ void Run(const std::string& pbstream_filename, bool all_debug_strings) {
     if (it == data_case_to_name.end()) {
       LOG(WARNING) << "Skipping unknown message type in stream: "
                    << proto.GetTypeName();
+      continue;
     }
     const std::string& data_name = it->second;
     ++data_counts[data_name];
-- 
2.43.0


From 32d2decee18a5f1572fc1a3d19baf3460e69347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 07/18] fix: write options and sensor data only for the
 trajectories a saved state contains

The options were those of all trajectories that are not deleted, in the order
of their ids, while loading takes them by position in the pose graph, which
lists trajectories with submaps or nodes. Sensor data and landmark
observations of trajectories that are not listed made loading fail.
---
 .../internal/mapping_state_serialization.cc   | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..a73739d 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,8 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <set>
+
 #include "cartographer/mapping/proto/serialization.pb.h"
 #include "cartographer/transform/transform.h"
 
@@ -42,17 +44,14 @@ CreateAllTrajectoryBuilderOptionsProto(
   return all_options_proto;
 }
 
-// Will return all trajectory ids, that have `state != DELETED`.
-std::vector<int> GetValidTrajectoryIds(
-    const std::map<int, PoseGraphInterface::TrajectoryState>&
-        trajectory_states) {
-  std::vector<int> valid_trajectories;
-  for (const auto& t : trajectory_states) {
-    if (t.second != PoseGraphInterface::TrajectoryState::DELETED) {
-      valid_trajectories.push_back(t.first);
-    }
+// Returns the ids of the trajectories in 'pose_graph_proto', in their order.
+std::vector<int> GetTrajectoryIds(
+    const mapping::proto::PoseGraph& pose_graph_proto) {
+  std::vector<int> trajectory_ids;
+  for (const auto& trajectory : pose_graph_proto.trajectory()) {
+    trajectory_ids.push_back(trajectory.trajectory_id());
   }
-  return valid_trajectories;
+  return trajectory_ids;
 }
 
 mapping::proto::SerializationHeader CreateHeader() {
@@ -140,8 +139,10 @@ void SerializeTrajectoryData(
 }
 
 void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
+                      const std::set<int>& serialized_trajectory_ids,
                       ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_imu_data.trajectory_ids()) {
+    if (serialized_trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& imu_data : all_imu_data.trajectory(trajectory_id)) {
       SerializedData proto;
       auto* const imu_data_proto = proto.mutable_imu_data();
@@ -154,8 +155,10 @@ void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
 
 void SerializeOdometryData(
     const sensor::MapByTime<sensor::OdometryData>& all_odometry_data,
+    const std::set<int>& serialized_trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_odometry_data.trajectory_ids()) {
+    if (serialized_trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& odometry_data :
          all_odometry_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -171,8 +174,10 @@ void SerializeOdometryData(
 void SerializeFixedFramePoseData(
     const sensor::MapByTime<sensor::FixedFramePoseData>&
         all_fixed_frame_pose_data,
+    const std::set<int>& serialized_trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_fixed_frame_pose_data.trajectory_ids()) {
+    if (serialized_trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& fixed_frame_pose_data :
          all_fixed_frame_pose_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -189,9 +194,13 @@ void SerializeFixedFramePoseData(
 void SerializeLandmarkNodes(
     const std::map<std::string, PoseGraphInterface::LandmarkNode>&
         all_landmark_nodes,
+    const std::set<int>& serialized_trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node : all_landmark_nodes) {
     for (const auto& observation : node.second.landmark_observations) {
+      if (serialized_trajectory_ids.count(observation.trajectory_id) == 0) {
+        continue;
+      }
       SerializedData proto;
       auto* landmark_data_proto = proto.mutable_landmark_data();
       landmark_data_proto->set_trajectory_id(observation.trajectory_id);
@@ -217,20 +226,29 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  writer->WriteProto(
-      SerializePoseGraph(pose_graph, include_unfinished_submaps));
+  const SerializedData pose_graph_proto =
+      SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  writer->WriteProto(pose_graph_proto);
+  // When loading, the options are matched with the trajectories by position,
+  // and data of trajectories that are not in the pose graph has no place.
+  const std::vector<int> trajectory_ids =
+      GetTrajectoryIds(pose_graph_proto.pose_graph());
+  const std::set<int> trajectory_ids_set(trajectory_ids.begin(),
+                                         trajectory_ids.end());
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
-      trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      trajectory_builder_options, trajectory_ids));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
   SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
   SerializeTrajectoryData(pose_graph.GetTrajectoryData(), writer);
-  SerializeImuData(pose_graph.GetImuData(), writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(), writer);
-  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), writer);
+  SerializeImuData(pose_graph.GetImuData(), trajectory_ids_set, writer);
+  SerializeOdometryData(pose_graph.GetOdometryData(), trajectory_ids_set,
+                        writer);
+  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
+                              trajectory_ids_set, writer);
+  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), trajectory_ids_set,
+                         writer);
 }
 
 }  // namespace io
-- 
2.43.0


From ed74ccb51d8ea05aafd234b2c1ce44fc93287b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 08/18] fix: skip landmark observations of trajectories with
 fewer than two nodes

---
 .../internal/optimization/optimization_problem_2d.cc      | 8 ++++++++
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..168b2b2 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -115,6 +115,10 @@ void AddLandmarkCostFunctions(
   for (const auto& landmark_node : landmark_nodes) {
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory has no nodes yet, or does not have them anymore.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -131,6 +135,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is only one trajectory node so far.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..e8d9683 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -131,6 +131,10 @@ void AddLandmarkCostFunctions(
     // Do not use landmarks that were not optimized for localization.
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory has no nodes yet, or does not have them anymore.
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -147,6 +151,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is only one trajectory node so far.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
-- 
2.43.0


From 665bde857f3333ff50d6df6b40864061d3e30b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 09/18] fix: forget the global pose of a submap when it is
 trimmed

Until the next optimization, the transform from local to global looked up the
last submap with a global pose, and threw when it had been trimmed.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 4 ++++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..ea822f8 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1279,6 +1279,10 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  // Its pose must not be used anymore before the next optimization either.
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..39c5222 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1259,6 +1259,10 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  // Its pose must not be used anymore before the next optimization either.
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
-- 
2.43.0


From ef25aec6d6dc3bf6bab502d9ac21ac9d6766baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 10/18] fix: compute the old local to global transforms before
 updating nodes

RunOptimization() updated the poses of the nodes trajectory by trajectory and
computed the transform from before the optimization in between. For a
trajectory with an initial pose relative to another one, that transform is
interpolated from the nodes of the other trajectory, which could have been
updated already, so that nodes waiting to be optimized were moved to the wrong
place.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 13 ++++++++++---
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index ea822f8..4f93188 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -873,6 +873,15 @@ void PoseGraph2D::RunOptimization() {
 
   const auto& submap_data = optimization_problem_->submap_data();
   const auto& node_data = optimization_problem_->node_data();
+
+  // The old transforms are computed before any node is updated, since they can
+  // depend on the poses of the nodes of other trajectories.
+  std::map<int, transform::Rigid3d> local_to_old_global;
+  for (const int trajectory_id : node_data.trajectory_ids()) {
+    local_to_old_global[trajectory_id] = ComputeLocalToGlobalTransform(
+        data_.global_submap_poses_2d, trajectory_id);
+  }
+
   for (const int trajectory_id : node_data.trajectory_ids()) {
     for (const auto& node : node_data.trajectory(trajectory_id)) {
       auto& mutable_trajectory_node = data_.trajectory_nodes.at(node.id);
@@ -886,10 +895,8 @@ void PoseGraph2D::RunOptimization() {
     // 'optimization_problem_' yet.
     const auto local_to_new_global =
         ComputeLocalToGlobalTransform(submap_data, trajectory_id);
-    const auto local_to_old_global = ComputeLocalToGlobalTransform(
-        data_.global_submap_poses_2d, trajectory_id);
     const transform::Rigid3d old_global_to_new_global =
-        local_to_new_global * local_to_old_global.inverse();
+        local_to_new_global * local_to_old_global.at(trajectory_id).inverse();
 
     const NodeId last_optimized_node_id =
         std::prev(node_data.EndOfTrajectory(trajectory_id))->id;
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 39c5222..9272005 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -869,6 +869,15 @@ void PoseGraph3D::RunOptimization() {
 
   const auto& submap_data = optimization_problem_->submap_data();
   const auto& node_data = optimization_problem_->node_data();
+
+  // The old transforms are computed before any node is updated, since they can
+  // depend on the poses of the nodes of other trajectories.
+  std::map<int, transform::Rigid3d> local_to_old_global;
+  for (const int trajectory_id : node_data.trajectory_ids()) {
+    local_to_old_global[trajectory_id] = ComputeLocalToGlobalTransform(
+        data_.global_submap_poses_3d, trajectory_id);
+  }
+
   for (const int trajectory_id : node_data.trajectory_ids()) {
     for (const auto& node : node_data.trajectory(trajectory_id)) {
       data_.trajectory_nodes.at(node.id).global_pose = node.data.global_pose;
@@ -878,10 +887,8 @@ void PoseGraph3D::RunOptimization() {
     // 'optimization_problem_' yet.
     const auto local_to_new_global =
         ComputeLocalToGlobalTransform(submap_data, trajectory_id);
-    const auto local_to_old_global = ComputeLocalToGlobalTransform(
-        data_.global_submap_poses_3d, trajectory_id);
     const transform::Rigid3d old_global_to_new_global =
-        local_to_new_global * local_to_old_global.inverse();
+        local_to_new_global * local_to_old_global.at(trajectory_id).inverse();
 
     const NodeId last_optimized_node_id =
         std::prev(node_data.EndOfTrajectory(trajectory_id))->id;
-- 
2.43.0


From 4917f247f846aaf35e016e00f999d1fff4e7be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 11/18] fix: 3D optimization of a trajectory with fewer than
 three consecutive nodes

The lower bound of the gravity constant was set although the gravity constant
is only part of the problem if there are three consecutive nodes, which stops
the program.
---
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index e8d9683..26a015d 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -450,8 +450,12 @@ void OptimizationProblem3D::Solve(
             trajectory_data.imu_calibration.data());
       }
 
-      // Force gravity constant to be positive.
-      problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0, 0.0);
+      // Force gravity constant to be positive. It is only part of the problem if
+      // there are three consecutive nodes.
+      if (problem.HasParameterBlock(&trajectory_data.gravity_constant)) {
+        problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0,
+                                       0.0);
+      }
     }
   }
 
-- 
2.43.0


From 9ead9134f0cd1ad4475db52da3bc69ac02c74cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 12/18] fix: wait for queued work before writing a migrated
 stream

Constraints, landmarks and sensor data are added to the pose graph in the
background, so that a migrated stream could be written without them.
---
 cartographer/io/serialization_format_migration.cc | 2 ++
 cartographer/mapping/internal/3d/pose_graph_3d.h  | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/serialization_format_migration.cc b/cartographer/io/serialization_format_migration.cc
index 7ed692e..4870212 100644
--- a/cartographer/io/serialization_format_migration.cc
+++ b/cartographer/io/serialization_format_migration.cc
@@ -206,6 +206,8 @@ void MigrateStreamVersion1ToVersion2(
   pose_graph.AddSerializedConstraints(
       mapping::FromProto(pose_graph_proto.constraint()));
   CHECK(input->eof());
+  // What was added is processed in the background.
+  pose_graph.WaitForAllComputations();
 
   WritePbStream(pose_graph, trajectory_builder_options, output,
                 include_unfinished_submaps);
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index 12a3469..73cf686 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -157,7 +157,6 @@ class PoseGraph3D : public PoseGraph {
 
   static void RegisterMetrics(metrics::FamilyFactory* family_factory);
 
- protected:
   // Waits until we caught up (i.e. nothing is waiting to be scheduled), and
   // all computations have finished.
   void WaitForAllComputations() LOCKS_EXCLUDED(mutex_)
-- 
2.43.0


From e53edac5afff090d19b95c7c98d90f00dc22ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:10 +0000
Subject: [PATCH 13/18] fix: PLY header of an empty cloud no longer depends on
 uninitialized memory

'has_intensities_' was only set by the first non-empty batch, so flushing
without any points wrote a header depending on an indeterminate value.
---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From 96a7ce79362753736f4f7288c911a0d52156be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:10 +0000
Subject: [PATCH 14/18] fix: report files which cannot be opened or written
 completely

StreamFileWriter only looked at the badbit. Failing to open the file, and
failing to write the buffered data when closing, set the failbit, so both
were reported as success and the output was silently lost.
---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From 87812f071f83d23fc80a6f3d1c30dc87c70cd2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:10 +0000
Subject: [PATCH 15/18] fix: keep PCD records in step with the header when
 batches differ in colors

Colors were written per batch, while the header is determined by the first
non-empty batch. A later batch with or without colors shifted all following
records. Behave like the PLY writer instead.
---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 05368a6b777321df1dcfe406b111f4f673bd71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 16/18] fix: a submap without a texture no longer hides those
 after it

Painting stopped at the first slice whose texture has not been drawn yet,
so all submaps with greater ids were missing from the map.
---
 cartographer/io/submap_painter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/io/submap_painter.cc b/cartographer/io/submap_painter.cc
index 49b0046..6cf779d 100644
--- a/cartographer/io/submap_painter.cc
+++ b/cartographer/io/submap_painter.cc
@@ -36,7 +36,7 @@ void CairoPaintSubmapSlices(
   for (auto& pair : submaps) {
     const auto& submap_slice = pair.second;
     if (submap_slice.surface == nullptr) {
-      return;
+      continue;
     }
     const Eigen::Matrix4d homo =
         ToEigen(submap_slice.pose * submap_slice.slice_pose).matrix();
-- 
2.43.0


From 133d3091b3ae122a5f5b27da684fcd1c0a0e0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:36 +0000
Subject: [PATCH 17/18] fix: count the first node as part of its span when
 detecting floors

A trajectory of a single node, or one whose second node is on another
level, left the first span empty, and its end was looked up before the
first node.
---
 cartographer/mapping/detect_floors.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/mapping/detect_floors.cc b/cartographer/mapping/detect_floors.cc
index 8ec605d..009d82e 100644
--- a/cartographer/mapping/detect_floors.cc
+++ b/cartographer/mapping/detect_floors.cc
@@ -82,7 +82,7 @@ std::vector<Span> SliceByAltitudeChange(const proto::Trajectory& trajectory) {
   CHECK_GT(trajectory.node_size(), 0);
 
   std::vector<Span> spans;
-  spans.push_back(Span{0, 0, {trajectory.node(0).pose().translation().z()}});
+  spans.push_back(Span{0, 1, {trajectory.node(0).pose().translation().z()}});
   for (int i = 1; i < trajectory.node_size(); ++i) {
     const auto& node = trajectory.node(i);
     const double z = node.pose().translation().z();
-- 
2.43.0


From 903b7a80b83323e3c36615a1afc6b280e05483a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:35 +0000
Subject: [PATCH 18/18] fix: keep what submaps refer to until the pose graph
 has finished its work

Destroying a MapBuilder destroyed the trajectory builders before the pose
graph, while constraint searches were still reading the value conversion
tables the trajectory builders own.
---
 cartographer/mapping/map_builder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/map_builder.h b/cartographer/mapping/map_builder.h
index ee885a0..f6508d4 100644
--- a/cartographer/mapping/map_builder.h
+++ b/cartographer/mapping/map_builder.h
@@ -86,11 +86,13 @@ class MapBuilder : public MapBuilderInterface {
   const proto::MapBuilderOptions options_;
   common::ThreadPool thread_pool_;
 
+  // The trajectory builders own data that submaps refer to, so they have to
+  // outlive the pose graph, which finishes its work on destruction.
+  std::vector<std::unique_ptr<mapping::TrajectoryBuilderInterface>>
+      trajectory_builders_;
   std::unique_ptr<PoseGraph> pose_graph_;
 
   std::unique_ptr<sensor::CollatorInterface> sensor_collator_;
-  std::vector<std::unique_ptr<mapping::TrajectoryBuilderInterface>>
-      trajectory_builders_;
   std::vector<proto::TrajectoryBuilderOptionsWithSensorIds>
       all_trajectory_builder_options_;
 };
-- 
2.43.0

