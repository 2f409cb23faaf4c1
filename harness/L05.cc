// L05: the map builder gives every piece of sensor data to local SLAM and to the
// pose graph of its own trajectory, in order, and reports each result once.
#include <thread>

#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/map_builder.h"
#include "world.h"

namespace {
using namespace cartographer;
using transform::Rigid3d;
using SensorId = mapping::TrajectoryBuilderInterface::SensorId;
using SensorType = SensorId::SensorType;
using mapping::NodeId;
using mapping::SubmapId;

struct Base {
  mapping::proto::MapBuilderOptions map;
  mapping::proto::TrajectoryBuilderOptions trajectory;
};
const Base& Defaults() {
  static const Base base = [] {
    Base b;
    b.map = mapping::CreateMapBuilderOptions(world::Load(R"(
      include "map_builder.lua"
      MAP_BUILDER.use_trajectory_builder_2d = true
      MAP_BUILDER.num_background_threads = 2
      MAP_BUILDER.pose_graph.optimize_every_n_nodes = 0
      MAP_BUILDER.pose_graph.constraint_builder.sampling_ratio = 0
      MAP_BUILDER.pose_graph.global_sampling_ratio = 0
      MAP_BUILDER.pose_graph.max_num_final_iterations = 3
      MAP_BUILDER.pose_graph.optimization_problem.ceres_solver_options.num_threads = 1
      return MAP_BUILDER)").get());
    b.trajectory = mapping::CreateTrajectoryBuilderOptions(world::Load(R"(
      include "trajectory_builder.lua"
      TRAJECTORY_BUILDER.trajectory_builder_2d.submaps.grid_options_2d.resolution = 0.2
      TRAJECTORY_BUILDER.trajectory_builder_2d.voxel_filter_size = 0.1
      TRAJECTORY_BUILDER.trajectory_builder_2d.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 3
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 2
      TRAJECTORY_BUILDER.trajectory_builder_3d.submaps.high_resolution = 0.5
      TRAJECTORY_BUILDER.trajectory_builder_3d.submaps.low_resolution = 1.
      return TRAJECTORY_BUILDER)").get());
    return b;
  }();
  return base;
}

struct Event {
  int sensor;
  int64_t time;
  sensor::TimedPointCloudData range;
  sensor::ImuData imu;
  sensor::OdometryData odometry;
  sensor::FixedFramePoseData fixed;
  sensor::LandmarkData landmarks;
};
struct Result {
  int trajectory;
  common::Time time;
  Rigid3d local_pose;
  sensor::RangeData range;
  bool inserted = false;
  NodeId node{0, 0};
  std::shared_ptr<const mapping::TrajectoryNode::Data> data;
  std::vector<std::shared_ptr<const mapping::Submap>> submaps;
};
struct Trajectory {
  std::vector<SensorId> sensors;
  mapping::proto::TrajectoryBuilderOptions options;
  std::vector<Event> events;  // by time
  bool local = true;
  bool finish = true;
  int keep = 0;  // submaps, 0: all
  bool callback = true;
  int64_t begin = 0;
  // Relative to an earlier one.
  int start_from = -1;
  Rigid3d start_pose;
  int64_t start_time = 0;
  Rigid3d origin;
  bool over = false;  // poses have been optimized since
  std::vector<Result> expected, got;
};

void GenTrajectory(pbt::Source& s, bool three_d, int64_t begin, int more_scans, Trajectory* t) {
  t->begin = begin;
  t->options = Defaults().trajectory;
  t->local = s.Chance(0.9);
  auto add = [&](SensorType type, const std::string& id) { t->sensors.push_back({type, id}); };
  if (t->local) {
    add(SensorType::RANGE, s.Chance(0.5) ? "scan" : "a");
    if (s.Chance(0.3)) add(SensorType::RANGE, "second");
  }
  const bool imu = three_d || s.Chance(0.5) || !t->local;
  if (imu) add(SensorType::IMU, "imu");
  if (s.Chance(0.6)) add(SensorType::ODOMETRY, "odom");
  if (s.Chance(0.4)) add(SensorType::FIXED_FRAME_POSE, "fix");
  if (s.Chance(0.4)) add(SensorType::LANDMARK, "mark");
  auto& o = t->options;
  o.mutable_trajectory_builder_2d_options()->set_use_imu_data(imu);
  const int accumulate = s.Weighted({3, 1, 1}) + 1;
  o.mutable_trajectory_builder_2d_options()->set_num_accumulated_range_data(accumulate);
  o.mutable_trajectory_builder_3d_options()->set_num_accumulated_range_data(accumulate);
  const int per_submap = s.Int(1, 5);
  o.mutable_trajectory_builder_2d_options()->mutable_submaps_options()->set_num_range_data(per_submap);
  o.mutable_trajectory_builder_3d_options()->mutable_submaps_options()->set_num_range_data(per_submap);
  if (s.Chance(0.3)) {
    o.mutable_trajectory_builder_2d_options()->mutable_motion_filter_options()->set_max_distance_meters(10.);
    o.mutable_trajectory_builder_2d_options()->mutable_motion_filter_options()->set_max_angle_radians(1.);
    o.mutable_trajectory_builder_2d_options()->mutable_motion_filter_options()->set_max_time_seconds(s.Real(0.1, 0.6));
  }
  if (!t->local) {
    o.clear_trajectory_builder_2d_options();
    o.clear_trajectory_builder_3d_options();
  } else if (three_d) {
    o.clear_trajectory_builder_2d_options();
  } else {
    o.clear_trajectory_builder_3d_options();
  }
  o.set_collate_landmarks(s.Chance(0.5));
  o.set_collate_fixed_frame(s.Chance(0.5));
  if (s.Chance(0.4)) {
    auto* f = o.mutable_pose_graph_odometry_motion_filter();
    f->set_max_time_seconds(s.Real(0.05, 0.6));
    f->set_max_distance_meters(s.Real(0.001, 0.1));
    f->set_max_angle_radians(s.Real(0.001, 0.1));
  }
  if (s.Chance(0.15)) {
    t->finish = s.Chance(0.5);
    t->keep = s.Int(2, 3);
    if (t->keep == 3 && s.Chance(0.5)) o.set_pure_localization(true);
    else o.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(t->keep);
  }
  t->callback = s.Chance(0.95);

  const world::Building building = world::GenBuilding(s);
  const world::Motion motion = world::GenMotion(s, three_d);
  uint64_t random = s.Bits(1u << 30);
  const int scans = s.Len(0, more_scans < 0 ? 16 : 6) + std::max(0, more_scans);
  const double end = 0.12 * scans + 0.1;
  const bool intensities = s.Chance(0.2);
  for (size_t k = 0; k != t->sensors.size(); ++k) {
    const SensorType type = t->sensors[k].type;
    const double period = type == SensorType::RANGE ? 0.12 : type == SensorType::IMU ? s.Real(0.02, 0.06) : s.Real(0.03, 0.3);
    const world::Scanner scanner{Eigen::Vector3d(0.1 * k, 0., 0.), -2.4, 2.4, three_d ? 14 : 36, three_d ? 6 : 1, s.Chance(0.5) ? 0. : 0.05};
    double x = 0.;
    for (int i = 0; x < end; ++i, x += period) {
      Event e;
      e.sensor = k;
      // Everyone starts before anyone continues; no two at the same time.
      e.time = i == 0 ? begin + k : begin + 1000 + 16 * static_cast<int64_t>(x * 1e7 / 16) + k;
      const double at = (e.time - begin) * 1e-7;
      const common::Time time = common::FromUniversal(e.time);
      switch (type) {
        case SensorType::RANGE:
          e.range = world::Scan(building, motion, scanner, at, time, 0.01, &random);
          if (intensities) e.range.intensities.assign(e.range.ranges.size(), 7.f + i);
          break;
        case SensorType::IMU: e.imu = {time, motion.Acceleration(at), motion.AngularVelocity(at)}; break;
        case SensorType::ODOMETRY: e.odometry = {time, motion.At(at)}; break;
        case SensorType::FIXED_FRAME_POSE:
          e.fixed.time = time;
          if (!s.Chance(0.2)) e.fixed.pose = motion.At(at);
          break;
        default:
          e.landmarks.time = time;
          for (int n = s.Int(0, 2); n >= 0; --n)
            e.landmarks.landmark_observations.push_back(
                {"m" + std::to_string(n), motion.At(at).inverse() * Rigid3d::Translation(Eigen::Vector3d(1. + n, 2., 0.)), s.Real(0.5, 2.), s.Real(0.5, 2.)});
      }
      t->events.push_back(e);
    }
  }
  std::sort(t->events.begin(), t->events.end(), [](const Event& a, const Event& b) { return a.time < b.time; });
}

template <typename Builder, typename Options>
void RunReference(const Options& options, Trajectory* t) {
  std::vector<std::string> range_ids;
  for (const auto& id : std::set<SensorId>(t->sensors.begin(), t->sensors.end()))
    if (id.type == SensorType::RANGE) range_ids.push_back(id.id);
  Builder builder(options, range_ids);
  int nodes = 0;
  for (const Event& e : t->events) {
    switch (t->sensors[e.sensor].type) {
      case SensorType::IMU: builder.AddImuData(e.imu); break;
      case SensorType::ODOMETRY: builder.AddOdometryData(e.odometry); break;
      case SensorType::RANGE: {
        auto match = builder.AddRangeData(t->sensors[e.sensor].id, e.range);
        if (match == nullptr) break;
        Result r;
        r.time = match->time;
        r.local_pose = match->local_pose;
        r.range = match->range_data_in_local;
        if (match->insertion_result != nullptr) {
          r.inserted = true;
          r.node = NodeId{0, nodes++};
          r.data = match->insertion_result->constant_data;
          for (const auto& m : match->insertion_result->insertion_submaps) r.submaps.push_back(m);
        }
        t->expected.push_back(r);
        break;
      }
      default: break;
    }
  }
}

bool Same(const Rigid3d& a, const Rigid3d& b) {
  return a.translation() == b.translation() && a.rotation().coeffs() == b.rotation().coeffs();
}
bool Same(const sensor::PointCloud& a, const sensor::PointCloud& b) {
  if (a.size() != b.size() || a.intensities() != b.intensities()) return false;
  for (size_t i = 0; i != a.size(); ++i)
    if (a[i].position != b[i].position) return false;
  return true;
}
void CheckSameData(const mapping::TrajectoryNode::Data& a, const mapping::TrajectoryNode::Data& b, const std::string& where) {
  PBT_CHECK(a.time == b.time) << where;
  PBT_CHECK(a.gravity_alignment.coeffs() == b.gravity_alignment.coeffs()) << where;
  PBT_CHECK(Same(a.local_pose, b.local_pose)) << where;
  PBT_CHECK(Same(a.filtered_gravity_aligned_point_cloud, b.filtered_gravity_aligned_point_cloud)) << where;
  PBT_CHECK(Same(a.high_resolution_point_cloud, b.high_resolution_point_cloud)) << where;
  PBT_CHECK(Same(a.low_resolution_point_cloud, b.low_resolution_point_cloud)) << where;
  PBT_CHECK(a.rotational_scan_matcher_histogram.size() == b.rotational_scan_matcher_histogram.size() &&
            a.rotational_scan_matcher_histogram == b.rotational_scan_matcher_histogram)
      << where;
}

// Where a trajectory was at some time, as the pose graph has it.
Rigid3d PoseOf(mapping::MapBuilder* builder, int id, common::Time time) {
  std::vector<mapping::TrajectoryNodePose> nodes;
  const auto all = builder->pose_graph()->GetTrajectoryNodePoses();
  for (const auto& n : all.trajectory(id)) nodes.push_back(n.data);
  const auto at = [&](size_t i) { return nodes[i].constant_pose_data->time; };
  if (time <= at(0)) return nodes.front().global_pose;
  if (time >= at(nodes.size() - 1)) return nodes.back().global_pose;
  size_t i = 1;
  while (at(i) < time) ++i;
  const double f = common::ToSeconds(time - at(i - 1)) / common::ToSeconds(at(i) - at(i - 1));
  const Rigid3d a = nodes[i - 1].global_pose, b = nodes[i].global_pose;
  return Rigid3d((1. - f) * a.translation() + f * b.translation(), a.rotation().slerp(f, b.rotation()));
}

void CheckResults(const Trajectory& t, int id, const std::string& where) {
  if (!t.finish) PBT_CHECK(t.got.size() <= t.expected.size()) << where;
  else PBT_CHECK_EQ(t.got.size(), t.expected.size()) << where << ": results of local SLAM";
  for (size_t i = 0; i != t.got.size(); ++i) {
    const Result &a = t.got[i], &b = t.expected[i];
    const std::string at = where + ", result " + std::to_string(i);
    PBT_CHECK_EQ(a.trajectory, id) << at;
    PBT_CHECK(a.time == b.time) << at << ": time";
    PBT_CHECK(Same(a.local_pose, b.local_pose)) << at << ": pose " << a.local_pose << ", expected " << b.local_pose;
    PBT_CHECK(a.range.origin == b.range.origin) << at;
    PBT_CHECK(Same(a.range.returns, b.range.returns)) << at << ": returns";
    PBT_CHECK(Same(a.range.misses, b.range.misses)) << at << ": misses";
    PBT_CHECK_EQ(a.inserted, b.inserted) << at;
    if (!a.inserted) continue;
    PBT_CHECK_EQ(a.node.trajectory_id, id) << at;
    PBT_CHECK_EQ(a.node.node_index, b.node.node_index) << at;
    CheckSameData(*a.data, *b.data, at);
    PBT_CHECK_EQ(a.submaps.size(), b.submaps.size()) << at;
    for (size_t k = 0; k != a.submaps.size(); ++k) PBT_CHECK(Same(a.submaps[k]->local_pose(), b.submaps[k]->local_pose())) << at;
  }
}

void Settle(mapping::MapBuilder* b) {
  static int counter = 0;
  const std::string name = "~" + std::to_string(counter++);
  b->pose_graph()->SetLandmarkPose(name, Rigid3d::Identity(), true);
  for (int i = 0; i < 100000; ++i) {
    if (b->pose_graph()->GetLandmarkPoses().count(name)) return;
    std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 20 : 1000));
  }
  PBT_FAIL() << "queued work is never done";
}

template <typename Data>
std::vector<Data> Of(const sensor::MapByTime<Data>& map, int id) {
  std::vector<Data> out;
  if (map.HasTrajectory(id))
    for (const Data& d : map.trajectory(id)) out.push_back(d);
  return out;
}

void CheckGraph(mapping::MapBuilder* builder, const std::vector<Trajectory>& trajectories, bool three_d) {
  auto* graph = static_cast<mapping::PoseGraph*>(builder->pose_graph());
  const auto nodes = graph->GetTrajectoryNodes();
  const auto submaps = graph->GetAllSubmapData();
  const auto imu = graph->GetImuData();
  const auto odometry = graph->GetOdometryData();
  const auto fixed = graph->GetFixedFramePoseData();
  const auto landmarks = graph->GetLandmarkNodes();
  for (size_t id = 0; id != trajectories.size(); ++id) {
    const Trajectory& t = trajectories[id];
    const std::string where = "trajectory " + std::to_string(id);
    if (!t.finish || t.keep > 0) continue;
    // Local SLAM.
    std::vector<const Result*> inserted;
    for (const Result& r : t.expected)
      if (r.inserted) inserted.push_back(&r);
    PBT_CHECK_EQ(static_cast<size_t>(nodes.SizeOfTrajectoryOrZero(id)), inserted.size()) << where;
    std::vector<std::shared_ptr<const mapping::Submap>> seen;
    for (size_t i = 0; i != inserted.size(); ++i) {
      CheckSameData(*nodes.at(NodeId{static_cast<int>(id), static_cast<int>(i)}).constant_data, *inserted[i]->data, where + " node " + std::to_string(i));
      for (const auto& m : inserted[i]->submaps)
        if (std::find(seen.begin(), seen.end(), m) == seen.end()) seen.push_back(m);
    }
    PBT_CHECK_EQ(static_cast<size_t>(submaps.SizeOfTrajectoryOrZero(id)), seen.size()) << where;
    for (size_t k = 0; k != seen.size(); ++k) {
      const auto& m = submaps.at(SubmapId{static_cast<int>(id), static_cast<int>(k)}).submap;
      PBT_CHECK_EQ(m->num_range_data(), seen[k]->num_range_data()) << where << " submap " << k;
      PBT_CHECK_EQ(m->insertion_finished(), seen[k]->insertion_finished()) << where << " submap " << k;
      PBT_CHECK(Same(m->local_pose(), seen[k]->local_pose())) << where << " submap " << k;
    }
    // The same submaps and data were reported.
    for (const Result& r : t.got) {
      if (!r.inserted) continue;
      PBT_CHECK(nodes.at(r.node).constant_data == r.data) << where;
      for (const auto& m : r.submaps) {
        bool found = false;
        for (const auto& entry : submaps.trajectory(id)) found |= entry.data.submap == m;
        PBT_CHECK(found) << where << ": a reported submap is not in the pose graph";
      }
    }
    // What is kept of the sensors.
    std::vector<sensor::ImuData> want_imu;
    std::vector<sensor::OdometryData> want_odometry;
    std::vector<sensor::FixedFramePoseData> want_fixed;
    std::map<std::string, std::vector<std::tuple<int64_t, Rigid3d, double, double>>> want_marks, got_marks;
    const bool filter = t.options.has_pose_graph_odometry_motion_filter();
    const auto& f = t.options.pose_graph_odometry_motion_filter();
    for (const Event& e : t.events) {
      switch (t.sensors[e.sensor].type) {
        case SensorType::IMU:
          if (three_d) want_imu.push_back(e.imu);
          break;
        case SensorType::FIXED_FRAME_POSE: want_fixed.push_back(e.fixed); break;
        case SensorType::ODOMETRY: {
          if (filter && !want_odometry.empty()) {
            const auto& last = want_odometry.back();
            const Rigid3d d = last.pose.inverse() * e.odometry.pose;
            if (common::ToSeconds(e.odometry.time - last.time) <= f.max_time_seconds() && d.translation().norm() <= f.max_distance_meters() &&
                geo::RotationDistance(last.pose.rotation(), e.odometry.pose.rotation()) <= f.max_angle_radians())
              break;
          }
          want_odometry.push_back(e.odometry);
          break;
        }
        case SensorType::LANDMARK:
          for (const auto& m : e.landmarks.landmark_observations)
            want_marks[m.id].emplace_back(e.time, m.landmark_to_tracking_transform, m.translation_weight, m.rotation_weight);
          break;
        default: break;
      }
    }
    const auto got_imu = Of(imu, id);
    PBT_CHECK_EQ(got_imu.size(), want_imu.size()) << where << ": IMU data";
    for (size_t i = 0; i != got_imu.size(); ++i)
      PBT_CHECK(got_imu[i].time == want_imu[i].time && got_imu[i].linear_acceleration == want_imu[i].linear_acceleration &&
                got_imu[i].angular_velocity == want_imu[i].angular_velocity)
          << where << ": IMU data " << i;
    const auto got_odometry = Of(odometry, id);
    PBT_CHECK_EQ(got_odometry.size(), want_odometry.size()) << where << ": odometry";
    for (size_t i = 0; i != got_odometry.size(); ++i)
      PBT_CHECK(got_odometry[i].time == want_odometry[i].time && Same(got_odometry[i].pose, want_odometry[i].pose)) << where << ": odometry " << i;
    const auto got_fixed = Of(fixed, id);
    PBT_CHECK_EQ(got_fixed.size(), want_fixed.size()) << where << ": fixed frame poses";
    for (size_t i = 0; i != got_fixed.size(); ++i)
      PBT_CHECK(got_fixed[i].time == want_fixed[i].time && got_fixed[i].pose.has_value() == want_fixed[i].pose.has_value() &&
                (!want_fixed[i].pose.has_value() || Same(*got_fixed[i].pose, *want_fixed[i].pose)))
          << where << ": fixed frame pose " << i;
    for (const auto& entry : landmarks)
      for (const auto& o : entry.second.landmark_observations)
        if (o.trajectory_id == static_cast<int>(id))
          got_marks[entry.first].emplace_back(common::ToUniversal(o.time), o.landmark_to_tracking_transform, o.translation_weight, o.rotation_weight);
    PBT_CHECK_EQ(got_marks.size(), want_marks.size()) << where << ": landmarks";
    for (const auto& entry : want_marks) {
      const auto& got = got_marks[entry.first];
      PBT_CHECK_EQ(got.size(), entry.second.size()) << where << ": observations of " << entry.first;
      for (size_t i = 0; i != got.size(); ++i)
        PBT_CHECK(std::get<0>(got[i]) == std::get<0>(entry.second[i]) && Same(std::get<1>(got[i]), std::get<1>(entry.second[i])) &&
                  std::get<2>(got[i]) == std::get<2>(entry.second[i]) && std::get<3>(got[i]) == std::get<3>(entry.second[i]))
            << where << ": observation " << i << " of " << entry.first;
    }
  }
}

void Drive(pbt::Source& s, bool three_d) {
  auto map_options = Defaults().map;
  map_options.set_use_trajectory_builder_2d(!three_d);
  map_options.set_use_trajectory_builder_3d(three_d);
  const bool shared = s.Chance(0.5);
  map_options.set_collate_by_trajectory(!shared);
  map_options.set_num_background_threads(s.Int(1, 3));
  const int count = s.Weighted({3, 2, 1}) + 1;
  const bool together = count > 1 && s.Chance(0.5);
  std::vector<Trajectory> trajectories(count);
  int64_t begin = geo::kEpoch;
  bool any_node = false;
  int64_t last = 0;
  for (int i = 0; i != count; ++i) {
    Trajectory& t = trajectories[i];
    // Sharing a collator, each outlasts those before it.
    GenTrajectory(s, three_d, together ? begin + 100 * i : begin, together && shared ? 12 * i : -1, &t);
    if (shared && count > 1) t.finish = true;
    for (const Event& e : t.events) last = std::max(last, e.time);
    if (together && shared && i > 0 && t.events.empty()) throw pbt::Discard();
    if (!together) begin += 100000000;
    if (t.local) {
      if (three_d) RunReference<mapping::LocalTrajectoryBuilder3D>(t.options.trajectory_builder_3d_options(), &t);
      else RunReference<mapping::LocalTrajectoryBuilder2D>(t.options.trajectory_builder_2d_options(), &t);
    }
    if (!together && i > 0 && trajectories[0].finish && s.Chance(0.4)) {
      t.start_time = trajectories[0].begin + s.Int(-1000000, 20000000);
      bool ok = false;
      for (const Result& r : trajectories[0].expected) ok |= r.inserted;
      if (ok && trajectories[0].keep == 0) {
        t.start_from = 0;
        const Eigen::Vector3d shift(s.Real(-3., 3.), s.Real(-3., 3.), 0.);
        t.start_pose = Rigid3d(shift, Eigen::AngleAxisd(s.Real(-3., 3.), Eigen::Vector3d::UnitZ()));
        auto* p = t.options.mutable_initial_trajectory_pose();
        p->set_to_trajectory_id(0);
        p->set_timestamp(t.start_time);
        *p->mutable_relative_pose() = transform::ToProto(t.start_pose);
      }
    }
    for (const Result& r : t.expected) any_node |= r.inserted;
  }
  if (s.Sampling()) {
    std::string text = std::string(three_d ? "3D" : "2D") + (together ? ", together" : "") + ":";
    for (const auto& t : trajectories) text += " " + std::to_string(t.sensors.size()) + " sensors, " + std::to_string(t.events.size()) + " messages, " + std::to_string(t.expected.size()) + " results;";
    s.Describe(text);
  }
  // Not destroyed after a failure: it insists on being finished.
  auto owned = absl::make_unique<mapping::MapBuilder>(map_options);
  mapping::MapBuilder& builder = *owned;
  struct Keeper {
    std::unique_ptr<mapping::MapBuilder>& owned;
    bool done = false;
    ~Keeper() {
      if (!done) owned.release();
    }
  } keeper{owned};
  const auto add = [&](int i) {
    Trajectory& t = trajectories[i];
    if (t.start_from >= 0) {
      Settle(&builder);
      t.origin = PoseOf(&builder, t.start_from, common::FromUniversal(t.start_time));
    }
    mapping::MapBuilderInterface::LocalSlamResultCallback callback;
    if (t.callback)
      callback = [&t, &builder](int id, common::Time time, Rigid3d pose, sensor::RangeData range,
                                               std::unique_ptr<const mapping::TrajectoryBuilderInterface::InsertionResult> result) {
        Result r;
        r.trajectory = id;
        r.time = time;
        r.local_pose = pose;
        r.range = range;
        if (result != nullptr) {
          r.inserted = true;
          r.node = result->node_id;
          r.data = result->constant_data;
          r.submaps = result->insertion_submaps;
          if (t.start_from >= 0 && !t.over) {
            const Rigid3d origin = t.origin * t.start_pose;
            const auto poses = builder.pose_graph()->GetTrajectoryNodePoses();
            PBT_CHECK(poses.Contains(r.node));
            const Rigid3d want = origin * pose, got = poses.at(r.node).global_pose;
            PBT_CHECK(geo::Near(got, want, 1e-6, 1e-6)) << "a trajectory starting from another: origin " << t.origin << " start " << t.start_pose << " local " << pose << " now " << PoseOf(&builder, 0, common::FromUniversal(t.start_time)) << " got " << got << ", expected " << want;
          }
        }
        t.got.push_back(r);
      };
    const int id = builder.AddTrajectoryBuilder(std::set<SensorId>(t.sensors.begin(), t.sensors.end()), t.options, callback);
    PBT_CHECK_EQ(id, i);
    PBT_CHECK_EQ(builder.num_trajectory_builders(), i + 1);
  };
  const auto feed = [&](int i, const Event& e) {
    Trajectory& t = trajectories[i];
    auto* b = builder.GetTrajectoryBuilder(i);
    PBT_CHECK(b != nullptr);
    const SensorId& id = t.sensors[e.sensor];
    switch (id.type) {
      case SensorType::RANGE: b->AddSensorData(id.id, e.range); break;
      case SensorType::IMU: b->AddSensorData(id.id, e.imu); break;
      case SensorType::ODOMETRY: b->AddSensorData(id.id, e.odometry); break;
      case SensorType::FIXED_FRAME_POSE: b->AddSensorData(id.id, e.fixed); break;
      default: b->AddSensorData(id.id, e.landmarks);
    }
  };
  using Queues = std::vector<std::pair<int, std::vector<const Event*>>>;
  const auto arrive = [&](const std::vector<int>& ids, const std::function<void(const Queues&)>& after) {
    // Any interleaving that keeps the order of each sensor.
    Queues queues;
    for (int i : ids)
      for (size_t k = 0; k != trajectories[i].sensors.size(); ++k) {
        std::vector<const Event*> q;
        for (const Event& e : trajectories[i].events)
          if (e.sensor == static_cast<int>(k)) q.push_back(&e);
        std::reverse(q.begin(), q.end());
        if (!q.empty()) queues.emplace_back(i, q);
      }
    const int mode = s.Weighted({2, 2, 1});  // in time, mixed, one sensor after the other
    while (!queues.empty()) {
      size_t k = 0;
      if (mode == 0) {
        for (size_t j = 1; j < queues.size(); ++j)
          if (queues[j].second.back()->time < queues[k].second.back()->time) k = j;
        if (s.Chance(0.2)) k = s.Bits(queues.size() - 1);
      } else {
        k = s.Bits(queues.size() - 1);
      }
      const int burst = mode == 2 ? 1000 : 1;
      for (int n = 0; n != burst && !queues[k].second.empty(); ++n) {
        feed(queues[k].first, *queues[k].second.back());
        queues[k].second.pop_back();
      }
      if (queues[k].second.empty()) queues.erase(queues.begin() + k);
      after(queues);
    }
  };
  const auto finish = [&](int i) {
    if (trajectories[i].finish) builder.FinishTrajectory(i);
  };
  if (together) {
    std::vector<int> ids;
    for (int i = 0; i != count; ++i) {
      add(i);
      ids.push_back(i);
    }
    s.Shuffle(&ids);
    if (!shared) {
      arrive(ids, [](const Queues&) {});
      for (int i : ids) finish(i);
    } else {
      // A trajectory may be finished once nothing of it is held back, i.e. all
      // collated sensors of the others are past its end.
      std::map<int, int64_t> end;
      for (int i = 0; i != count; ++i) end[i] = trajectories[i].events.empty() ? 0 : trajectories[i].events.back().time;
      const auto may_finish = [&](int i, const Queues& queues) {
        for (const auto& q : queues)
          if (q.first == i) return false;
        for (const auto& other : end) {
          if (other.first == i) continue;
          const Trajectory& o = trajectories[other.first];
          for (size_t k = 0; k != o.sensors.size(); ++k) {
            if (o.sensors[k].type == SensorType::LANDMARK && !o.options.collate_landmarks()) continue;
            if (o.sensors[k].type == SensorType::FIXED_FRAME_POSE && !o.options.collate_fixed_frame()) continue;
            int64_t next = std::numeric_limits<int64_t>::max(), past = 0;
            for (const auto& q : queues)
              if (q.first == other.first && q.second.back()->sensor == static_cast<int>(k)) next = q.second.back()->time;
            for (const Event& e : o.events)
              if (e.sensor == static_cast<int>(k) && e.time < next) past = e.time;
            if (past <= end.at(i)) return false;
          }
        }
        return true;
      };
      int early = 0;
      arrive(ids, [&](const Queues& queues) {
        for (int i = 0; i != count; ++i)
          if (end.count(i) && may_finish(i, queues) && s.Chance(0.3)) {
            early += !queues.empty();
            finish(i);
            end.erase(i);
          }
      });
      s.LabelIf(early > 0, "finished while another goes on");
      while (!end.empty()) {
        int next = -1;
        for (const auto& e : end)
          if (may_finish(e.first, {})) next = e.first;
        if (next < 0) PBT_FAIL() << "harness: no trajectory can be finished";
        finish(next);
        end.erase(next);
      }
    }
  } else {
    for (int i = 0; i != count; ++i) {
      add(i);
      arrive({i}, [](const Queues&) {});
      finish(i);
      if (!trajectories[i].finish && !map_options.collate_by_trajectory()) {
        // It would hold back the others.
        trajectories.resize(i + 1);
        break;
      }
    }
  }
  Settle(&builder);
  for (size_t i = 0; i != trajectories.size(); ++i) {
    const Trajectory& t = trajectories[i];
    if (t.callback) CheckResults(t, i, "trajectory " + std::to_string(i));
    const auto& o = builder.GetAllTrajectoryBuilderOptions()[i];
    PBT_CHECK(o.trajectory_builder_options().SerializeAsString() == t.options.SerializeAsString());
    PBT_CHECK_EQ(static_cast<size_t>(o.sensor_id_size()), t.sensors.size());
    for (const auto& id : o.sensor_id()) PBT_CHECK(std::count(t.sensors.begin(), t.sensors.end(), mapping::FromProto(id)) == 1);
  }
  CheckGraph(&builder, trajectories, three_d);
  bool trims = false, unfinished = false;
  for (const auto& t : trajectories) {
    trims |= t.keep > 0;
    unfinished |= !t.finish;
  }
  s.LabelIf(trims, "localization only");
  s.LabelIf(unfinished, "unfinished");
  s.LabelIf(trajectories.back().start_from >= 0, "starts from another");
  s.LabelIf(together, "together");
  if (any_node && !trajectories[0].expected.empty() && trajectories[0].sensors.size() > 1) s.NonTrivial();
  for (auto& t : trajectories) t.over = true;
  if (any_node) builder.pose_graph()->RunFinalOptimization();
  const auto after = builder.pose_graph()->GetAllSubmapData();
  for (size_t i = 0; i != trajectories.size(); ++i) {
    const Trajectory& t = trajectories[i];
    if (!t.finish && !t.callback) continue;
    std::set<const mapping::Submap*> made;
    for (const Result& r : t.finish ? t.expected : t.got)
      for (const auto& m : r.submaps) made.insert(m.get());
    const int id = i, n = made.size();
    const int keep = !any_node || t.keep == 0 ? n : t.finish ? 0 : std::min(n, t.keep);
    PBT_CHECK_EQ(static_cast<int>(after.SizeOfTrajectoryOrZero(id)), keep) << "submaps kept of trajectory " << i;
    for (int k = 0; k != n + 1; ++k) {
      const bool there = k < n && k >= n - keep;
      PBT_CHECK_EQ(after.Contains(SubmapId{id, k}), there) << "submap " << k << " of trajectory " << i;
      mapping::proto::SubmapQuery::Response response;
      const std::string error = builder.SubmapToProto(SubmapId{id, k}, &response);
      PBT_CHECK_EQ(error.empty(), there) << error;
      if (there) {
        PBT_CHECK_EQ(response.submap_version(), after.at(SubmapId{id, k}).submap->num_range_data());
        PBT_CHECK(response.textures_size() > 0);
      }
    }
  }
  mapping::proto::SubmapQuery::Response response;
  PBT_CHECK(!builder.SubmapToProto(SubmapId{static_cast<int>(trajectories.size()), 0}, &response).empty());
  PBT_CHECK(!builder.SubmapToProto(SubmapId{-1, 0}, &response).empty());
  for (size_t i = 0; i != trajectories.size(); ++i)
    if (!trajectories[i].finish) builder.FinishTrajectory(i);
  keeper.done = true;
}

PBT_FACET(drives_2d, o.weight = 3; o.nondeterministic = true; o.case_timeout_s = 60; o.rule = "a node inserted from range data with another sensor beside it") { Drive(s, false); }
PBT_FACET(drives_3d, o.weight = 1; o.nondeterministic = true; o.case_timeout_s = 60; o.rule = "a node inserted from range data with another sensor beside it") { Drive(s, true); }

PBT_FACET(refusals, o.weight = 0.3; o.rule = "every case") {
  s.NonTrivial();
  const bool three_d = s.Chance(0.5);
  const int kind = s.Bits(4);
  const auto map_options = [&](bool two, bool three) {
    auto o = Defaults().map;
    o.set_use_trajectory_builder_2d(two);
    o.set_use_trajectory_builder_3d(three);
    return o;
  };
  const double bad = s.Chance(0.5) ? std::nan("") : 1. / 0.;
  const bool in_rotation = s.Chance(0.5);
  const int which = s.Bits(2);
  const auto broken = [&]() {
    Rigid3d p(Eigen::Vector3d(1., 2., 3.), Eigen::Quaterniond::Identity());
    Eigen::Vector3d t = p.translation();
    Eigen::Quaterniond q = p.rotation();
    if (in_rotation) q.coeffs()[which] = std::nan("");
    else t[which] = bad;
    return Rigid3d(t, q);
  };
  // An infinite translation is not a number problem; only NaN must be refused.
  if (!in_rotation && !std::isnan(bad) && (kind == 1 || kind == 2)) throw pbt::Discard();
  const auto run = [&](bool fault) {
    return pbt::RunForked([&]() {
      mapping::MapBuilder builder(map_options(kind == 0 && fault ? which == 1 : !three_d, kind == 0 && fault ? which == 1 : three_d));
      auto o = Defaults().trajectory;
      if (kind == 3 && fault) {
        o.clear_trajectory_builder_2d_options();
        o.clear_trajectory_builder_3d_options();
      }
      o.set_collate_fixed_frame(false);
      if (kind == 4 && fault) o.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(s.Int(0, 1));
      const SensorId id{kind == 1 ? SensorType::ODOMETRY : kind == 2 ? SensorType::FIXED_FRAME_POSE : SensorType::RANGE, "x"};
      const int t = builder.AddTrajectoryBuilder({id}, o, nullptr);
      const common::Time time = common::FromUniversal(geo::kEpoch);
      auto* b = builder.GetTrajectoryBuilder(t);
      if (kind == 1) b->AddSensorData("x", sensor::OdometryData{time, fault ? broken() : Rigid3d::Identity()});
      if (kind == 2) b->AddSensorData("x", sensor::FixedFramePoseData{time, absl::optional<Rigid3d>(fault ? broken() : Rigid3d::Identity())});
      if (kind == 3) b->AddSensorData("x", sensor::TimedPointCloudData{time, Eigen::Vector3f::Zero(), {{Eigen::Vector3f(3.f, 0.f, 0.f), 0.f}}});
      builder.FinishTrajectory(t);
      Settle(&builder);
      _exit(0);
    });
  };
  PBT_CHECK_EQ(run(false), 0) << "kind " << kind;
  PBT_CHECK_EQ(run(true), 1) << "kind " << kind << " is accepted";
}

// A map may be given up while it is being worked on.
PBT_FACET(given_up, o.weight = 0.7; o.nondeterministic = true; o.case_timeout_s = 60; o.rule = "two or more nodes") {
  const bool three_d = s.Chance(0.2);
  auto map_options = Defaults().map;
  map_options.set_use_trajectory_builder_2d(!three_d);
  map_options.set_use_trajectory_builder_3d(three_d);
  map_options.set_num_background_threads(s.Int(1, 3));
  auto* graph = map_options.mutable_pose_graph_options();
  graph->mutable_constraint_builder_options()->set_sampling_ratio(1.);
  graph->mutable_constraint_builder_options()->set_min_score(0.1);
  graph->mutable_constraint_builder_options()->mutable_fast_correlative_scan_matcher_options()->set_linear_search_window(0.5);
  graph->set_optimize_every_n_nodes(s.Chance(0.5) ? 0 : s.Int(1, 10));
  Trajectory t;
  GenTrajectory(s, three_d, geo::kEpoch, 4, &t);
  t.options.mutable_trajectory_builder_2d_options()->mutable_submaps_options()->set_num_range_data(1);
  if (!t.local) throw pbt::Discard();
  int results = 0;
  const int outcome = pbt::RunForked([&]() {
    auto builder = absl::make_unique<mapping::MapBuilder>(map_options);
    const int id = builder->AddTrajectoryBuilder(std::set<SensorId>(t.sensors.begin(), t.sensors.end()), t.options,
                                                 [&](int, common::Time, Rigid3d, sensor::RangeData, std::unique_ptr<const mapping::TrajectoryBuilderInterface::InsertionResult>) { ++results; });
    auto* b = builder->GetTrajectoryBuilder(id);
    for (const Event& e : t.events) {
      const std::string& name = t.sensors[e.sensor].id;
      switch (t.sensors[e.sensor].type) {
        case SensorType::RANGE: b->AddSensorData(name, e.range); break;
        case SensorType::IMU: b->AddSensorData(name, e.imu); break;
        case SensorType::ODOMETRY: b->AddSensorData(name, e.odometry); break;
        case SensorType::FIXED_FRAME_POSE: b->AddSensorData(name, e.fixed); break;
        default: b->AddSensorData(name, e.landmarks);
      }
    }
    builder->FinishTrajectory(id);
    builder.reset();
    PBT_CHECK(results > 1);
  });
  if (outcome != 2) s.NonTrivial();
  PBT_CHECK(outcome != 1) << "giving up a map while it is being worked on stops the program";
}

// A history that is known to fail (known_findings.md); the drives above only
// finish a trajectory when nothing of it is held back.
PBT_FACET(finish_while_held_back, o.weight = 0; o.rule = "every case") {
  s.NonTrivial();
  const int outcome = pbt::RunForked([&]() {
    auto map_options = Defaults().map;
    map_options.set_collate_by_trajectory(false);
    mapping::MapBuilder builder(map_options);
    auto o = Defaults().trajectory;
    o.clear_trajectory_builder_2d_options();
    o.clear_trajectory_builder_3d_options();
    const SensorId id{SensorType::ODOMETRY, "odom"};
    const int a = builder.AddTrajectoryBuilder({id}, o, nullptr), b = builder.AddTrajectoryBuilder({id}, o, nullptr);
    const auto feed = [&](int t, int64_t at) {
      builder.GetTrajectoryBuilder(t)->AddSensorData(id.id, sensor::OdometryData{common::FromUniversal(geo::kEpoch + at), Rigid3d::Identity()});
    };
    feed(b, 1);
    feed(a, 2);
    feed(a, 3);
    builder.FinishTrajectory(a);
    Settle(&builder);
    feed(b, 10);
    builder.FinishTrajectory(b);
    Settle(&builder);
    _exit(0);
  });
  PBT_CHECK_EQ(outcome, 0) << "data held back for another trajectory when its own was finished stops the program";
}
}  // namespace
