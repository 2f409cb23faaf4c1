// E01: the whole system: a simulated robot maps a building it drives around in,
// and finds itself again in the finished map.
#include <sstream>

#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/map_builder.h"
#include "world.h"

namespace {
using namespace cartographer;
using transform::Rigid3d;
using Eigen::Vector3d;
using SensorId = mapping::TrajectoryBuilderInterface::SensorId;
using SensorType = SensorId::SensorType;
using mapping::NodeId;
using mapping::SubmapId;

struct Base {
  mapping::proto::MapBuilderOptions map;
  mapping::proto::TrajectoryBuilderOptions trajectory;
};
const Base& Defaults() {
  static const Base base = [] {
    Base b;
    b.map = mapping::CreateMapBuilderOptions(world::Load(R"(
      include "map_builder.lua"
      MAP_BUILDER.use_trajectory_builder_2d = true
      MAP_BUILDER.num_background_threads = 1
      MAP_BUILDER.pose_graph.optimize_every_n_nodes = 25
      MAP_BUILDER.pose_graph.global_sampling_ratio = 0.1
      MAP_BUILDER.pose_graph.constraint_builder.sampling_ratio = 0.3
      MAP_BUILDER.pose_graph.constraint_builder.min_score = 0.6
      MAP_BUILDER.pose_graph.constraint_builder.global_localization_min_score = 0.7
      MAP_BUILDER.pose_graph.constraint_builder.fast_correlative_scan_matcher.linear_search_window = 2.
      MAP_BUILDER.pose_graph.constraint_builder.fast_correlative_scan_matcher.angular_search_window = math.rad(20.)
      MAP_BUILDER.pose_graph.constraint_builder.fast_correlative_scan_matcher_3d.linear_xy_search_window = 1.5
      MAP_BUILDER.pose_graph.optimization_problem.ceres_solver_options.num_threads = 1
      return MAP_BUILDER)").get());
    b.trajectory = mapping::CreateTrajectoryBuilderOptions(world::Load(R"(
      include "trajectory_builder.lua"
      TRAJECTORY_BUILDER.trajectory_builder_2d.submaps.grid_options_2d.resolution = 0.1
      TRAJECTORY_BUILDER.trajectory_builder_2d.submaps.num_range_data = 20
      TRAJECTORY_BUILDER.trajectory_builder_2d.voxel_filter_size = 0.05
      TRAJECTORY_BUILDER.trajectory_builder_2d.max_range = 20.
      TRAJECTORY_BUILDER.trajectory_builder_2d.use_online_correlative_scan_matching = true
      TRAJECTORY_BUILDER.trajectory_builder_2d.real_time_correlative_scan_matcher.linear_search_window = 0.15
      TRAJECTORY_BUILDER.trajectory_builder_2d.real_time_correlative_scan_matcher.angular_search_window = math.rad(8.)
      TRAJECTORY_BUILDER.trajectory_builder_2d.ceres_scan_matcher.ceres_solver_options.num_threads = 1
      TRAJECTORY_BUILDER.trajectory_builder_2d.ceres_scan_matcher.occupied_space_weight = 20.
      TRAJECTORY_BUILDER.trajectory_builder_2d.ceres_scan_matcher.translation_weight = 1.
      TRAJECTORY_BUILDER.trajectory_builder_2d.ceres_scan_matcher.rotation_weight = 1.
      TRAJECTORY_BUILDER.trajectory_builder_2d.motion_filter.max_distance_meters = 0.05
      TRAJECTORY_BUILDER.trajectory_builder_3d.motion_filter.max_distance_meters = 0.05
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.occupied_space_weight_0 = 5.
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.occupied_space_weight_1 = 30.
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.translation_weight = 2.
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.rotation_weight = 4e2
      TRAJECTORY_BUILDER.trajectory_builder_3d.num_accumulated_range_data = 1
      TRAJECTORY_BUILDER.trajectory_builder_3d.submaps.high_resolution = 0.3
      TRAJECTORY_BUILDER.trajectory_builder_3d.submaps.low_resolution = 0.8
      TRAJECTORY_BUILDER.trajectory_builder_3d.submaps.num_range_data = 20
      TRAJECTORY_BUILDER.trajectory_builder_3d.ceres_scan_matcher.ceres_solver_options.num_threads = 1
      return TRAJECTORY_BUILDER)").get());
    return b;
  }();
  return base;
}

struct Setup {
  bool three_d;
  world::Building building;
  std::vector<Vector3d> marks;  // where the landmarks are
};
struct Drive {
  world::Motion motion;
  world::Scanner scanner;
  double seconds, period;
  bool imu, odometry, landmarks, fixed;
  double scale, drift;  // of the odometry
  double noise;
  int64_t begin;
  uint64_t random;
  int id = -1;
  Rigid3d Truth(common::Time time) const { return motion.At(common::ToSeconds(time - common::FromUniversal(begin))); }
};

Setup GenSetup(pbt::Source& s, bool three_d) {
  Setup setup;
  setup.three_d = three_d;
  setup.building = world::GenBuilding(s);
  // Nothing else looks like this corner.
  auto& high = setup.building.high;
  auto& low = setup.building.low;
  for (auto& box : setup.building.boxes)
    for (int k = 0; k != 2; ++k) {
      if (box.low[k] == low[k]) box.low[k] -= 0.7, box.high[k] -= 0.7;
      if (box.high[k] == high[k]) box.low[k] += 0.7, box.high[k] += 0.7;
    }
  for (int k = 0; k != 2; ++k) low[k] -= 0.7, high[k] += 0.7;
  setup.building.boxes.push_back({Vector3d(high.x() - 3., high.y() - 3.6, -1.), Vector3d(high.x(), high.y(), 2.)});
  for (int i = s.Int(0, 3); i > 0; --i) setup.marks.push_back(Vector3d(s.Real(-3., 3.), s.Real(-3., 3.), s.Real(-0.5, 1.)));
  return setup;
}
Drive GenDrive(pbt::Source& s, const Setup& setup, int64_t begin, double turns) {
  Drive d;
  d.motion = world::GenMotion(s, setup.three_d);
  d.motion.rx = std::min(d.motion.rx, 2.4);
  d.motion.ry = std::min(d.motion.ry, 2.4);
  d.period = s.Real(0.08, 0.14);
  d.seconds = turns * 2. * M_PI / std::abs(d.motion.rate);
  d.scanner = world::Scanner{Vector3d(s.Real(-0.2, 0.2), s.Real(-0.2, 0.2), 0.), -2.6, 2.6, setup.three_d ? 100 : 160, setup.three_d ? 12 : 1, s.Chance(0.5) ? 0. : 0.08, setup.three_d ? 0.04 : 0.};
  d.imu = setup.three_d || s.Chance(0.5);
  d.odometry = !setup.three_d || s.Chance(0.5);  // in 2D, scans alone slip along walls
  d.scale = s.Real(0.98, 1.02);
  d.drift = s.Real(-0.01, 0.01);
  d.landmarks = !setup.marks.empty() && s.Chance(0.7);
  d.fixed = s.Chance(0.2);
  d.noise = s.Real(0., 0.02);
  d.begin = begin;
  d.random = s.Bits(1u << 30);
  return d;
}

void Run(mapping::MapBuilder* builder, const Setup& setup, Drive* d, bool localize) {
  std::set<SensorId> sensors{{SensorType::RANGE, "scan"}};
  if (d->imu) sensors.insert({SensorType::IMU, "imu"});
  if (d->odometry) sensors.insert({SensorType::ODOMETRY, "odom"});
  if (d->landmarks) sensors.insert({SensorType::LANDMARK, "mark"});
  if (d->fixed) sensors.insert({SensorType::FIXED_FRAME_POSE, "fix"});
  auto options = Defaults().trajectory;
  options.mutable_trajectory_builder_2d_options()->set_use_imu_data(d->imu);
  if (setup.three_d) options.clear_trajectory_builder_2d_options();
  else options.clear_trajectory_builder_3d_options();
  if (localize) options.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(3);
  d->id = builder->AddTrajectoryBuilder(sensors, options, nullptr);
  auto* b = builder->GetTrajectoryBuilder(d->id);
  const auto time = [&](double t) { return common::FromUniversal(d->begin + static_cast<int64_t>(t * 1e7)); };
  Rigid3d odometry = Rigid3d::Identity(), last = d->motion.At(0.);
  double next_scan = 0.1, next_imu = 0., next_odometry = 0.005, next_mark = 0.15;
  for (double t = 0.; t < d->seconds; t += 0.005) {
    const Rigid3d pose = d->motion.At(t);
    if (d->imu && t >= next_imu) {
      next_imu += 0.02;
      b->AddSensorData("imu", sensor::ImuData{time(t), d->motion.Acceleration(t), d->motion.AngularVelocity(t)});
    }
    if (d->odometry && t >= next_odometry) {
      next_odometry += 0.05;
      const Rigid3d step = last.inverse() * pose;
      odometry = odometry * Rigid3d(d->scale * step.translation(), step.rotation() * Eigen::AngleAxisd(d->drift * 0.05, Vector3d::UnitZ()));
      last = pose;
      b->AddSensorData("odom", sensor::OdometryData{time(t), odometry});
    }
    if (d->landmarks && t >= next_mark) {
      next_mark += 0.5;
      sensor::LandmarkData data;
      data.time = time(t);
      for (size_t i = 0; i != setup.marks.size(); ++i)
        data.landmark_observations.push_back({"m" + std::to_string(i), pose.inverse() * Rigid3d::Translation(setup.marks[i]), 1e4, 1e4});
      b->AddSensorData("mark", data);
    }
    if (d->fixed && t >= next_mark - 0.2) b->AddSensorData("fix", sensor::FixedFramePoseData{time(t), pose});
    if (t >= next_scan) {
      next_scan += d->period;
      b->AddSensorData("scan", world::Scan(setup.building, d->motion, d->scanner, t, time(t), d->noise, &d->random));
    }
  }
  if (!localize) builder->FinishTrajectory(d->id);
}

// From the truth to the map, by the first node.
Rigid3d CheckNodes(mapping::MapBuilder* builder, const std::vector<Drive>& drives, double t_tol, double r_tol) {
  const auto nodes = builder->pose_graph()->GetTrajectoryNodePoses();
  Rigid3d to_map;
  bool first = true;
  for (const Drive& d : drives) {
    double t_worst = 0., r_worst = 0.;
    Rigid3d at_truth, at_got;
    for (const auto& n : nodes.trajectory(d.id)) {
      const Rigid3d truth = d.Truth(n.data.constant_pose_data->time);
      if (first) {
        to_map = n.data.global_pose * truth.inverse();
        first = false;
      }
      const Rigid3d e = (to_map * truth).inverse() * n.data.global_pose;
      const double r = geo::RotationDistance(Eigen::Quaterniond::Identity(), e.rotation());
      if (e.translation().norm() > t_worst) {
        t_worst = e.translation().norm();
        at_truth = to_map * truth;
        at_got = n.data.global_pose;
      }
      r_worst = std::max(r_worst, r);
    }
    PBT_CHECK(t_worst < t_tol && r_worst < r_tol) << "drive " << d.id << ": a node is off by " << t_worst << " m, " << r_worst << " rad: " << at_got << " is at " << at_truth;
  }
  return to_map;
}

void CheckMap(mapping::MapBuilder* builder, const Setup& setup, const Rigid3d& to_map, double tolerance) {
  int occupied = 0, far = 0, cells = 0, beyond = 0;
  for (const auto& entry : builder->pose_graph()->GetAllSubmapData()) {
    const Rigid3d to_truth = to_map.inverse() * entry.data.pose;
    const auto inside = [&](const Vector3d& p) {
      for (int k = 0; k != (setup.three_d ? 3 : 2); ++k)
        if (p[k] < setup.building.low[k] - tolerance || p[k] > setup.building.high[k] + tolerance) return false;
      return true;
    };
    if (setup.three_d) {
      const auto& m = static_cast<const mapping::Submap3D&>(*entry.data.submap);
      for (const auto& cell : m.high_resolution_hybrid_grid()) {
        const double p = m.high_resolution_hybrid_grid().GetProbability(cell.first);
        const Vector3d at = to_truth * m.high_resolution_hybrid_grid().GetCenterOfCell(cell.first).cast<double>();
        if (p > 0.6) {
          ++occupied;
          far += setup.building.Surface(at) > tolerance;
        } else if (p < 0.4) {
          ++cells;
          beyond += !inside(at);
        }
      }
      continue;
    }
    const auto& m = static_cast<const mapping::Submap2D&>(*entry.data.submap);
    const auto& grid = static_cast<const mapping::ProbabilityGrid&>(*m.grid());
    const Rigid3d cell_to_truth = to_truth * m.local_pose().inverse();
    for (const Eigen::Array2i& c : mapping::XYIndexRangeIterator(grid.limits().cell_limits())) {
      if (!grid.IsKnown(c)) continue;
      const Eigen::Vector2f center = grid.limits().GetCellCenter(c);
      Vector3d at = cell_to_truth * Vector3d(center.x(), center.y(), 0.);
      at.z() = 0.;
      const double p = grid.GetProbability(c);
      if (p > 0.6) {
        ++occupied;
        far += setup.building.Surface(at) > tolerance;
      } else if (p < 0.4) {
        ++cells;
        beyond += !inside(at);
      }
    }
  }
  PBT_CHECK(occupied > 30 && cells > 100) << occupied << " " << cells;
  PBT_CHECK(far <= 0.4 * occupied) << far << " of " << occupied << " occupied cells are away from any wall";
  PBT_CHECK(beyond <= 0.4 * cells) << beyond << " of " << cells << " free cells are outside";
}

struct Keeper {
  std::unique_ptr<mapping::MapBuilder> owned;
  bool done = false;
  ~Keeper() {
    if (!done) owned.release();
  }
};

void Mapping(pbt::Source& s, bool three_d) {
  const Setup setup = GenSetup(s, three_d);
  auto options = Defaults().map;
  options.set_use_trajectory_builder_2d(!three_d);
  options.set_use_trajectory_builder_3d(three_d);
  options.set_collate_by_trajectory(s.Chance(0.5));
  std::vector<Drive> drives;
  const double turns = s.Real(0.4, 1.3);
  drives.push_back(GenDrive(s, setup, geo::kEpoch, turns));
  const bool two = s.Chance(0.4), localize = !two && s.Chance(0.5);
  if (two || localize) drives.push_back(GenDrive(s, setup, geo::kEpoch + 10000000000, localize ? 0.35 : s.Real(0.3, 0.6)));
  if (s.Sampling()) {
    std::ostringstream text;
    text << (three_d ? "3D" : "2D") << (localize ? ", then localization" : "") << ":";
    for (const Drive& d : drives) text << " " << d.seconds << " s" << (d.imu ? " imu" : "") << (d.odometry ? " odometry" : "") << (d.landmarks ? " landmarks" : "") << ";";
    s.Describe(text.str());
  }
  Keeper keeper{absl::make_unique<mapping::MapBuilder>(options)};
  mapping::MapBuilder* builder = keeper.owned.get();
  Run(builder, setup, &drives[0], false);
  if (two) Run(builder, setup, &drives[1], false);
  builder->pose_graph()->RunFinalOptimization();
  // Measured: at most 0.6 m, 0.2 rad in 3000 runs.
  const double t_tol = 1.2, r_tol = 0.4;
  int loops = 0, between = 0;
  for (const auto& c : builder->pose_graph()->constraints()) {
    loops += c.tag == mapping::PoseGraph::Constraint::INTER_SUBMAP;
    between += c.node_id.trajectory_id != c.submap_id.trajectory_id;
  }
  s.LabelIf(loops > 0, "loop closures");
  s.LabelIf(between > 0, "trajectories joined");
  if (loops > 0) s.NonTrivial();
  if (turns > 0.9) PBT_CHECK(loops > 0) << "a place visited before was not recognized";
  std::vector<Drive> joined = drives;
  if (!two || between == 0) joined.resize(1);
  const Rigid3d to_map = CheckNodes(builder, joined, t_tol, r_tol);
  CheckMap(builder, setup, to_map, 0.5);
  for (const auto& mark : builder->pose_graph()->GetLandmarkPoses()) {
    if (two && between == 0) break;  // two maps, not one
    const Vector3d truth = setup.marks.at(std::stoi(mark.first.substr(1)));
    const double e = (to_map * truth - mark.second.translation()).norm();
    PBT_CHECK(e < t_tol) << "landmark " << mark.first << " at " << mark.second << ", is at " << to_map * truth;
  }
  if (!localize) {
    keeper.done = true;
    return;
  }
  const std::string path = std::string(getenv("VERIF_SCRATCH")) + "/" + std::to_string(getpid()) + ".pbstream";
  PBT_CHECK(builder->SerializeStateToFile(false, path));
  Keeper again{absl::make_unique<mapping::MapBuilder>(options)};
  {
    io::ProtoStreamReader reader(path);
    again.owned->LoadState(&reader, true);
  }
  unlink(path.c_str());
  keeper.done = true;
  Run(again.owned.get(), setup, &drives[1], true);
  again.owned->pose_graph()->RunFinalOptimization();
  int found = 0;
  for (const auto& c : again.owned->pose_graph()->constraints())
    found += c.node_id.trajectory_id == drives[1].id && c.submap_id.trajectory_id != drives[1].id;
  if (found > 0) {
    s.Label("localized");
    const auto nodes = again.owned->pose_graph()->GetTrajectoryNodePoses();
    const auto& last = *std::prev(nodes.EndOfTrajectory(drives[1].id));
    const Rigid3d truth = to_map * drives[1].Truth(last.data.constant_pose_data->time);
    const Rigid3d e = truth.inverse() * last.data.global_pose;
    PBT_CHECK(geo::Near(last.data.global_pose, truth, t_tol, r_tol)) << "found at " << last.data.global_pose << ", is at " << truth;
  }
  again.owned->FinishTrajectory(drives[1].id);
  again.done = true;
}

PBT_FACET(map_2d, o.weight = 2; o.nondeterministic = true; o.case_timeout_s = 120; o.rule = "a loop closure was found") { Mapping(s, false); }
PBT_FACET(map_3d, o.weight = 1; o.nondeterministic = true; o.case_timeout_s = 120; o.rule = "a loop closure was found") { Mapping(s, true); }
}  // namespace
