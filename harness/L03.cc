// L03: local SLAM in 2D.
#include "local_slam.h"

#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"

namespace {
using namespace local_slam;
using mapping::LocalTrajectoryBuilder2D;
using transform::Rigid3d;
using transform::Rigid3f;

mapping::proto::LocalTrajectoryBuilderOptions2D BaseOptions(double resolution) {
  mapping::proto::LocalTrajectoryBuilderOptions2D o;
  o.set_min_range(0.);
  o.set_max_range(30.);
  o.set_min_z(-100.);
  o.set_max_z(100.);
  o.set_missing_data_ray_length(5.);
  o.set_num_accumulated_range_data(1);
  o.set_voxel_filter_size(0.01);
  auto* a = o.mutable_adaptive_voxel_filter_options();
  a->set_max_length(0.5);
  a->set_min_num_points(500);
  a->set_max_range(50.);
  auto* c = o.mutable_ceres_scan_matcher_options();
  c->set_occupied_space_weight(1.);
  c->set_translation_weight(10.);
  c->set_rotation_weight(40.);
  c->mutable_ceres_solver_options()->set_max_num_iterations(20);
  c->mutable_ceres_solver_options()->set_num_threads(1);
  auto* r = o.mutable_real_time_correlative_scan_matcher_options();
  r->set_linear_search_window(0.1);
  r->set_angular_search_window(0.1);
  r->set_translation_delta_cost_weight(0.1);
  r->set_rotation_delta_cost_weight(0.1);
  auto* e = o.mutable_pose_extrapolator_options()->mutable_constant_velocity();
  e->set_imu_gravity_time_constant(10.);
  e->set_pose_queue_duration(0.001);
  auto* m = o.mutable_submaps_options();
  m->set_num_range_data(8);
  m->mutable_grid_options_2d()->set_grid_type(mapping::proto::GridOptions2D_GridType_PROBABILITY_GRID);
  m->mutable_grid_options_2d()->set_resolution(resolution);
  auto* ins = m->mutable_range_data_inserter_options();
  ins->set_range_data_inserter_type(mapping::proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* p = ins->mutable_probability_grid_range_data_inserter_options_2d();
  p->set_insert_free_space(true);
  p->set_hit_probability(0.7);
  p->set_miss_probability(0.4);
  return o;
}

// What must come out of one call.
struct Want {
  common::Time time;
  Rigid3d pose;
  Eigen::Quaterniond gravity;
  Points returns, misses;  // gravity aligned, relative to the pose
};

// Independent account of the data flow, with the scan matcher returning the prediction.
struct Reference {
  const mapping::proto::LocalTrajectoryBuilderOptions2D& o;
  mapping::RangeDataCollator collator;
  std::unique_ptr<mapping::PoseExtrapolator> e;
  int accumulated = 0;
  Points returns, misses;
  bool fuzzy = false;

  Reference(const mapping::proto::LocalTrajectoryBuilderOptions2D& options, const std::vector<std::string>& ids) : o(options), collator(ids) {}
  void Init(common::Time t) {
    if (e) return;
    e = std::make_unique<mapping::PoseExtrapolator>(common::FromSeconds(o.pose_extrapolator_options().constant_velocity().pose_queue_duration()),
                                                    o.pose_extrapolator_options().constant_velocity().imu_gravity_time_constant());
    e->AddPose(t, Rigid3d::Identity());
  }
  bool Add(const std::string& id, const sensor::TimedPointCloudData& data, Want* want) {
    const auto sync = collator.AddRangeData(id, data);
    if (sync.ranges.empty()) return false;
    if (!o.use_imu_data()) Init(sync.time);
    if (!e) return false;
    auto at = [&](float dt) { return sync.time + common::FromSeconds(dt); };
    if (at(sync.ranges.front().point_time.time) < e->GetLastPoseTime()) return false;
    if (accumulated == 0) {
      returns.clear();
      misses.clear();
    }
    Rigid3d last;
    for (const auto& r : sync.ranges) {
      last = e->ExtrapolatePose(std::max(at(r.point_time.time), e->GetLastExtrapolatedTime()));
      const Eigen::Vector3d hit = last * r.point_time.position.cast<double>(), origin = last * sync.origins[r.origin_index].cast<double>();
      const double range = (hit - origin).norm();
      if (std::abs(range - o.min_range()) < 1e-3 || std::abs(range - o.max_range()) < 1e-3) fuzzy = true;
      if (range < o.min_range()) continue;
      if (range <= o.max_range()) {
        returns.push_back(hit.cast<float>());
      } else {
        misses.push_back((origin + (hit - origin) * (o.missing_data_ray_length() / range)).cast<float>());
      }
    }
    if (++accumulated < o.num_accumulated_range_data()) return false;
    accumulated = 0;
    const Eigen::Quaterniond gravity = e->EstimateGravityOrientation(sync.time);
    const Rigid3d to_gravity = Rigid3d::Rotation(gravity) * last.inverse();
    auto crop = [&](const Points& in) {
      Points out;
      for (const auto& p : in) {
        const Eigen::Vector3f q = (to_gravity * p.cast<double>()).cast<float>();
        if (std::abs(q.z() - o.min_z()) < 1e-3 || std::abs(q.z() - o.max_z()) < 1e-3) fuzzy = true;
        if (q.z() >= o.min_z() && q.z() <= o.max_z()) out.push_back(q);
      }
      if (Dense(out, 0.05f)) fuzzy = true;
      return out;
    };
    want->returns = crop(returns);
    want->misses = crop(misses);
    if (want->returns.empty()) return false;
    want->time = sync.time;
    want->gravity = gravity;
    const Rigid3d prediction = e->ExtrapolatePose(sync.time) * Rigid3d::Rotation(gravity).inverse();
    // The planar part of the prediction.
    const Eigen::Vector3d x = prediction.rotation() * Eigen::Vector3d::UnitX();
    const double yaw = std::atan2(x.y(), x.x());
    want->pose = Rigid3d(Eigen::Vector3d(prediction.translation().x(), prediction.translation().y(), 0.),
                         Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())));
    return true;
  }
};

struct Room {
  double x0, x1, y0, y1;     // walls
  double bx0, bx1, by0, by1; // a box inside
  double Cast(const Eigen::Vector2d& p, double a) const {
    const double dx = std::cos(a), dy = std::sin(a);
    double best = 1e9;
    if (std::abs(dx) > 1e-9) best = std::min(best, ((dx > 0 ? x1 : x0) - p.x()) / dx);
    if (std::abs(dy) > 1e-9) best = std::min(best, ((dy > 0 ? y1 : y0) - p.y()) / dy);
    // Enter the box?
    double t0 = 0, t1 = 1e9;
    auto slab = [&](double o, double d, double lo, double hi) {
      if (std::abs(d) < 1e-9) {
        if (o < lo || o > hi) t1 = -1;
        return;
      }
      double a0 = (lo - o) / d, a1 = (hi - o) / d;
      if (a0 > a1) std::swap(a0, a1);
      t0 = std::max(t0, a0);
      t1 = std::min(t1, a1);
    };
    slab(p.x(), dx, bx0, bx1);
    slab(p.y(), dy, by0, by1);
    if (t0 < t1 && t0 > 0) best = std::min(best, t0);
    return best;
  }
};
}  // namespace

PBT_FACET(data_flow, o.weight = 1; o.rule =
    "random sensors, scans, inertial data and odometry in time order with the scan matcher held at the prediction: every "
    "result (time, pose, returns, misses, node, submaps) compared with an independent account; non-trivial: >=2 results, "
    "one kept and one skipped or with misses, accumulation or several sensors") {
  auto o = BaseOptions(0.1);
  o.set_use_imu_data(s.Bits(1));
  o.set_min_range(s.Real(0., 1.));
  o.set_max_range(s.Real(3., 10.));
  o.set_min_z(s.Real(-2., -0.3));
  o.set_max_z(s.Real(0.3, 2.));
  o.set_missing_data_ray_length(s.Real(1., 6.));
  o.set_num_accumulated_range_data(s.Weighted({5, 1, 1, 1}) + 1);
  o.set_voxel_filter_size(0.01);
  o.mutable_ceres_scan_matcher_options()->set_occupied_space_weight(1e-3);
  o.mutable_ceres_scan_matcher_options()->set_translation_weight(1e4);
  o.mutable_ceres_scan_matcher_options()->set_rotation_weight(1e4);
  o.mutable_submaps_options()->set_num_range_data(s.Int(1, 4));
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_pose_queue_duration(s.Pick(std::vector<double>{0.001, 0.1, 0.5}));
  auto* f = o.mutable_motion_filter_options();
  f->set_max_time_seconds(s.Real(0., 2.));
  f->set_max_distance_meters(s.Real(0., 1.));
  f->set_max_angle_radians(s.Real(0., 0.5));
  std::vector<std::string> ids;
  const int sensors = s.Weighted({3, 1, 1}) + 1;
  for (int i = 0; i != sensors; ++i) ids.push_back("r" + std::to_string(i));
  LocalTrajectoryBuilder2D slam(o, ids);
  Reference ref(o, ids);
  mapping::ActiveSubmaps2D submaps(o.submaps_options());
  const double tilt = s.Real(0., 0.4);
  const Eigen::Quaterniond tilted(Eigen::AngleAxisd(tilt, GenAxis(s)));
  const Eigen::Vector3d accel = tilted.conjugate() * Eigen::Vector3d(0, 0, 9.8);
  Rigid3d odom = GenRigid3(s, 5.);
  const Rigid3d step(Eigen::Vector3d(s.Real(-0.2, 0.2), s.Real(-0.1, 0.1), 0.), Eigen::Quaterniond(Eigen::AngleAxisd(s.Real(-0.2, 0.2), Eigen::Vector3d::UnitZ())));
  const bool with_odometry = s.Bits(1);
  int64_t t = kEpoch;
  int results = 0, kept = 0, skipped = 0, with_misses = 0;
  common::Time last_time;
  Rigid3d last_pose;
  std::shared_ptr<const mapping::Submap2D> first_submap;
  std::vector<Eigen::Vector3f> origins;
  for (int i = 0; i != sensors; ++i) origins.push_back(GenVector(s, 1.).cast<float>());
  const int ops = s.Len(1, 40);
  for (int k = 0; k != ops; ++k) {
    t += s.Int(1, 100) * kTick;
    const int what = s.Weighted({6, o.use_imu_data() ? 2. : 0., with_odometry ? 2. : 0.});
    if (what == 1) {
      const sensor::ImuData d{TimeAt(t), accel + GenVector(s, 0.1), GenVector(s, 0.3)};
      slam.AddImuData(d);
      ref.Init(d.time);
      ref.e->AddImuData(d);
      continue;
    }
    if (what == 2) {
      odom = odom * step;
      const sensor::OdometryData d{TimeAt(t), odom};
      slam.AddOdometryData(d);
      if (ref.e) ref.e->AddOdometryData(d);
      continue;
    }
    sensor::TimedPointCloudData data;
    const int i = s.Int(0, sensors - 1);
    data.time = TimeAt(t);
    data.origin = origins[i];
    // Now and then a scan of realistic size, its points well apart.
    const bool large = s.Chance(0.03);
    const int m = large ? s.Int(60, 280) : s.Len(0, 8);
    std::vector<int> offsets;
    for (int j = 0; j != m; ++j) offsets.push_back(large ? -60 + 60 * j / m : -s.Int(0, 60));
    std::sort(offsets.begin(), offsets.end());
    const double radius = s.Real(3., 9.);
    for (int j = 0; j != m; ++j) {
      const double a = large ? 2. * M_PI * j / m : s.Real(-M_PI, M_PI), r = large ? radius : s.Real(0.1, 15.);
      data.ranges.push_back({data.origin + Eigen::Vector3f(r * std::cos(a), r * std::sin(a), large ? 0. : s.Real(-2.5, 2.5)), j + 1 == m && s.Bits(1) ? 0.f : offsets[j] * 1e-7f * kTick});
    }
    s.LabelIf(large, "large scan");
    Want want;
    const bool expected = ref.Add(ids[i], data, &want);
    if (ref.fuzzy) throw pbt::Discard();
    const auto got = slam.AddRangeData(ids[i], data);
    PBT_CHECK_EQ(got != nullptr, expected) << "a result is " << (expected ? "missing" : "unexpected");
    if (!expected) continue;
    ++results;
    if (!want.misses.empty()) ++with_misses;
    PBT_CHECK(got->time == want.time);
    const Rigid3d pose = want.pose * Rigid3d::Rotation(want.gravity);
    PBT_CHECK(Near(got->local_pose, pose, 1e-3, 1e-3)) << "pose " << got->local_pose.DebugString() << " want " << pose.DebugString();
    ref.e->AddPose(want.time, got->local_pose);
    const Rigid3f planar = (got->local_pose * Rigid3d::Rotation(want.gravity).inverse()).cast<float>();
    const std::string r = Differ(Positions(got->range_data_in_local.returns), Apply(planar, want.returns), 5e-3);
    PBT_CHECK(r.empty()) << "returns: " << r;
    const std::string m2 = Differ(Positions(got->range_data_in_local.misses), Apply(planar, want.misses), 5e-3);
    PBT_CHECK(m2.empty()) << "misses: " << m2;
    PBT_CHECK((got->range_data_in_local.origin - planar.translation()).norm() < 1e-2) << "origin " << got->range_data_in_local.origin.transpose() << " want " << planar.translation().transpose();
    bool keep = true;
    if (kept) {
      const double dt = common::ToSeconds(got->time - last_time), d = (got->local_pose.translation() - last_pose.translation()).norm(),
                   a = RotationDistance(got->local_pose.rotation(), last_pose.rotation());
      if (std::abs(dt - f->max_time_seconds()) < 1e-6 || std::abs(d - f->max_distance_meters()) < 1e-6 || std::abs(a - f->max_angle_radians()) < 1e-6) throw pbt::Discard();
      keep = dt > f->max_time_seconds() || d > f->max_distance_meters() || a > f->max_angle_radians();
    }
    PBT_CHECK_EQ(got->insertion_result != nullptr, keep) << "inserted";
    if (!keep) {
      ++skipped;
      continue;
    }
    ++kept;
    last_time = got->time;
    last_pose = got->local_pose;
    const auto& node = *got->insertion_result->constant_data;
    PBT_CHECK(node.time == got->time);
    PBT_CHECK(Near(node.local_pose, got->local_pose, 1e-12, 1e-12)) << "node pose";
    PBT_CHECK(RotationDistance(node.gravity_alignment, want.gravity) < 1e-3) << "node gravity";
    const std::string n = Differ(Positions(node.filtered_gravity_aligned_point_cloud), want.returns, 5e-3);
    PBT_CHECK(n.empty()) << "node points: " << n;
    const auto expected_submaps = submaps.InsertRangeData(got->range_data_in_local);
    const auto& got_submaps = got->insertion_result->insertion_submaps;
    PBT_CHECK_EQ(got_submaps.size(), expected_submaps.size());
    for (size_t q = 0; q != got_submaps.size(); ++q) {
      PBT_CHECK_EQ(got_submaps[q]->num_range_data(), expected_submaps[q]->num_range_data());
      PBT_CHECK_EQ(got_submaps[q]->insertion_finished(), expected_submaps[q]->insertion_finished());
      PBT_CHECK(got_submaps[q]->ToProto(true).SerializeAsString() == expected_submaps[q]->ToProto(true).SerializeAsString()) << "contents of submap";
    }
  }
  if (s.Chance(0.01) && !o.use_imu_data()) {
    PBT_CHECK_EQ(pbt::RunForked([&] { slam.AddImuData(sensor::ImuData{TimeAt(t), accel, Eigen::Vector3d::Zero()}); }), 1) << "inertial data accepted though disabled";
  }
  s.LabelIf(skipped > 0, "skipped");
  s.LabelIf(with_misses > 0, "misses");
  if (results >= 2 && kept && (skipped || with_misses || sensors > 1 || o.num_accumulated_range_data() > 1)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(sensors) + " sensors, " + std::to_string(ops) + " messages, " + std::to_string(results) + " results, " + std::to_string(skipped) + " not inserted");
}

PBT_FACET(tracking, o.weight = 1; o.case_timeout_s = 20; o.rule =
    "random rooms with a box, a robot driving in a curve with exact, wrong or no odometry and a scanner sweeping while "
    "driving: estimated poses stay close to the truth; non-trivial: moved >=0.3 m or turned >=0.2 rad over >=5 scans") {
  auto o = BaseOptions(0.05);
  const bool imu = s.Bits(1), odometry = s.Chance(0.8), correlative = !odometry || s.Bits(1);
  o.set_use_imu_data(imu);
  o.set_use_online_correlative_scan_matching(correlative);
  Room room;
  room.x0 = -s.Real(1.5, 4.);
  room.x1 = s.Real(1.5, 4.);
  room.y0 = -s.Real(1.5, 4.);
  room.y1 = s.Real(1.5, 4.);
  room.bx0 = s.Real(0.8, 1.2);
  room.bx1 = room.bx0 + s.Real(0.2, 0.6);
  room.by0 = s.Real(-1., -0.8);
  room.by1 = room.by0 + s.Real(0.2, 0.5);
  // Turned room: walls not aligned with the grid.
  const double turn = s.Real(-M_PI, M_PI);
  const double v = s.Real(0., odometry ? 0.4 : 0.05), w = s.Real(-1., 1.) * (odometry || imu ? 0.5 : 0.05);
  const double slip = odometry ? s.Real(-0.1, 0.1) : 0.;
  const int scans = s.Len(2, 15), rays = s.Int(60, 120);
  auto truth = [&](double dt) {  // in the frame of the first pose
    if (std::abs(w) < 1e-6) return Rigid3d::Translation(Eigen::Vector3d(v * dt, 0, 0));
    return Rigid3d(Eigen::Vector3d(v / w * std::sin(w * dt), v / w * (1 - std::cos(w * dt)), 0), Eigen::Quaterniond(Eigen::AngleAxisd(w * dt, Eigen::Vector3d::UnitZ())));
  };
  auto odom = [&](double dt) {
    const double f = 1. + slip;
    const Rigid3d p = truth(dt);
    return Rigid3d(p.translation() * f, p.rotation());
  };
  LocalTrajectoryBuilder2D slam(o, {"r"});
  const Eigen::Vector2d start(s.Real(-0.5, 0.3), s.Real(-0.3, 0.5));
  const double dt = 0.1, sweep = 0.05;
  double worst_t = 0, worst_r = 0;
  int results = 0;
  Rigid3d base;
  for (int k = 0; k != scans; ++k) {
    const double now = 1. + k * dt;
    auto time = [&](double at) { return TimeAt(kEpoch + static_cast<int64_t>(std::llround(at * 1e7))); };
    for (double u : {now - 0.08, now - 0.06}) {
      if (u < 0.9 && k == 0 && !imu) continue;
      if (imu) slam.AddImuData(sensor::ImuData{time(u), Eigen::Vector3d(0, 0, 9.8), Eigen::Vector3d(0, 0, w)});
      if (odometry) slam.AddOdometryData(sensor::OdometryData{time(u), odom(u - 1.)});
    }
    sensor::TimedPointCloudData data;
    data.time = time(now);
    data.origin = Eigen::Vector3f(0.1f, 0.f, 0.2f);
    for (int i = 0; i != rays; ++i) {
      const double at = -sweep * (rays - 1 - i) / rays;
      const Rigid3d pose = truth(now + at - 1.);
      const double a = 2 * M_PI * i / rays;
      const Eigen::Vector3d o3 = pose * data.origin.cast<double>();
      const Eigen::Vector3d dir = pose.rotation() * Eigen::Vector3d(std::cos(a), std::sin(a), 0);
      // Into the room's frame.
      const Eigen::Rotation2Dd rot(turn);
      const Eigen::Vector2d p = start + rot * Eigen::Vector2d(o3.x(), o3.y());
      const double range = room.Cast(p, std::atan2(dir.y(), dir.x()) + turn);
      data.ranges.push_back({(data.origin.cast<double>() + range * Eigen::Vector3d(std::cos(a), std::sin(a), 0)).cast<float>(), static_cast<float>(at)});
    }
    const auto got = slam.AddRangeData("r", data);
    if (!got) continue;
    if (results++ == 0) base = got->local_pose * truth(now - 1.).inverse();
    const Rigid3d want = base * truth(now - 1.);
    worst_t = std::max(worst_t, (got->local_pose.translation() - want.translation()).norm());
    worst_r = std::max(worst_r, RotationDistance(got->local_pose.rotation(), want.rotation()));
  }
  const double moved = truth(scans * dt).translation().norm();
  PBT_CHECK(results >= scans - 1) << "only " << results << " results of " << scans << " scans";
  PBT_CHECK(worst_t < 0.4 && worst_r < 0.4) << "lost track: " << worst_t << " m, " << worst_r << " rad";
  if (results >= 5 && (moved >= 0.3 || std::abs(w) * scans * dt >= 0.2)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(results) + " scans, moved " + std::to_string(moved) + " m, worst error " + std::to_string(worst_t) + " m");
}
