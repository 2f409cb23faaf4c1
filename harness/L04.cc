// L04: local SLAM in 3D.
#include "local_slam.h"

#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"

namespace {
using namespace local_slam;
using mapping::LocalTrajectoryBuilder3D;
using transform::Rigid3d;
using transform::Rigid3f;

mapping::proto::LocalTrajectoryBuilderOptions3D BaseOptions() {
  mapping::proto::LocalTrajectoryBuilderOptions3D o;
  o.set_min_range(0.);
  o.set_max_range(30.);
  o.set_num_accumulated_range_data(1);
  o.set_voxel_filter_size(0.02);
  for (auto* a : {o.mutable_high_resolution_adaptive_voxel_filter_options(), o.mutable_low_resolution_adaptive_voxel_filter_options()}) {
    a->set_max_length(0.5);
    a->set_min_num_points(1000);
    a->set_max_range(60.);
  }
  o.mutable_high_resolution_adaptive_voxel_filter_options()->set_max_range(15.);
  auto* c = o.mutable_ceres_scan_matcher_options();
  c->add_occupied_space_weight(1.);
  c->add_occupied_space_weight(6.);
  c->set_translation_weight(5.);
  c->set_rotation_weight(400.);
  c->set_only_optimize_yaw(false);
  c->mutable_ceres_solver_options()->set_max_num_iterations(12);
  c->mutable_ceres_solver_options()->set_num_threads(1);
  for (int i = 0; i != 2; ++i) {
    auto* in = c->add_intensity_cost_function_options();
    in->set_weight(0.5);
    in->set_huber_scale(0.3);
    in->set_intensity_threshold(100.f);
  }
  auto* r = o.mutable_real_time_correlative_scan_matcher_options();
  r->set_linear_search_window(0.15);
  r->set_angular_search_window(0.02);
  r->set_translation_delta_cost_weight(0.1);
  r->set_rotation_delta_cost_weight(0.1);
  auto* e = o.mutable_pose_extrapolator_options()->mutable_constant_velocity();
  e->set_imu_gravity_time_constant(10.);
  e->set_pose_queue_duration(0.001);
  o.set_rotational_histogram_size(30);
  auto* m = o.mutable_submaps_options();
  m->set_num_range_data(6);
  m->set_high_resolution(0.2);
  m->set_low_resolution(0.5);
  m->set_high_resolution_max_range(20.);
  auto* ins = m->mutable_range_data_inserter_options();
  ins->set_hit_probability(0.7);
  ins->set_miss_probability(0.4);
  ins->set_num_free_space_voxels(2);
  ins->set_intensity_threshold(100.f);
  return o;
}

struct Want {
  common::Time time;
  Rigid3d pose;
  Eigen::Quaterniond gravity;
  Points returns, misses;  // in the tracking frame
  std::vector<float> intensities;  // of the returns
};

struct Reference {
  const mapping::proto::LocalTrajectoryBuilderOptions3D& o;
  mapping::RangeDataCollator collator;
  std::unique_ptr<mapping::PoseExtrapolator> e;
  std::vector<sensor::TimedPointCloudOriginData> pending;
  bool fuzzy = false;

  Reference(const mapping::proto::LocalTrajectoryBuilderOptions3D& options, const std::vector<std::string>& ids) : o(options), collator(ids) {}
  void Imu(const sensor::ImuData& d) {
    if (e) {
      e->AddImuData(d);
      return;
    }
    e = mapping::PoseExtrapolator::InitializeWithImu(common::FromSeconds(o.pose_extrapolator_options().constant_velocity().pose_queue_duration()),
                                                     o.pose_extrapolator_options().constant_velocity().imu_gravity_time_constant(), d);
  }
  bool Add(const std::string& id, const sensor::TimedPointCloudData& data, Want* want) {
    const auto sync = collator.AddRangeData(id, data);
    if (sync.ranges.empty() || !e) return false;
    if (sync.time + common::FromSeconds(sync.ranges.front().point_time.time) < e->GetLastPoseTime()) return false;
    Points all;
    for (const auto& r : sync.ranges) all.push_back(r.point_time.position);
    if (Dense(all, 0.15f)) fuzzy = true;
    pending.push_back(sync);
    if (static_cast<int>(pending.size()) < o.num_accumulated_range_data()) return false;
    Points returns, misses;
    common::Time now = e->GetLastExtrapolatedTime();
    for (const auto& d : pending) {
      for (const auto& r : d.ranges) {
        now = std::max(now, d.time + common::FromSeconds(r.point_time.time));
        const Rigid3d pose = e->ExtrapolatePose(now);
        const Eigen::Vector3d hit = pose * r.point_time.position.cast<double>(), origin = pose * d.origins[r.origin_index].cast<double>();
        const double range = (hit - origin).norm();
        if (std::abs(range - o.min_range()) < 1e-3 || std::abs(range - o.max_range()) < 1e-3) fuzzy = true;
        if (range < o.min_range()) continue;
        if (range <= o.max_range()) {
          returns.push_back(hit.cast<float>());
          want->intensities.push_back(r.intensity);
        } else {
          misses.push_back((origin + (hit - origin) * (o.max_range() / range)).cast<float>());
        }
      }
    }
    want->time = pending.back().time;
    pending.clear();
    if (Dense(returns, 0.15f) || Dense(misses, 0.15f)) fuzzy = true;
    want->pose = e->ExtrapolatePose(want->time);
    want->gravity = e->EstimateGravityOrientation(want->time);
    want->returns = Apply(want->pose.inverse().cast<float>(), returns);
    want->misses = Apply(want->pose.inverse().cast<float>(), misses);
    // The matcher needs points within its range.
    int near = 0;
    for (const auto& p : want->returns) {
      if (std::abs(p.norm() - 15.f) < 1e-2f) fuzzy = true;
      if (p.norm() < 15.f) ++near;
    }
    return near > 0;
  }
};
}  // namespace

PBT_FACET(data_flow, o.weight = 1; o.rule =
    "random sensors, scans, inertial data and odometry in time order with the scan matcher held at the prediction: every "
    "result (time, pose, returns, misses, node, submaps) compared with an independent account; non-trivial: >=2 results, "
    "one kept and one skipped or with misses, accumulation or several sensors") {
  auto o = BaseOptions();
  o.set_min_range(s.Real(0., 1.));
  o.set_max_range(s.Real(3., 12.));
  o.set_num_accumulated_range_data(s.Weighted({5, 1, 1, 1}) + 1);
  o.set_use_intensities(s.Bits(1));
  auto* c = o.mutable_ceres_scan_matcher_options();
  c->set_occupied_space_weight(0, 1e-3);
  c->set_occupied_space_weight(1, 1e-3);
  c->mutable_intensity_cost_function_options(0)->set_weight(1e-3);
  c->mutable_intensity_cost_function_options(1)->set_weight(1e-3);
  c->set_translation_weight(1e4);
  c->set_rotation_weight(1e4);
  o.mutable_submaps_options()->set_num_range_data(s.Int(1, 4));
  o.mutable_submaps_options()->set_high_resolution_max_range(s.Real(2., 8.));
  o.mutable_pose_extrapolator_options()->mutable_constant_velocity()->set_pose_queue_duration(s.Pick(std::vector<double>{0.001, 0.1, 0.5}));
  auto* f = o.mutable_motion_filter_options();
  f->set_max_time_seconds(s.Real(0., 2.));
  f->set_max_distance_meters(s.Real(0., 1.));
  f->set_max_angle_radians(s.Real(0., 0.5));
  std::vector<std::string> ids;
  const int sensors = s.Weighted({3, 1, 1}) + 1;
  for (int i = 0; i != sensors; ++i) ids.push_back("r" + std::to_string(i));
  LocalTrajectoryBuilder3D slam(o, ids);
  Reference ref(o, ids);
  mapping::ActiveSubmaps3D submaps(o.submaps_options());
  const Eigen::Quaterniond tilted(Eigen::AngleAxisd(s.Real(0., 1.), GenAxis(s)));
  const Eigen::Vector3d accel = tilted.conjugate() * Eigen::Vector3d(0, 0, 9.8);
  Rigid3d odom = GenRigid3(s, 5.);
  const Rigid3d step(GenVector(s, 0.2), Eigen::Quaterniond(Eigen::AngleAxisd(s.Real(-0.2, 0.2), GenAxis(s))));
  const bool with_odometry = s.Bits(1);
  int64_t t = kEpoch;
  int results = 0, kept = 0, skipped = 0, with_misses = 0;
  common::Time last_time;
  Rigid3d last_pose;
  std::vector<Eigen::Vector3f> origins;
  for (int i = 0; i != sensors; ++i) origins.push_back(GenVector(s, 1.).cast<float>());
  const int ops = s.Len(1, 40);
  for (int k = 0; k != ops; ++k) {
    t += s.Int(1, 100) * kTick;
    // Start with inertial data most of the time.
    const int what = k == 0 && s.Chance(0.9) ? 1 : s.Weighted({6, 2, with_odometry ? 2. : 0.});
    if (what == 1) {
      const sensor::ImuData d{TimeAt(t), accel + GenVector(s, 0.1), GenVector(s, 0.3)};
      slam.AddImuData(d);
      ref.Imu(d);
      continue;
    }
    if (what == 2) {
      odom = odom * step;
      const sensor::OdometryData d{TimeAt(t), odom};
      slam.AddOdometryData(d);
      if (ref.e) ref.e->AddOdometryData(d);
      continue;
    }
    sensor::TimedPointCloudData data;
    const int i = s.Int(0, sensors - 1);
    data.time = TimeAt(t);
    data.origin = origins[i];
    // Now and then a scan of realistic size, its points well apart.
    const bool large = s.Chance(0.03);
    const int m = large ? s.Int(60, 280) : s.Len(0, 8);
    std::vector<int> offsets;
    for (int j = 0; j != m; ++j) offsets.push_back(large ? -60 + 60 * j / m : -s.Int(0, 60));
    std::sort(offsets.begin(), offsets.end());
    const double radius = s.Real(3., 9.);
    for (int j = 0; j != m; ++j) {
      const double z = 1. - 2. * (j + 0.5) / m, turn = 2.399963 * j;
      const Eigen::Vector3d axis = large ? Eigen::Vector3d(std::sqrt(1. - z * z) * std::cos(turn), std::sqrt(1. - z * z) * std::sin(turn), z) : GenAxis(s);
      data.ranges.push_back({data.origin + (axis * (large ? radius : s.Real(0.1, 15.))).cast<float>(), j + 1 == m && s.Bits(1) ? 0.f : offsets[j] * 1e-7f * kTick});
      data.intensities.push_back(s.Int(0, 150));
    }
    s.LabelIf(large, "large scan");
    Want want;
    const bool expected = ref.Add(ids[i], data, &want);
    if (ref.fuzzy) throw pbt::Discard();
    const auto got = slam.AddRangeData(ids[i], data);
    PBT_CHECK_EQ(got != nullptr, expected) << "a result is " << (expected ? "missing" : "unexpected");
    if (!expected) continue;
    ++results;
    if (!want.misses.empty()) ++with_misses;
    PBT_CHECK(got->time == want.time);
    PBT_CHECK(Near(got->local_pose, want.pose, 1e-3, 1e-3)) << "pose " << got->local_pose.DebugString() << " want " << want.pose.DebugString();
    ref.e->AddPose(want.time, got->local_pose);
    const Rigid3f pose = got->local_pose.cast<float>();
    const std::string r = Differ(Positions(got->range_data_in_local.returns), Apply(pose, want.returns), 5e-3);
    PBT_CHECK(r.empty()) << "returns: " << r;
    const std::string m2 = Differ(Positions(got->range_data_in_local.misses), Apply(pose, want.misses), 5e-3);
    PBT_CHECK(m2.empty()) << "misses: " << m2;
    PBT_CHECK((got->range_data_in_local.origin - pose.translation()).norm() < 1e-2) << "origin";
    if (o.use_intensities()) PBT_CHECK_EQ(got->range_data_in_local.returns.intensities().size(), want.returns.size()) << "intensities";
    if (o.use_intensities()) {
      const Points at = Apply(pose, want.returns);
      for (size_t q = 0; q != at.size(); ++q) {
        size_t best = 0;
        for (size_t p = 0; p != at.size(); ++p)
          if ((at[p] - got->range_data_in_local.returns[q].position).norm() < (at[best] - got->range_data_in_local.returns[q].position).norm()) best = p;
        PBT_CHECK(got->range_data_in_local.returns.intensities()[q] == want.intensities[best]) << "a point carries the intensity of another";
      }
    }
    bool keep = true;
    if (kept) {
      const double dt = common::ToSeconds(got->time - last_time), d = (got->local_pose.translation() - last_pose.translation()).norm(),
                   a = RotationDistance(got->local_pose.rotation(), last_pose.rotation());
      if (std::abs(dt - f->max_time_seconds()) < 1e-6 || std::abs(d - f->max_distance_meters()) < 1e-6 || std::abs(a - f->max_angle_radians()) < 1e-6) throw pbt::Discard();
      keep = dt > f->max_time_seconds() || d > f->max_distance_meters() || a > f->max_angle_radians();
    }
    PBT_CHECK_EQ(got->insertion_result != nullptr, keep) << "inserted";
    if (!keep) {
      ++skipped;
      continue;
    }
    ++kept;
    last_time = got->time;
    last_pose = got->local_pose;
    const auto& node = *got->insertion_result->constant_data;
    PBT_CHECK(node.time == got->time);
    PBT_CHECK(Near(node.local_pose, got->local_pose, 1e-12, 1e-12)) << "node pose";
    PBT_CHECK(RotationDistance(node.gravity_alignment, want.gravity) < 1e-3) << "node gravity";
    Points near;
    for (const auto& p : want.returns) if (p.norm() <= 15.f) near.push_back(p);
    const std::string n1 = Differ(Positions(node.high_resolution_point_cloud), near, 5e-3);
    PBT_CHECK(n1.empty()) << "high resolution points: " << n1;
    const std::string n2 = Differ(Positions(node.low_resolution_point_cloud), want.returns, 5e-3);
    PBT_CHECK(n2.empty()) << "low resolution points: " << n2;
    PBT_CHECK_EQ(node.rotational_scan_matcher_histogram.size(), 30);
    const auto expected_submaps = submaps.InsertData(got->range_data_in_local, got->local_pose.rotation() * node.gravity_alignment.inverse(), node.rotational_scan_matcher_histogram);
    const auto& got_submaps = got->insertion_result->insertion_submaps;
    PBT_CHECK_EQ(got_submaps.size(), expected_submaps.size());
    for (size_t q = 0; q != got_submaps.size(); ++q) {
      PBT_CHECK_EQ(got_submaps[q]->num_range_data(), expected_submaps[q]->num_range_data());
      PBT_CHECK_EQ(got_submaps[q]->insertion_finished(), expected_submaps[q]->insertion_finished());
      PBT_CHECK(Near(got_submaps[q]->local_pose(), expected_submaps[q]->local_pose(), 1e-6, 1e-6)) << "submap pose";
      PBT_CHECK(got_submaps[q]->ToProto(true).submap_3d().high_resolution_hybrid_grid().values_size() ==
                expected_submaps[q]->ToProto(true).submap_3d().high_resolution_hybrid_grid().values_size()) << "contents of submap";
      PBT_CHECK((got_submaps[q]->rotational_scan_matcher_histogram() - expected_submaps[q]->rotational_scan_matcher_histogram()).norm() < 1e-3) << "histogram of submap";
    }
    // The histogram is that of the gravity-aligned points.
    const Eigen::VectorXf h = mapping::scan_matching::RotationalScanMatcher::ComputeHistogram(
        sensor::TransformPointCloud(sensor::TransformPointCloud(got->range_data_in_local.returns, got->local_pose.inverse().cast<float>()),
                                    Rigid3f::Rotation(want.gravity.cast<float>())), 30);
    PBT_CHECK(h.norm() < 1e-6 || std::abs(h.sum() - node.rotational_scan_matcher_histogram.sum()) < 0.05 * h.sum() + 1e-3) << "histogram";
  }
  if (s.Chance(0.01) && o.use_intensities()) {
    sensor::TimedPointCloudData bad{TimeAt(t + kTick), {}, {{Eigen::Vector3f(1, 1, 1), 0.f}}, {}};
    PBT_CHECK_EQ(pbt::RunForked([&] { slam.AddRangeData(ids[0], bad); }), 1) << "missing intensities accepted";
  }
  s.LabelIf(skipped > 0, "skipped");
  s.LabelIf(with_misses > 0, "misses");
  if (results >= 2 && kept && (skipped || with_misses || sensors > 1 || o.num_accumulated_range_data() > 1)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(sensors) + " sensors, " + std::to_string(ops) + " messages, " + std::to_string(results) + " results, " + std::to_string(skipped) + " not inserted");
}

PBT_FACET(tracking, o.weight = 0.5; o.case_timeout_s = 30; o.rule =
    "random box-shaped rooms, a robot flying in a curve with wrong odometry, inertial data and a 3D scanner: estimated poses "
    "stay close to the truth; non-trivial: moved >=0.2 m over >=4 scans") {
  auto o = BaseOptions();
  o.set_use_online_correlative_scan_matching(s.Chance(0.1));
  o.mutable_ceres_scan_matcher_options()->set_translation_weight(30.);
  const Eigen::Vector3d lo(-s.Real(1.5, 3.), -s.Real(1.5, 3.), -s.Real(1., 2.)), hi(s.Real(1.5, 3.), s.Real(1.5, 3.), s.Real(1., 2.));
  const Eigen::Quaterniond turn = Eigen::Quaterniond(Eigen::AngleAxisd(s.Real(-M_PI, M_PI), Eigen::Vector3d::UnitZ()));
  const Eigen::Quaterniond tilt = Eigen::Quaterniond(Eigen::AngleAxisd(s.Real(0., 0.5), GenAxis(s)));
  const Eigen::Vector3d v = GenVector(s, 0.3), w = GenVector(s, 0.3);
  const double slip = s.Real(-0.1, 0.1);
  const int scans = s.Len(2, 8), rays = s.Int(300, 500);
  auto truth = [&](double dt) {  // in the room
    const double a = w.norm() * dt;
    const Eigen::Quaterniond r = a < 1e-9 ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(a, w.normalized()));
    return Rigid3d(v * dt, (turn * tilt * r).normalized());
  };
  LocalTrajectoryBuilder3D slam(o, {"r"});
  auto time = [&](double at) { return TimeAt(kEpoch + static_cast<int64_t>(std::llround(at * 1e7))); };
  double worst_t = 0, worst_r = 0;
  int results = 0;
  Rigid3d base;
  for (int k = 0; k != scans; ++k) {
    const double now = 1. + k * 0.1;
    for (double u : {now - 0.08, now - 0.06}) {
      slam.AddImuData(sensor::ImuData{time(u), truth(u - 1.).rotation().conjugate() * Eigen::Vector3d(0, 0, 9.8), w});
      const Rigid3d p = truth(u - 1.);
      slam.AddOdometryData(sensor::OdometryData{time(u), Rigid3d(p.translation() * (1. + slip), p.rotation())});
    }
    sensor::TimedPointCloudData data;
    data.time = time(now);
    data.origin = Eigen::Vector3f::Zero();
    for (int i = 0; i != rays; ++i) {
      const double at = -0.05 * (rays - 1 - i) / rays;
      const Rigid3d pose = truth(now + at - 1.);
      // Spiral directions over the sphere.
      const double z = 1. - 2. * (i + 0.1 + 0.8 * ((k * 7) % 11) / 11.) / rays, a = i * 2.399963 + k;
      const Eigen::Vector3d d(std::sqrt(1 - z * z) * std::cos(a), std::sqrt(1 - z * z) * std::sin(a), z), dir = pose.rotation() * d;
      double range = 1e9;
      for (int c = 0; c != 3; ++c) if (std::abs(dir[c]) > 1e-9) range = std::min(range, ((dir[c] > 0 ? hi[c] : lo[c]) - pose.translation()[c]) / dir[c]);
      data.ranges.push_back({(range * d).cast<float>(), static_cast<float>(at)});
    }
    const auto got = slam.AddRangeData("r", data);
    if (!got) continue;
    if (results++ == 0) base = got->local_pose * truth(now - 1.).inverse();
    const Rigid3d want = base * truth(now - 1.);
    worst_t = std::max(worst_t, (got->local_pose.translation() - want.translation()).norm());
    worst_r = std::max(worst_r, RotationDistance(got->local_pose.rotation(), want.rotation()));
  }
  PBT_CHECK(results >= scans - 1) << "only " << results << " results of " << scans << " scans";
  PBT_CHECK(worst_t < 0.25 && worst_r < 0.1) << "lost track: " << worst_t << " m, " << worst_r << " rad";
  if (results >= 4 && v.norm() * scans * 0.1 >= 0.2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(results) + " scans, worst error " + std::to_string(worst_t) + " m");
}
