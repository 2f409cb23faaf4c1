// L01: pose extrapolation and gravity tracking.
#include <deque>

#include "geo.h"

#include "cartographer/mapping/imu_tracker.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/odometry_data.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::PoseExtrapolator;
using transform::Rigid3d;

Eigen::Quaterniond Exp(const Eigen::Vector3d& v) {
  const double a = v.norm();
  if (a < 1e-12) return Eigen::Quaterniond(1, v.x() / 2, v.y() / 2, v.z() / 2).normalized();
  return Eigen::Quaterniond(Eigen::AngleAxisd(a, v / a));
}
constexpr int64_t kMs = 10000;  // ticks
}  // namespace

PBT_FACET(constant_motion, o.weight = 1; o.rule =
    "random ground truth with constant velocity and turn rate observed through poses, optionally inertial data (with any "
    "rotation axis) and optionally odometry in another frame, in time order with queries in between; predictions must lie "
    "on the true motion and gravity must be right; non-trivial: moving, turning, >=3 queries after the motion is observable") {
  const bool imu = s.Bits(1), odometry = s.Bits(1);
  const int64_t window = s.Pick(std::vector<int64_t>{1, 20, 100, 500}) * kMs;
  const bool changing = imu && s.Bits(1);  // turn rate changes at inertial samples
  const Eigen::Vector3d v = s.Chance(0.1) ? Eigen::Vector3d::Zero() : GenVector(s, 3.);
  auto rate = [&]() -> Eigen::Vector3d {
    const Eigen::Vector3d w = GenVector(s, 1.5);
    return imu ? w : Eigen::Vector3d(0., 0., w.z());
  };
  Eigen::Vector3d w = rate();
  Rigid3d start = imu ? GenRigid3(s, 10.) : Rigid3d(GenVector(s, 10.), Eigen::Quaterniond(Eigen::AngleAxisd(GenAngle(s), Eigen::Vector3d::UnitZ())));
  // Starting almost exactly upside down, the direction to turn is ill-conditioned.
  if ((start.rotation().conjugate() * Eigen::Vector3d::UnitZ()).z() < -0.9) start = start * Rigid3d::Rotation(Eigen::Quaterniond(0, 1, 0, 0));
  const Rigid3d odom_frame = GenRigid3(s, 10.);
  const double g = s.Real(5., 15.);
  // Truth is advanced lazily; 'w' holds from the last change on.
  int64_t t = kEpoch, truth_t = kEpoch;
  Eigen::Quaterniond truth_r = start.rotation();
  auto truth = [&](int64_t at) {
    const double dt = (at - truth_t) * 1e-7;
    return Rigid3d(start.translation() + v * ((at - kEpoch) * 1e-7), (truth_r * Exp(w * dt)).normalized());
  };
  std::unique_ptr<PoseExtrapolator> e;
  auto imu_at = [&](int64_t at) {
    const Rigid3d pose = truth(at);
    return sensor::ImuData{TimeAt(at), pose.rotation().conjugate() * Eigen::Vector3d(0., 0., g), w};
  };
  int64_t last_pose = 0;
  int poses = 0, odometries = 0, queries = 0;
  const bool init_with_imu = imu && s.Bits(1);
  Rigid3d frame;  // from truth into the frame of the extrapolator's poses
  if (init_with_imu) {
    e = PoseExtrapolator::InitializeWithImu(common::Duration(window), 10., imu_at(t));
    PBT_CHECK(e->GetLastPoseTime() == TimeAt(t));
    const Rigid3d first = e->ExtrapolatePose(TimeAt(t));
    PBT_CHECK(first.translation().norm() < 1e-9) << "starts away from the origin";
    PBT_CHECK((first.rotation() * (truth_r.conjugate() * Eigen::Vector3d::UnitZ()) - Eigen::Vector3d::UnitZ()).norm() < 1e-6) << "gravity after initialization";
    last_pose = t;
    poses = 1;
    frame = first * truth(t).inverse();
  } else {
    e = std::make_unique<PoseExtrapolator>(common::Duration(window), 10.);
    PBT_CHECK(e->GetLastPoseTime() == common::Time::min());
    if (imu) e->AddImuData(imu_at(t));
  }
  std::deque<int64_t> queue;
  if (poses) queue.push_back(t);
  bool velocity = v.isZero(), rotation_known = imu;
  int64_t asked = 0;
  // The rotation rate without inertial data becomes effective at the next pose.
  bool rate_in_tracker = imu;
  const int ops = s.Len(3, 40);
  const Eigen::Quaterniond frame_r = frame.rotation();
  // The frame may tilt the motion; velocity is in the rotated frame.
  auto in_frame = [&](int64_t at) { return frame * truth(at); };
  (void)frame_r;
  int64_t last_odometry = 0;
  for (int op = 0; op != ops; ++op) {
    t += s.Int(1, 120) * kMs / 2;
    switch (s.Weighted({3, imu ? 4. : 0., odometry ? 3. : 0., 4})) {
      case 0: {
        e->AddPose(TimeAt(t), in_frame(t));
        ++poses;
        last_pose = t;
        asked = t;
        queue.push_back(t);
        while (queue.size() > 2 && queue[1] <= t - window) queue.pop_front();
        if (!imu && velocity && !v.isZero()) rate_in_tracker = true;
        if (!imu && rotation_known) rate_in_tracker = true;
        if (queue.size() >= 2 && t - queue.front() >= window) {
          velocity = true;
          rotation_known = true;
        }
        PBT_CHECK(e->GetLastPoseTime() == TimeAt(t));
        const Rigid3d back = e->ExtrapolatePose(TimeAt(t));
        PBT_CHECK(Near(back, in_frame(t), 1e-7, 1e-7)) << "the pose just added is not returned";
        break;
      }
      case 1: {
        const sensor::ImuData before = imu_at(t);
        if (changing) {
          truth_r = truth(t).rotation();
          truth_t = t;
          w = rate();
        }
        sensor::ImuData d = before;
        d.angular_velocity = w;
        e->AddImuData(d);
        break;
      }
      case 2: {
        e->AddOdometryData(sensor::OdometryData{TimeAt(t), odom_frame * truth(t)});
        ++odometries;
        last_odometry = t;
        break;
      }
      default: {
        if (poses == 0) break;
        if (t <= asked) break;
        asked = t;
        // What is observable? Inertial data gives rotation; poses over the window
        // or two odometry readings since the start give the velocity.
        const Rigid3d got = e->ExtrapolatePose(TimeAt(t));
        PBT_CHECK(e->GetLastExtrapolatedTime() == TimeAt(t));
        const Rigid3d want = in_frame(t);
        if (imu) PBT_CHECK(RotationDistance(got.rotation(), want.rotation()) < 2e-5) << "rotation from inertial data off by " << RotationDistance(got.rotation(), want.rotation());
        // With odometry the velocity is rotated by the tracked orientation.
        bool v_ok = odometries >= 2 ? (imu && odometries >= 2 && last_odometry >= last_pose && last_odometry > 0) : velocity;
        if (odometries == 1) v_ok = velocity;
        if (changing && odometries >= 2) v_ok = false;
        if (v_ok) {
          PBT_CHECK((got.translation() - want.translation()).norm() < 1e-4) << "position off by " << (got.translation() - want.translation()).norm();
          ++queries;
        }
        if (imu) {
          const Eigen::Quaterniond gravity = e->EstimateGravityOrientation(TimeAt(t));
          PBT_CHECK((gravity * (truth(t).rotation().conjugate() * Eigen::Vector3d::UnitZ()) - Eigen::Vector3d::UnitZ()).norm() < 1e-4) << "gravity";
        }
      }
    }
  }
  if (queries >= 3 && !v.isZero() && w.norm() > 0.01) s.NonTrivial();
  s.LabelIf(imu, "imu");
  s.LabelIf(odometry, "odometry");
  if (s.Sampling()) s.Describe(std::to_string(poses) + " poses, " + std::to_string(odometries) + " odometry, " + std::to_string(queries) + " checked predictions" + (imu ? ", inertial" : ""));
}

PBT_FACET(planar, o.weight = 1; o.rule =
    "random planar motion with constant velocity and turn rate, no inertial data: once the turn rate is observable from "
    "poses or odometry, both rotation and position are predicted; non-trivial: turning, >=2 checked predictions") {
  const bool odometry = s.Bits(1);
  const int64_t window = s.Int(1, 100) * kMs;
  const Eigen::Vector3d v = GenVector(s, 3.);
  const double w = s.Real(-1.5, 1.5);
  const Rigid3d start(GenVector(s, 5.), Eigen::Quaterniond(Eigen::AngleAxisd(GenAngle(s), Eigen::Vector3d::UnitZ())));
  const Rigid3d odom_frame = GenRigid3(s, 5.);
  auto truth = [&](int64_t at) {
    const double dt = (at - kEpoch) * 1e-7;
    return Rigid3d(start.translation() + v * dt, start.rotation() * Exp(Eigen::Vector3d(0, 0, w * dt)));
  };
  PoseExtrapolator e{common::Duration(window), 10.};
  int64_t t = kEpoch;
  // Warm up: poses far enough apart, twice, so velocity and tracker agree.
  int checked = 0;
  const int rounds = s.Len(3, 12);
  for (int k = 0; k != rounds; ++k) {
    e.AddPose(TimeAt(t), truth(t));
    const int64_t step = std::max<int64_t>(window, s.Int(1, 100) * kMs);
    const int n = s.Len(0, 3);
    int64_t asked = t;
    for (int i = 1; i <= n; ++i) {
      const int64_t at = t + step * i / (n + 1);
      if (odometry) e.AddOdometryData(sensor::OdometryData{TimeAt(at), odom_frame * truth(at)});
      if (k < 3 || at <= asked) continue;
      asked = at;
      const Rigid3d got = e.ExtrapolatePose(TimeAt(at));
      PBT_CHECK(Near(got, truth(at), 1e-4, 1e-4)) << "off by " << (got.translation() - truth(at).translation()).norm() << " m, " << RotationDistance(got.rotation(), truth(at).rotation()) << " rad";
      ++checked;
      if (s.Chance(0.3)) {
        const Eigen::Quaterniond gravity = e.EstimateGravityOrientation(TimeAt(at));
        PBT_CHECK((gravity * Eigen::Vector3d::UnitZ() - Eigen::Vector3d::UnitZ()).norm() < 1e-5) << "gravity";
      }
    }
    t += step + s.Bits(10) * kMs;
  }
  if (checked >= 2 && std::abs(w) > 0.05) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(rounds) + " poses, " + std::to_string(checked) + " checked predictions");
}

PBT_FACET(window, o.weight = 1; o.rule =
    "random jerky poses without other sensors: the predicted position uses the mean velocity between the newest pose and "
    "the latest pose at least the configured window older, and stays put while the poses span less; non-trivial: >=4 "
    "poses, >=2 predictions with a velocity") {
  const int64_t window = s.Int(1, 60) * kMs;
  PoseExtrapolator e{common::Duration(window), 10.};
  std::vector<std::pair<int64_t, Eigen::Vector3d>> all;
  Eigen::Vector3d velocity = Eigen::Vector3d::Zero();
  int64_t t = kEpoch;
  int predictions = 0;
  bool any = false;
  const int ops = s.Len(2, 30);
  for (int op = 0; op != ops; ++op) {
    t += s.Int(1, 40) * kMs;
    if (all.empty() || s.Bits(1)) {
      const Eigen::Vector3d p = GenVector(s, 5.);
      e.AddPose(TimeAt(t), Rigid3d::Translation(p));
      all.push_back({t, p});
      // The latest pose at least 'window' older than the newest.
      for (int i = int(all.size()) - 2; i >= 0; --i) {
        if (all[i].first > t - window) continue;
        velocity = (p - all[i].second) / ((t - all[i].first) * 1e-7);
        any = true;
        break;
      }
    } else {
      const Rigid3d got = e.ExtrapolatePose(TimeAt(t));
      const Eigen::Vector3d want = all.back().second + velocity * ((t - all.back().first) * 1e-7);
      PBT_CHECK((got.translation() - want).norm() < 1e-6 * (1 + want.norm())) << got.translation().transpose() << " want " << want.transpose();
      if (any) ++predictions;
      if (s.Chance(0.3)) {
        // Several times at once, with velocity.
        const int64_t u = t + s.Int(1, 20) * kMs;
        const auto result = e.ExtrapolatePosesWithGravity({TimeAt(t), TimeAt(u)});
        PBT_CHECK_EQ(result.previous_poses.size(), 1u);
        PBT_CHECK((result.previous_poses[0].translation().cast<double>() - want).norm() < 1e-4 * (1 + want.norm()));
        const Eigen::Vector3d later = all.back().second + velocity * ((u - all.back().first) * 1e-7);
        PBT_CHECK((result.current_pose.translation() - later).norm() < 1e-6 * (1 + later.norm()));
        PBT_CHECK((result.current_velocity - velocity).norm() < 1e-6 * (1 + velocity.norm()));
        t = u;
      }
    }
  }
  if (s.Chance(0.01) && all.size() >= 2) {
    const int64_t last = all.back().first;
    PBT_CHECK_EQ(pbt::RunForked([&] { e.AddOdometryData(sensor::OdometryData{TimeAt(last - 1), Rigid3d::Identity()}); }), 1) << "odometry from before the last pose";
    PBT_CHECK_EQ(pbt::RunForked([&] { e.AddImuData(sensor::ImuData{TimeAt(last - 1), Eigen::Vector3d::UnitZ(), Eigen::Vector3d::Zero()}); }), 1) << "inertial data from before the last pose";
  }
  if (all.size() >= 4 && predictions >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(all.size()) + " poses, " + std::to_string(predictions) + " predictions");
}

PBT_FACET(repeated_queries, o.weight = 0.5; o.rule =
    "random interleavings of predictions and corrections at the same time stamps: after a pose is added, predicting for "
    "its time returns it; asking twice returns the same; non-trivial: a prediction for a time that later gets a pose") {
  PoseExtrapolator e{common::Duration(s.Int(1, 50) * kMs), 10.};
  int64_t t = kEpoch;
  Rigid3d pose = GenRigid3(s, 5.);
  e.AddPose(TimeAt(t), pose);
  bool hit = false;
  const int ops = s.Len(1, 15);
  for (int op = 0; op != ops; ++op) {
    t += s.Int(1, 30) * kMs;
    if (s.Bits(1)) {
      const Rigid3d a = e.ExtrapolatePose(TimeAt(t));
      const Rigid3d b = e.ExtrapolatePose(TimeAt(t));
      PBT_CHECK(Near(a, b, 0., 1e-12)) << "asking twice differs";
      hit = true;
    }
    pose = GenRigid3(s, 5.);
    e.AddPose(TimeAt(t), pose);
    const Rigid3d now = e.ExtrapolatePose(TimeAt(t));
    PBT_CHECK(Near(now, pose, 1e-9, 1e-7)) << "a corrected pose is ignored: off by " << (now.translation() - pose.translation()).norm() << " m";
  }
  if (hit) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(ops) + " corrections");
}

PBT_FACET(gravity, o.weight = 1; o.rule =
    "random inertial histories: orientation follows the integrated turn rate, splitting the time steps changes nothing, "
    "gravity is the exponential average of the accelerations with the configured time constant, and always points up "
    "in the tracked frame; non-trivial: >=3 samples") {
  const double tau = s.LogReal(0.1, 100.);
  mapping::ImuTracker a(tau, TimeAt(kEpoch)), b(tau, TimeAt(kEpoch));
  int64_t t = kEpoch, last_obs = 0;
  Eigen::Vector3d gravity = Eigen::Vector3d::UnitZ(), w = Eigen::Vector3d::Zero();
  const Eigen::Vector3d up = Eigen::Vector3d(s.Real(-3., 3.), s.Real(-3., 3.), s.Real(5., 12.));
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
  const int n = s.Len(1, 20);
  for (int i = 0; i != n; ++i) {
    const int64_t dt = (s.Chance(0.1) ? s.Int(0, 6000) : s.Int(0, 200)) * kMs;
    const Eigen::Quaterniond r = Exp(w * (dt * 1e-7));
    q = q * r;
    gravity = r.conjugate() * gravity;
    a.Advance(TimeAt(t + dt));
    if (s.Bits(1)) b.Advance(TimeAt(t + dt * s.Bits(10) / 10));
    b.Advance(TimeAt(t + dt));
    t += dt;
    if (s.Chance(0.8)) {
      // Roughly upwards, to stay away from the degenerate opposite.
      const Eigen::Vector3d acc = gravity.normalized() * up.norm() + GenVector(s, 2.);
      const double alpha = last_obs == 0 ? 1. : 1. - std::exp(-(t - last_obs) * 1e-7 / tau);
      last_obs = t;
      gravity = (1. - alpha) * gravity + alpha * acc;
      const Eigen::Quaterniond turn = Eigen::Quaterniond::FromTwoVectors(gravity, q.conjugate() * Eigen::Vector3d::UnitZ());
      q = q * turn;
      a.AddImuLinearAccelerationObservation(acc);
      b.AddImuLinearAccelerationObservation(acc);
    }
    if (s.Chance(0.8)) {
      w = GenVector(s, 2.);
      a.AddImuAngularVelocityObservation(w);
      b.AddImuAngularVelocityObservation(w);
    }
    PBT_CHECK(a.time() == TimeAt(t));
    PBT_CHECK(RotationDistance(a.orientation(), b.orientation()) < 1e-6) << "depends on how time was split";
    PBT_CHECK(RotationDistance(a.orientation(), q) < 1e-5) << "orientation off by " << RotationDistance(a.orientation(), q);
    if (last_obs) PBT_CHECK((a.orientation() * gravity.normalized() - Eigen::Vector3d::UnitZ()).norm() < 1e-5 || last_obs != t) << "gravity does not point up";
  }
  if (n >= 3) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " steps, time constant " + std::to_string(tau));
}

PBT_FACET(odometry_window, o.weight = 0.6; o.rule =
    "random jerky odometry between jerky poses, no turning: the predicted position uses the mean velocity between the "
    "newest odometry reading and the latest one not after the pose added before it (at least the two newest), whatever the "
    "poses say; non-trivial: >=4 readings, >=2 poses, >=2 predictions with a velocity from odometry") {
  PoseExtrapolator e{common::Duration(s.Int(1, 60) * kMs), 10.};
  struct Reading { int64_t t; Eigen::Vector3d p; };
  std::vector<Reading> readings;
  int64_t t = kEpoch, pose_t = kEpoch, asked = 0;
  Eigen::Vector3d pose = GenVector(s, 5.), velocity = Eigen::Vector3d::Zero();
  e.AddPose(TimeAt(t), Rigid3d::Translation(pose));
  int poses = 1, predictions = 0;
  const int ops = s.Chance(0.05) ? s.Len(40, 200) : s.Len(2, 40);
  for (int op = 0; op != ops; ++op) {
    const int64_t step = s.Chance(0.2) ? 0 : s.Int(1, 40) * kMs;
    t += step;
    switch (s.Weighted({1, 3, 2})) {
      case 0:
        if (t <= pose_t) break;
        pose = GenVector(s, 5.);
        pose_t = t;
        e.AddPose(TimeAt(t), Rigid3d::Translation(pose));
        ++poses;
        break;
      case 1: {
        if (!readings.empty() && t <= readings.back().t) break;
        readings.push_back({t, GenVector(s, 5.)});
        e.AddOdometryData(sensor::OdometryData{TimeAt(t), Rigid3d::Translation(readings.back().p)});
        if (readings.size() < 2) break;
        size_t oldest = 0;
        for (size_t i = 0; i + 1 != readings.size(); ++i)
          if (readings[i].t <= pose_t) oldest = i;
        velocity = (readings.back().p - readings[oldest].p) / ((t - readings[oldest].t) * 1e-7);
        break;
      }
      default: {
        if (readings.size() < 2) break;
        if (t <= asked) break;
        asked = t;
        const Rigid3d got = e.ExtrapolatePose(TimeAt(t));
        const Eigen::Vector3d want = pose + velocity * ((t - pose_t) * 1e-7);
        PBT_CHECK((got.translation() - want).norm() < 1e-6 * (1 + want.norm())) << got.translation().transpose() << " want " << want.transpose();
        ++predictions;
      }
    }
  }
  if (readings.size() >= 4 && poses >= 2 && predictions >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(readings.size()) + " odometry readings, " + std::to_string(poses) + " poses, " + std::to_string(predictions) + " predictions");
}
