// O01: the error terms of the global optimization and the integration of inertial data.
#include <deque>
#include <functional>

#include "geo.h"

#include "ceres/ceres.h"
#include "cartographer/mapping/internal/3d/imu_integration.h"
#include "cartographer/mapping/internal/3d/rotation_parameterization.h"
#include "cartographer/mapping/internal/optimization/cost_functions/acceleration_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/rotation_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_2d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_3d.h"

namespace {
using namespace cartographer;
using namespace geo;
namespace opt = mapping::optimization;
using transform::Rigid2d;
using transform::Rigid3d;
using Q = Eigen::Quaterniond;
using V = Eigen::Vector3d;

using Blocks = std::vector<std::vector<double>>;
std::vector<double> Block(const Q& q) { return {q.w(), q.x(), q.y(), q.z()}; }
std::vector<double> Block(const V& v) { return {v.x(), v.y(), v.z()}; }
Q Rot(const std::vector<double>& b) { return Q(b[0], b[1], b[2], b[3]); }
V Vec(const std::vector<double>& b) { return V(b[0], b[1], b[2]); }

using Reference = std::function<std::vector<double>(const Blocks&)>;
// Residuals and their derivatives; four-element blocks are unit quaternions and only varied as rotations.
void Compare(const ceres::CostFunction& f, const Blocks& at, const Reference& reference, double step, double tol, double dtol) {
  const std::vector<double> want = reference(at);
  const int n = want.size();
  PBT_CHECK_EQ(f.num_residuals(), n) << "residuals";
  PBT_CHECK_EQ(f.parameter_block_sizes().size(), at.size()) << "parameter blocks";
  std::vector<double> got(n + 1, 1e9);
  std::vector<const double*> parameters;
  Blocks jacobian(at.size());
  std::vector<double*> jacobians;
  for (size_t b = 0; b < at.size(); ++b) {
    PBT_CHECK_EQ(f.parameter_block_sizes()[b], int(at[b].size())) << "size of parameter block " << b;
    parameters.push_back(at[b].data());
    jacobian[b].assign(n * at[b].size() + 1, 1e9);
    jacobians.push_back(jacobian[b].data());
  }
  PBT_CHECK(f.Evaluate(parameters.data(), got.data(), nullptr)) << "evaluation failed";
  for (int i = 0; i < n; ++i) PBT_CHECK(std::abs(got[i] - want[i]) <= tol) << "residual " << i << " is " << got[i] << " instead of " << want[i];
  PBT_CHECK(f.Evaluate(parameters.data(), got.data(), jacobians.data())) << "evaluation failed";
  for (int i = 0; i < n; ++i) PBT_CHECK(std::abs(got[i] - want[i]) <= tol) << "residual " << i << " with derivatives is " << got[i] << " instead of " << want[i];
  for (size_t b = 0; b < at.size(); ++b) {
    const int size = at[b].size();
    const int directions = size == 4 ? 3 : size;
    for (int k = 0; k < directions; ++k) {
      Blocks p = at, m = at;
      std::vector<double> tangent(size, 0.);
      if (size == 4) {
        const V axis = V::Unit(k);
        const Q q = Rot(at[b]);
        p[b] = Block(q * Q(Eigen::AngleAxisd(step, axis)));
        m[b] = Block(q * Q(Eigen::AngleAxisd(-step, axis)));
        tangent = Block(q * Q(0, axis.x() / 2, axis.y() / 2, axis.z() / 2));
      } else {
        p[b][k] += step;
        m[b][k] -= step;
        tangent[k] = 1.;
      }
      const auto plus = reference(p), minus = reference(m);
      for (int i = 0; i < n; ++i) {
        const double want_d = (plus[i] - minus[i]) / (2 * step);
        double got_d = 0;
        for (int j = 0; j < size; ++j) got_d += jacobian[b][i * size + j] * tangent[j];
        PBT_CHECK(std::abs(got_d - want_d) <= dtol * (1 + std::abs(want_d)))
            << "derivative of residual " << i << " in direction " << k << " of parameter " << b << " is " << got_d << " instead of " << want_d;
      }
    }
  }
  // Derivatives for one block alone.
  for (size_t only = 0; only < at.size(); ++only) {
    Blocks again(at.size());
    std::vector<double*> some(at.size(), nullptr);
    again[only].assign(n * at[only].size() + 1, 1e9);
    some[only] = again[only].data();
    std::vector<double> r(n + 1, 1e9);
    PBT_CHECK(f.Evaluate(parameters.data(), r.data(), some.data())) << "evaluation failed";
    for (size_t i = 0; i < n * at[only].size(); ++i)
      PBT_CHECK(std::abs(again[only][i] - jacobian[only][i]) <= 1e-9 * (1 + std::abs(jacobian[only][i]))) << "derivatives for parameter " << only << " differ when asked for alone";
  }
}

double Weight(pbt::Source& s) { return s.Pick(std::vector<double>{1., 0., 0.3, 5., 1e2, 1e4}); }
double Wrap(double a) { return std::remainder(a, 2 * M_PI); }
V AngleAxis(Q q) {
  if (q.w() < 0) q.coeffs() = -q.coeffs();
  const double n = q.vec().norm();
  if (n < 1e-12) return 2. * q.vec();
  return q.vec() / n * (2. * std::atan2(n, q.w()));
}

PBT_FACET(relative_pose_2d, o.rule =
    "random measured relative poses (with height, roll and pitch), weights and pose pairs, yaws over several turns: both implementations give "
    "the weighted difference of measurement and relative pose, the angle wrapped, and its derivatives; non-trivial: both weights positive and the poses disagree") {
  mapping::PoseGraphInterface::Constraint::Pose pose;
  const bool flat = s.Chance(0.5);
  const Rigid2d z2 = GenRigid2(s, 20.);
  pose.zbar_ij = transform::Embed3D(z2);
  if (!flat) {  // Only position and heading matter.
    pose.zbar_ij = Rigid3d(pose.zbar_ij.translation() + V(0, 0, s.Real(-5, 5)), pose.zbar_ij.rotation() * GenRotation(s, 0.5));
  }
  const Rigid2d z = transform::Project2D(pose.zbar_ij);
  pose.translation_weight = Weight(s);
  pose.rotation_weight = Weight(s);
  const double turns = 2 * M_PI * s.Int(-3, 3);
  const std::vector<double> start = {s.Real(-50, 50), s.Real(-50, 50), GenAngle(s) + turns};
  std::vector<double> end = {s.Real(-50, 50), s.Real(-50, 50), GenAngle(s)};
  const bool agree = s.Chance(0.2);
  if (agree) {
    const Rigid2d e = Rigid2d({start[0], start[1]}, start[2]) * z;
    end = {e.translation().x(), e.translation().y(), start[2] + z.rotation().angle() + 2 * M_PI * s.Int(-2, 2)};
  }
  const double raw = z.rotation().angle() - (end[2] - start[2]);
  if (std::abs(Wrap(raw)) > M_PI - 1e-3) throw pbt::Discard();
  const Reference reference = [&](const Blocks& p) -> std::vector<double> {
    const Eigen::Vector2d h = Eigen::Rotation2Dd(-p[0][2]) * Eigen::Vector2d(p[1][0] - p[0][0], p[1][1] - p[0][1]);
    return {pose.translation_weight * (z.translation().x() - h.x()), pose.translation_weight * (z.translation().y() - h.y()),
            pose.rotation_weight * Wrap(z.rotation().angle() - (p[1][2] - p[0][2]))};
  };
  const double w = 1 + std::max(pose.translation_weight, pose.rotation_weight);
  s.NonTrivial(pose.translation_weight > 0 && pose.rotation_weight > 0 && !agree);
  s.LabelIf(agree, "measurement satisfied");
  for (const bool analytical : {false, true}) {
    std::unique_ptr<ceres::CostFunction> f(analytical ? opt::CreateAnalyticalSpaCostFunction(pose) : opt::CreateAutoDiffSpaCostFunction(pose));
    Compare(*f, {start, end}, reference, 1e-6, 1e-9 * w, 1e-5 * w);
    if (agree) {
      double r[3];
      const double* at[] = {start.data(), end.data()};
      f->Evaluate(at, r, nullptr);
      for (double v : r) PBT_CHECK(std::abs(v) <= 1e-9 * w) << "error " << v << " although the poses satisfy the measurement";
    }
  }
}

// The error of a relative pose measurement between two poses in space.
std::vector<double> SpatialError(const Rigid3d& z, const Q& start_r, const V& start_t, const Q& end_r, const V& end_t, double wt, double wr) {
  const V t = z.translation() - start_r.conjugate() * (end_t - start_t);
  const V r = AngleAxis(end_r.conjugate() * start_r * z.rotation());
  return {wt * t.x(), wt * t.y(), wt * t.z(), wr * r.x(), wr * r.y(), wr * r.z()};
}
double ErrorAngle(const Rigid3d& z, const Q& start_r, const Q& end_r) { return AngleAxis(end_r.conjugate() * start_r * z.rotation()).norm(); }
// The derivatives are checked where the error rotation is large enough not to be approximated.
bool Smooth(double angle) { return angle < M_PI - 0.05; }

PBT_FACET(relative_pose_3d, o.rule =
    "random measured relative poses, weights and pose pairs with either quaternion sign: weighted position difference in the start frame and rotation vector of "
    "the remaining rotation, zero when satisfied, with derivatives; non-trivial: both weights positive and the poses disagree") {
  mapping::PoseGraphInterface::Constraint::Pose pose;
  pose.zbar_ij = GenRigid3(s, 20.);
  pose.translation_weight = Weight(s);
  pose.rotation_weight = Weight(s);
  const Rigid3d start = GenRigid3(s);
  Rigid3d end = GenRigid3(s);
  const bool agree = s.Chance(0.25);
  if (agree) {
    end = start * pose.zbar_ij;
    if (s.Bits(1)) end = Rigid3d(end.translation(), Q(Eigen::Vector4d(-end.rotation().coeffs())));
    s.Label("measurement satisfied");
  }
  if (!Smooth(ErrorAngle(pose.zbar_ij, start.rotation(), end.rotation()))) throw pbt::Discard();
  const double w = 1 + std::max(pose.translation_weight, pose.rotation_weight);
  s.NonTrivial(pose.translation_weight > 0 && pose.rotation_weight > 0 && !agree);
  std::unique_ptr<ceres::CostFunction> f(opt::SpaCostFunction3D::CreateAutoDiffCostFunction(pose));
  Compare(*f, {Block(start.rotation()), Block(start.translation()), Block(end.rotation()), Block(end.translation())},
          [&](const Blocks& p) { return SpatialError(pose.zbar_ij, Rot(p[0]), Vec(p[1]), Rot(p[2]), Vec(p[3]), pose.translation_weight, pose.rotation_weight); },
          1e-5, 1e-7 * w, 1e-4 * w);
}

Q Slerp(const Q& a, Q b, double t) {
  if (a.dot(b) < 0) b.coeffs() = -b.coeffs();
  const V axis = AngleAxis(a.conjugate() * b);
  const double n = axis.norm();
  return n < 1e-14 ? a : Q(a * Q(Eigen::AngleAxisd(t * n, axis / n)));
}
struct Landmark {
  mapping::PoseGraphInterface::LandmarkNode::LandmarkObservation observation;
  common::Time prev, next;
  double fraction;
};
Landmark GenLandmark(pbt::Source& s) {
  Landmark l;
  l.observation.trajectory_id = s.Int(0, 3);
  l.observation.landmark_to_tracking_transform = GenRigid3(s, 10.);
  l.observation.translation_weight = Weight(s);
  l.observation.rotation_weight = Weight(s);
  const int64_t span = s.Int(1, 1 << 24);
  const int64_t part = s.Weighted({3, 1, 1}) == 0 ? int64_t(s.Real(0., 1.) * span) : (s.Bits(1) ? span : 0);
  l.prev = TimeAt(kEpoch + s.Int(0, 1 << 20));
  l.next = l.prev + common::Duration(span);
  l.observation.time = l.prev + common::Duration(part);
  l.fraction = double(part) / span;
  return l;
}
// Two node rotations: apart, or close, or equal but for the sign.
void GenNext(pbt::Source& s, const Q& a, Q* b) {
  switch (s.Weighted({4, 2, 1})) {
    case 0: break;
    case 1: *b = a * Q(Eigen::AngleAxisd(s.LogReal(1e-6, 0.3), GenAxis(s))); break;
    default: *b = a;
  }
  if (s.Bits(1)) b->coeffs() = -b->coeffs();
}

PBT_FACET(landmark_3d, o.rule =
    "random landmark observations between two nodes at any time fraction, node rotations apart, close or antipodal quaternions: the error is that of the "
    "measured relative pose from the interpolated node pose; non-trivial: strictly between the nodes and both weights positive") {
  const Landmark l = GenLandmark(s);
  const auto& o = l.observation;
  const Rigid3d prev = GenRigid3(s), landmark = GenRigid3(s);
  const Rigid3d far = GenRigid3(s);
  Q next_r = far.rotation();
  GenNext(s, prev.rotation(), &next_r);
  const Rigid3d next(far.translation(), next_r);
  const double cosine = std::abs(prev.rotation().dot(next.rotation()));
  if (cosine < 0.02 || std::abs(cosine - (1. - 1e-5)) < 1e-7) throw pbt::Discard();
  if (!Smooth(ErrorAngle(o.landmark_to_tracking_transform, Slerp(prev.rotation(), next.rotation(), l.fraction), landmark.rotation()))) throw pbt::Discard();
  opt::NodeSpec3D a, b;
  a.time = l.prev;
  b.time = l.next;
  a.global_pose = prev;
  b.global_pose = next;
  std::unique_ptr<ceres::CostFunction> f(opt::LandmarkCostFunction3D::CreateAutoDiffCostFunction(o, a, b));
  s.NonTrivial(l.fraction > 0 && l.fraction < 1 && o.translation_weight > 0 && o.rotation_weight > 0);
  const bool close = cosine > 1. - 1e-5;
  s.LabelIf(close, "nodes with almost equal rotations");
  s.LabelIf(prev.rotation().dot(next.rotation()) < 0, "opposite quaternions");
  const double w = 1 + std::max(o.translation_weight, o.rotation_weight);
  Compare(*f, {Block(prev.rotation()), Block(prev.translation()), Block(next.rotation()), Block(next.translation()), Block(landmark.rotation()), Block(landmark.translation())},
          [&](const Blocks& p) {
            return SpatialError(o.landmark_to_tracking_transform, Slerp(Rot(p[0]), Rot(p[2]), l.fraction), Vec(p[1]) + l.fraction * (Vec(p[3]) - Vec(p[1])),
                                Rot(p[4]), Vec(p[5]), o.translation_weight, o.rotation_weight);
          },
          1e-5, (close ? 3e-3 : 1e-7) * w, (close ? 0.5 : 1e-3) * w);
}

PBT_FACET(landmark_2d, o.rule =
    "random landmark observations between two planar nodes with gravity alignments: node poses embedded in space as heading times gravity alignment at height zero, "
    "interpolated at the time fraction; non-trivial: strictly between the nodes, tilted, both weights positive") {
  const Landmark l = GenLandmark(s);
  const auto& o = l.observation;
  const double tilt = s.Pick(std::vector<double>{0., 0.3, 1.});
  const Q ga = GenRotation(s, tilt), gb = GenRotation(s, tilt);
  const std::vector<double> prev = {s.Real(-50, 50), s.Real(-50, 50), GenAngle(s)};
  const std::vector<double> next = {s.Real(-50, 50), s.Real(-50, 50), s.Chance(0.5) ? prev[2] + s.Real(-0.5, 0.5) : GenAngle(s)};
  const Rigid3d landmark = GenRigid3(s);
  const auto rotation = [&](double yaw, const Q& g) { return Q(Eigen::AngleAxisd(yaw, V::UnitZ()) * g); };
  const Q ra = rotation(prev[2], ga), rb = rotation(next[2], gb);
  const double cosine = std::abs(ra.dot(rb));
  if (cosine < 0.02 || std::abs(cosine - (1. - 1e-5)) < 1e-7) throw pbt::Discard();
  if (!Smooth(ErrorAngle(o.landmark_to_tracking_transform, Slerp(ra, rb, l.fraction), landmark.rotation()))) throw pbt::Discard();
  opt::NodeSpec2D a, b;
  a.time = l.prev;
  b.time = l.next;
  a.gravity_alignment = ga;
  b.gravity_alignment = gb;
  std::unique_ptr<ceres::CostFunction> f(opt::LandmarkCostFunction2D::CreateAutoDiffCostFunction(o, a, b));
  s.NonTrivial(l.fraction > 0 && l.fraction < 1 && tilt > 0 && o.translation_weight > 0 && o.rotation_weight > 0);
  const bool close = cosine > 1. - 1e-5;
  const double w = 1 + std::max(o.translation_weight, o.rotation_weight);
  Compare(*f, {prev, next, Block(landmark.rotation()), Block(landmark.translation())},
          [&](const Blocks& p) {
            return SpatialError(o.landmark_to_tracking_transform, Slerp(rotation(p[0][2], ga), rotation(p[1][2], gb), l.fraction),
                                V(p[0][0] + l.fraction * (p[1][0] - p[0][0]), p[0][1] + l.fraction * (p[1][1] - p[0][1]), 0.),
                                Rot(p[2]), Vec(p[3]), o.translation_weight, o.rotation_weight);
          },
          1e-5, (close ? 3e-3 : 1e-7) * w, (close ? 0.5 : 1e-3) * w);
}

PBT_FACET(inertial_terms, o.rule =
    "random orientations, positions, calibrations, gravity and integrated inertial data: rotation term is the vector part of the discrepancy in the end frame, acceleration term the "
    "change of velocity minus gravity against the positions; non-trivial: positive weight, calibration not the identity") {
  const double w = Weight(s);
  const Q start = GenRotation(s), end = GenRotation(s), calibration = s.Chance(0.2) ? Q::Identity() : GenRotation(s), delta = GenRotation(s);
  s.NonTrivial(w > 0 && RotationDistance(calibration, Q::Identity()) > 1e-3);
  if (s.Bits(1)) {
    std::unique_ptr<ceres::CostFunction> f(mapping::RotationCostFunction3D::CreateAutoDiffCostFunction(w, delta));
    Compare(*f, {Block(start), Block(end), Block(calibration)},
            [&](const Blocks& p) {
              const Q in_tracking = Rot(p[2]) * delta * Rot(p[2]).conjugate();
              const Q predicted = Rot(p[0]) * in_tracking;
              const V v = (Rot(p[1]).conjugate() * predicted).vec();
              return std::vector<double>{w * v.x(), w * v.y(), w * v.z()};
            },
            1e-5, 1e-9 * (1 + w), 1e-5 * (1 + w));
    s.Label("rotation");
  } else {
    const V p0 = GenVector(s, 20.), p1 = GenVector(s, 20.), p2 = GenVector(s, 20.), dv = GenVector(s, 10.);
    const double g = s.Pick(std::vector<double>{9.8, 0., s.Real(-20., 20.)}), dt1 = s.LogReal(0.01, 10.), dt2 = s.Chance(0.3) ? dt1 : s.LogReal(0.01, 10.);
    std::unique_ptr<ceres::CostFunction> f(mapping::AccelerationCostFunction3D::CreateAutoDiffCostFunction(w, dv, dt1, dt2));
    Compare(*f, {Block(start), Block(p0), Block(p1), Block(p2), {g}, Block(calibration)},
            [&](const Blocks& p) {
              const V sensed = Rot(p[0]) * (Rot(p[5]) * dv) - V(0, 0, p[4][0] * (dt1 + dt2) / 2);
              const V moved = (Vec(p[3]) - Vec(p[2])) / dt2 - (Vec(p[2]) - Vec(p[1])) / dt1;
              const V r = w * (sensed - moved);
              return std::vector<double>{r.x(), r.y(), r.z()};
            },
            1e-4, 1e-8 * (1 + w) * 100, 1e-4 * (1 + w));
    s.Label("acceleration");
  }
}

PBT_FACET(rotation_updates, o.rule =
    "random rotations and steps, also beyond the limit: a yaw-only step turns about the vertical axis and keeps the direction of gravity, a constant-yaw step turns about an axis in the "
    "horizontal plane of the body; both stay unit; non-trivial: step not zero") {
  const Q x = GenRotation(s);
  const auto step = [&] { return s.Weighted({3, 1, 1}) == 0 ? s.Real(-0.49, 0.49) : (s.Bits(1) ? s.LogReal(1e-9, 1e-3) : s.Real(-3., 3.)); };
  double out[4];
  const auto in = Block(x);
  const double a = step(), b = step();
  s.NonTrivial(a != 0 || b != 0);
  PBT_CHECK((mapping::YawOnlyQuaternionPlus()(in.data(), &a, out))) << "failed";
  Q got(out[0], out[1], out[2], out[3]);
  PBT_CHECK(std::abs(got.norm() - 1) < 1e-9) << "not a rotation after a yaw step";
  PBT_CHECK(((got.conjugate() * V::UnitZ()) - (x.conjugate() * V::UnitZ())).norm() < 1e-9) << "gravity direction changed by a yaw step";
  const double bounded = std::max(-0.5, std::min(0.5, a));
  PBT_CHECK(RotationDistance(got, Eigen::AngleAxisd(2 * std::asin(bounded), V::UnitZ()) * x) < 1e-7) << "yaw step " << a;
  const double d[] = {a, b};
  PBT_CHECK((mapping::ConstantYawQuaternionPlus()(in.data(), d, out))) << "failed";
  got = Q(out[0], out[1], out[2], out[3]);
  PBT_CHECK(std::abs(got.norm() - 1) < 1e-9) << "not a rotation after a tilt step";
  const V axis(a, b, 0);
  const double n = axis.norm();
  const Q want = n == 0 ? x : Q(x * Q(Eigen::AngleAxisd(2 * n, axis / n)));
  PBT_CHECK(RotationDistance(got, want) < 1e-7) << "tilt step " << a << " " << b;
}

PBT_FACET(inertial_integration, o.weight = 1.5; o.rule =
    "random inertial histories with increasing times, calibrations and consecutive query intervals: each sample holds until the next one, rotation, velocity and translation "
    "accumulate step by step, the position in the data ends at the last sample not after the interval; non-trivial: interval spans at least two samples") {
  std::deque<sensor::ImuData> data;
  int64_t t = 0;
  for (int n = s.Len(1, 12); n > 0; --n) {
    sensor::ImuData d;
    d.time = TimeAt(kEpoch + t);
    d.linear_acceleration = GenVector(s, 10.);
    d.angular_velocity = GenVector(s, s.Pick(std::vector<double>{0., 1., 10.}));
    data.push_back(d);
    t += s.Chance(0.1) ? 1 : s.Chance(0.1) ? s.Int(1, 60000000) : s.Int(1, 3000000);
  }
  Eigen::Affine3d ca = Eigen::Affine3d::Identity(), cw = Eigen::Affine3d::Identity();
  const bool calibrated = s.Bits(1);
  if (calibrated) {
    ca = Eigen::Translation3d(GenVector(s, 0.5)) * GenRotation(s) * Eigen::Scaling(1. + s.Real(-0.2, 0.2));
    cw = Eigen::Translation3d(GenVector(s, 0.5)) * GenRotation(s);
  }
  std::vector<int64_t> times;
  for (int n = s.Len(2, 5); n > 0; --n)
    times.push_back(s.Bits(1) ? common::ToUniversal(data[s.Int(0, int(data.size()) - 1)].time) - kEpoch : s.Int(0, int(t) + 1000000));
  std::sort(times.begin(), times.end());
  const auto last_not_after = [&](int64_t at) {
    auto it = data.begin();
    while (std::next(it) != data.end() && std::next(it)->time <= TimeAt(kEpoch + at)) ++it;
    return it;
  };
  using It = std::deque<sensor::ImuData>::const_iterator;
  It it = last_not_after(times[0]);
  const Rigid3d pose0 = GenRigid3(s);
  const V velocity0 = GenVector(s, 5.), gravity(0, 0, s.Pick(std::vector<double>{9.8, 0., 1.}));
  for (size_t k = 0; k + 1 < times.size(); ++k) {
    const int64_t from = times[k], to = times[k + 1];
    // Reference.
    Q rotation = Q::Identity(), rotation_raw = Q::Identity();
    V velocity = V::Zero(), translation = V::Zero(), velocity_raw = V::Zero(), translation_raw = V::Zero();
    int pieces = 0;
    for (size_t i = 0; i < data.size(); ++i) {
      const int64_t begin = std::max(from, i == 0 ? from : common::ToUniversal(data[i].time) - kEpoch);
      const int64_t end = std::min(to, i + 1 == data.size() ? to : common::ToUniversal(data[i + 1].time) - kEpoch);
      if (end <= begin) continue;
      ++pieces;
      const double dt = (end - begin) * 1e-7;
      const auto turn = [&](const V& w) { return w.norm() * dt < 1e-14 ? Q::Identity() : Q(Eigen::AngleAxisd(w.norm() * dt, w.normalized())); };
      rotation = rotation * turn(cw * data[i].angular_velocity);
      velocity += rotation * (ca * data[i].linear_acceleration) * dt;
      translation += velocity * dt;
      rotation_raw = rotation_raw * turn(data[i].angular_velocity);
      velocity_raw += rotation_raw * data[i].linear_acceleration * dt;
      translation_raw += velocity_raw * dt;
    }
    if (pieces >= 2) s.NonTrivial();
    It a = it, b = it, c = it, d = it;
    const auto got = mapping::IntegrateImu<double>(data, ca, cw, TimeAt(kEpoch + from), TimeAt(kEpoch + to), &a);
    PBT_CHECK(RotationDistance(got.delta_rotation, rotation) < 1e-5) << "rotation over [" << from << ", " << to << "]";
    PBT_CHECK((got.delta_velocity - velocity).norm() < 1e-4) << "velocity " << got.delta_velocity.transpose() << " instead of " << velocity.transpose();
    PBT_CHECK((got.delta_translation - translation).norm() < 1e-4) << "translation " << got.delta_translation.transpose() << " instead of " << translation.transpose();
    const auto raw = mapping::IntegrateImu(data, TimeAt(kEpoch + from), TimeAt(kEpoch + to), &b);
    PBT_CHECK(RotationDistance(raw.delta_rotation, rotation_raw) < 1e-5) << "uncalibrated rotation";
    PBT_CHECK((raw.delta_velocity - velocity_raw).norm() < 1e-4) << "uncalibrated velocity";
    PBT_CHECK((raw.delta_translation - translation_raw).norm() < 1e-4) << "uncalibrated translation";
    const double dt = (to - from) * 1e-7;
    const auto moved = mapping::ExtrapolatePoseWithImu<double>(pose0, velocity0, TimeAt(kEpoch + from), gravity, TimeAt(kEpoch + to), data, &c);
    const V want_t = pose0.translation() + pose0.rotation() * (dt * velocity0 + translation_raw) - 0.5 * dt * dt * gravity;
    PBT_CHECK((moved.pose.translation() - want_t).norm() < 1e-4) << "extrapolated position";
    PBT_CHECK(RotationDistance(moved.pose.rotation(), pose0.rotation() * rotation_raw) < 1e-5) << "extrapolated orientation";
    PBT_CHECK((moved.velocity - (pose0.rotation() * (velocity0 + velocity_raw) - dt * gravity)).norm() < 1e-4) << "extrapolated velocity";
    // From two poses.
    const double before = s.Pick(std::vector<double>{0.1, 1., 0.5});
    const Rigid3d earlier(pose0.translation() - before * (pose0.rotation() * velocity0), GenRotation(s));
    const auto two = mapping::ExtrapolatePoseWithImu<double>(pose0, TimeAt(kEpoch + from), earlier, TimeAt(kEpoch + from) - common::FromSeconds(before), gravity,
                                                             TimeAt(kEpoch + to), data, &d);
    PBT_CHECK((two.pose.translation() - want_t).norm() < 1e-4) << "position extrapolated from two poses";
    PBT_CHECK((two.velocity - moved.velocity).norm() < 1e-4) << "velocity extrapolated from two poses";
    const It expected = from == to ? it : It(last_not_after(to));
    for (const It& i : {a, b, c, d}) PBT_CHECK(i == expected) << "position in the data is " << (i - data.begin()) << " instead of " << (expected - data.begin());
    it = a;
  }
}
}  // namespace
