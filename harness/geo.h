// Shared generators: rotations, transforms, times.
#pragma once
#include <cmath>

#include "Eigen/Core"
#include "Eigen/Geometry"
#include "cartographer/common/time.h"
#include "cartographer/transform/rigid_transform.h"
#include "pbt.h"

namespace geo {
namespace common = cartographer::common;
namespace transform = cartographer::transform;

inline Eigen::Vector3d GenVector(pbt::Source& s, double r) {
  return Eigen::Vector3d(s.Real(-r, r), s.Real(-r, r), s.Real(-r, r));
}
inline Eigen::Vector3d GenAxis(pbt::Source& s) {
  if (s.Chance(0.3)) {
    const Eigen::Vector3d axes[] = {Eigen::Vector3d::UnitX(), Eigen::Vector3d::UnitY(), Eigen::Vector3d::UnitZ()};
    return axes[s.Bits(2)] * (s.Bits(1) ? -1. : 1.);
  }
  const Eigen::Vector3d v = GenVector(s, 1.);
  return v.norm() < 1e-3 ? Eigen::Vector3d::UnitZ() : Eigen::Vector3d(v.normalized());
}
inline double GenAngle(pbt::Source& s, double max = M_PI) {
  switch (s.Weighted({5, 1, 1, 1})) {
    case 0: return s.Real(-max, max);
    case 1: return (s.Bits(1) ? 1. : -1.) * s.LogReal(1e-9, 1e-2);
    case 2: return max * (s.Int(-4, 4) / 4.);
    default: return (s.Bits(1) ? 1. : -1.) * (max - s.LogReal(1e-9, 1e-2));
  }
}
inline Eigen::Quaterniond GenRotation(pbt::Source& s, double max_angle = M_PI) {
  Eigen::Quaterniond q(Eigen::AngleAxisd(GenAngle(s, max_angle), GenAxis(s)));
  if (s.Chance(0.3)) q.coeffs() = -q.coeffs();
  return q;
}
inline transform::Rigid3d GenRigid3(pbt::Source& s, double r = 50., double max_angle = M_PI) {
  const Eigen::Vector3d t = GenVector(s, r);
  return transform::Rigid3d(t, GenRotation(s, max_angle));
}
inline transform::Rigid2d GenRigid2(pbt::Source& s, double r = 50., double max_angle = M_PI) {
  const double x = s.Real(-r, r), y = s.Real(-r, r);
  return transform::Rigid2d({x, y}, GenAngle(s, max_angle));
}
// Distance between rotations, sign independent.
inline double RotationDistance(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
  const Eigen::Quaterniond d = a.conjugate() * b;
  return 2. * std::atan2(d.vec().norm(), std::abs(d.w()));
}
inline bool Near(const transform::Rigid3d& a, const transform::Rigid3d& b, double tol_t, double tol_r) {
  return (a.translation() - b.translation()).norm() <= tol_t && RotationDistance(a.rotation(), b.rotation()) <= tol_r;
}
inline common::Time TimeAt(int64_t ticks) { return common::FromUniversal(ticks); }
inline constexpr int64_t kEpoch = 636000000000000000ll;  // 2016
}  // namespace geo
