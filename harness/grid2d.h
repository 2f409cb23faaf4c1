// Shared pieces of the 2D grid checks: geometry of rays over square cells in
// the coordinates of the map (axis-aligned cells on a world-fixed lattice).
#pragma once
#include <algorithm>
#include <cmath>

#include "Eigen/Core"
#include "cartographer/mapping/2d/map_limits.h"
#include "pbt.h"

namespace grid2d {
using cartographer::mapping::MapLimits;

// Box of the cell with the given index in world coordinates, as (min, max).
struct Box {
  Eigen::Vector2d lo, hi;
};
inline Box CellBox(const MapLimits& l, const Eigen::Array2i& c) {
  Box b;
  b.hi = l.max() - l.resolution() * Eigen::Vector2d(c.y(), c.x());
  b.lo = b.hi - l.resolution() * Eigen::Vector2d(1., 1.);
  return b;
}
inline Box Grow(Box b, double e) {
  b.lo.array() -= e;
  b.hi.array() += e;
  return b;
}
inline bool Inside(const Box& b, const Eigen::Vector2d& p) {
  return (p.array() > b.lo.array()).all() && (p.array() < b.hi.array()).all();
}
// Does the segment meet the open box?
inline bool Meets(const Box& b, const Eigen::Vector2d& p, const Eigen::Vector2d& q) {
  double t0 = 0., t1 = 1.;
  const Eigen::Vector2d d = q - p;
  for (int k = 0; k != 2; ++k) {
    if (d[k] == 0.) {
      if (p[k] <= b.lo[k] || p[k] >= b.hi[k]) return false;
      continue;
    }
    double a = (b.lo[k] - p[k]) / d[k], c = (b.hi[k] - p[k]) / d[k];
    if (a > c) std::swap(a, c);
    t0 = std::max(t0, a);
    t1 = std::min(t1, c);
  }
  return t0 < t1 || (t0 == t1 && d.isZero());
}
enum Touch { NO, MAYBE, YES };
// 'slack' in world units: how far the discretisation may move the ray.
inline Touch RayTouches(const Box& b, const Eigen::Vector2d& p, const Eigen::Vector2d& q, double slack) {
  if (!Meets(Grow(b, slack), p, q)) return NO;
  return Meets(Grow(b, -slack), p, q) ? YES : MAYBE;
}
inline Touch PointTouches(const Box& b, const Eigen::Vector2d& p, double slack) {
  if (!Inside(Grow(b, slack), p)) return NO;
  return Inside(Grow(b, -slack), p) ? YES : MAYBE;
}
// Shift in cell indices from the old to the new limits, checked to be whole.
inline Eigen::Array2i Shift(const MapLimits& from, const MapLimits& to) {
  PBT_CHECK_EQ(from.resolution(), to.resolution()) << "resolution changed";
  const Eigen::Vector2d d = (to.max() - from.max()) / from.resolution();
  const Eigen::Array2i shift(std::lround(d.y()), std::lround(d.x()));
  PBT_CHECK(std::abs(d.y() - shift.x()) < 1e-6 && std::abs(d.x() - shift.y()) < 1e-6) << "cells moved off the lattice";
  return shift;
}
}  // namespace grid2d
