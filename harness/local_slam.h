// Shared by the local SLAM harnesses: options, comparison of point sets, worlds.
#pragma once
#include <deque>
#include <vector>

#include "cartographer/mapping/internal/motion_filter.h"
#include "cartographer/mapping/internal/range_data_collator.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "geo.h"

namespace local_slam {
using namespace cartographer;
using namespace geo;
using Points = std::vector<Eigen::Vector3f>;

inline Points Positions(const sensor::PointCloud& cloud) {
  Points result;
  for (const auto& p : cloud) result.push_back(p.position);
  return result;
}
inline Points Apply(const transform::Rigid3f& t, const Points& points) {
  Points result;
  for (const auto& p : points) result.push_back(t * p);
  return result;
}
// Some two points are so close that a voxel filter may drop one.
inline bool Dense(const Points& points, float d) {
  for (size_t i = 0; i != points.size(); ++i)
    for (size_t j = 0; j != i; ++j)
      if ((points[i] - points[j]).norm() < d) return true;
  return false;
}
// Empty if the same points, in any order.
inline std::string Differ(const Points& got, const Points& want, float tol) {
  if (got.size() != want.size()) return std::to_string(got.size()) + " points, want " + std::to_string(want.size());
  std::vector<bool> used(want.size());
  for (const auto& p : got) {
    int best = -1;
    for (size_t j = 0; j != want.size(); ++j)
      if (!used[j] && (best < 0 || (want[j] - p).norm() < (want[best] - p).norm())) best = j;
    if (best < 0 || (want[best] - p).norm() > tol) {
      std::ostringstream o;
      o << "point " << p.transpose() << " should not be there";
      if (best >= 0) o << ", nearest " << want[best].transpose();
      return o.str();
    }
    used[best] = true;
  }
  return "";
}
constexpr int64_t kTick = 12500;  // 1.25 ms, exact enough in float seconds
}  // namespace local_slam
