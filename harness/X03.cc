// X03: rotational histograms of 3D scans and their matching.
#include <map>

#include "geo.h"

#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "cartographer/sensor/point_cloud.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::scan_matching::RotationalScanMatcher;

sensor::PointCloud Cloud(const std::vector<Eigen::Vector3f>& points) {
  sensor::PointCloud cloud;
  for (const auto& p : points) cloud.push_back({p});
  return cloud;
}

constexpr double kEdge = 1e-4;
bool Below(double v, double limit) {
  if (std::abs(v - limit) < kEdge) throw pbt::Discard();
  return v < limit;
}

struct Bucketed {
  std::vector<double> low, high;  // contributions that certainly and possibly belong to each bucket
  double total = 0;
  int pairs = 0;
};

Bucketed Reference(const std::vector<Eigen::Vector3f>& points, int size) {
  Bucketed out;
  out.low.assign(size, 0);
  out.high.assign(size, 0);
  std::map<long, std::vector<Eigen::Vector3d>> slices;
  for (const auto& p : points) {
    const double level = double(p.z()) / 0.2;
    if (std::abs(level - std::floor(level) - 0.5) < kEdge) throw pbt::Discard();
    slices[std::lround(level)].push_back(p.cast<double>());
  }
  for (const auto& slice : slices) {
    Eigen::Vector3d centroid = Eigen::Vector3d::Zero();
    for (const auto& p : slice.second) centroid += p;
    centroid /= slice.second.size();
    std::vector<std::pair<double, Eigen::Vector3d>> around;
    for (const auto& p : slice.second) {
      const Eigen::Vector2d d = (p - centroid).head<2>();
      if (Below(d.norm(), 0.2)) continue;
      const double angle = std::atan2(d.y(), d.x());
      if (std::abs(angle) > M_PI - kEdge) throw pbt::Discard();
      around.push_back({angle, p});
    }
    std::sort(around.begin(), around.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    for (size_t i = 1; i < around.size(); ++i) {
      if (around[i].first - around[i - 1].first < kEdge && (around[i].second - around[i - 1].second).norm() > 0)
        throw pbt::Discard();
    }
    if (around.empty()) continue;
    centroid.setZero();
    for (const auto& p : around) centroid += p.second;
    centroid /= around.size();
    Eigen::Vector3d anchor = around.front().second;
    for (const auto& p : around) {
      const Eigen::Vector2d delta = (p.second - anchor).head<2>();
      const Eigen::Vector2d direction = (p.second - centroid).head<2>();
      if (Below(delta.norm(), 0.2) || Below(direction.norm(), 0.2)) continue;
      if (!Below(delta.norm(), 0.9)) {
        anchor = p.second;
        continue;
      }
      const double value = std::max(0., 1. - std::abs(delta.normalized().dot(direction.normalized())));
      double angle = std::atan2(delta.y(), delta.x()) / M_PI;
      angle -= std::floor(angle);
      const double position = angle * size;
      const int bucket = std::min<int>(size - 1, position);
      out.total += value;
      ++out.pairs;
      const double f = position - std::floor(position);
      const double eps = 1e-5 * size;
      out.high[bucket] += value;
      if (f < eps) out.high[(bucket + size - 1) % size] += value;
      else if (f > 1 - eps) out.high[(bucket + 1) % size] += value;
      else out.low[bucket] += value;
    }
  }
  return out;
}

std::vector<Eigen::Vector3f> GenPoints(pbt::Source& s) {
  std::vector<Eigen::Vector3f> points;
  const int n = s.Len(0, 60);
  const double extent = s.Pick(std::vector<double>{0.3, 1., 3., 20.});
  const int mode = s.Weighted({1, 2});
  const double yaw = GenAngle(s), width = s.Real(0.3, 3.), depth = s.Real(0.3, 3.);
  const Eigen::Vector3d offset = GenVector(s, 10.);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d p;
    if (mode == 0) {
      p = GenVector(s, extent);
    } else {  // on the walls of a room
      const double t = s.Real(-1, 1), side = s.Bits(1) ? 1. : -1.;
      const Eigen::Vector3d local = s.Bits(1) ? Eigen::Vector3d(t * width, side * depth, 0) : Eigen::Vector3d(side * width, t * depth, 0);
      p = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * local;
    }
    p.z() = s.Chance(0.7) ? 0.03 : s.Real(-0.6, 0.6);
    points.push_back((p + offset).cast<float>());
  }
  return points;
}

PBT_FACET(histogram, o.weight = 1; o.rule =
    "random points and rooms with any number of buckets: each bucket holds the summed weights of the directions between "
    "neighbouring points, as recomputed, whatever the order of points; non-trivial: at least three weighted pairs") {
  const auto points = GenPoints(s);
  const int size = s.Pick(std::vector<int>{1, 2, 7, 30, 120});
  const Bucketed want = Reference(points, size);
  s.NonTrivial(want.pairs >= 3);
  if (s.Sampling()) s.Describe("points=" + std::to_string(points.size()) + " pairs=" + std::to_string(want.pairs) + " buckets=" + std::to_string(size));
  const Eigen::VectorXf h = RotationalScanMatcher::ComputeHistogram(Cloud(points), size);
  PBT_CHECK_EQ(int(h.size()), size);
  double sum = 0;
  for (int i = 0; i < size; ++i) {
    const double tol = 2e-3 * (1 + want.high[i]);
    PBT_CHECK(h[i] >= want.low[i] - tol && h[i] <= want.high[i] + tol) << "bucket " + std::to_string(i) + " has " + std::to_string(h[i]) + " instead of " + std::to_string(want.low[i]) + ".." + std::to_string(want.high[i]);
    sum += h[i];
  }
  PBT_CHECK(std::abs(sum - want.total) <= 2e-3 * (1 + want.total)) << "total weight differs";
  auto shuffled = points;
  s.Shuffle(&shuffled);
  const Eigen::VectorXf h2 = RotationalScanMatcher::ComputeHistogram(Cloud(shuffled), size);
  PBT_CHECK(std::abs(double(h2.sum()) - double(h.sum())) <= 2e-3 * (1 + want.total)) << "depends on the order of points";
}

PBT_FACET(walls, o.weight = 0.5; o.rule =
    "two parallel walls in a random direction: the histogram has its weight in the bucket of that direction, and the "
    "histogram rotated by an angle agrees with that of the rotated walls; non-trivial: some weight") {
  const int size = s.Pick(std::vector<int>{8, 30, 120});
  const double direction = (s.Int(0, size - 1) + s.Real(0.2, 0.8)) * M_PI / size;
  const int turn_buckets = s.Int(-3 * size, 3 * size);
  const double turn = turn_buckets * M_PI / size;
  const double gap = s.Real(1.2, 6.), step = s.Real(0.25, 0.6), length = s.Real(1., 6.);
  const Eigen::Vector2d offset(s.Real(-5, 5), s.Real(-5, 5));
  const auto make = [&](double yaw) {
    std::vector<Eigen::Vector3f> points;
    for (const double side : {-gap / 2, gap / 2}) {
      for (double t = -length / 2; t <= length / 2; t += step) {
        const Eigen::Vector2d p = Eigen::Rotation2Dd(yaw) * Eigen::Vector2d(t, side) + offset;
        points.emplace_back(p.x(), p.y(), 0.f);
      }
    }
    return points;
  };
  const auto bucket = [&](double yaw) {
    double f = yaw / M_PI;
    f -= std::floor(f);
    return std::min(size - 1, int(f * size));
  };
  if (s.Sampling()) s.Describe("direction=" + std::to_string(direction) + " turn=" + std::to_string(turn_buckets) + "/" + std::to_string(size));
  const Eigen::VectorXf h = RotationalScanMatcher::ComputeHistogram(Cloud(make(direction)), size);
  const Eigen::VectorXf r = RotationalScanMatcher::ComputeHistogram(Cloud(make(direction + turn)), size);
  s.NonTrivial(h.sum() > 0.1);
  PBT_CHECK(h.sum() >= 0.1 || length < 2.) << "no direction found";
  const float other_h = h.sum() - h[bucket(direction)], other_r = r.sum() - r[bucket(direction + turn)];
  PBT_CHECK(other_h < 1e-3) << "weight outside the direction of the walls";
  PBT_CHECK(other_r < 1e-3) << "weight outside the direction of the rotated walls";
  const Eigen::VectorXf rotated = RotationalScanMatcher::RotateHistogram(h, turn);
  PBT_CHECK(std::abs(rotated.sum() - h.sum()) < 1e-3 * (1 + h.sum())) << "rotation changes the total";
  PBT_CHECK(rotated[bucket(direction + turn)] > 0.98 * h.sum() - 1e-3) << "histogram rotated the wrong way";
}

PBT_FACET(rotate_match, o.weight = 1; o.rule =
    "random histograms and angles: rotation shifts with linear interpolation, full buckets exactly, keeps the total and has "
    "the period of half a turn; scores are the cosines between the rotated and the stored histogram; non-trivial: two non-zero buckets") {
  const int size = s.Pick(std::vector<int>{0, 1, 2, 7, 30, 120});
  const auto gen = [&] {
    Eigen::VectorXf h = Eigen::VectorXf::Zero(size);
    const double density = s.Pick(std::vector<double>{0.1, 0.5, 1.});
    const double scale = s.Pick(std::vector<double>{1., 1., 100., 0.01});
    for (int i = 0; i < size; ++i)
      if (s.Chance(density)) h[i] = scale * s.Real(0., 1.);
    return h;
  };
  const Eigen::VectorXf h = gen(), g = gen();
  const auto reference = [&](const Eigen::VectorXf& v, double angle) {
    std::vector<double> out(size);
    for (int i = 0; i < size; ++i) {
      const double from = i - angle * size / M_PI;
      const double f = from - std::floor(from);
      const long k = ((long(std::floor(from)) % size) + size) % size;
      out[i] = (1 - f) * v[k] + f * v[(k + 1) % size];
    }
    return out;
  };
  int filled = 0;
  for (int i = 0; i < size; ++i) filled += h[i] > 0;
  s.NonTrivial(filled >= 2);
  const bool full = s.Chance(0.3);
  const float angle = full && size > 0 ? s.Int(-4 * size, 4 * size) * M_PI / size : s.Chance(0.5) ? GenAngle(s) : s.Real(-20, 20);
  if (s.Sampling()) s.Describe("buckets=" + std::to_string(size) + " filled=" + std::to_string(filled) + " angle=" + std::to_string(angle));
  const Eigen::VectorXf r = RotationalScanMatcher::RotateHistogram(h, angle);
  PBT_CHECK_EQ(int(r.size()), size);
  const auto want = reference(h, angle);
  const double top = size ? h.maxCoeff() : 0;
  const double tol = 1e-6 * top * (1 + 20 * size);
  for (int i = 0; i < size; ++i) {
    PBT_CHECK(std::abs(r[i] - want[i]) <= tol + 1e-6) << "bucket " + std::to_string(i) + " has " + std::to_string(r[i]) + " instead of " + std::to_string(want[i]);
  }
  const RotationalScanMatcher matcher(&g);
  const float initial = s.Chance(0.5) ? 0. : GenAngle(s);
  std::vector<float> angles;
  for (int n = s.Len(0, 6); n > 0; --n) angles.push_back(GenAngle(s));
  const std::vector<float> scores = matcher.Match(h, initial, angles);
  PBT_CHECK_EQ(scores.size(), angles.size());
  for (size_t k = 0; k < angles.size(); ++k) {
    const auto v = reference(h, double(initial) + angles[k]);
    double dot = 0, nv = 0, ng = 0;
    for (int i = 0; i < size; ++i) {
      dot += v[i] * g[i];
      nv += v[i] * v[i];
      ng += double(g[i]) * g[i];
    }
    const double norm = std::sqrt(nv * ng);
    if (std::abs(norm - 1e-3) < 3e-5) continue;
    const double score = norm < 1e-3 ? 1. : dot / norm;
    s.LabelIf(norm < 1e-3, "empty");
    PBT_CHECK(std::abs(scores[k] - score) < 5e-3) << "score " + std::to_string(scores[k]) + " instead of " + std::to_string(score);
    PBT_CHECK(scores[k] >= -1e-3f && scores[k] <= 1.001f) << "score out of range";
  }
  // A scan that is the rotated submap matches perfectly when rotated back.
  if (size > 0 && g.norm() > 0.1) {
    const int k = s.Int(-2 * size, 2 * size);
    const double turn = k * M_PI / size;
    const Eigen::VectorXf scan = RotationalScanMatcher::RotateHistogram(g, turn);
    const auto back = matcher.Match(scan, initial, {float(-turn - initial)});
    PBT_CHECK(back.at(0) > 0.995) << "does not match itself rotated back: " + std::to_string(back[0]);
  }
}
}  // namespace
