// S03: voxel filters and point cloud operations.
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <tuple>

#include "geo.h"

#include "cartographer/sensor/internal/voxel_filter.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"

namespace {
using namespace cartographer;
using namespace geo;
using sensor::PointCloud;
using sensor::RangefinderPoint;
using Cell = std::tuple<int, int, int>;

struct Cloud {
  std::vector<RangefinderPoint> points;  // pairwise distinct via the serial in z? no: via intensity
  std::vector<float> serial;
  std::vector<Cell> cells;
  float resolution;
};

Cloud Generate(pbt::Source& s, int max_points) {
  Cloud c;
  c.resolution = s.Pick(std::vector<float>{0.05f, 0.1f, 0.5f, 1.f, 0.025f, 2.f});
  const int spread = s.Pick(std::vector<int>{1, 3, 10, 200});
  if (s.Chance(0.01)) {  // a full revolution of a modern scanner
    s.Label("large");
    std::mt19937 rng(s.Bits(1 << 30));
    const int large = s.Pick(std::vector<int>{300, 1100, 5000, 9000, 33000, 70000});
    std::uniform_int_distribution<int> cell(-spread, spread);
    std::uniform_real_distribution<double> part(-0.45, 0.45);
    for (int i = 0; i != large; ++i) {
      const int x = cell(rng), y = cell(rng), z = cell(rng);
      const Eigen::Vector3d off(part(rng), part(rng), part(rng));
      c.points.push_back({((Eigen::Vector3d(x, y, z) + off) * c.resolution).cast<float>()});
      c.serial.push_back(i);
      c.cells.push_back(Cell(x, y, z));
    }
    return c;
  }
  const int n = s.Len(0, max_points);
  if (s.Chance(0.2)) {  // far-out voxels: coordinates around powers of two
    const auto far = [&] {
      const int base = s.Bits(3) == 0 ? 0 : (1 << s.Int(0, 19)) + s.Int(-1, 1);
      return static_cast<int>(s.Bits(1) ? base : -base);
    };
    s.Label("far");
    for (int i = 0; i != n; ++i) {
      const int x = far(), y = far(), z = far();
      c.points.push_back({(Eigen::Vector3d(x, y, z) * c.resolution).cast<float>()});
      c.serial.push_back(i);
      c.cells.push_back(Cell(x, y, z));
    }
    return c;
  }
  for (int i = 0; i != n; ++i) {
    const int x = s.Int(-spread, spread), y = s.Int(-spread, spread), z = s.Chance(0.5) ? 0 : s.Int(-spread, spread);
    const Eigen::Vector3d off(s.Real(-0.45, 0.45), s.Real(-0.45, 0.45), s.Real(-0.45, 0.45));
    c.points.push_back({((Eigen::Vector3d(x, y, z) + off) * c.resolution).cast<float>()});
    c.serial.push_back(i);
    c.cells.push_back(Cell(x, y, z));
  }
  return c;
}
// 'kept' are indices into the cloud, in the order of the result.
void CheckOnePerVoxel(const Cloud& c, const std::vector<int>& kept, const char* what) {
  PBT_CHECK(std::is_sorted(kept.begin(), kept.end())) << what << ": order changed";
  std::map<Cell, int> per_cell;
  for (int i : kept) ++per_cell[c.cells[i]];
  for (const auto& e : per_cell) PBT_CHECK_EQ(e.second, 1) << what << ": several points of one voxel";
  const std::set<Cell> all(c.cells.begin(), c.cells.end());
  PBT_CHECK_EQ(per_cell.size(), all.size()) << what << ": a voxel lost its point";
}
std::vector<Eigen::Vector3f> Positions(const PointCloud& p) {
  std::vector<Eigen::Vector3f> r;
  for (const auto& e : p) r.push_back(e.position);
  return r;
}
}  // namespace

PBT_FACET(fixed_size, o.weight = 1; o.rule =
    "random clouds of all flavours (plain, with intensities, timed, multi-sensor measurements) filtered with a fixed "
    "voxel size: exactly one input point per occupied voxel, order and attributes kept; non-trivial: >=5 points and "
    "some voxel holds several") {
  const Cloud c = Generate(s, 60);
  const std::set<Cell> all(c.cells.begin(), c.cells.end());
  if (c.points.size() >= 5 && all.size() < c.points.size()) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(c.points.size()) + " points in " + std::to_string(all.size()) + " voxels of " + std::to_string(c.resolution));
  std::vector<int> kept;
  const PointCloud with = VoxelFilter(PointCloud(c.points, c.serial), c.resolution);
  PBT_CHECK_EQ(with.intensities().size(), with.size());
  for (size_t i = 0; i != with.size(); ++i) {
    const int k = with.intensities()[i];
    PBT_CHECK(k >= 0 && k < static_cast<int>(c.points.size()) && with[i] == c.points[k]) << "point and intensity were mixed up";
    kept.push_back(k);
  }
  CheckOnePerVoxel(c, kept, "intensities");
  // Without intensities: same positions.
  const PointCloud without = VoxelFilter(PointCloud(c.points), c.resolution);
  PBT_CHECK(without.intensities().empty());
  PBT_CHECK(Positions(without) == Positions(with)) << "result depends on the presence of intensities";
  const auto plain = VoxelFilter(c.points, c.resolution);
  PBT_CHECK_EQ(plain.size(), with.size());
  for (size_t i = 0; i != plain.size(); ++i) PBT_CHECK(plain[i] == with[i]);
  // Timed.
  sensor::TimedPointCloud timed;
  std::vector<sensor::TimedPointCloudOriginData::RangeMeasurement> ranges;
  for (size_t i = 0; i != c.points.size(); ++i) {
    timed.push_back({c.points[i].position, c.serial[i]});
    ranges.push_back({{c.points[i].position, c.serial[i]}, c.serial[i] + 0.5f, i + 7});
  }
  kept.clear();
  for (const auto& p : VoxelFilter(timed, c.resolution)) {
    const int k = p.time;
    PBT_CHECK(k >= 0 && k < static_cast<int>(c.points.size()) && p.position == c.points[k].position);
    kept.push_back(k);
  }
  CheckOnePerVoxel(c, kept, "timed");
  kept.clear();
  for (const auto& p : VoxelFilter(ranges, c.resolution)) {
    const int k = p.point_time.time;
    PBT_CHECK(k >= 0 && k < static_cast<int>(c.points.size()) && p.point_time.position == c.points[k].position &&
              p.intensity == k + 0.5f && p.origin_index == static_cast<size_t>(k) + 7) << "measurement mixed up";
    kept.push_back(k);
  }
  CheckOnePerVoxel(c, kept, "measurements");
}

PBT_FACET(adaptive, o.weight = 1; o.rule =
    "random clouds, targets, edge lengths and ranges: points out of range dropped, sparse clouds kept, target density "
    "reached whenever the finest edge length can, coarsest edge length preferred; non-trivial: more points in range "
    "than the target") {
  std::vector<RangefinderPoint> points;
  std::vector<float> serial;
  const double r = s.Pick(std::vector<double>{0.5, 3., 20., 60.});
  const bool large = s.Chance(0.01);
  s.LabelIf(large, "large");
  std::mt19937 rng(large ? s.Bits(1 << 30) : 0);
  const int n = large ? s.Int(300, 6000) : s.Len(0, 120);
  std::vector<Eigen::Vector3d> centers;
  for (int i = 0; i != n; ++i) {
    if (large) {
      std::uniform_real_distribution<double> u(-r, r);
      const double a = u(rng), b = u(rng);
      points.push_back({Eigen::Vector3d(a, b, u(rng)).cast<float>()});
      serial.push_back(i);
      continue;
    }
    Eigen::Vector3d p = GenVector(s, r);
    if (!centers.empty() && s.Chance(0.5)) p = s.Pick(centers) + GenVector(s, 0.02 * r);
    centers.push_back(p);
    points.push_back({p.cast<float>()});
    serial.push_back(i);
  }
  sensor::proto::AdaptiveVoxelFilterOptions options;
  options.set_max_length(s.Pick(std::vector<double>{0.5, 0.9, 2., 4., 0.1}));
  options.set_min_num_points(large ? s.Int(1, 7000) : s.Bits(1) ? s.Int(0, 150) : s.Int(1, 30));
  options.set_max_range(s.Pick(std::vector<double>{50., r, 0.8 * r, 5.}));
  std::vector<int> in_range;
  for (int i = 0; i != n; ++i) {
    const double norm = points[i].position.cast<double>().norm();
    if (!large && std::abs(norm - options.max_range()) < 1e-4) throw pbt::Discard();
    if (large && std::abs(norm - options.max_range()) < 1e-4) points[i].position *= 0.99f;
    if (points[i].position.cast<double>().norm() < options.max_range()) in_range.push_back(i);
  }
  if (in_range.size() > options.min_num_points()) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " points, " + std::to_string(in_range.size()) + " in range, " + options.ShortDebugString());
  const bool intensities = s.Bits(1);
  const PointCloud result = AdaptiveVoxelFilter(PointCloud(points, serial), options);
  if (!intensities) {
    const PointCloud plain = AdaptiveVoxelFilter(PointCloud(points), options);
    PBT_CHECK(Positions(plain) == Positions(result));
  }
  std::vector<int> kept;
  PBT_CHECK_EQ(result.intensities().size(), result.size());
  for (size_t i = 0; i != result.size(); ++i) {
    const int k = result.intensities()[i];
    PBT_CHECK(k >= 0 && k < n && result[i] == points[k]);
    kept.push_back(k);
  }
  PBT_CHECK(std::is_sorted(kept.begin(), kept.end()) && std::adjacent_find(kept.begin(), kept.end()) == kept.end())
      << "not a sub-sequence";
  PBT_CHECK(std::includes(in_range.begin(), in_range.end(), kept.begin(), kept.end())) << "a point out of range was kept";
  if (in_range.size() <= options.min_num_points()) {
    PBT_CHECK(kept == in_range) << "a sparse cloud must be kept";
    s.Label("sparse");
    return;
  }
  std::vector<RangefinderPoint> near;
  std::vector<float> near_serial;
  for (int i : in_range) { near.push_back(points[i]); near_serial.push_back(i); }
  const PointCloud cloud(near, near_serial);
  const PointCloud coarse = VoxelFilter(cloud, options.max_length());
  if (coarse.size() >= options.min_num_points()) {
    PBT_CHECK(coarse.intensities() == result.intensities()) << "the coarsest edge length was enough";
    s.Label("coarsest enough");
    return;
  }
  s.Label("searched");
  // Some halving of the edge length down to about a hundredth reaches the target?
  bool reachable = false;
  float length = options.max_length();
  float last = length;
  for (; length > 1e-2f * options.max_length() && !reachable; length /= 2.f) {
    last = length / 2.f;
    reachable = VoxelFilter(cloud, last).size() >= options.min_num_points();
  }
  if (reachable) {
    PBT_CHECK(result.size() >= options.min_num_points()) << "target missed: " << result.size();
    // Not denser than the density of the first sufficient halving, up to ties:
    // the result is one of the filtered clouds with an edge length in [last, 2 last).
    bool found = false, tight = false;
    std::vector<float> lengths;
    std::vector<PointCloud> clouds;
    for (int i = 0; i <= 64; ++i) {
      lengths.push_back(last + (2.f * last - last) * i / 64.f);
      clouds.push_back(VoxelFilter(cloud, lengths.back()));
    }
    for (int i = 0; i <= 64; ++i) {
      if (clouds[i].intensities() != result.intensities()) continue;
      found = true;
      for (int j = i + 1; j <= 64; ++j)
        if (lengths[j] <= 1.101f * lengths[i] && clouds[j].size() < options.min_num_points()) tight = true;
    }
    PBT_CHECK(found) << "not the result of an edge length between " << last << " and " << 2 * last;
    PBT_CHECK(tight) << "an edge length more than 10% coarser would have been dense enough";
  } else {
    s.Label("unreachable");
    PBT_CHECK(result.size() >= VoxelFilter(cloud, last).size()) << "gave up too early";
  }
}

PBT_FACET(transform_and_crop, o.weight = 1; o.rule =
    "random clouds and range data transformed and cropped by height: every point moved by the transform, order and "
    "attributes kept; cropping keeps exactly the points inside; non-trivial: >=3 points, some kept and some dropped") {
  const bool large = s.Chance(0.01);
  s.LabelIf(large, "large");
  const int n = large ? s.Int(200, 5000) : s.Len(0, 30), m = large ? s.Int(0, 5000) : s.Len(0, 10);
  std::mt19937 rng(large ? s.Bits(1 << 30) : 0);
  const float lo = s.Int(-4, 0) * 0.5f, hi = lo + s.Int(0, 8) * 0.5f;
  auto gen = [&](int k, std::vector<RangefinderPoint>* p, std::vector<float>* i) {
    for (int j = 0; j != k; ++j) {
      if (large) {
        std::uniform_real_distribution<float> xy(-20.f, 20.f), z(-3.f, 3.f);
        const float a = xy(rng), b = xy(rng);
        p->push_back({Eigen::Vector3f(a, b, z(rng))});
        i->push_back(j + 0.25f);
        continue;
      }
      Eigen::Vector3f v = GenVector(s, 20.).cast<float>();
      v.z() = s.Chance(0.2) ? lo : s.Chance(0.2) ? hi : static_cast<float>(s.Real(-3., 3.));
      p->push_back({v});
      i->push_back(j + 0.25f);
    }
  };
  std::vector<RangefinderPoint> rp, mp;
  std::vector<float> ri, mi;
  gen(n, &rp, &ri);
  gen(m, &mp, &mi);
  const bool with = s.Bits(1);
  if (!with) { ri.clear(); mi.clear(); }
  const sensor::RangeData data{GenVector(s, 5.).cast<float>(), PointCloud(rp, ri), PointCloud(mp, mi)};
  const transform::Rigid3f t = GenRigid3(s, 20.).cast<float>();
  const sensor::RangeData moved = TransformRangeData(data, t);
  auto check_moved = [&](const PointCloud& a, const PointCloud& b) {
    PBT_CHECK_EQ(a.size(), b.size());
    PBT_CHECK(a.intensities() == b.intensities());
    for (size_t i = 0; i != a.size(); ++i)
      PBT_CHECK((b[i].position.cast<double>() - t.cast<double>() * a[i].position.cast<double>()).norm() < 1e-4) << "point " << i;
  };
  PBT_CHECK((moved.origin.cast<double>() - t.cast<double>() * data.origin.cast<double>()).norm() < 1e-4);
  check_moved(data.returns, moved.returns);
  check_moved(data.misses, moved.misses);
  sensor::TimedPointCloud timed;
  for (const auto& p : rp) timed.push_back({p.position, static_cast<float>(timed.size())});
  const auto moved_timed = TransformTimedPointCloud(timed, t);
  PBT_CHECK_EQ(moved_timed.size(), timed.size());
  for (size_t i = 0; i != timed.size(); ++i) {
    PBT_CHECK(moved_timed[i].time == timed[i].time);
    PBT_CHECK((moved_timed[i].position.cast<double>() - t.cast<double>() * timed[i].position.cast<double>()).norm() < 1e-4);
  }
  const sensor::RangeData cropped = CropRangeData(data, lo, hi);
  PBT_CHECK(cropped.origin == data.origin);
  int kept = 0;
  auto check_cropped = [&](const PointCloud& a, const PointCloud& b) {
    std::vector<RangefinderPoint> p;
    std::vector<float> in;
    for (size_t i = 0; i != a.size(); ++i)
      if (lo <= a[i].position.z() && a[i].position.z() <= hi) {
        p.push_back(a[i]);
        if (with) in.push_back(a.intensities()[i]);
        ++kept;
      }
    PBT_CHECK(b.points() == p) << "cropping kept the wrong points";
    PBT_CHECK(b.intensities() == in) << "cropping mixed up the intensities";
  };
  check_cropped(data.returns, cropped.returns);
  check_cropped(data.misses, cropped.misses);
  PBT_CHECK(CropPointCloud(data.returns, lo, hi).points() == cropped.returns.points());
  if (n + m >= 3 && kept > 0 && kept < n + m) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + "+" + std::to_string(m) + " points, z in [" + std::to_string(lo) + ", " + std::to_string(hi) + "]");
}
