// S05: serialized forms of sensor data.
#include <array>
#include <random>
#include <set>

#include "geo.h"

#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using transform::Rigid3d;

bool Same(const Rigid3d& a, const Rigid3d& b) {
  return a.translation() == b.translation() && a.rotation().coeffs() == b.rotation().coeffs();
}
common::Time GenTime(pbt::Source& s) { return TimeAt(s.Bits(1) ? kEpoch + s.Int(0, 1ll << 50) : s.IntEdge(-(1ll << 60), 1ll << 60)); }
template <typename Proto>
Proto Wire(const Proto& p) {
  Proto q;
  PBT_CHECK(q.ParseFromString(p.SerializeAsString()));
  return q;
}
std::string GenBytes(pbt::Source& s) {
  std::string r;
  const int n = s.Len(0, 12);
  for (int i = 0; i != n; ++i) r += static_cast<char>(s.Bits(255));
  return r;
}
// A bulk of points from one choice, for scans of realistic size.
std::vector<Eigen::Vector3f> Bulk(pbt::Source& s, int n, double r) {
  std::mt19937 rng(s.Bits(1 << 30));
  std::uniform_real_distribution<float> u(-r, r);
  std::vector<Eigen::Vector3f> p;
  for (int i = 0; i != n; ++i) {
    const float x = u(rng), y = u(rng);
    p.emplace_back(x, y, u(rng));
  }
  return p;
}
int BulkSize(pbt::Source& s) {
  const bool large = s.Chance(0.005);
  s.LabelIf(large, "large");
  return large ? s.Pick(std::vector<int>{300, 1100, 4500, 9000, 35000, 70000}) : 0;
}
Eigen::Vector3f GenPoint(pbt::Source& s) { return GenVector(s, s.Chance(0.1) ? 1e6 : 40.).cast<float>(); }
}  // namespace

PBT_FACET(imu, o.weight = 1; o.rule = "random inertial data; non-trivial: always") {
  s.NonTrivial();
  const sensor::ImuData d{GenTime(s), GenVector(s, 20.), GenVector(s, 5.)};
  const auto e = sensor::FromProto(Wire(sensor::ToProto(d)));
  PBT_CHECK(e.time == d.time && e.linear_acceleration == d.linear_acceleration && e.angular_velocity == d.angular_velocity);
}
PBT_FACET(odometry, o.weight = 1; o.rule = "random odometry; non-trivial: always") {
  s.NonTrivial();
  const sensor::OdometryData d{GenTime(s), GenRigid3(s)};
  const auto e = sensor::FromProto(Wire(sensor::ToProto(d)));
  PBT_CHECK(e.time == d.time && Same(e.pose, d.pose));
}
PBT_FACET(fixed_frame, o.weight = 1; o.rule = "random fixed-frame poses, absent ones included; non-trivial: pose present") {
  sensor::FixedFramePoseData d{GenTime(s), absl::optional<Rigid3d>()};
  if (s.Chance(0.7)) { d.pose = GenRigid3(s); s.NonTrivial(); }
  else if (s.Chance(0.3)) d.pose = Rigid3d::Identity();
  const auto e = sensor::FromProto(Wire(sensor::ToProto(d)));
  PBT_CHECK(e.time == d.time);
  PBT_CHECK_EQ(e.pose.has_value(), d.pose.has_value());
  if (d.pose) PBT_CHECK(Same(*e.pose, *d.pose));
}
PBT_FACET(landmarks, o.weight = 1; o.rule = "random landmark observations with binary names; non-trivial: >=2 observations") {
  sensor::LandmarkData d;
  d.time = GenTime(s);
  const int n = s.Chance(0.01) ? s.Int(20, 400) : s.Len(0, 8);
  for (int i = 0; i != n; ++i) {
    const std::string id = GenBytes(s);
    const Rigid3d pose = GenRigid3(s);
    const double tw = s.LogReal(1e-3, 1e6), rw = s.LogReal(1e-3, 1e6);
    d.landmark_observations.push_back({id, pose, tw, rw});
  }
  if (n >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " observations");
  const auto e = sensor::FromProto(Wire(sensor::ToProto(d)));
  PBT_CHECK(e.time == d.time);
  PBT_CHECK_EQ(e.landmark_observations.size(), d.landmark_observations.size());
  for (int i = 0; i != n; ++i) {
    const auto& a = d.landmark_observations[i];
    const auto& b = e.landmark_observations[i];
    PBT_CHECK(a.id == b.id && Same(a.landmark_to_tracking_transform, b.landmark_to_tracking_transform) &&
              a.translation_weight == b.translation_weight && a.rotation_weight == b.rotation_weight) << i;
  }
}
PBT_FACET(timed_points, o.weight = 1; o.rule =
    "random timed clouds with and without intensities, and the older serialized form; non-trivial: >=2 points") {
  sensor::TimedPointCloudData d;
  d.time = GenTime(s);
  d.origin = GenPoint(s);
  const int n = s.Len(0, 20);
  const bool intensities = s.Bits(1);
  for (int i = 0; i != n; ++i) {
    const Eigen::Vector3f p = GenPoint(s);
    d.ranges.push_back({p, static_cast<float>(-s.Real(0., 0.2))});
    if (intensities) d.intensities.push_back(s.Real(0., 4096.));
  }
  for (const auto& p : Bulk(s, BulkSize(s), 40.)) {
    d.ranges.push_back({p, -1e-6f * d.ranges.size()});
    if (intensities) d.intensities.push_back(p.x());
  }
  if (n >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " points");
  sensor::proto::TimedPointCloudData p = sensor::ToProto(d);
  const bool legacy = s.Chance(0.3);
  if (legacy) {
    p.clear_point_data();
    p.clear_intensities();
    for (const auto& r : d.ranges)
      *p.add_point_data_legacy() = transform::ToProto(Eigen::Vector4f(r.position.x(), r.position.y(), r.position.z(), r.time));
  }
  const auto e = sensor::FromProto(Wire(p));
  PBT_CHECK(e.time == d.time && e.origin == d.origin);
  PBT_CHECK(e.ranges == d.ranges) << "points";
  PBT_CHECK(e.intensities == (legacy ? std::vector<float>() : d.intensities)) << "intensities";
}
PBT_FACET(range_data, o.weight = 1; o.rule = "random range data and the older serialized form; non-trivial: >=2 points") {
  std::vector<sensor::RangefinderPoint> r, m;
  const int n = s.Len(0, 20), k = s.Len(0, 20);
  for (int i = 0; i != n; ++i) r.push_back({GenPoint(s)});
  for (int i = 0; i != k; ++i) m.push_back({GenPoint(s)});
  for (const auto& p : Bulk(s, BulkSize(s), 40.)) r.push_back({p});
  for (const auto& p : Bulk(s, BulkSize(s), 40.)) m.push_back({p});
  if (n + k >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " returns " + std::to_string(k) + " misses");
  const sensor::RangeData d{GenPoint(s), sensor::PointCloud(r), sensor::PointCloud(m)};
  auto p = sensor::ToProto(d);
  if (s.Chance(0.3)) {
    p.clear_returns();
    for (const auto& e : r) *p.add_returns_legacy() = transform::ToProto(e.position);
  }
  if (s.Chance(0.3)) {
    p.clear_misses();
    for (const auto& e : m) *p.add_misses_legacy() = transform::ToProto(e.position);
  }
  const auto e = sensor::FromProto(Wire(p));
  PBT_CHECK(e.origin == d.origin && e.returns.points() == r && e.misses.points() == m);
}
PBT_FACET(node_data, o.weight = 1; o.rule =
    "random trajectory node data; points survive within a millimetre, everything else exactly; non-trivial: >=2 points") {
  mapping::TrajectoryNode::Data d;
  d.time = GenTime(s);
  d.gravity_alignment = GenRotation(s);
  auto cloud = [&](int n) {
    std::vector<sensor::RangefinderPoint> p;
    for (int i = 0; i != n; ++i) {
      // A millimetre count plus a clear fraction, so that rounding is unambiguous.
      Eigen::Vector3d v(s.Int(-2000, 2000), s.Int(-2000, 2000), s.Int(-2000, 2000));
      v += Eigen::Vector3d(s.Real(-0.4, 0.4), s.Real(-0.4, 0.4), s.Real(-0.4, 0.4));
      p.push_back({(v * 1e-3).cast<float>()});
    }
    for (const auto& q : Bulk(s, BulkSize(s), 2000.))
      p.push_back({(q.array().round() * 1e-3f).matrix()});
    return sensor::PointCloud(p);
  };
  d.filtered_gravity_aligned_point_cloud = cloud(s.Len(0, 6));
  d.high_resolution_point_cloud = cloud(s.Len(0, 6));
  d.low_resolution_point_cloud = cloud(s.Len(0, 6));
  d.rotational_scan_matcher_histogram.resize(s.Chance(0.02) ? s.Int(100, 400) : s.Len(0, 12));
  for (int i = 0; i != d.rotational_scan_matcher_histogram.size(); ++i) d.rotational_scan_matcher_histogram(i) = s.Real(0., 5.);
  d.local_pose = GenRigid3(s);
  if (d.filtered_gravity_aligned_point_cloud.size() >= 2) s.NonTrivial();
  const auto e = mapping::FromProto(Wire(mapping::ToProto(d)));
  PBT_CHECK(e.time == d.time && e.gravity_alignment.coeffs() == d.gravity_alignment.coeffs() && Same(e.local_pose, d.local_pose));
  PBT_CHECK_EQ(e.rotational_scan_matcher_histogram.size(), d.rotational_scan_matcher_histogram.size());
  for (int i = 0; i != d.rotational_scan_matcher_histogram.size(); ++i)
    PBT_CHECK_EQ(e.rotational_scan_matcher_histogram(i), d.rotational_scan_matcher_histogram(i));
  auto check = [&](const sensor::PointCloud& a, const sensor::PointCloud& b, const char* what) {
    PBT_CHECK_EQ(a.size(), b.size()) << what;
    std::multiset<std::array<long, 3>> x, y;
    for (const auto& p : a) x.insert({lround(p.position.x() * 1000.), lround(p.position.y() * 1000.), lround(p.position.z() * 1000.)});
    for (const auto& p : b) y.insert({lround(p.position.x() * 1000.), lround(p.position.y() * 1000.), lround(p.position.z() * 1000.)});
    PBT_CHECK(x == y) << what << ": a point got lost";
  };
  check(d.filtered_gravity_aligned_point_cloud, e.filtered_gravity_aligned_point_cloud, "filtered");
  check(d.high_resolution_point_cloud, e.high_resolution_point_cloud, "high resolution");
  check(d.low_resolution_point_cloud, e.low_resolution_point_cloud, "low resolution");
}
