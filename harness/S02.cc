// S02: compressed point clouds.
#include <map>
#include <random>
#include <set>
#include <tuple>

#include "geo.h"

#include "cartographer/sensor/compressed_point_cloud.h"

namespace {
using namespace cartographer;
using sensor::CompressedPointCloud;
using sensor::PointCloud;
using Key = std::tuple<int64_t, int64_t, int64_t>;

Key KeyOf(const Eigen::Vector3f& p) {
  // Decoded points lie on the millimetre grid.
  return Key(llround(p.x() * 1000.0), llround(p.y() * 1000.0), llround(p.z() * 1000.0));
}

struct Generated {
  std::vector<sensor::RangefinderPoint> points;
  std::map<Key, int> raster;
  std::set<Key> blocks;
};
float Coordinate(pbt::Source& s, double range, int64_t* mm) {
  // A millimetre count plus a clear fraction, so that rounding is unambiguous.
  const int64_t m = s.IntEdge(-static_cast<int64_t>(range * 1000), static_cast<int64_t>(range * 1000));
  const double slack = std::max(0., 0.45 - range * 1000 * 1.2e-7 * 4);
  const float f = static_cast<float>((m + s.Real(-slack, slack)) * 1e-3);
  *mm = m;
  return f;
}
Generated Generate(pbt::Source& s, int max_points) {
  Generated g;
  const double range = s.Weighted({5, 4, 2, 0.02}) == 0 ? 2. : s.Chance(0.5) ? 30. : 300.;
  const int n = s.Len(0, max_points);
  for (int i = 0; i != n; ++i) {
    if (!g.points.empty() && s.Chance(0.15)) {
      const auto p = g.points[s.Bits(g.points.size() - 1)];
      g.points.push_back(p);
    } else {
      int64_t a, b, c;
      const float x = Coordinate(s, range, &a);
      const float y = Coordinate(s, range, &b);
      const float z = Coordinate(s, range, &c);
      g.points.push_back({Eigen::Vector3f(x, y, z)});
    }
  }
  for (const auto& p : g.points) {
    Key k(llround(p.position.x() / 0.001), llround(p.position.y() / 0.001), llround(p.position.z() / 0.001));
    ++g.raster[k];
    g.blocks.insert(Key(std::get<0>(k) >> 10, std::get<1>(k) >> 10, std::get<2>(k) >> 10));
  }
  return g;
}
std::map<Key, int> Count(const PointCloud& cloud) {
  std::map<Key, int> r;
  for (const auto& p : cloud) ++r[KeyOf(p.position)];
  return r;
}
}  // namespace

PBT_FACET(round_trip, o.weight = 1; o.rule =
    "random clouds (clustered, spread, repeated and negative coordinates) compressed and decompressed, directly and "
    "through the serialized form; non-trivial: >=5 points in >=2 blocks") {
  const Generated g = Generate(s, 60);
  if (g.points.size() >= 5 && g.blocks.size() >= 2) s.NonTrivial();
  s.LabelIf(g.blocks.size() > 10, ">10 blocks");
  if (s.Sampling()) s.Describe(std::to_string(g.points.size()) + " points, " + std::to_string(g.blocks.size()) + " blocks");
  const CompressedPointCloud c{PointCloud(g.points)};
  PBT_CHECK_EQ(c.size(), g.points.size());
  PBT_CHECK_EQ(c.empty(), g.points.empty());
  const PointCloud d = c.Decompress();
  PBT_CHECK_EQ(d.size(), g.points.size());
  PBT_CHECK(Count(d) == g.raster) << "points changed";
  // Every decoded point is within half a millimetre of the grid point.
  size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) {
    PBT_CHECK(i < d.size());
    PBT_CHECK((*it).position == d[i].position) << "iteration differs from decompression";
    for (int k = 0; k != 3; ++k) {
      const double mm = d[i].position[k] * 1000.;
      PBT_CHECK(std::abs(mm - std::round(mm)) < 1e-3 + std::abs(mm) * 3e-7) << "off the millimetre grid";
    }
  }
  PBT_CHECK_EQ(i, g.points.size());
  // Serialized form.
  sensor::proto::CompressedPointCloud proto;
  PBT_CHECK(proto.ParseFromString(c.ToProto().SerializeAsString()));
  const CompressedPointCloud c2(proto);
  PBT_CHECK(c2 == c) << "serialized form differs";
  const PointCloud d2 = c2.Decompress();
  PBT_CHECK_EQ(d2.size(), d.size());
  for (size_t k = 0; k != d.size(); ++k) PBT_CHECK(d2[k] == d[k]);
  // Compressing what came out changes nothing more.
  const CompressedPointCloud c3(d);
  PBT_CHECK(Count(c3.Decompress()) == g.raster) << "not idempotent";
  // Different clouds are different.
  if (!g.points.empty()) {
    auto other = g.points;
    if (s.Bits(1)) other.pop_back();
    else other[s.Bits(other.size() - 1)].position.x() += 0.01f;
    PBT_CHECK(!(CompressedPointCloud{PointCloud(other)} == c)) << "different clouds compare equal";
  }
  PBT_CHECK(CompressedPointCloud(PointCloud(g.points)) == c) << "equal clouds compare different";
}

PBT_FACET(large, o.weight = 0.004; o.rule =
    "clouds of up to 100000 points, many per block; non-trivial: >=500 points") {
  const bool huge = s.Chance(0.3);
  std::mt19937 rng(huge ? s.Bits(1 << 30) : 0);
  const int n = huge ? s.Pick(std::vector<int>{4100, 10000, 33000, 70000, 100000}) : 200 + s.Bits(2800);
  const double range = s.Bits(1) ? 0.8 : 6.;
  std::vector<sensor::RangefinderPoint> points;
  std::map<Key, int> raster;
  for (int i = 0; i != n; ++i) {
    if (huge) {
      std::uniform_int_distribution<int64_t> u(-range * 1000, range * 1000);
      const int64_t a = u(rng), b = u(rng), c = u(rng);
      points.push_back({Eigen::Vector3f(a * 1e-3, b * 1e-3, c * 1e-3)});
      ++raster[Key(a, b, c)];
      continue;
    }
    int64_t a = s.Int(-range * 1000, range * 1000), b = s.Int(-range * 1000, range * 1000), c = s.Int(-range * 1000, range * 1000);
    points.push_back({Eigen::Vector3f(a * 1e-3, b * 1e-3, c * 1e-3)});
    ++raster[Key(a, b, c)];
  }
  if (n >= 500) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " points");
  const CompressedPointCloud c{PointCloud(points)};
  PBT_CHECK(Count(c.Decompress()) == raster);
  PBT_CHECK(Count(CompressedPointCloud(c.ToProto()).Decompress()) == raster);
}

PBT_FACET(bounds, o.weight = 0.0005; o.rule =
    "points near the documented limit of about 8.3 km are kept, points beyond it are refused; non-trivial: always") {
  s.NonTrivial();
  const bool inside = s.Bits(1);
  Eigen::Vector3f p(s.Real(-3., 3.), s.Real(-3., 3.), s.Real(-3., 3.));
  p[s.Bits(2)] = (s.Bits(1) ? 1.f : -1.f) * static_cast<float>(inside ? s.Real(8000., 8380.) : s.Real(8400., 9000.));
  if (s.Sampling()) s.Describe(std::to_string(p.x()) + " " + std::to_string(p.y()) + " " + std::to_string(p.z()));
  if (inside) {
    const PointCloud d = CompressedPointCloud(PointCloud({{p}})).Decompress();
    PBT_CHECK_EQ(d.size(), 1u);
    PBT_CHECK((d[0].position - p).cwiseAbs().maxCoeff() < 2.5e-3) << d[0].position.transpose();
  } else {
    PBT_CHECK_EQ(pbt::RunForked([&] { CompressedPointCloud c(PointCloud({{p}})); }), 1);
  }
}
