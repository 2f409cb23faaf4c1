// G03: inserting scans into a 2D signed-distance grid.
#include <map>

#include "geo.h"
#include "grid2d.h"

#include "cartographer/mapping/internal/2d/normal_estimation_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "cartographer/sensor/range_data.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::TSDF2D;

double Gauss(double x, double sigma) { return std::exp(-0.5 * x * x / (sigma * sigma)) / (std::sqrt(2. * M_PI) * sigma); }
double Wrap(double a) { return std::remainder(a, 2. * M_PI); }
}  // namespace

PBT_FACET(insertion, o.weight = 1; o.rule =
    "random sequences of scans (points at any height) inserted into random small signed-distance grids with random "
    "weighting options; the change of every cell is compared with an independent weighted-average oracle for the first "
    "ray that reaches it; non-trivial: >=2 scans, >=3 rays used, >=10 cells changed") {
  const double res = s.Pick(std::vector<double>{0.05, 0.1, 0.25, 1.});
  const float trunc = res * s.Pick(std::vector<double>{1., 2.5, 4.});
  const float max_weight = s.Pick(std::vector<float>{2.f, 10.f, 128.f});
  mapping::proto::TSDFRangeDataInserterOptions2D options;
  options.set_truncation_distance(trunc);
  options.set_maximum_weight(max_weight);
  const bool free_space = s.Bits(1), project = s.Chance(0.4);
  const int exponent = s.Weighted({2, 1, 1});
  const double ray_sigma = s.Chance(0.4) ? s.Real(0.3, 2.) : 0., hit_sigma = s.Chance(0.4) ? res * s.Real(1., 5.) : 0.;
  options.set_update_free_space(free_space);
  options.set_project_sdf_distance_to_scan_normal(project);
  options.set_update_weight_range_exponent(exponent);
  options.set_update_weight_angle_scan_normal_to_ray_kernel_bandwidth(ray_sigma);
  options.set_update_weight_distance_cell_to_hit_kernel_bandwidth(hit_sigma);
  options.mutable_normal_estimation_options()->set_num_normal_samples(s.Int(1, 6));
  options.mutable_normal_estimation_options()->set_sample_radius(res * s.Real(2., 10.));
  const mapping::TSDFRangeDataInserter2D inserter(options);
  const bool use_normals = project || ray_sigma != 0.;
  mapping::ValueConversionTables tables;
  const int nx = s.Int(1, 12), ny = s.Int(1, 12);
  const Eigen::Vector2d max(s.Real(-3., 3.), s.Real(-3., 3.));
  TSDF2D grid(mapping::MapLimits(res, max, mapping::CellLimits(nx, ny)), trunc, max_weight, &tables);
  const Eigen::Vector2d center = max - res * 0.5 * Eigen::Vector2d(ny, nx);
  const bool far = s.Chance(0.01);
  s.LabelIf(far, "far");
  const double reach = res * (far ? s.Int(40, 150) : s.Int(3, 12));
  const double tall = s.Chance(0.4) ? 0. : s.Chance(0.5) ? res : reach;
  const int scans = s.Len(1, 4);
  int used = 0, changed = 0;
  const double slack = 0.004 * res;
  for (int k = 0; k != scans; ++k) {
    sensor::RangeData data;
    data.origin = Eigen::Vector3f(center.x() + s.Real(-0.3, 0.3) * reach, center.y() + s.Real(-0.3, 0.3) * reach, s.Real(-tall, tall));
    std::vector<sensor::RangefinderPoint> r;
    const int hits = s.Len(0, 8);
    for (int i = 0; i != hits; ++i)
      r.push_back({Eigen::Vector3f(center.x() + s.Real(-reach, reach), center.y() + s.Real(-reach, reach), s.Real(-tall, tall))});
    data.returns = sensor::PointCloud(r);
    if (s.Chance(0.3)) data.misses.push_back({Eigen::Vector3f(center.x() + 100., center.y(), 0.f)});
    const Eigen::Vector2d origin = data.origin.head<2>().cast<double>();
    // Borderline rays are outside the oracle.
    for (const auto& p : r)
      if (std::abs((p.position.head<2>().cast<double>() - origin).norm() - trunc) < 1e-4 * res) throw pbt::Discard();
    std::vector<float> normals;
    if (use_normals) {
      auto angle = [&](const sensor::RangefinderPoint& p) { return std::atan2(double(p.position.y()) - data.origin.y(), double(p.position.x()) - data.origin.x()); };
      std::sort(r.begin(), r.end(), [&](const sensor::RangefinderPoint& a, const sensor::RangefinderPoint& b) { return angle(a) < angle(b); });
      for (size_t i = 0; i + 1 < r.size(); ++i)
        if (angle(r[i + 1]) - angle(r[i]) < 1e-3) throw pbt::Discard();
      for (const auto& p : r)
        if (std::abs(p.position.y() - data.origin.y()) < 1e-4) throw pbt::Discard();
      sensor::RangeData sorted = data;
      sorted.returns = sensor::PointCloud(r);
      normals = mapping::EstimateNormals(sorted, options.normal_estimation_options());
      PBT_CHECK_EQ(normals.size(), r.size());
    }
    const mapping::MapLimits before = grid.limits();
    const int bx = before.cell_limits().num_x_cells, by = before.cell_limits().num_y_cells;
    struct Old { bool known; float tsd, w; };
    std::vector<Old> old(bx * by);
    for (int y = 0; y != by; ++y)
      for (int x = 0; x != bx; ++x) old[y * bx + x] = {grid.IsKnown({x, y}), grid.GetTSD({x, y}), grid.GetWeight({x, y})};
    inserter.Insert(data, &grid);
    const mapping::MapLimits after = grid.limits();
    const Eigen::Array2i shift = grid2d::Shift(before, after);
    const int ax = after.cell_limits().num_x_cells, ay = after.cell_limits().num_y_cells;
    PBT_CHECK((shift >= 0).all() && shift.x() + bx <= ax && shift.y() + by <= ay) << "the grid lost cells";
    for (const auto& p : r)
      if ((p.position.head<2>().cast<double>() - origin).norm() > trunc) ++used;
    for (int y = 0; y != ay; ++y)
      for (int x = 0; x != ax; ++x) {
        const grid2d::Box box = grid2d::CellBox(after, {x, y});
        const Eigen::Vector2d c = 0.5 * (box.lo + box.hi);
        const Eigen::Array2i o = Eigen::Array2i(x, y) - shift;
        const bool had = before.Contains(o);
        const Old was = had ? old[o.y() * bx + o.x()] : Old{false, 0.f, 0.f};
        const bool now_known = grid.IsKnown({x, y});
        const float now = grid.GetTSD({x, y}), now_w = grid.GetWeight({x, y});
        if (!now_known) PBT_CHECK(now_w == 0.f);
        bool ok = false, open = true;
        std::ostringstream allowed;
        for (size_t i = 0; open && i != r.size(); ++i) {
          const Eigen::Vector2d hit = r[i].position.head<2>().cast<double>();
          const Eigen::Vector2d ray = hit - origin;
          const double range = ray.norm();
          if (range < trunc) continue;
          const Eigen::Vector2d begin = free_space ? origin : Eigen::Vector2d(hit - ray / range * trunc), end = hit + ray / range * trunc;
          const grid2d::Touch touch = grid2d::RayTouches(box, begin, end, slack);
          if (touch == grid2d::NO) continue;
          double tsd = range - (c - origin).norm();
          if (project) tsd = (c - hit).dot(Eigen::Vector2d(std::cos(normals[i]), std::sin(normals[i])));
          tsd = std::min<double>(trunc, std::max<double>(-trunc, tsd));
          double w = exponent == 0 ? 1. : 1. / std::pow(range, exponent);
          if (ray_sigma != 0.) w *= Gauss(Wrap(normals[i] - std::atan2(-ray.y(), -ray.x())), ray_sigma);
          if (hit_sigma != 0.) w *= Gauss(tsd, hit_sigma);
          if (w < 1e-30) { open = touch != grid2d::YES; ok = true; continue; }
          const double want_w = std::min<double>(max_weight, was.w + w);
          const double want = (was.tsd * double(was.w) + tsd * w) / (was.w + w);
          allowed << " ray " << i << " tsd " << want << " w " << want_w;
          if (now_known && std::abs(now_w - want_w) <= max_weight / 32766. + 1e-4 * want_w &&
              std::abs(now - want) <= 2. * trunc / 32766. + 1e-4 * trunc)
            ok = true;
          if (touch == grid2d::YES) open = false;
        }
        if (open && now_known == was.known && (!was.known || (now == was.tsd && now_w == was.w))) ok = true;
        if (!open) ++changed;
        PBT_CHECK(ok) << "cell " << x << "," << y << " was known " << was.known << " " << was.tsd << "," << was.w << " now known " << now_known << " "
                      << now << "," << now_w << " allowed:" << (open ? " unchanged" : "") << allowed.str();
      }
  }
  s.LabelIf(tall > 0, "points at different heights");
  s.LabelIf(use_normals, "normals");
  if (scans >= 2 && used >= 3 && changed >= 10) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(scans) + " scans, " + std::to_string(used) + " rays used, " + std::to_string(changed) + " cell updates");
}

PBT_FACET(normals, o.weight = 0.5; o.rule =
    "random straight walls and random clouds sorted by bearing: normals of a wall are perpendicular to it and face the "
    "sensor, every normal faces the sensor, and a lone point's normal points at the sensor; non-trivial: >=3 points") {
  mapping::proto::NormalEstimationOptions2D options;
  options.set_num_normal_samples(s.Int(1, 8));
  const bool wall = s.Bits(1);
  const Eigen::Vector2d origin(s.Real(-3., 3.), s.Real(-3., 3.));
  const double dir = GenAngle(s);
  const double dist = s.Real(0.5, 4.);
  const Eigen::Vector2d n(std::cos(dir), std::sin(dir)), t(-n.y(), n.x());
  const int count = s.Len(1, 15);
  std::vector<Eigen::Vector2d> points;
  for (int i = 0; i != count; ++i) {
    if (wall) points.push_back(origin + dist * n + s.Real(-4., 4.) * t);
    else points.push_back(origin + Eigen::Vector2d(s.Real(-4., 4.), s.Real(-4., 4.)));
  }
  // Sorted as seen from the sensor.
  std::sort(points.begin(), points.end(), [&](const Eigen::Vector2d& a, const Eigen::Vector2d& b) {
    return std::atan2((a - origin).y(), (a - origin).x()) < std::atan2((b - origin).y(), (b - origin).x());
  });
  options.set_sample_radius(s.LogReal(0.01, 10.));
  sensor::RangeData data;
  data.origin = Eigen::Vector3f(origin.x(), origin.y(), 0.f);
  for (const auto& p : points) data.returns.push_back({Eigen::Vector3f(p.x(), p.y(), 0.f)});
  const auto normals = mapping::EstimateNormals(data, options);
  PBT_CHECK_EQ(normals.size(), points.size());
  if (count >= 3) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(count) + (wall ? " points on a wall" : " points"));
  for (size_t i = 0; i != points.size(); ++i) {
    const Eigen::Vector2d to = origin - points[i];
    if (to.norm() < 1e-3) continue;
    double nearest = 1e9, gap = 1e9;
    for (size_t j = 0; j != points.size(); ++j)
      if (j != i) nearest = std::min(nearest, (points[i] - points[j]).norm()), gap = std::min(gap, std::abs((points[i] - points[j]).norm() - options.sample_radius()));
    const double toward = std::atan2(to.y(), to.x());
    if (nearest < 2e-3) continue;  // almost coincident points have no direction
    if (nearest > options.sample_radius() * 1.001) {
      PBT_CHECK(std::abs(Wrap(normals[i] - toward)) < 1e-3) << "a lone point's normal " << normals[i] << " want " << toward;
      continue;
    }
    const double facing = std::cos(normals[i] - toward);
    if (wall) {
      // Either perpendicular to the wall, or (no neighbour in reach) at the sensor.
      const bool perpendicular = std::abs(Wrap(normals[i] - std::atan2(-n.y(), -n.x()))) < 5e-3;
      const bool at_sensor = std::abs(Wrap(normals[i] - toward)) < 5e-3;
      bool neighbour = false;
      if (options.num_normal_samples() >= 2)
        for (int d : {-1, 1}) {
          const int j = int(i) + d;
          if (j < 0 || j >= int(points.size())) continue;
          if ((points[i] - points[j]).norm() < options.sample_radius() * 0.999) neighbour = true;
        }
      PBT_CHECK(perpendicular || (at_sensor && !neighbour)) << "normal " << normals[i] << " wall " << std::atan2(-n.y(), -n.x()) << " sensor " << toward;
    } else {
      // Points in line with the sensor say nothing about the side.
      bool in_line = false;
      for (size_t j = 0; j != points.size(); ++j) {
        if (j == i) continue;
        const Eigen::Vector2d d = points[j] - points[i];
        if (std::abs(d.x() * to.y() - d.y() * to.x()) < 0.02 * d.norm() * to.norm()) in_line = true;
      }
      if (in_line) continue;
      PBT_CHECK(facing > -2e-3) << "normal faces away: " << normals[i] << " sensor at " << toward;
    }
  }
}
