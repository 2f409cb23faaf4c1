// X04: scan matching by continuous optimization.
#include <functional>

#include "geo.h"

#include "ceres/ceres.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/tsdf_match_cost_function_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/intensity_cost_function_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/occupied_space_cost_function_3d.h"
#include "cartographer/mapping/value_conversion_tables.h"

namespace {
using namespace cartographer;
using namespace geo;
namespace sm = mapping::scan_matching;
using transform::Rigid2d;
using transform::Rigid3d;

// ---------------------------------------------------------------- 2D world
struct World2 {
  double res;
  Eigen::Vector2d max;
  int nx, ny;
  double truncation = 0.3;
  std::vector<double> cost, weight;
  mapping::ValueConversionTables tables;
  std::unique_ptr<mapping::Grid2D> grid;
  bool In(int x, int y) const { return x >= 0 && y >= 0 && x < nx && y < ny; }
};

void GenWorld(pbt::Source& s, bool tsdf, World2* w) {
  w->res = s.Pick(std::vector<double>{0.05, 0.1, 0.5, 1.});
  w->nx = s.Int(1, 10);
  w->ny = s.Int(1, 10);
  w->max = Eigen::Vector2d(s.Real(-5., 5.), s.Real(-5., 5.));
  const mapping::MapLimits limits(w->res, w->max, mapping::CellLimits(w->nx, w->ny));
  w->cost.assign(w->nx * w->ny, tsdf ? w->truncation : 0.9);
  w->weight.assign(w->nx * w->ny, 0.);
  const double density = s.Pick(std::vector<double>{0.3, 0.9, 1.});
  std::unique_ptr<mapping::TSDF2D> distance;
  std::unique_ptr<mapping::ProbabilityGrid> occupancy;
  if (tsdf) distance = std::make_unique<mapping::TSDF2D>(limits, w->truncation, 10.f, &w->tables);
  else occupancy = std::make_unique<mapping::ProbabilityGrid>(limits, &w->tables);
  for (int y = 0; y != w->ny; ++y) {
    for (int x = 0; x != w->nx; ++x) {
      if (!s.Chance(density)) continue;
      const Eigen::Array2i c(x, y);
      if (tsdf) {
        const double d = s.Real(-w->truncation, w->truncation), k = s.Real(0.1, 10.);
        distance->SetCell(c, d, k);
        w->cost[x + y * w->nx] = d;
        w->weight[x + y * w->nx] = k;
      } else {
        const double p = s.Chance(0.3) ? 0.9 : s.Real(0.1, 0.9);
        occupancy->SetProbability(c, p);
        w->cost[x + y * w->nx] = 1. - p;
      }
    }
  }
  if (tsdf) {
    distance->FinishUpdate();
    w->grid = std::move(distance);
  } else {
    occupancy->FinishUpdate();
    w->grid = std::move(occupancy);
  }
}

double Hermite(double p0, double p1, double p2, double p3, double t) {
  // Catmull-Rom through p1 (t = 0) and p2 (t = 1).
  const double m1 = (p2 - p0) / 2, m2 = (p3 - p1) / 2;
  const double t2 = t * t, t3 = t2 * t;
  return (2 * t3 - 3 * t2 + 1) * p1 + (t3 - 2 * t2 + t) * m1 + (-2 * t3 + 3 * t2) * p2 + (t3 - t2) * m2;
}

using Points = std::vector<Eigen::Vector3d>;
sensor::PointCloud Cloud(const Points& points) {
  sensor::PointCloud cloud;
  for (const auto& p : points) cloud.push_back({p.cast<float>()});
  return cloud;
}

// The residuals at a pose, from the definition.
std::vector<double> Occupied(const World2& w, const Points& points, double scale, const double* pose) {
  std::vector<double> out;
  for (const auto& q : points) {
    const double c = std::cos(pose[2]), sn = std::sin(pose[2]);
    const double x = c * q.x() - sn * q.y() + pose[0], y = sn * q.x() + c * q.y() + pose[1];
    const double fx = (w.max.y() - y) / w.res - 0.5, fy = (w.max.x() - x) / w.res - 0.5;
    const int ix = std::floor(fx), iy = std::floor(fy);
    double rows[4];
    for (int r = -1; r <= 2; ++r) {
      double v[4];
      for (int k = -1; k <= 2; ++k) v[k + 1] = w.In(ix + k, iy + r) ? w.cost[ix + k + (iy + r) * w.nx] : 0.9;
      rows[r + 1] = Hermite(v[0], v[1], v[2], v[3], fx - ix);
    }
    out.push_back(scale * Hermite(rows[0], rows[1], rows[2], rows[3], fy - iy));
  }
  return out;
}
// Returns false if no point has any weight. Discards points too close to where the interpolation cell changes.
bool Distance(const World2& w, const Points& points, double scale, const double* pose, std::vector<double>* out, double* border) {
  out->clear();
  double total = 0;
  for (const auto& q : points) {
    const double c = std::cos(pose[2]), sn = std::sin(pose[2]);
    const double x = c * q.x() - sn * q.y() + pose[0], y = sn * q.x() + c * q.y() + pose[1];
    const double fx = (w.max.y() - y) / w.res - 0.5, fy = (w.max.x() - x) / w.res - 0.5;
    const int ix = std::floor(fx), iy = std::floor(fy);
    const double tx = fx - ix, ty = fy - iy;
    *border = std::min({*border, tx, 1 - tx, ty, 1 - ty});
    double cost[2][2], weight[2][2];
    bool all = true;
    for (int a = 0; a < 2; ++a) {
      for (int b = 0; b < 2; ++b) {
        const bool in = w.In(ix + a, iy + b);
        cost[a][b] = in ? w.cost[ix + a + (iy + b) * w.nx] : w.truncation;
        weight[a][b] = in ? w.weight[ix + a + (iy + b) * w.nx] : 0;
        all &= weight[a][b] > 0;
      }
    }
    const auto mix = [&](double v[2][2]) {
      return (1 - tx) * ((1 - ty) * v[0][0] + ty * v[0][1]) + tx * ((1 - ty) * v[1][0] + ty * v[1][1]);
    };
    const double k = mix(weight), d = all ? mix(cost) : w.truncation;
    total += k;
    out->push_back(points.size() * scale * d * k);
  }
  if (total == 0) return false;
  for (double& v : *out) v /= total;
  return true;
}

Points GenPoints2(pbt::Source& s, const World2& w, int lo) {
  Points points;
  const double reach = s.Pick(std::vector<double>{3., 6., 12.}) * w.res;
  for (int n = s.Len(lo, 12); n > 0; --n)
    points.push_back(Eigen::Vector3d(float(s.Real(-reach, reach)), float(s.Real(-reach, reach)), float(s.Real(-1, 1))));
  return points;
}
void GenPose2(pbt::Source& s, const World2& w, double* pose) {
  pose[0] = w.max.x() - w.res * w.ny * s.Real(-0.1, 1.1);
  pose[1] = w.max.y() - w.res * w.nx * s.Real(-0.1, 1.1);
  pose[2] = GenAngle(s);
}
std::string Show(const std::vector<double>& v) {
  std::ostringstream os;
  for (double x : v) os << x << " ";
  return os.str();
}

// Compares a cost function with reference residuals and their numerical derivatives.
using Reference = std::function<std::vector<double>(const std::vector<std::vector<double>>&)>;
void Compare(const ceres::CostFunction& f, std::vector<std::vector<double>> at, const Reference& reference, double step, double tol, double dtol) {
  const std::vector<double> want = reference(at);
  const int n = want.size();
  PBT_CHECK_EQ(f.num_residuals(), n);
  std::vector<double> got(n + 1, 1e9);
  std::vector<const double*> parameters;
  std::vector<std::vector<double>> jacobian(at.size());
  std::vector<double*> jacobians;
  for (size_t b = 0; b < at.size(); ++b) {
    parameters.push_back(at[b].data());
    jacobian[b].resize(n * at[b].size() + 1);
    jacobians.push_back(jacobian[b].data());
  }
  PBT_CHECK(f.Evaluate(parameters.data(), got.data(), nullptr)) << "evaluation failed";
  for (int i = 0; i < n; ++i) PBT_CHECK(std::abs(got[i] - want[i]) <= tol) << "residual " << i << " is " << got[i] << " instead of " << want[i];
  PBT_CHECK(f.Evaluate(parameters.data(), got.data(), jacobians.data())) << "evaluation failed";
  for (int i = 0; i < n; ++i) PBT_CHECK(std::abs(got[i] - want[i]) <= tol) << "residual " << i << " with derivatives is " << got[i] << " instead of " << want[i];
  for (size_t b = 0; b < at.size(); ++b) {
    for (size_t k = 0; k < at[b].size(); ++k) {
      const double v = at[b][k];
      at[b][k] = v + step;
      const auto plus = reference(at);
      at[b][k] = v - step;
      const auto minus = reference(at);
      at[b][k] = v;
      for (int i = 0; i < n; ++i) {
        const double want_d = (plus[i] - minus[i]) / (2 * step), got_d = jacobian[b][i * at[b].size() + k];
        PBT_CHECK(std::abs(got_d - want_d) <= dtol * (1 + std::abs(want_d)))
            << "derivative of residual " << i << " by parameter " << b << "." << k << " is " << got_d << " instead of " << want_d;
      }
    }
  }
}

PBT_FACET(occupancy_cost, o.weight = 0.7; o.rule =
    "random occupancy grids, points and poses: each residual is the scaled bicubic interpolation of one minus the occupancy "
    "at the transformed point, 0.9 outside, and its derivatives agree; non-trivial: a point inside the grid") {
  World2 w;
  GenWorld(s, false, &w);
  const Points points = GenPoints2(s, w, 1);
  double pose[3];
  GenPose2(s, w, pose);
  const double scale = s.Pick(std::vector<double>{1., 0.1, 20.});
  const auto cloud = Cloud(points);
  std::unique_ptr<ceres::CostFunction> f(sm::CreateOccupiedSpaceCostFunction2D(scale, cloud, *w.grid));
  const auto at0 = Occupied(w, points, scale, pose);
  for (double v : at0) s.NonTrivial(std::abs(v - 0.9 * scale) > 1e-3 * scale);
  if (s.Sampling()) s.Describe("cells=" + std::to_string(w.nx) + "x" + std::to_string(w.ny) + " residuals " + Show(at0));
  Compare(*f, {{pose[0], pose[1], pose[2]}}, [&](const std::vector<std::vector<double>>& p) { return Occupied(w, points, scale, p[0].data()); },
          1e-4 * w.res, 2e-4 * scale, 2e-2 * scale / w.res);
}

PBT_FACET(distance_cost, o.weight = 0.7; o.rule =
    "random signed-distance grids, points and poses: each residual is the bilinearly interpolated distance (the truncation if a "
    "neighbour is unknown) weighted by the interpolated share of the weights; fails without any weight; non-trivial: weight found") {
  World2 w;
  GenWorld(s, true, &w);
  const Points points = GenPoints2(s, w, 1);
  double pose[3];
  GenPose2(s, w, pose);
  const double scale = s.Pick(std::vector<double>{1., 0.1, 20.});
  const auto cloud = Cloud(points);
  std::unique_ptr<ceres::CostFunction> f(sm::CreateTSDFMatchCostFunction2D(scale, cloud, static_cast<const mapping::TSDF2D&>(*w.grid)));
  std::vector<double> want;
  double border = 1;
  const bool ok = Distance(w, points, scale, pose, &want, &border);
  if (border < 2e-3) throw pbt::Discard();
  if (!ok) {
    std::vector<double> r(points.size() + 1);
    const double* parameters[] = {pose};
    PBT_CHECK(!f->Evaluate(parameters, r.data(), nullptr)) << "evaluated without any known cell";
    s.Label("no weight");
    return;
  }
  s.NonTrivial();
  if (s.Sampling()) s.Describe("cells=" + std::to_string(w.nx) + "x" + std::to_string(w.ny) + " residuals " + Show(want));
  double reach = 1;
  for (const auto& p : points) reach = std::max(reach, p.norm());
  const double size = points.size() * scale;
  Compare(*f, {{pose[0], pose[1], pose[2]}}, [&](const std::vector<std::vector<double>>& p) {
            std::vector<double> out;
            double unused = 1;
            if (!Distance(w, points, scale, p[0].data(), &out, &unused)) throw pbt::Discard();
            return out;
          }, 1e-5 * w.res / reach, 3e-3 * size, 0.1 * size / w.res);
}

// ---------------------------------------------------------------- 3D world
struct World3 {
  double res;
  std::unique_ptr<mapping::HybridGrid> grid;
  std::unique_ptr<mapping::IntensityHybridGrid> intensities;
  std::map<std::array<int, 3>, double> p, q;
};
void GenWorld3(pbt::Source& s, World3* w) {
  w->res = s.Pick(std::vector<double>{0.1, 0.5, 1.});
  w->grid = std::make_unique<mapping::HybridGrid>(w->res);
  w->intensities = std::make_unique<mapping::IntensityHybridGrid>(w->res);
  const int size = s.Int(1, 4);
  for (int n = s.Len(1, 40); n > 0; --n) {
    const std::array<int, 3> c{int(s.Int(-size, size)), int(s.Int(-size, size)), int(s.Int(-size, size))};
    if (w->p.count(c)) continue;
    const Eigen::Array3i i(c[0], c[1], c[2]);
    w->p[c] = s.Real(0.1, 0.9);
    w->grid->SetProbability(i, w->p[c]);
    const int readings = s.Int(0, 3);
    double sum = 0;
    for (int k = 0; k < readings; ++k) {
      const float v = s.Real(0., 100.);
      w->intensities->AddIntensity(i, v);
      sum += v;
    }
    if (readings) w->q[c] = sum / readings;
  }
}
double Blend(double t) { return (3 - 2 * t) * t * t; }
double Interpolate(const World3& w, const std::map<std::array<int, 3>, double>& cells, double unknown, const Eigen::Vector3d& world) {
  const Eigen::Vector3d f = world / w.res;
  double sum = 0;
  const int i[3] = {int(std::floor(f.x())), int(std::floor(f.y())), int(std::floor(f.z()))};
  for (int corner = 0; corner < 8; ++corner) {
    std::array<int, 3> c;
    double k = 1;
    for (int d = 0; d < 3; ++d) {
      const int up = (corner >> d) & 1;
      c[d] = i[d] + up;
      const double b = Blend(f[d] - i[d]);
      k *= up ? b : 1 - b;
    }
    const auto it = cells.find(c);
    sum += k * (it == cells.end() ? unknown : it->second);
  }
  return sum;
}
Rigid3d PoseOf(const std::vector<double>& t, const std::vector<double>& r) {
  return Rigid3d(Eigen::Vector3d(t[0], t[1], t[2]), Eigen::Quaterniond(r[0], r[1], r[2], r[3]));
}
std::vector<double> Occupied3(const World3& w, const Points& points, double scale, const Rigid3d& pose) {
  std::vector<double> out;
  for (const auto& p : points) out.push_back(scale * (1 - Interpolate(w, w.p, 0.1, pose * p)));
  return out;
}
std::vector<double> Intensity3(const World3& w, const Points& points, const std::vector<double>& values, double threshold, double scale, const Rigid3d& pose) {
  std::vector<double> out;
  for (size_t i = 0; i < points.size(); ++i)
    out.push_back(values[i] > threshold ? 0 : scale * (Interpolate(w, w.q, 0., pose * points[i]) - values[i]));
  return out;
}
struct Scan3 {
  Points points;
  std::vector<double> values;
  sensor::PointCloud cloud;
};
Scan3 GenScan3(pbt::Source& s, const World3& w, double threshold) {
  Scan3 scan;
  const double reach = s.Pick(std::vector<double>{2., 4.}) * w.res;
  std::vector<sensor::RangefinderPoint> points;
  std::vector<float> values;
  for (int n = s.Len(1, 12); n > 0; --n) {
    scan.points.push_back(Eigen::Vector3d(float(s.Real(-reach, reach)), float(s.Real(-reach, reach)), float(s.Real(-reach, reach))));
    const float v = s.Chance(0.2) ? threshold : s.Real(0., 100.);
    scan.values.push_back(v);
    values.push_back(v);
    points.push_back({scan.points.back().cast<float>()});
  }
  scan.cloud = sensor::PointCloud(points, values);
  return scan;
}

PBT_FACET(cost_3d, o.weight = 0.7; o.rule =
    "random 3D grids, points with intensities and poses: residuals are one minus the smoothly interpolated occupancy, and the "
    "difference of interpolated and measured intensity for points up to the threshold; derivatives agree; non-trivial: a known cell nearby") {
  World3 w;
  GenWorld3(s, &w);
  const float threshold = s.Real(10., 100.);
  const Scan3 scan = GenScan3(s, w, threshold);
  const double scale = s.Pick(std::vector<double>{1., 0.1, 20.});
  const Eigen::Vector3d t = GenVector(s, 2 * w.res);
  const Eigen::Quaterniond r = GenRotation(s);
  const std::vector<std::vector<double>> at{{t.x(), t.y(), t.z()}, {r.w(), r.x(), r.y(), r.z()}};
  const Rigid3d pose(t, r);
  for (double v : Occupied3(w, scan.points, 1., pose)) s.NonTrivial(v < 0.89);
  for (const auto& p : scan.points) {
    const Eigen::Vector3d f = (pose * p) / w.res;
    for (int d = 0; d < 3; ++d)
      if (std::abs(f[d] - std::round(f[d])) < 1e-3) throw pbt::Discard();
  }
  if (s.Sampling()) s.Describe("cells=" + std::to_string(w.p.size()) + " residuals " + Show(Occupied3(w, scan.points, scale, pose)));
  std::unique_ptr<ceres::CostFunction> f(sm::OccupiedSpaceCostFunction3D::CreateAutoDiffCostFunction(scale, scan.cloud, *w.grid));
  // Numerical derivatives are taken of the un-normalized quaternion, as the solver does.
  Compare(*f, at, [&](const std::vector<std::vector<double>>& p) { return Occupied3(w, scan.points, scale, PoseOf(p[0], p[1])); },
          1e-6 * w.res, 2e-4 * scale, 3e-2 * scale / w.res);
  std::unique_ptr<ceres::CostFunction> g(sm::IntensityCostFunction3D::CreateAutoDiffCostFunction(scale, threshold, scan.cloud, *w.intensities));
  Compare(*g, at, [&](const std::vector<std::vector<double>>& p) { return Intensity3(w, scan.points, scan.values, threshold, scale, PoseOf(p[0], p[1])); },
          1e-6 * w.res, 2e-2 * scale, 3. * scale / w.res);
}

double HalfSquares(const std::vector<double>& v) {
  double sum = 0;
  for (double x : v) sum += x * x;
  return sum / 2;
}

PBT_FACET(match_2d, o.weight = 0.6; o.rule =
    "random grids of both kinds, points, target translations, weights and initial poses: the initial and final costs are those "
    "of the weighted objective at the initial and the returned pose, and the cost does not grow; non-trivial: the pose was improved") {
  World2 w;
  const bool tsdf = s.Bits(1);
  GenWorld(s, tsdf, &w);
  const Points points = GenPoints2(s, w, 1);
  double pose[3];
  GenPose2(s, w, pose);
  sm::proto::CeresScanMatcherOptions2D options;
  options.set_occupied_space_weight(s.LogReal(0.1, 50.));
  options.set_translation_weight(s.LogReal(0.01, 50.));
  options.set_rotation_weight(s.LogReal(0.01, 50.));
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(s.Chance(0.3));
  options.mutable_ceres_solver_options()->set_max_num_iterations(s.Int(1, 30));
  options.mutable_ceres_solver_options()->set_num_threads(1);
  const Eigen::Vector2d target = Eigen::Vector2d(pose[0], pose[1]) + (s.Chance(0.3) ? Eigen::Vector2d::Zero().eval() : Eigen::Vector2d(s.Real(-1, 1), s.Real(-1, 1)));
  double border = 1;
  bool valid = true;
  double size = 0;
  int turns = 0;
  const double initial_angle = Rigid2d({0., 0.}, pose[2]).rotation().angle();
  const auto objective = [&](const double* p) {
    const double scale = options.occupied_space_weight() / std::sqrt(double(points.size()));
    std::vector<double> r;
    if (tsdf) valid = Distance(w, points, scale, p, &r, &border);
    else r = Occupied(w, points, scale, p);
    size = 0;
    for (double v : r) size += std::abs(v);
    double sum = HalfSquares(r);
    sum += HalfSquares({options.translation_weight() * (p[0] - target.x()), options.translation_weight() * (p[1] - target.y())});
    sum += HalfSquares({options.rotation_weight() * (p[2] - initial_angle + 2 * M_PI * turns)});
    return sum;
  };
  const sm::CeresScanMatcher2D matcher(options);
  Rigid2d result({1e6, 1e6}, 0.3);
  ceres::Solver::Summary summary;
  const Rigid2d initial({pose[0], pose[1]}, pose[2]);
  const auto cloud = Cloud(points);
  const double before = objective(pose);
  const double tol_before = (tsdf ? 3e-3 : 3e-4) * options.occupied_space_weight() * size + 1e-4;
  if (!valid || border < 1e-3) throw pbt::Discard();
  matcher.Match(target, initial, cloud, *w.grid, &result, &summary);
  const double after_pose[3] = {result.translation().x(), result.translation().y(), result.rotation().angle()};
  if (s.Sampling()) s.Describe(std::string(tsdf ? "distances" : "occupancy") + " points=" + std::to_string(points.size()) + " cost " + std::to_string(before) + " -> " + std::to_string(summary.final_cost));
  PBT_CHECK(std::abs(summary.initial_cost - before) <= tol_before + 1e-5 * before) << "initial cost " << summary.initial_cost << " instead of " << before;
  double after = objective(after_pose);
  // The returned angle may or may not be normalized.
  for (const int k : {-1, 1}) {
    turns = k;
    const double other = objective(after_pose);
    if (std::abs(summary.final_cost - other) < std::abs(summary.final_cost - after)) after = other;
  }
  if (!valid || border < 1e-3) throw pbt::Discard();
  const double tol_after = (tsdf ? 3e-3 : 3e-4) * options.occupied_space_weight() * size + 1e-4;
  PBT_CHECK(std::abs(summary.final_cost - after) <= tol_after + 1e-4 * after) << "final cost " << summary.final_cost << " but the returned pose has " << after;
  PBT_CHECK(after <= before * 1.0001 + tol_before + tol_after) << "cost grew from " << before << " to " << after;
  s.NonTrivial(after < 0.99 * before);
}

PBT_FACET(match_3d, o.weight = 0.6; o.rule =
    "one or two random 3D grids and scans, with or without intensities and yaw restriction: the initial and final costs are those "
    "of the weighted objective at the initial and the returned pose, the cost does not grow and the tilt stays if only yaw is free; "
    "non-trivial: the pose was improved") {
  const int n = s.Int(1, 2);
  std::vector<World3> worlds(n);
  std::vector<Scan3> scans(n);
  sm::proto::CeresScanMatcherOptions3D options;
  std::vector<sm::PointCloudAndHybridGridsPointers> inputs;
  std::vector<double> thresholds;
  std::vector<bool> intensities;
  for (int i = 0; i < n; ++i) {
    GenWorld3(s, &worlds[i]);
    const float threshold = s.Real(10., 100.);
    thresholds.push_back(threshold);
    scans[i] = GenScan3(s, worlds[i], threshold);
    options.add_occupied_space_weight(s.LogReal(0.1, 50.));
    auto* io = options.add_intensity_cost_function_options();
    io->set_weight(s.LogReal(0.01, 2.));
    io->set_huber_scale(s.LogReal(0.1, 20.));
    io->set_intensity_threshold(threshold);
    intensities.push_back(s.Bits(1));
  }
  for (int i = 0; i < n; ++i)
    inputs.push_back({&scans[i].cloud, worlds[i].grid.get(), intensities[i] ? worlds[i].intensities.get() : nullptr});
  options.set_translation_weight(s.LogReal(0.01, 50.));
  options.set_rotation_weight(s.LogReal(0.01, 50.));
  const bool yaw_only = s.Chance(0.4);
  options.set_only_optimize_yaw(yaw_only);
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(s.Chance(0.3));
  options.mutable_ceres_solver_options()->set_max_num_iterations(s.Int(1, 20));
  options.mutable_ceres_solver_options()->set_num_threads(1);
  const Rigid3d initial(GenVector(s, 1.), GenRotation(s));
  const Eigen::Vector3d target = initial.translation() + (s.Chance(0.3) ? Eigen::Vector3d::Zero().eval() : GenVector(s, 1.));
  double border = 1;
  double size = 0;
  const auto objective = [&](const Rigid3d& pose) {
    double sum = 0;
    size = 0;
    for (int i = 0; i < n; ++i) {
      const double root = std::sqrt(double(scans[i].points.size()));
      for (const auto& p : scans[i].points) {
        const Eigen::Vector3d f = (pose * p) / worlds[i].res;
        for (int d = 0; d < 3; ++d) border = std::min(border, std::abs(f[d] - std::round(f[d])));
      }
      const double part = HalfSquares(Occupied3(worlds[i], scans[i].points, options.occupied_space_weight(i) / root, pose));
      sum += part;
      size += part;
      if (!intensities[i]) continue;
      const auto& io = options.intensity_cost_function_options(i);
      const double sq = 2 * HalfSquares(Intensity3(worlds[i], scans[i].points, scans[i].values, thresholds[i], io.weight() / root, pose));
      const double a = io.huber_scale();
      const double loss = (sq <= a * a ? sq : 2 * a * std::sqrt(sq) - a * a) / 2;
      sum += loss;
      size += loss;
    }
    const double k = options.translation_weight();
    sum += HalfSquares({k * (pose.translation().x() - target.x()), k * (pose.translation().y() - target.y()), k * (pose.translation().z() - target.z())});
    const Eigen::Quaterniond d = initial.rotation().conjugate() * pose.rotation();
    const double q = options.rotation_weight();
    sum += HalfSquares({q * d.x(), q * d.y(), q * d.z()});
    return sum;
  };
  const double before = objective(initial);
  const double tol_before = 1e-3 * size + 1e-4;
  if (border < 1e-4) throw pbt::Discard();
  const sm::CeresScanMatcher3D matcher(options);
  Rigid3d result(Eigen::Vector3d(1e6, 1e6, 0), Eigen::Quaterniond::Identity());
  ceres::Solver::Summary summary;
  matcher.Match(target, initial, inputs, &result, &summary);
  if (s.Sampling()) s.Describe("scans=" + std::to_string(n) + (yaw_only ? " yaw only" : "") + " cost " + std::to_string(before) + " -> " + std::to_string(summary.final_cost));
  PBT_CHECK(std::abs(summary.initial_cost - before) <= tol_before + 1e-5 * before) << "initial cost " << summary.initial_cost << " instead of " << before;
  const double after = objective(result);
  if (border < 1e-4) throw pbt::Discard();
  const double tol_after = 1e-3 * size + 1e-4;
  PBT_CHECK(std::abs(summary.final_cost - after) <= tol_after + 1e-4 * after) << "final cost " << summary.final_cost << " but the returned pose has " << after;
  PBT_CHECK(after <= before * 1.0001 + tol_before + tol_after) << "cost grew from " << before << " to " << after;
  PBT_CHECK(std::abs(result.rotation().norm() - 1) < 1e-6) << "not a rotation";
  if (yaw_only) {
    const Eigen::Quaterniond turn = result.rotation() * initial.rotation().conjugate();
    PBT_CHECK(std::hypot(turn.x(), turn.y()) < 1e-6) << "tilt changed although only yaw may";
  }
  s.NonTrivial(after < 0.99 * before);
}
}  // namespace
