// X01: correlative scan matching in 2D.
#include "geo.h"

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/value_conversion_tables.h"

namespace {
using namespace cartographer;
using namespace geo;
namespace sm = mapping::scan_matching;
using transform::Rigid2d;

struct World {
  double res;
  Eigen::Vector2d max;
  int nx, ny;
  std::vector<double> value;   // score in [0, 1] style of each known cell, else 'background'
  std::vector<double> weight;  // signed distances only
  double background;
  mapping::ValueConversionTables tables;
  std::unique_ptr<mapping::ProbabilityGrid> occupancy;
  std::unique_ptr<mapping::TSDF2D> distance;
  int At(int x, int y) const { return x < 0 || y < 0 || x >= nx || y >= ny ? -1 : x + y * nx; }
};

// A cheap source of bulk detail (big grids, long scans) behind one drawn seed.
struct Bulk {
  uint64_t state;
  double Next() {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<double>(state >> 11) / 9007199254740992.;
  }
};

void GenWorld(pbt::Source& s, int size, bool tsdf, World* w, int min_size = 1) {
  w->res = s.Pick(std::vector<double>{0.05, 0.1, 0.5, 1.});
  w->nx = s.Int(min_size, size);
  w->ny = s.Int(min_size, size);
  const bool big = w->nx * w->ny > 1000;
  Bulk bulk{big ? static_cast<uint64_t>(s.Bits(1 << 20)) : 0};
  const auto chance = [&](double p) { return big ? bulk.Next() < p : s.Chance(p); };
  const auto real = [&](double a, double b) { return big ? a + (b - a) * bulk.Next() : s.Real(a, b); };
  w->max = Eigen::Vector2d(s.Real(-5., 5.), s.Real(-5., 5.));
  const mapping::MapLimits limits(w->res, w->max, mapping::CellLimits(w->nx, w->ny));
  w->background = tsdf ? 0. : mapping::kMinProbability;
  w->value.assign(w->nx * w->ny, w->background);
  w->weight.assign(w->nx * w->ny, 0.);
  const double density = s.Pick(std::vector<double>{0.02, 0.1, 0.5, 1.});
  const float truncation = 0.3f;
  if (tsdf) {
    w->distance = std::make_unique<mapping::TSDF2D>(limits, truncation, 10.f, &w->tables);
  } else {
    w->occupancy = std::make_unique<mapping::ProbabilityGrid>(limits, &w->tables);
  }
  for (int y = 0; y != w->ny; ++y) {
    for (int x = 0; x != w->nx; ++x) {
      if (!chance(density)) continue;
      const Eigen::Array2i c(x, y);
      if (tsdf) {
        w->distance->SetCell(c, real(-truncation, truncation), real(0.1, 10.));
        w->weight[w->At(x, y)] = w->distance->GetWeight(c);
        w->value[w->At(x, y)] = 1. - std::abs(w->distance->GetTSD(c)) / truncation;
      } else {
        w->occupancy->SetProbability(c, chance(0.5) ? 0.9 : real(0.1, 0.9));
        w->value[w->At(x, y)] = w->occupancy->GetProbability(c);
      }
    }
  }
  if (tsdf) {
    w->distance->FinishUpdate();
  } else {
    w->occupancy->FinishUpdate();
  }
}

// The score of 'points' at a pose, as an interval: points next to a cell border may count either way.
struct Interval { double lo, hi; };
Interval Score(const World& w, const std::vector<Eigen::Vector2d>& points, const Rigid2d& pose, bool tsdf) {
  double lo = 0, hi = 0, wlo = 0, whi = 0;
  const double c = pose.rotation().toRotationMatrix()(0, 0), sn = pose.rotation().toRotationMatrix()(1, 0);
  const double slack = 2e-3;
  bool sure = true;
  for (const auto& q : points) {
    const double px = c * q.x() - sn * q.y() + pose.translation().x(), py = sn * q.x() + c * q.y() + pose.translation().y();
    // Rows count down from the maximum; x of the cell goes with y of the point.
    const double fx = (w.max.y() - py) / w.res, fy = (w.max.x() - px) / w.res;
    double a = 1e9, b = -1e9;
    double wa = 1e9, wb = -1e9;
    for (int ex : {-1, 1}) {
      for (int ey : {-1, 1}) {
        const int i = w.At(static_cast<int>(std::floor(fx + ex * slack)), static_cast<int>(std::floor(fy + ey * slack)));
        const double v = i < 0 ? w.background : w.value[i], k = i < 0 ? 0. : w.weight[i];
        a = std::min(a, tsdf ? v * k : v);
        b = std::max(b, tsdf ? v * k : v);
        wa = std::min(wa, k);
        wb = std::max(wb, k);
      }
    }
    if (a != b || wa != wb) sure = false;
    lo += a;
    hi += b;
    wlo += wa;
    whi += wb;
  }
  if (!tsdf) return {lo / points.size(), hi / points.size()};
  if (sure) return wlo == 0. ? Interval{0, 0} : Interval{lo / wlo, hi / wlo};
  return {whi == 0. ? 0. : lo / whi, 1.};
}

std::vector<Eigen::Vector2d> GenPoints(pbt::Source& s, const World& w, double reach_cells) {
  std::vector<Eigen::Vector2d> result;
  if (s.Chance(0.03)) {  // a scan of realistic size
    const int n = s.Int(90, 700);
    Bulk bulk{static_cast<uint64_t>(s.Bits(1 << 20))};
    for (int i = 0; i != n; ++i) {
      const double x = bulk.Next() * 2. - 1., y = bulk.Next() * 2. - 1.;
      result.push_back(Eigen::Vector2d(x, y) * (reach_cells * w.res));
    }
    return result;
  }
  const int n = s.Int(1, 12);
  for (int i = 0; i != n; ++i) result.push_back(Eigen::Vector2d(s.Real(-1., 1.), s.Real(-1., 1.)) * (reach_cells * w.res));
  return result;
}
sensor::PointCloud Cloud(const std::vector<Eigen::Vector2d>& points) {
  sensor::PointCloud cloud;
  for (const auto& p : points) cloud.push_back({Eigen::Vector3f(p.x(), p.y(), 0.3f)});
  return cloud;
}
std::vector<Eigen::Vector2d> AsFloat(const std::vector<Eigen::Vector2d>& points) {
  std::vector<Eigen::Vector2d> result;
  for (const auto& p : points) result.push_back(p.cast<float>().cast<double>());
  return result;
}
// Largest rotation that moves no point by more than a cell, as documented.
double AngleStep(const World& w, const std::vector<Eigen::Vector2d>& points) {
  double range = 3. * w.res;
  for (const auto& p : points) range = std::max(range, p.norm());
  return (1. - 1e-3) * std::acos(1. - w.res * w.res / (2. * range * range));
}
double AngleTo(const Rigid2d& a, const Rigid2d& b) {
  return std::remainder(b.rotation().angle() - a.rotation().angle(), 2 * M_PI);
}
}  // namespace

PBT_FACET(window_search, o.weight = 1; o.rule =
    "random occupancy grids, scans, poses, windows, depths and minimum scores: the search finds a pose iff one in the "
    "window scores higher, the returned score is that of the returned pose, and no pose on the search lattice scores "
    "higher; non-trivial: >=100 candidates, >=3 points, depth >=2, a match found") {
  World w;
  GenWorld(s, s.Chance(0.02) ? 120 : 24, false, &w);
  const auto points = AsFloat(GenPoints(s, w, s.Chance(0.05) ? 80. : s.Pick(std::vector<double>{1., 2., 6., 12.})));
  sm::proto::FastCorrelativeScanMatcherOptions2D o;
  const double linear = w.res * s.Real(0., 8.), step = AngleStep(w, points), angular = step * (s.Int(0, 5) + s.Real(0.05, 0.95));
  o.set_linear_search_window(linear);
  o.set_angular_search_window(angular);
  o.set_branch_and_bound_depth(s.Int(1, 6));
  const double cx = w.max.x() - w.res * w.ny / 2., cy = w.max.y() - w.res * w.nx / 2.;
  const Rigid2d initial({cx + s.Real(-1., 1.) * w.res * w.ny / 2, cy + s.Real(-1., 1.) * w.res * w.nx / 2}, GenAngle(s));
  const float min_score = s.Chance(0.2) ? 0.f : s.Real(0.05, 0.9);
  const sm::FastCorrelativeScanMatcher2D matcher(*w.occupancy, o);
  float score = -1.f;
  Rigid2d got({100., 200.}, 0.5);
  const bool found = matcher.Match(initial, Cloud(points), min_score, &score, &got);
  const int nl = std::ceil(linear / w.res), na = std::ceil(angular / step);
  // How deep the bounds are stacked changes how fast the best pose is found, not its score.
  {
    sm::proto::FastCorrelativeScanMatcherOptions2D other = o;
    other.set_branch_and_bound_depth(o.branch_and_bound_depth() == 1 ? 4 : 1);
    const sm::FastCorrelativeScanMatcher2D flat(*w.occupancy, other);
    float flat_score = -1.f;
    Rigid2d flat_pose;
    const bool flat_found = flat.Match(initial, Cloud(points), min_score, &flat_score, &flat_pose);
    PBT_CHECK_EQ(found, flat_found) << "depth " << o.branch_and_bound_depth() << " and depth " << other.branch_and_bound_depth() << " disagree";
    PBT_CHECK(std::abs(score - flat_score) < 1e-6) << "depth " << o.branch_and_bound_depth() << " finds " << score << ", depth " << other.branch_and_bound_depth() << " finds " << flat_score;
  }
  double best = 0;
  for (int a = -na; a <= na; ++a) {
    for (int x = -nl; x <= nl; ++x) {
      for (int y = -nl; y <= nl; ++y) {
        const Rigid2d pose({initial.translation().x() + x * w.res, initial.translation().y() + y * w.res}, initial.rotation() * Eigen::Rotation2Dd(a * step));
        best = std::max(best, Score(w, points, pose, false).lo);
      }
    }
  }
  if (found) {
    PBT_CHECK(score > min_score) << "score " << score << " not above the minimum " << min_score;
    const Interval at = Score(w, points, got, false);
    PBT_CHECK(score > at.lo - 0.003 && score < at.hi + 0.003) << "score " << score << " but the returned pose scores " << at.lo << ".." << at.hi;
    PBT_CHECK(score > best - 0.004) << "score " << score << " but a pose in the window scores " << best;
    PBT_CHECK(std::abs(got.translation().x() - initial.translation().x()) < nl * w.res + 1e-6) << "outside the window";
    PBT_CHECK(std::abs(got.translation().y() - initial.translation().y()) < nl * w.res + 1e-6) << "outside the window";
    PBT_CHECK(std::abs(AngleTo(initial, got)) < na * step + 1e-4 || na * step > M_PI) << "outside the angular window";
  } else {
    PBT_CHECK(best < min_score + 0.004) << "nothing found above " << min_score << " but a pose scores " << best;
    PBT_CHECK(score == -1.f && got.translation().x() == 100.) << "results changed though nothing was found";
  }
  if (found && points.size() >= 3 && (2 * nl + 1) * (2 * nl + 1) * (2 * na + 1) >= 100 && o.branch_and_bound_depth() >= 2) s.NonTrivial();
  s.LabelIf(found, "found");
  if (s.Sampling()) s.Describe(std::to_string(w.nx) + "x" + std::to_string(w.ny) + " cells, " + std::to_string(points.size()) + " points, " + std::to_string(2 * nl + 1) + "^2x" + std::to_string(2 * na + 1) + " poses, best " + std::to_string(best));
}

PBT_FACET(full_search, o.weight = 0.5; o.case_timeout_s = 30; o.rule =
    "random occupancy grids and scans searched over the whole submap and all rotations: no pose that puts a point into the "
    "submap scores higher; non-trivial: >=3 points, a match found") {
  World w;
  GenWorld(s, 14, false, &w);
  const auto points = AsFloat(GenPoints(s, w, s.Pick(std::vector<double>{2., 4., 6.})));
  if (points.size() > 50) throw pbt::Discard();
  sm::proto::FastCorrelativeScanMatcherOptions2D o;
  o.set_linear_search_window(0.1);
  o.set_angular_search_window(0.1);
  o.set_branch_and_bound_depth(s.Int(1, 6));
  const float min_score = s.Real(0.05, 0.8);
  const sm::FastCorrelativeScanMatcher2D matcher(*w.occupancy, o);
  float score = -1.f;
  Rigid2d got({1e3, 1e3}, 0.);
  const bool found = matcher.MatchFullSubmap(Cloud(points), min_score, &score, &got);
  const double step = AngleStep(w, points);
  const int na = std::ceil(M_PI / step);
  double best = 0;
  // Offsets around the middle that can bring all cells under any point.
  const Rigid2d center = Rigid2d::Translation(Eigen::Vector2d(w.max.x() - 0.5 * w.res * w.ny, w.max.y() - 0.5 * w.res * w.nx));
  double range = 0;
  for (const auto& p : points) range = std::max(range, p.norm());
  const int rx = std::ceil(range / w.res + w.ny / 2.) + 1, ry = std::ceil(range / w.res + w.nx / 2.) + 1;
  for (int a = -na; a <= na; ++a) {
    const Rigid2d turned({0., 0.}, a * step);
    std::vector<Eigen::Vector2d> rotated;
    for (const auto& p : points) rotated.push_back(turned * p);
    for (int x = -rx; x <= rx; ++x) {
      for (int y = -ry; y <= ry; ++y) {
        best = std::max(best, Score(w, rotated, Rigid2d::Translation(Eigen::Vector2d(center.translation().x() + x * w.res, center.translation().y() + y * w.res)), false).lo);
      }
    }
  }
  if (found) {
    const Interval at = Score(w, points, got, false);
    PBT_CHECK(score > min_score);
    PBT_CHECK(score > at.lo - 0.003 && score < at.hi + 0.003) << "score " << score << " but the returned pose scores " << at.lo << ".." << at.hi;
    PBT_CHECK(score > best - 0.004) << "score " << score << " but a pose scores " << best;
  } else {
    PBT_CHECK(best < min_score + 0.004) << "nothing found above " << min_score << " but a pose scores " << best;
  }
  if (found && points.size() >= 3) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(w.nx) + "x" + std::to_string(w.ny) + " cells, " + std::to_string(points.size()) + " points, best " + std::to_string(best));
}

PBT_FACET(planted, o.weight = 0.05; o.case_timeout_s = 60; o.rule =
    "maps of realistic size (up to 420 cells a side, walls and clutter) and scans of 40..500 points that see occupied cells "
    "from a pose on the search lattice: the search of a window or of the whole submap finds a pose that scores at least "
    "as high; non-trivial: >=100 points, a side of >=100 cells, the planted pose >=10 cells away from where the search starts") {
  World w;
  const bool full = s.Chance(0.6);
  w.res = s.Pick(std::vector<double>{0.05, 0.1, 0.5});
  w.nx = s.Chance(0.3) ? s.Int(2, 40) : s.Int(60, 420);
  w.ny = s.Chance(0.3) ? s.Int(2, 40) : s.Int(60, 420);
  w.max = Eigen::Vector2d(s.Real(-50., 50.), s.Real(-50., 50.));
  w.background = mapping::kMinProbability;
  w.value.assign(w.nx * w.ny, w.background);
  w.weight.assign(w.nx * w.ny, 0.);
  w.occupancy = std::make_unique<mapping::ProbabilityGrid>(mapping::MapLimits(w.res, w.max, mapping::CellLimits(w.nx, w.ny)), &w.tables);
  std::vector<Eigen::Array2i> seen;
  Bulk bulk{static_cast<uint64_t>(s.Bits(1 << 20))};
  const auto mark = [&](int x, int y) {
    if (w.At(x, y) < 0 || w.value[w.At(x, y)] != w.background) return;
    w.occupancy->SetProbability({x, y}, 0.6 + 0.3 * bulk.Next());
    w.value[w.At(x, y)] = w.occupancy->GetProbability({x, y});
    seen.push_back({x, y});
  };
  const int walls = s.Len(1, 5);
  for (int k = 0; k != walls; ++k) {
    const double x0 = bulk.Next() * w.nx, y0 = bulk.Next() * w.ny, x1 = bulk.Next() * w.nx, y1 = bulk.Next() * w.ny;
    for (int i = 0; i <= 300; ++i) mark(std::floor(x0 + (x1 - x0) * i / 300.), std::floor(y0 + (y1 - y0) * i / 300.));
  }
  const int clutter = s.Int(1, 60);
  for (int k = 0; k != clutter; ++k) mark(std::floor(bulk.Next() * w.nx), std::floor(bulk.Next() * w.ny));
  w.occupancy->FinishUpdate();
  // The lattice: where the search starts, and the offset at which the scan is taken.
  const Rigid2d start = full ? Rigid2d::Translation(Eigen::Vector2d(w.max.x() - 0.5 * w.res * w.ny, w.max.y() - 0.5 * w.res * w.nx))
                             : Rigid2d({w.max.x() - w.res * s.Int(-20, w.ny + 20) + 0.3 * w.res, w.max.y() - w.res * s.Int(-20, w.nx + 20) + 0.4 * w.res}, GenAngle(s));
  const int reach = full ? 0 : s.Int(1, 40);
  const int ox = full ? s.Int(-w.ny / 2, w.ny / 2) : s.Int(-reach, reach), oy = full ? s.Int(-w.nx / 2, w.nx / 2) : s.Int(-reach, reach);
  const Eigen::Vector2d from = start.translation() + w.res * Eigen::Vector2d(ox, oy);
  const int n = s.Int(40, 500);
  const double farthest = w.res * (s.Bits(1) ? 100. : 700.);
  std::vector<Eigen::Vector2d> offsets;
  for (int k = 0; k < 4 * n && static_cast<int>(offsets.size()) < n; ++k) {
    const auto& c = seen[std::min(seen.size() - 1, static_cast<size_t>(bulk.Next() * seen.size()))];
    const Eigen::Vector2d at(w.max.x() - w.res * (c.y() + 0.5), w.max.y() - w.res * (c.x() + 0.5));
    if ((at - from).norm() < farthest) offsets.push_back(at - from);
  }
  if (offsets.size() < 20) throw pbt::Discard();
  const double step = AngleStep(w, AsFloat(offsets));
  const int na = full ? std::ceil(M_PI / step) : s.Int(1, 30);
  const int turn = s.Int(-na, na);
  const Rigid2d planted(from, start.rotation() * Eigen::Rotation2Dd(turn * step));
  std::vector<Eigen::Vector2d> points;
  for (const auto& offset : offsets) points.push_back(planted.rotation().inverse() * offset);
  points = AsFloat(points);
  sm::proto::FastCorrelativeScanMatcherOptions2D o;
  o.set_linear_search_window(full ? 1. : reach * w.res);
  o.set_angular_search_window(full ? 0.1 : na * step);
  o.set_branch_and_bound_depth(s.Int(5, 8));
  const sm::FastCorrelativeScanMatcher2D matcher(*w.occupancy, o);
  const float min_score = s.Pick(std::vector<float>{0.35f, 0.5f, 0.55f});
  const Interval want = Score(w, points, planted, false);
  float score = -1.f;
  Rigid2d got;
  const bool found = full ? matcher.MatchFullSubmap(Cloud(points), min_score, &score, &got)
                          : matcher.Match(start, Cloud(points), min_score, &score, &got);
  // The returned and the planted pose fall between the same multiples of the angular step only up to rounding: points
  // far out may land in a neighbouring cell, which the interval accounts for.
  PBT_CHECK(found || want.lo < min_score + 0.004) << points.size() << " points score " << want.lo << " at a pose in the window, but nothing is found";
  if (found) {
    const Interval at = Score(w, points, got, false);
    PBT_CHECK(score > want.lo - 0.004) << "score " << score << " but a pose in the window scores " << want.lo;
    PBT_CHECK(score > at.lo - 0.003 && score < at.hi + 0.003) << "score " << score << " but the returned pose scores " << at.lo << ".." << at.hi;
  }
  s.LabelIf(want.lo > 0.55, "score to reach > 0.55");
  if (points.size() >= 100 && std::max(w.nx, w.ny) >= 100 && std::max(std::abs(ox), std::abs(oy)) >= 10) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::string(full ? "whole submap" : "window") + ", " + std::to_string(w.nx) + "x" + std::to_string(w.ny) + " cells, " + std::to_string(points.size()) + " points, planted score " + std::to_string(want.lo));
}

PBT_FACET(bounds, o.weight = 0.5; o.rule =
    "random grids of both kinds and widths: each cell of the precomputed grid bounds, and is attained by, the cells of its "
    "square, outside it is the minimum; non-trivial: width >=2") {
  World w;
  const bool tsdf = s.Bits(1);
  GenWorld(s, s.Chance(0.05) ? 150 : 20, tsdf, &w);
  const mapping::Grid2D& grid = tsdf ? static_cast<const mapping::Grid2D&>(*w.distance) : *w.occupancy;
  std::vector<float> reusable;
  const int width = s.Int(1, 40);
  const sm::PrecomputationGrid2D p(grid, grid.limits().cell_limits(), width, &reusable);
  const double lo = 1. - grid.GetMaxCorrespondenceCost(), hi = 1. - grid.GetMinCorrespondenceCost(), quantum = (hi - lo) / 255.;
  const int probes = s.Len(1, 40);
  for (int k = 0; k != probes; ++k) {
    const int x = s.Int(-width - 2, w.nx + 2), y = s.Int(-width - 2, w.ny + 2);
    double best = lo;
    for (int cx = std::max(0, x); cx < std::min(w.nx, x + width); ++cx)
      for (int cy = std::max(0, y); cy < std::min(w.ny, y + width); ++cy)
        best = std::max(best, 1. - std::abs(grid.GetCorrespondenceCost({cx, cy})));
    const double got = p.ToScore(p.GetValue({x, y}));
    PBT_CHECK(std::abs(got - best) < 0.51 * quantum + 1e-5) << "width " << width << " at " << x << "," << y << ": " << got << " want " << best;
  }
  if (width >= 2) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::string(tsdf ? "distance" : "occupancy") + " grid " + std::to_string(w.nx) + "x" + std::to_string(w.ny) + ", width " + std::to_string(width));
}

PBT_FACET(real_time, o.weight = 1; o.rule =
    "random grids of both kinds, scans, windows and penalties: the returned pose is in the window, its penalized score is "
    "returned, and no pose on the lattice scores higher; non-trivial: >=50 candidates, >=3 points, best pose not the "
    "initial one") {
  World w;
  const bool tsdf = s.Bits(1);
  GenWorld(s, s.Chance(0.02) ? 120 : 24, tsdf, &w);
  const mapping::Grid2D& grid = tsdf ? static_cast<const mapping::Grid2D&>(*w.distance) : *w.occupancy;
  const auto points = AsFloat(GenPoints(s, w, s.Chance(0.05) ? 80. : s.Pick(std::vector<double>{1., 2., 6., 12.})));
  sm::proto::RealTimeCorrelativeScanMatcherOptions o;
  const double linear = w.res * s.Real(0., 6.), step = AngleStep(w, points), angular = step * (s.Int(0, 4) + s.Real(0.05, 0.95));
  const double wt = s.Chance(0.3) ? 0. : s.Real(0., 1.) / w.res, wr = s.Chance(0.3) ? 0. : s.Real(0., 5.);
  o.set_linear_search_window(linear);
  o.set_angular_search_window(angular);
  o.set_translation_delta_cost_weight(wt);
  o.set_rotation_delta_cost_weight(wr);
  const double cx = w.max.x() - w.res * w.ny / 2., cy = w.max.y() - w.res * w.nx / 2.;
  const Rigid2d initial({cx + s.Real(-1., 1.) * w.res * w.ny / 2, cy + s.Real(-1., 1.) * w.res * w.nx / 2}, GenAngle(s));
  const sm::RealTimeCorrelativeScanMatcher2D matcher(o);
  Rigid2d got;
  const double score = matcher.Match(initial, Cloud(points), grid, &got);
  const int nl = std::ceil(linear / w.res), na = std::ceil(angular / step);
  auto penalty = [&](double d, double a) { return std::exp(-std::pow(d * wt + std::abs(a) * wr, 2)); };
  double best = 0;
  for (int a = -na; a <= na; ++a) {
    for (int x = -nl; x <= nl; ++x) {
      for (int y = -nl; y <= nl; ++y) {
        const Rigid2d pose({initial.translation().x() + x * w.res, initial.translation().y() + y * w.res}, initial.rotation() * Eigen::Rotation2Dd(a * step));
        best = std::max(best, Score(w, points, pose, tsdf).lo * penalty(std::hypot(x, y) * w.res, a * step));
      }
    }
  }
  const double d = (got.translation() - initial.translation()).norm();
  double turn = AngleTo(initial, got);
  if (na * step >= M_PI - 0.1) throw pbt::Discard();
  const Interval at = Score(w, points, got, tsdf);
  const double p = penalty(d, turn);
  PBT_CHECK(score > at.lo * p - 1e-3 && score < at.hi * p + 1e-3) << "score " << score << " but the returned pose scores " << at.lo * p << ".." << at.hi * p;
  PBT_CHECK(score > best - 1e-3) << "score " << score << " but a pose in the window scores " << best;
  PBT_CHECK(std::abs(got.translation().x() - initial.translation().x()) < nl * w.res + 1e-6) << "outside the window";
  PBT_CHECK(std::abs(got.translation().y() - initial.translation().y()) < nl * w.res + 1e-6) << "outside the window";
  PBT_CHECK(std::abs(turn) < na * step + 1e-4) << "outside the angular window";
  if (points.size() >= 3 && (2 * nl + 1) * (2 * nl + 1) * (2 * na + 1) >= 50 && (d > 1e-9 || std::abs(turn) > 1e-9)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::string(tsdf ? "distance" : "occupancy") + " grid " + std::to_string(w.nx) + "x" + std::to_string(w.ny) + ", " + std::to_string(points.size()) + " points, best " + std::to_string(best));
}
