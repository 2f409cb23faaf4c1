// X02: correlative scan matching in 3D.
#include <map>

#include "geo.h"

#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/trajectory_node.h"

namespace {
using namespace cartographer;
using namespace geo;
namespace sm = mapping::scan_matching;
using mapping::HybridGrid;
using transform::Rigid3d;

using Cell = std::tuple<int, int, int>;
struct Grid {
  double res;
  std::unique_ptr<HybridGrid> grid;
  std::map<Cell, double> cells;
  double At(int x, int y, int z) const {
    const auto it = cells.find(Cell(x, y, z));
    return it == cells.end() ? mapping::kMinProbability : it->second;
  }
};
Grid GenGrid(pbt::Source& s, double res, int extent) {
  Grid g;
  g.res = res;
  g.grid = std::make_unique<HybridGrid>(static_cast<float>(res));
  const int n = s.Len(1, 40);
  for (int i = 0; i != n; ++i) {
    const Eigen::Array3i c(s.Int(-extent, extent), s.Int(-extent, extent), s.Int(-extent / 2, extent / 2));
    g.grid->SetProbability(c, s.Chance(0.4) ? 0.9f : s.Real(0.1, 0.9));
    g.cells[Cell(c.x(), c.y(), c.z())] = g.grid->GetProbability(c);
  }
  g.grid->FinishUpdate();
  return g;
}
struct Interval { double lo, hi; };
// Mean occupancy of the cells of the points; points next to a border may count either way.
Interval Score(const Grid& g, const std::vector<Eigen::Vector3d>& points, const Rigid3d& pose) {
  double lo = 0, hi = 0;
  const double slack = 2e-3;
  const Eigen::Matrix3d r = pose.rotation().toRotationMatrix();
  for (const auto& p : points) {
    const Eigen::Vector3d q = (r * p + pose.translation()) / g.res;
    double a = 1e9, b = -1e9;
    const int x0 = std::lround(q.x() - slack), x1 = std::lround(q.x() + slack);
    const int y0 = std::lround(q.y() - slack), y1 = std::lround(q.y() + slack);
    const int z0 = std::lround(q.z() - slack), z1 = std::lround(q.z() + slack);
    for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) for (int z = z0; z <= z1; ++z) {
      const double v = g.At(x, y, z);
      a = std::min(a, v);
      b = std::max(b, v);
    }
    lo += a;
    hi += b;
  }
  return {lo / points.size(), hi / points.size()};
}
std::vector<Eigen::Vector3d> GenPoints(pbt::Source& s, double reach, int max) {
  std::vector<Eigen::Vector3d> result;
  const int n = s.Int(1, max);
  for (int i = 0; i != n; ++i) result.push_back(GenVector(s, reach).cast<float>().cast<double>());
  return result;
}
sensor::PointCloud Cloud(const std::vector<Eigen::Vector3d>& points) {
  sensor::PointCloud c;
  for (const auto& p : points) c.push_back({p.cast<float>()});
  return c;
}
double AngleStep(double res, const std::vector<Eigen::Vector3d>& points, double margin) {
  double range = 3. * res;
  for (const auto& p : points) range = std::max(range, p.norm());
  return (1. - margin) * std::acos(1. - res * res / (2. * range * range));
}
Eigen::Quaterniond Rz(double a) { return Eigen::Quaterniond(Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ())); }
double Yaw(const Eigen::Quaterniond& q) {
  const Eigen::Vector3d x = q * Eigen::Vector3d::UnitX();
  return std::atan2(x.y(), x.x());
}
// Similarity of the direction histograms when the scan is turned.
double RotationalScore(const Eigen::VectorXf& submap, const Eigen::VectorXf& scan, double angle) {
  const int n = scan.size();
  Eigen::VectorXd rotated(n);
  const double by = -angle * n / M_PI;
  for (int i = 0; i != n; ++i) {
    const double at = i + by, f = at - std::floor(at);
    const int k = ((static_cast<int>(std::floor(at)) % n) + n) % n;
    rotated[i] = (1 - f) * scan[k] + f * scan[(k + 1) % n];
  }
  const double norm = rotated.norm() * submap.norm();
  return norm < 1e-3 ? 1. : submap.cast<double>().dot(rotated) / norm;
}

struct Setup {
  Grid high, low;
  std::vector<Eigen::Vector3d> points, low_points;
  Eigen::VectorXf submap_histogram;
  mapping::TrajectoryNode::Data node;
  sm::proto::FastCorrelativeScanMatcherOptions3D o;
  double step;
};
void GenSetup(pbt::Source& s, Setup* u, double reach) {
  const double res = s.Pick(std::vector<double>{0.1, 0.25, 1.});
  u->high = GenGrid(s, res, s.Int(1, 5));
  u->low = GenGrid(s, 3 * res, s.Int(1, 3));
  u->points = GenPoints(s, res * reach, 7);
  u->low_points = GenPoints(s, res * reach, 4);
  const int buckets = s.Pick(std::vector<int>{1, 3, 8, 30});
  u->submap_histogram = Eigen::VectorXf::Zero(buckets);
  Eigen::VectorXf h = Eigen::VectorXf::Zero(buckets);
  const bool sparse = s.Chance(0.3);  // directions that have nothing in common
  for (int i = 0; i != buckets; ++i) {
    u->submap_histogram[i] = sparse && s.Chance(0.8) ? 0 : s.Int(0, 5);
    h[i] = sparse && s.Chance(0.8) ? 0 : s.Int(0, 5);
  }
  u->node.high_resolution_point_cloud = Cloud(u->points);
  u->node.low_resolution_point_cloud = Cloud(u->low_points);
  u->node.rotational_scan_matcher_histogram = h;
  u->node.gravity_alignment = GenRotation(s, 0.5);
  u->step = AngleStep(res, u->points, 1e-2);
  const int depth = s.Int(1, 7);
  u->o.set_branch_and_bound_depth(depth);
  u->o.set_full_resolution_depth(s.Int(1, 7));
  u->o.set_min_rotational_score(s.Chance(0.5) ? 0. : s.Real(0., 1.));
  u->o.set_min_low_resolution_score(s.Chance(0.5) ? 0. : s.Real(0.1, 0.6));
  // Exactly what a single point attains in some cell.
  if (u->low_points.size() == 1 && s.Chance(0.3)) u->o.set_min_low_resolution_score(u->low.cells.begin()->second);
}
// Compares the answer with what is possible among the candidates.
template <typename Candidates>
bool Judge(const Setup& u, const std::unique_ptr<sm::FastCorrelativeScanMatcher3D::Result>& got, double min_score, const Eigen::Quaterniond& submap_rotation,
           const Eigen::Quaterniond& node_rotation, const Eigen::Vector3d& translation, double initial_yaw, int na, Candidates candidates) {
  double best = 0;
  for (int a = -na; a <= na; ++a) {
    const double rotational = RotationalScore(u.submap_histogram, u.node.rotational_scan_matcher_histogram, initial_yaw + a * u.step);
    if (u.o.min_rotational_score() > 0. && rotational < u.o.min_rotational_score() + 1e-3) continue;
    const Eigen::Quaterniond r = (submap_rotation.conjugate() * Rz(a * u.step) * node_rotation).normalized();
    candidates(r, [&](int x, int y, int z) {
      const Rigid3d pose(translation + u.high.res * Eigen::Vector3d(x, y, z), r);
      const double v = Score(u.high, u.points, pose).lo;
      if (v > best && Score(u.low, u.low_points, pose).lo >= u.o.min_low_resolution_score() + (u.low_points.size() == 1 ? 0. : 1e-5)) best = v;
    });
  }
  if (!got) {
    PBT_CHECK(best < min_score + 0.004) << "nothing found above " << min_score << " but a pose scores " << best;
    return false;
  }
  PBT_CHECK(got->score > min_score) << "score " << got->score << " not above " << min_score;
  const Interval at = Score(u.high, u.points, got->pose_estimate), low = Score(u.low, u.low_points, got->pose_estimate);
  PBT_CHECK(got->score > at.lo - 0.003 && got->score < at.hi + 0.003) << "score " << got->score << " but the returned pose scores " << at.lo << ".." << at.hi;
  PBT_CHECK(got->score > best - 0.004) << "score " << got->score << " but another pose scores " << best;
  PBT_CHECK(got->low_resolution_score > low.lo - 1e-3 && got->low_resolution_score < low.hi + 1e-3) << "low resolution score " << got->low_resolution_score << " but the pose scores " << low.lo << ".." << low.hi;
  PBT_CHECK(got->low_resolution_score >= static_cast<float>(u.o.min_low_resolution_score())) << "low resolution score too small";
  PBT_CHECK(got->rotational_score >= static_cast<float>(u.o.min_rotational_score()) - 1e-6) << "rotational score too small";
  // Turned only about the vertical axis of the map.
  const Eigen::Quaterniond turn = submap_rotation * got->pose_estimate.rotation() * node_rotation.conjugate();
  const double angle = 2. * std::atan2(turn.z(), turn.w());
  PBT_CHECK(std::hypot(turn.x(), turn.y()) < 1e-3) << "tilted";
  const double rotational = RotationalScore(u.submap_histogram, u.node.rotational_scan_matcher_histogram, initial_yaw + std::remainder(angle, 2 * M_PI));
  PBT_CHECK(std::abs(rotational - got->rotational_score) < 2e-3) << "rotational score " << got->rotational_score << " but the pose has " << rotational;
  return true;
}
}  // namespace

PBT_FACET(window_search, o.weight = 1; o.rule =
    "random 3D grids at two resolutions, scans, histograms, tilted poses, windows, depths and minimum scores: the search "
    "finds a pose iff an acceptable one in the window scores higher than required, its scores are those of the returned "
    "pose, and no acceptable pose scores higher; non-trivial: >=100 candidates, depth >=3, match found") {
  Setup u;
  GenSetup(s, &u, s.Pick(std::vector<double>{1.5, 4.}));
  const double res = u.high.res;
  const int nxy = s.Int(0, 4), nz = s.Int(0, 3), na = s.Int(0, 4);
  u.o.set_linear_xy_search_window((nxy + (nxy ? s.Real(-0.4, 0.4) : s.Real(0., 0.4))) * res);
  u.o.set_linear_z_search_window((nz + (nz ? s.Real(-0.4, 0.4) : s.Real(0., 0.4))) * res);
  u.o.set_angular_search_window((na + (na ? s.Real(-0.4, 0.4) : s.Real(0., 0.4))) * u.step);
  const Rigid3d submap = GenRigid3(s, 5., s.Bits(1) ? 0. : M_PI);
  const Rigid3d relative(GenVector(s, 2 * res), GenRotation(s, s.Bits(1) ? 0.3 : M_PI));
  const Rigid3d node = submap * relative;
  const float min_score = s.Chance(0.2) ? 0.f : s.Real(0.05, 0.8);
  const sm::FastCorrelativeScanMatcher3D matcher(*u.high.grid, u.low.grid.get(), &u.submap_histogram, u.o);
  const auto got = matcher.Match(node, submap, u.node, min_score);
  // How deep the bounds are stacked changes how fast the best pose is found, not its score.
  {
    auto other = u.o;
    other.set_branch_and_bound_depth(1);
    const sm::FastCorrelativeScanMatcher3D flat(*u.high.grid, u.low.grid.get(), &u.submap_histogram, other);
    const auto flat_got = flat.Match(node, submap, u.node, min_score);
    PBT_CHECK_EQ(got != nullptr, flat_got != nullptr) << "depth " << u.o.branch_and_bound_depth() << " and depth 1 disagree";
    if (got) PBT_CHECK(std::abs(got->score - flat_got->score) < 1e-6) << "depth " << u.o.branch_and_bound_depth() << " finds " << got->score << ", depth 1 finds " << flat_got->score;
  }
  const double yaw = Yaw(relative.rotation() * u.node.gravity_alignment.conjugate());
  const Eigen::Vector3d up = relative.rotation() * u.node.gravity_alignment.conjugate() * Eigen::Vector3d::UnitX();
  if (std::hypot(up.x(), up.y()) < 0.05) throw pbt::Discard();
  const bool found = Judge(u, got, min_score, submap.rotation(), node.rotation(), relative.translation(), yaw, na, [&](const Eigen::Quaterniond&, auto f) {
    for (int x = -nxy; x <= nxy; ++x) for (int y = -nxy; y <= nxy; ++y) for (int z = -nz; z <= nz; ++z) f(x, y, z);
  });
  if (found) {
    const Eigen::Vector3d d = (got->pose_estimate.translation() - relative.translation()) / res;
    PBT_CHECK(std::abs(d.x()) < nxy + 1e-2 && std::abs(d.y()) < nxy + 1e-2 && std::abs(d.z()) < nz + 1e-2) << "outside the window: " << d.transpose();
    const Eigen::Quaterniond turn = submap.rotation() * got->pose_estimate.rotation() * node.rotation().conjugate();
    PBT_CHECK(RotationDistance(turn, Eigen::Quaterniond::Identity()) < na * u.step + 1e-2 * u.step + 2e-3) << "outside the angular window";
  }
  if (found && (2 * nxy + 1) * (2 * nxy + 1) * (2 * nz + 1) * (2 * na + 1) >= 100 && u.o.branch_and_bound_depth() >= 3) s.NonTrivial();
  s.LabelIf(found, "found");
  s.LabelIf(found && u.o.full_resolution_depth() < u.o.branch_and_bound_depth(), "found at reduced resolution");
  if (s.Sampling()) s.Describe(std::to_string(u.high.cells.size()) + " cells, " + std::to_string(u.points.size()) + " points, window " + std::to_string(nxy) + "," + std::to_string(nz) + "," + std::to_string(na) + ", depth " + std::to_string(u.o.branch_and_bound_depth()));
}

PBT_FACET(full_search, o.weight = 0.3; o.case_timeout_s = 60; o.rule =
    "random 3D grids and scans searched over the whole submap and all yaw angles: no acceptable pose scores higher; "
    "non-trivial: match found") {
  Setup u;
  GenSetup(s, &u, 1.5);
  u.o.set_branch_and_bound_depth(s.Int(6, 8));
  u.o.set_full_resolution_depth(s.Int(2, 4));
  u.o.set_min_low_resolution_score(0.);
  u.o.set_linear_xy_search_window(1.);
  u.o.set_linear_z_search_window(1.);
  u.o.set_angular_search_window(0.1);
  const Eigen::Quaterniond submap = GenRotation(s, 0.5), node = GenRotation(s, 0.5);
  const float min_score = s.Real(0.2, 0.7);
  const sm::FastCorrelativeScanMatcher3D matcher(*u.high.grid, u.low.grid.get(), &u.submap_histogram, u.o);
  const auto got = matcher.MatchFullSubmap(node, submap, u.node, min_score);
  const Eigen::Quaterniond relative = submap.conjugate() * node;
  const double yaw = Yaw(relative * u.node.gravity_alignment.conjugate());
  const double exact = M_PI / u.step;
  if (std::abs(exact - std::floor(exact) - 0.5) < 0.02) throw pbt::Discard();
  const int na = std::lround(exact);
  const bool found = Judge(u, got, min_score, submap, node, Eigen::Vector3d::Zero(), yaw, na, [&](const Eigen::Quaterniond& r, auto f) {
    // Every way to put a point into a known cell.
    for (const auto& p : u.points) {
      const Eigen::Vector3d q = (r * p) / u.high.res;
      for (const auto& c : u.high.cells) f(std::get<0>(c.first) - std::lround(q.x()), std::get<1>(c.first) - std::lround(q.y()), std::get<2>(c.first) - std::lround(q.z()));
    }
  });
  if (found) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(u.high.cells.size()) + " cells, " + std::to_string(u.points.size()) + " points" + (found ? ", found " + std::to_string(got->score) : ", nothing"));
}

PBT_FACET(planted, o.weight = 0.05; o.case_timeout_s = 120; o.rule =
    "submaps of realistic extent (hundreds of cells, up to 120 across) and scans of 30..400 points at both resolutions that "
    "see occupied cells from a pose on the search lattice: the search of a window or of the whole submap finds a pose that "
    "scores at least as high; non-trivial: >=100 points (10 at close range), the planted pose >=5 cells away from where the search starts") {
  Setup u;
  const double res = s.Pick(std::vector<double>{0.1, 0.25, 0.5});
  const int extent = s.Pick(std::vector<int>{6, 20, 45, 60}), height = s.Pick(std::vector<int>{2, 8, 40});
  uint64_t state = s.Bits(1 << 20);
  const auto next = [&]() {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<double>(state >> 11) / 9007199254740992.;
  };
  u.high.res = res;
  u.high.grid = std::make_unique<HybridGrid>(static_cast<float>(res));
  u.low.res = 3 * res;
  u.low.grid = std::make_unique<HybridGrid>(static_cast<float>(3 * res));
  std::vector<Eigen::Vector3d> seen;
  const auto mark = [&](Grid* g, const Eigen::Vector3d& at) {
    const Eigen::Array3i c(std::lround(at.x() / g->res), std::lround(at.y() / g->res), std::lround(at.z() / g->res));
    if (!g->cells.count(Cell(c.x(), c.y(), c.z()))) g->grid->SetProbability(c, 0.6 + 0.3 * next());
    g->cells[Cell(c.x(), c.y(), c.z())] = g->grid->GetProbability(c);
    return Eigen::Vector3d(c.cast<double>() * g->res);
  };
  const int walls = s.Len(1, 5);
  for (int k = 0; k != walls; ++k) {
    const auto corner = [&]() { return Eigen::Vector3d((2 * next() - 1) * extent, (2 * next() - 1) * extent, (2 * next() - 1) * height); };
    const Eigen::Vector3d a = corner(), b = corner(), c = corner();
    for (int i = 0; i != 120; ++i) {
      const double p = next(), q = next();
      seen.push_back(mark(&u.high, res * (a + p * (b - a) + q * (1 - p) * (c - a))));
    }
  }
  u.high.grid->FinishUpdate();
  const bool full = s.Chance(0.5);
  const Eigen::Quaterniond submap_rotation = s.Bits(1) ? Eigen::Quaterniond::Identity() : GenRotation(s, 0.4);
  const Eigen::Quaterniond node_rotation = submap_rotation * GenRotation(s, s.Bits(1) ? 0.2 : 2.);
  const int reach = s.Int(1, 20), zreach = s.Int(0, 8);
  const Eigen::Vector3d start = full ? Eigen::Vector3d(Eigen::Vector3d::Zero())
                                     : Eigen::Vector3d(res * Eigen::Vector3d(s.Int(-extent, extent), s.Int(-extent, extent), s.Int(-height, height)) + 0.2 * res * Eigen::Vector3d(1., -1., 0.5));
  // From within, from outside (above, below, beside), or from the middle of what is seen at close range.
  const bool close = full && s.Chance(0.3);
  const int out = full && !close && s.Chance(0.3) ? 150 : 0;
  const Eigen::Vector3d spot = seen[s.Int(0, static_cast<int>(seen.size()) - 1)] / res;
  const Eigen::Vector3d offset = close ? Eigen::Vector3d(spot.array().round().matrix() + Eigen::Vector3d(s.Int(-2, 2), s.Int(-2, 2), s.Int(-2, 2)))
                                 : full ? Eigen::Vector3d(s.Int(-extent, extent), s.Int(-extent, extent), s.Int(-height - out, height + out))
                                      : Eigen::Vector3d(s.Int(-reach, reach), s.Int(-reach, reach), s.Int(-zreach, zreach));
  const Eigen::Vector3d from = start + res * offset;
  std::vector<Eigen::Vector3d> rays, low_rays;
  const int n = s.Int(30, 400), low_n = s.Int(5, 250);
  const auto pick = [&]() { return seen[std::min(seen.size() - 1, static_cast<size_t>(next() * seen.size()))]; };
  for (int i = 0; i != n; ++i) {
    const Eigen::Vector3d ray = pick() - from;
    if (!close || ray.norm() < 8 * res) rays.push_back(ray);
  }
  if (rays.size() < 5) throw pbt::Discard();
  for (int i = 0; i != low_n; ++i) low_rays.push_back(mark(&u.low, pick()) - from);
  u.low.grid->FinishUpdate();
  float range = 3.f * static_cast<float>(res);
  for (const auto& r : rays) range = std::max(range, static_cast<float>(r.norm()));
  const float fres = res;
  const float step = 0.99f * std::acos(1.f - fres * fres / (2.f * range * range));
  const int na = full ? std::floor(M_PI / step) : s.Int(1, 15), turn = s.Int(-na, na);
  const Rigid3d planted(from, (submap_rotation.conjugate() * Rz(turn * step) * node_rotation).normalized());
  for (const auto& r : rays) u.points.push_back((planted.rotation().conjugate() * r).cast<float>().cast<double>());
  for (const auto& r : low_rays) u.low_points.push_back((planted.rotation().conjugate() * r).cast<float>().cast<double>());
  u.submap_histogram = Eigen::VectorXf::Constant(4, 1.f);
  u.node.high_resolution_point_cloud = Cloud(u.points);
  u.node.low_resolution_point_cloud = Cloud(u.low_points);
  u.node.rotational_scan_matcher_histogram = Eigen::VectorXf::Constant(4, 2.f);
  u.node.gravity_alignment = Eigen::Quaterniond::Identity();
  u.o.set_branch_and_bound_depth(s.Int(7, 8));
  u.o.set_full_resolution_depth(s.Int(2, 4));
  u.o.set_min_rotational_score(0.5);
  u.o.set_min_low_resolution_score(0.5);
  u.o.set_linear_xy_search_window(reach * res);
  u.o.set_linear_z_search_window(zreach * res);
  u.o.set_angular_search_window((na + 0.3) * step);
  const sm::FastCorrelativeScanMatcher3D matcher(*u.high.grid, u.low.grid.get(), &u.submap_histogram, u.o);
  const float min_score = 0.45f;
  const Rigid3d submap(GenVector(s, 3.), submap_rotation);
  const auto got = full ? matcher.MatchFullSubmap(node_rotation, submap_rotation, u.node, min_score)
                        : matcher.Match(submap * Rigid3d(start, submap_rotation.conjugate() * node_rotation), submap, u.node, min_score);
  const double want = Score(u.high, u.points, planted).lo;
  PBT_CHECK(got != nullptr) << rays.size() << " points score " << want << " at a pose in the window, but nothing is found";
  PBT_CHECK(got->score > want - 0.004) << "score " << got->score << " but a pose in the window scores " << want;
  const Interval at = Score(u.high, u.points, got->pose_estimate), low = Score(u.low, u.low_points, got->pose_estimate);
  PBT_CHECK(got->score > at.lo - 0.003 && got->score < at.hi + 0.003) << "score " << got->score << " but the returned pose scores " << at.lo << ".." << at.hi;
  PBT_CHECK(got->low_resolution_score > low.lo - 1e-3 && got->low_resolution_score < low.hi + 1e-3) << "low resolution score " << got->low_resolution_score << " but the pose scores " << low.lo << ".." << low.hi;
  PBT_CHECK(got->low_resolution_score >= 0.5f) << "low resolution score too small";
  if (rays.size() >= (close ? 10u : 100u) && offset.norm() >= 5.) s.NonTrivial();
  s.LabelIf(close, "at close range");
  s.LabelIf(full, "whole submap");
  s.LabelIf(low_n > 100, "more than 100 points at the low resolution");
  if (s.Sampling()) s.Describe(std::string(full ? "whole submap" : "window") + ", " + std::to_string(u.high.cells.size()) + " cells, " + std::to_string(n) + " points, planted score " + std::to_string(want));
}

PBT_FACET(bounds, o.weight = 0.3; o.rule =
    "random 3D grids: each precomputed cell is the largest of the cells it stands for, at full and half resolution; "
    "non-trivial: >=3 cells, shift >=1") {
  const double res = 0.5;
  Grid g = GenGrid(s, res, 6);
  const auto base = sm::ConvertToPrecomputationGrid(*g.grid);
  const bool half = s.Bits(1);
  const int shift = s.Int(0, 6);
  const auto pre = sm::PrecomputeGrid(base, half, Eigen::Array3i::Constant(shift));
  const int probes = s.Len(1, 40);
  for (int k = 0; k != probes; ++k) {
    const int x = s.Int(-14, 8), y = s.Int(-14, 8), z = s.Int(-10, 5);
    const double one = g.At(x, y, z);
    PBT_CHECK(std::abs(sm::PrecomputationGrid3D::ToProbability(base.value({x, y, z})) - one) < 0.0017) << "cell value";
    double best = mapping::kMinProbability;
    const int n = half ? 2 : 1;
    for (int cx = 0; cx != n; ++cx) for (int cy = 0; cy != n; ++cy) for (int cz = 0; cz != n; ++cz)
      for (int i = 0; i != 8; ++i)
        best = std::max(best, g.At(n * x + cx + (i & 1) * shift, n * y + cy + ((i >> 1) & 1) * shift, n * z + cz + (i >> 2) * shift));
    const double got = sm::PrecomputationGrid3D::ToProbability(pre.value({x, y, z}));
    PBT_CHECK(std::abs(got - best) < 0.0017) << "shift " << shift << (half ? " half" : "") << " at " << x << "," << y << "," << z << ": " << got << " want " << best;
  }
  if (g.cells.size() >= 3 && shift) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(g.cells.size()) + " cells, shift " + std::to_string(shift) + (half ? ", half resolution" : ""));
}

PBT_FACET(real_time, o.weight = 0.7; o.rule =
    "random 3D grids, scans, windows and penalties: the returned pose is in the window, its penalized score is returned and "
    "no pose on the lattice scores higher; non-trivial: >=27 candidates, >=2 points, best pose not the initial one") {
  const double res = s.Pick(std::vector<double>{0.1, 0.25, 1.});
  Grid g = GenGrid(s, res, s.Int(1, 4));
  const auto points = GenPoints(s, res * 4., 6);
  const double step = AngleStep(res, points, 1e-3);
  const int nl = s.Int(0, 2), na = s.Int(0, 1);
  sm::proto::RealTimeCorrelativeScanMatcherOptions o;
  o.set_linear_search_window((nl + (nl ? s.Real(-0.4, 0.4) : s.Real(0., 0.4))) * res);
  o.set_angular_search_window((na + (na ? s.Real(-0.4, 0.4) : s.Real(0., 0.4))) * step);
  const double wt = s.Chance(0.3) ? 0. : s.Real(0., 1.) / res, wr = s.Chance(0.3) ? 0. : s.Real(0., 5.);
  o.set_translation_delta_cost_weight(wt);
  o.set_rotation_delta_cost_weight(wr);
  const sm::RealTimeCorrelativeScanMatcher3D matcher(o);
  const Rigid3d initial = GenRigid3(s, res * 3);
  Rigid3d got;
  const double score = matcher.Match(initial, Cloud(points), *g.grid, &got);
  auto penalty = [&](const Rigid3d& d) { return std::exp(-std::pow(d.translation().norm() * wt + RotationDistance(d.rotation(), Eigen::Quaterniond::Identity()) * wr, 2)); };
  double best = 0;
  for (int x = -nl; x <= nl; ++x) for (int y = -nl; y <= nl; ++y) for (int z = -nl; z <= nl; ++z)
    for (int a = -na; a <= na; ++a) for (int b = -na; b <= na; ++b) for (int c = -na; c <= na; ++c) {
      const Eigen::Vector3d axis = Eigen::Vector3d(a, b, c) * step;
      const Rigid3d d(res * Eigen::Vector3d(x, y, z), axis.norm() == 0 ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(axis.norm(), axis.normalized())));
      best = std::max(best, Score(g, points, initial * d).lo * penalty(d));
    }
  const Rigid3d d = initial.inverse() * got;
  const Interval at = Score(g, points, got);
  const double p = penalty(d);
  PBT_CHECK(score > at.lo * p - 2e-3 && score < at.hi * p + 2e-3) << "score " << score << " but the returned pose scores " << at.lo * p << ".." << at.hi * p;
  PBT_CHECK(score > best - 2e-3) << "score " << score << " but a pose in the window scores " << best;
  PBT_CHECK(d.translation().cwiseAbs().maxCoeff() < nl * res + 1e-3) << "outside the window";
  PBT_CHECK(RotationDistance(d.rotation(), Eigen::Quaterniond::Identity()) < std::sqrt(3.) * na * step + 2e-3) << "outside the angular window";
  if ((nl || na) && points.size() >= 2 && (d.translation().norm() > res / 2 || RotationDistance(d.rotation(), Eigen::Quaterniond::Identity()) > step / 2)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(g.cells.size()) + " cells, " + std::to_string(points.size()) + " points, best " + std::to_string(best));
}
