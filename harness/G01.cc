// G01: inserting scans into a 2D occupancy grid.
#include <map>
#include <set>

#include "geo.h"
#include "grid2d.h"

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/sensor/range_data.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::ProbabilityGrid;

double Clamped(double p) { return std::min(0.9, std::max(0.1, p)); }
// The wanted probability after one update.
double Updated(bool known, double p, double update) {
  if (!known) return Clamped(update);
  const double odds = p / (1. - p) * (update / (1. - update));
  return Clamped(odds / (1. + odds));
}

sensor::RangeData GenScan(pbt::Source& s, double res, const Eigen::Vector2d& center, double reach) {
  const int style = s.Weighted({3, 2, 1});
  auto coordinate = [&](double c) -> float {
    switch (style) {
      case 0: return c + s.Real(-reach, reach);
      case 1: return c + res * 0.25 * s.Int(-reach / res * 4, reach / res * 4);  // edges and centres
      default: return c + res * (s.Int(-reach / res, reach / res) + 0.5) + s.Real(-0.01, 0.01) * res;
    }
  };
  sensor::RangeData d;
  d.origin = Eigen::Vector3f(coordinate(center.x()), coordinate(center.y()), s.Chance(0.3) ? s.Real(-1., 1.) : 0.);
  const int hits = s.Len(0, 12), misses = s.Len(0, 6);
  std::vector<sensor::RangefinderPoint> r, m;
  for (int i = 0; i != hits + misses; ++i) {
    Eigen::Vector3f p(coordinate(center.x()), coordinate(center.y()), s.Chance(0.3) ? s.Real(-1., 1.) : 0.);
    if (s.Chance(0.1)) p.x() = d.origin.x();
    if (s.Chance(0.1)) p.y() = d.origin.y();
    if (s.Chance(0.1) && !r.empty()) p = r[s.Bits(r.size() - 1)].position;
    (i < hits ? r : m).push_back({p});
  }
  d.returns = sensor::PointCloud(r);
  d.misses = sensor::PointCloud(m);
  return d;
}
}  // namespace

PBT_FACET(insertion, o.weight = 1; o.rule =
    "random sequences of scans inserted into random small grids that have to grow; after every scan the change of every "
    "cell is compared with ray geometry and the odds update; non-trivial: >=2 scans, >=3 rays, some cell both hit and "
    "crossed, and the grid grew") {
  const double res = s.Pick(std::vector<double>{0.05, 0.1, 0.25, 1.});
  mapping::ValueConversionTables tables;
  const Eigen::Vector2d max(s.Real(-3., 3.), s.Real(-3., 3.));
  const int nx = s.Int(1, 20), ny = s.Int(1, 20);
  ProbabilityGrid grid(mapping::MapLimits(res, max, mapping::CellLimits(nx, ny)), &tables);
  mapping::proto::ProbabilityGridRangeDataInserterOptions2D options;
  const double hit = s.Real(0.505, 0.98), miss = s.Real(0.02, 0.495);
  const bool free_space = !s.Chance(0.15);
  options.set_hit_probability(hit);
  options.set_miss_probability(miss);
  options.set_insert_free_space(free_space);
  const mapping::ProbabilityGridRangeDataInserter2D inserter(options);
  const bool far = s.Chance(0.005);
  s.LabelIf(far, "far");
  const int scans = far ? s.Int(1, 2) : s.Len(1, 6);
  const double reach = res * (far ? s.Int(60, 400) : s.Int(2, 14));
  Eigen::Vector2d center = max - res * 0.5 * Eigen::Vector2d(ny, nx);
  bool both = false, grew = false;
  int rays = 0;
  const double slack = 0.002 * res;
  for (int k = 0; k != scans; ++k) {
    if (s.Chance(0.2)) center += Eigen::Vector2d(s.Real(-1., 1.), s.Real(-1., 1.)) * 10 * res;
    const sensor::RangeData data = GenScan(s, res, center, reach);
    rays += data.returns.size() + data.misses.size();
    // State before.
    const mapping::MapLimits before = grid.limits();
    const int bx = before.cell_limits().num_x_cells, by = before.cell_limits().num_y_cells;
    std::vector<std::pair<bool, float>> old(bx * by);
    for (int y = 0; y != by; ++y)
      for (int x = 0; x != bx; ++x)
        old[y * bx + x] = {grid.IsKnown({x, y}), grid.GetProbability({x, y})};
    inserter.Insert(data, &grid);
    // State after.
    const mapping::MapLimits after = grid.limits();
    const Eigen::Array2i shift = grid2d::Shift(before, after);
    const int ax = after.cell_limits().num_x_cells, ay = after.cell_limits().num_y_cells;
    PBT_CHECK((shift >= 0).all() && shift.x() + bx <= ax && shift.y() + by <= ay) << "the grid lost cells";
    grew = grew || ax != bx;
    PBT_CHECK(after.Contains(after.GetCellIndex(data.origin.head<2>())));
    const Eigen::Vector2d origin = data.origin.head<2>().cast<double>();
    for (int y = 0; y != ay; ++y) {
      for (int x = 0; x != ax; ++x) {
        const grid2d::Box box = grid2d::CellBox(after, {x, y});
        grid2d::Touch h = grid2d::NO, m = grid2d::NO;
        for (const auto& p : data.returns) {
          const Eigen::Vector2d q = p.position.head<2>().cast<double>();
          h = std::max(h, grid2d::PointTouches(box, q, slack));
          if (free_space) m = std::max(m, grid2d::RayTouches(box, origin, q, slack));
        }
        if (free_space)
          for (const auto& p : data.misses)
            m = std::max(m, grid2d::RayTouches(box, origin, p.position.head<2>().cast<double>(), slack));
        const Eigen::Array2i o = Eigen::Array2i(x, y) - shift;
        const bool had = before.Contains(o);
        const bool known = had && old[o.y() * bx + o.x()].first;
        const float p = had ? old[o.y() * bx + o.x()].second : 0.1f;
        const bool now_known = grid.IsKnown({x, y});
        const float now = grid.GetProbability({x, y});
        const bool unchanged = now_known == known && (!known || now == p);
        auto is = [&](double update) { return now_known && std::abs(now - Updated(known, p, update)) < 3e-5; };
        bool ok = false;
        if (h != grid2d::NO) ok = ok || is(hit);
        if (h != grid2d::YES) {
          if (m != grid2d::NO) ok = ok || is(miss);
          if (m != grid2d::YES) ok = ok || unchanged;
        }
        if (h == grid2d::YES && m == grid2d::YES) both = true;
        PBT_CHECK(ok) << "scan " << k << " cell " << x << "," << y << " hit " << h << " crossed " << m << " known " << known
                      << " p " << p << " -> known " << now_known << " p " << now << " (hit " << hit << " miss " << miss << ")";
      }
    }
    // Outside the grid nothing is known.
    PBT_CHECK(!grid.IsKnown({-1, 0}) && !grid.IsKnown({0, -1}) && !grid.IsKnown({ax, 0}) && !grid.IsKnown({0, ay}));
  }
  if (scans >= 2 && rays >= 3 && (both || !free_space) && grew) s.NonTrivial();
  s.LabelIf(!free_space, "hits only");
  s.LabelIf(grew, "grew");
  if (s.Sampling()) s.Describe(std::to_string(scans) + " scans, " + std::to_string(rays) + " rays, resolution " + std::to_string(res));
}

PBT_FACET(ray_cells, o.weight = 1; o.rule =
    "random rays between subpixels: the cells returned are exactly those whose interior the ray crosses, each once, in "
    "both directions, compared with exact integer geometry; non-trivial: the ray crosses >=4 cells and changes both coordinates") {
  const int scale = s.Pick(std::vector<int>{1, 2, 3, 10, 1000});
  const int size = s.Chance(0.004) ? 2000 : s.Chance(0.2) ? 400 : 12;
  s.LabelIf(size > 1000, "long");
  auto gen = [&] {
    int v = s.Bits(size * scale - 1);
    switch (s.Weighted({4, 1, 1})) {
      case 1: v = v / scale * scale + scale / 2; break;
      case 2: v = v / scale * scale + (s.Bits(1) ? 0 : scale - 1); break;
    }
    return v;
  };
  Eigen::Array2i a, b;
  a.x() = gen(); a.y() = gen(); b.x() = gen(); b.y() = gen();
  switch (s.Weighted({6, 1, 1, 1})) {
    case 1: b.x() = a.x(); break;
    case 2: b.y() = a.y(); break;
    case 3: {  // exact diagonal: through corners
      const int d = std::min(b.x(), size * scale - 1 - a.x());
      const int e = std::min(d, size * scale - 1 - a.y());
      b = a + std::max(e, 0);
    }
  }
  const auto mask = mapping::RayToPixelMask(a, b, scale);
  std::set<std::pair<int, int>> got;
  for (const auto& c : mask) PBT_CHECK(got.insert({c.x(), c.y()}).second) << "cell repeated: " << c.transpose();
  std::set<std::pair<int, int>> back;
  for (const auto& c : mapping::RayToPixelMask(b, a, scale)) back.insert({c.x(), c.y()});
  PBT_CHECK(got == back) << "depends on the direction";
  // Exact: units of half subpixels; cell (i,j) is the open square (2 scale i, 2 scale (i+1)) x ...
  using I = __int128;
  const I px = 2 * a.x() + 1, py = 2 * a.y() + 1, qx = 2 * b.x() + 1, qy = 2 * b.y() + 1;
  std::set<std::pair<int, int>> want;
  const int x0 = std::min(a.x(), b.x()) / scale, x1 = std::max(a.x(), b.x()) / scale;
  const int y0 = std::min(a.y(), b.y()) / scale, y1 = std::max(a.y(), b.y()) / scale;
  for (int i = x0; i <= x1; ++i)
    for (int j = y0; j <= y1; ++j) {
      // The box of the ends overlaps the cell by construction; the line must
      // separate corners strictly.
      const I lx = I(2) * scale * i, hx = lx + 2 * scale, ly = I(2) * scale * j, hy = ly + 2 * scale;
      auto side = [&](I x, I y) { return (qx - px) * (y - py) - (qy - py) * (x - px); };
      const I v[4] = {side(lx, ly), side(lx, hy), side(hx, ly), side(hx, hy)};
      const I mn = std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), mx = std::max(std::max(v[0], v[1]), std::max(v[2], v[3]));
      if ((mn < 0 && mx > 0) || (px == qx && py == qy)) want.insert({i, j});
    }
  if (want.size() >= 4 && x0 != x1 && y0 != y1) s.NonTrivial();
  if (s.Sampling()) {
    std::ostringstream os;
    os << a.transpose() << " to " << b.transpose() << " scale " << scale << ": " << want.size() << " cells";
    s.Describe(os.str());
  }
  for (const auto& c : want) PBT_CHECK(got.count(c)) << "cell missed: " << c.first << "," << c.second;
  for (const auto& c : got) PBT_CHECK(want.count(c)) << "cell not crossed: " << c.first << "," << c.second;
}

PBT_FACET(updates, o.weight = 0.02; o.rule =
    "random odds applied to every possible cell value through the update tables of both kinds: result within one step of "
    "the odds product, clamped, and only the first update until the end of the scan counts; non-trivial: always") {
  s.NonTrivial();
  const double p = s.Real(0.02, 0.98);
  if (s.Sampling()) s.Describe("update with probability " + std::to_string(p));
  const auto occ = mapping::ComputeLookupTableToApplyOdds(mapping::Odds(p));
  const auto cost = mapping::ComputeLookupTableToApplyCorrespondenceCostOdds(mapping::Odds(p));
  PBT_CHECK_EQ(occ.size(), 32768u);
  PBT_CHECK_EQ(cost.size(), 32768u);
  for (int v = 0; v != 32768; ++v) {
    const double old_p = 0.1 + 0.8 * (v - 1) / 32766., old_c = 0.9 - 0.8 * (v - 1) / 32766.;
    PBT_CHECK(occ[v] > 32768 && cost[v] > 32768) << "update without mark, value " << v;
    PBT_CHECK(std::abs(mapping::ValueToProbability(occ[v]) - Updated(v != 0, old_p, p)) < 3e-5) << "value " << v;
    PBT_CHECK(std::abs(1. - mapping::ValueToCorrespondenceCost(cost[v]) - Updated(v != 0, old_c, p)) < 3e-5) << "value " << v;
  }
}
