// G04: 3D grids and inserting scans into them.
#include <map>
#include <set>

#include "geo.h"

#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/sensor/range_data.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::HybridGrid;
using mapping::IntensityHybridGrid;
using Key = std::array<int, 3>;
Eigen::Array3i Idx(const Key& k) { return Eigen::Array3i(k[0], k[1], k[2]); }
Key KeyOf(const Eigen::Array3i& i) { return {i.x(), i.y(), i.z()}; }
std::string Str(const Key& k) { return std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]); }
double Clamped(double p) { return std::min(0.9, std::max(0.1, p)); }
double Updated(bool known, double p, double update) {
  if (!known) return Clamped(update);
  const double odds = p / (1. - p) * (update / (1. - update));
  return Clamped(odds / (1. + odds));
}

int Coordinate(pbt::Source& s, int big) {
  switch (s.Weighted({4, 2, 2, 1, 1})) {
    case 0: return s.Int(-4, 4);
    case 1: return s.Pick(std::vector<int>{-65, -64, -63, -9, -8, -7, 7, 8, 63, 64});
    case 2: return s.Int(-70, 70);
    case 3: {  // around the sizes the grid grows to
      int k = 6;
      while ((2 << k) <= big + 24) ++k;
      const int edge = (1 << s.Int(6, k)) + s.Int(-1, big > 4000 && k > 11 ? -1 : 1);
      return s.Bits(1) ? edge : -edge;
    }
    default: return s.Int(-big, big);
  }
}
Key GenKey(pbt::Source& s, int big) { return {Coordinate(s, big), Coordinate(s, big), Coordinate(s, big)}; }

void Compare(const HybridGrid& grid, const std::map<Key, float>& model, const Key& probe, const std::string& when) {
  std::map<Key, float> got;
  for (const auto it : grid) {
    PBT_CHECK(got.emplace(KeyOf(it.first), grid.GetProbability(it.first)).second) << "cell visited twice " << Str(KeyOf(it.first));
    PBT_CHECK(mapping::ValueToProbability(it.second) == grid.GetProbability(it.first)) << "iteration shows another value " << when;
  }
  for (const auto& e : model) {
    PBT_CHECK(got.count(e.first)) << "iteration misses " << Str(e.first) << " " << when;
    PBT_CHECK(grid.IsKnown(Idx(e.first)));
    PBT_CHECK_EQ(grid.GetProbability(Idx(e.first)), e.second) << "cell " << Str(e.first) << " changed " << when;
  }
  PBT_CHECK_EQ(got.size(), model.size()) << "unknown cells appeared " << when;
  PBT_CHECK_EQ(grid.IsKnown(Idx(probe)), model.count(probe) > 0) << "cell " << Str(probe) << " " << when;
  if (!model.count(probe)) PBT_CHECK(std::abs(grid.GetProbability(Idx(probe)) - 0.1) < 1e-6);
}
}  // namespace

PBT_FACET(history, o.weight = 1; o.rule =
    "random histories of setting, updating, serializing and reading cells near and far from the origin (the grid has to "
    "grow), against a map; non-trivial: >=5 cells written and the grid grew") {
  std::unique_ptr<HybridGrid> grid = std::make_unique<HybridGrid>(static_cast<float>(s.LogReal(0.02, 1.)));
  const int big = s.Chance(0.002) ? 8191 : s.Chance(0.2) ? 1000 : 200;
  const float resolution = grid->resolution();
  std::map<Key, float> model;
  const int ops = s.Len(1, 20);
  const int initial = grid->grid_size();
  for (int op = 0; op != ops; ++op) {
    switch (s.Weighted({3, 4, 1})) {
      case 0: {
        const Key k = GenKey(s, big);
        const float p = s.Chance(0.2) ? (s.Bits(1) ? 0.f : 1.f) : s.Real(0.1, 0.9);
        grid->SetProbability(Idx(k), p);
        const float got = grid->GetProbability(Idx(k));
        PBT_CHECK(std::abs(got - Clamped(p)) < 3e-5) << p << " read as " << got;
        model[k] = got;
        break;
      }
      case 1: {
        const double p = s.Real(0.02, 0.98);
        const auto table = mapping::ComputeLookupTableToApplyOdds(mapping::Odds(p));
        const int n = s.Len(1, 10);
        std::set<Key> touched;
        for (int i = 0; i != n; ++i) {
          const Key k = !model.empty() && s.Bits(1) ? std::next(model.begin(), s.Bits(model.size() - 1))->first : GenKey(s, big);
          const bool known = model.count(k);
          const double want = touched.count(k) ? model[k] : Updated(known, known ? model[k] : 0., p);
          PBT_CHECK_EQ(grid->ApplyLookupTable(Idx(k), table), !touched.count(k)) << "only the first update counts";
          touched.insert(k);
          const float got = grid->GetProbability(Idx(k));
          PBT_CHECK(std::abs(got - want) < 3e-5) << "update gave " << got << " want " << want;
          model[k] = got;
        }
        grid->FinishUpdate();
        break;
      }
      default: {
        mapping::proto::HybridGrid proto;
        PBT_CHECK(proto.ParseFromString(grid->ToProto().SerializeAsString()));
        PBT_CHECK_EQ(proto.values_size(), static_cast<int>(model.size()));
        grid = std::make_unique<HybridGrid>(proto);
        PBT_CHECK_EQ(grid->resolution(), resolution);
      }
    }
    Compare(*grid, model, GenKey(s, big * 2), "after operation " + std::to_string(op));
  }
  s.LabelIf(grid->grid_size() > 2000, "huge");
  if (model.size() >= 5 && grid->grid_size() > initial) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(ops) + " operations, " + std::to_string(model.size()) + " cells, size " + std::to_string(grid->grid_size()));
}

PBT_FACET(cells_and_points, o.weight = 0.3; o.rule =
    "random points: the cell of a point is the nearest cell centre, centres map back; non-trivial: some coordinate negative") {
  const HybridGrid grid(static_cast<float>(s.LogReal(0.02, 2.)));
  const Eigen::Vector3f p = GenVector(s, 30.).cast<float>();
  if (p.minCoeff() < 0.f) s.NonTrivial();
  const Eigen::Array3i i = grid.GetCellIndex(p);
  const Eigen::Vector3f c = grid.GetCenterOfCell(i);
  PBT_CHECK((p - c).cwiseAbs().maxCoeff() <= 0.5f * grid.resolution() + 1e-5f) << p.transpose() << " in cell centred " << c.transpose();
  const Eigen::Array3i j(s.Int(-500, 500), s.Int(-500, 500), s.Int(-500, 500));
  PBT_CHECK((grid.GetCellIndex(grid.GetCenterOfCell(j)) == j).all());
  PBT_CHECK((grid.GetCenterOfCell(j).cast<double>() - j.matrix().cast<double>() * grid.resolution()).norm() < 1e-3);
  if (s.Sampling()) s.Describe("resolution " + std::to_string(grid.resolution()));
}

PBT_FACET(insertion, o.weight = 1; o.rule =
    "random sequences of scans with intensities inserted into a 3D grid: return cells are hit, the configured number of "
    "cells before each return are missed, nothing else changes, intensities are averaged per cell; non-trivial: >=2 "
    "scans, >=3 returns, some cell both hit and crossed") {
  const float res = s.Pick(std::vector<float>{0.1f, 0.25f, 1.f});
  HybridGrid grid(res);
  IntensityHybridGrid intensity(res);
  mapping::proto::RangeDataInserterOptions3D options;
  const double hit = s.Real(0.505, 0.98), miss = s.Real(0.02, 0.495);
  const int voxels = s.Chance(0.2) ? 0 : s.Chance(0.3) ? s.Pick(std::vector<int>{100, 1000}) : s.Int(1, 5);
  const float threshold = s.Real(20., 60.);
  options.set_hit_probability(hit);
  options.set_miss_probability(miss);
  options.set_num_free_space_voxels(voxels);
  options.set_intensity_threshold(threshold);
  const mapping::RangeDataInserter3D inserter(options);
  std::map<Key, float> model;
  std::map<Key, std::pair<double, int>> intensities;
  const bool far = s.Chance(0.01);
  s.LabelIf(far, "far");
  const int scans = far ? 2 : s.Len(1, 6), reach = far ? s.Int(100, 900) : s.Int(1, 20);
  bool both = false;
  int returns = 0;
  auto point = [&](const Key& k) {
    return Eigen::Vector3f((k[0] + s.Real(-0.45, 0.45)) * res, (k[1] + s.Real(-0.45, 0.45)) * res, (k[2] + s.Real(-0.45, 0.45)) * res);
  };
  for (int scan = 0; scan != scans; ++scan) {
    auto cell = [&]() -> Key { return {int(s.Int(-reach, reach)), int(s.Int(-reach, reach)), int(s.Int(-reach, reach))}; };
    const Key origin = cell();
    sensor::RangeData data;
    data.origin = point(origin);
    const int n = far ? s.Int(1, 3) : s.Len(0, 10);
    std::vector<sensor::RangefinderPoint> points;
    std::vector<float> values;
    std::vector<Key> hits;
    const bool with = s.Bits(1), use_grid = s.Chance(0.8);
    for (int i = 0; i != n; ++i) {
      Key k = cell();
      if (s.Chance(0.15)) k = origin;
      if (s.Chance(0.2) && !hits.empty()) k = s.Pick(hits);
      if (s.Chance(0.2)) k[s.Bits(2)] = origin[0];
      hits.push_back(k);
      points.push_back({point(k)});
      values.push_back(s.Int(s.Chance(0.1) ? -50 : 0, 100));
      if (with && use_grid && values.back() <= threshold) intensities[k].first += values.back(), ++intensities[k].second;
    }
    returns += n;
    data.returns = with ? sensor::PointCloud(points, values) : sensor::PointCloud(points);
    if (s.Chance(0.3)) data.misses.push_back({point(cell())});
    inserter.Insert(data, &grid, use_grid ? &intensity : nullptr);
    // What may and must have happened.
    const std::set<Key> hit_cells(hits.begin(), hits.end());
    std::set<Key> may;
    std::vector<std::vector<Key>> must;  // one of each group was crossed
    for (const Key& h : hits) {
      Eigen::Array3i delta = Idx(h) - Idx(origin);
      const int steps = delta.abs().maxCoeff();
      for (int step = std::max(0, steps - voxels); step < steps; ++step) {
        std::vector<Key> group{KeyOf(Idx(origin))};
        for (int d = 0; d != 3; ++d) {
          // The cell contains or neighbours the exact position.
          const int num = delta[d] * step;
          const int lo = origin[d] + static_cast<int>(std::floor(double(num) / steps + 1e-12));
          std::vector<Key> next;
          for (Key k : group) {
            k[d] = lo;
            next.push_back(k);
            if (num % steps != 0) { k[d] = lo + 1; next.push_back(k); }
          }
          group = next;
        }
        for (const Key& k : group) { may.insert(k); if (hit_cells.count(k)) both = true; }
        must.push_back(group);
      }
    }
    std::map<Key, float> now;
    for (const auto it : grid) now[KeyOf(it.first)] = grid.GetProbability(it.first);
    auto is = [&](const Key& k, double update) {
      const auto old = model.find(k);
      return now.count(k) && std::abs(now[k] - Updated(old != model.end(), old != model.end() ? old->second : 0., update)) < 3e-5;
    };
    for (const Key& k : hit_cells) PBT_CHECK(is(k, hit)) << "return in " << Str(k) << " not entered";
    for (const auto& group : must) {
      bool any = false;
      for (const Key& k : group) any = any || hit_cells.count(k) || is(k, miss);
      PBT_CHECK(any) << "free space not entered near " << Str(group[0]);
    }
    for (const auto& e : model) PBT_CHECK(now.count(e.first)) << "lost cell " << Str(e.first);
    for (const auto& e : now) {
      if (hit_cells.count(e.first)) continue;
      const auto old = model.find(e.first);
      const bool unchanged = old != model.end() && old->second == e.second;
      PBT_CHECK(unchanged || (may.count(e.first) && is(e.first, miss))) << "cell " << Str(e.first) << " changed for no reason, scan " << scan;
    }
    model = now;
    for (const auto& e : intensities)
      PBT_CHECK(std::abs(intensity.GetIntensity(Idx(e.first)) - e.second.first / e.second.second) < 1e-3) << "intensity of " << Str(e.first);
    const Key probe = cell();
    if (!intensities.count(probe)) PBT_CHECK_EQ(intensity.GetIntensity(Idx(probe)), 0.f) << "intensity of an untouched cell";
  }
  if (scans >= 2 && returns >= 3 && both) s.NonTrivial();
  s.LabelIf(voxels == 0, "no free space");
  if (s.Sampling()) s.Describe(std::to_string(scans) + " scans, " + std::to_string(returns) + " returns, " + std::to_string(voxels) + " free voxels");
}
