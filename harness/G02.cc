// G02: 2D grids keep every cell through growing, cropping and serialization.
#include <map>

#include "geo.h"
#include "grid2d.h"

#include "cartographer/common/port.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::Grid2D;
using mapping::ProbabilityGrid;
using mapping::TSDF2D;
using mapping::MapLimits;
using mapping::CellLimits;

struct Cell { float a, b; };  // probability, or distance and weight
using Key = std::pair<int, int>;  // lattice, relative to the first limits

struct Probability {
  using Grid = ProbabilityGrid;
  float p;
  explicit Probability(pbt::Source& s) {}
  std::unique_ptr<Grid2D> Make(const MapLimits& l, mapping::ValueConversionTables* t) { return std::make_unique<ProbabilityGrid>(l, t); }
  std::unique_ptr<Grid2D> Load(const mapping::proto::Grid2D& p, mapping::ValueConversionTables* t) { return std::make_unique<ProbabilityGrid>(p, t); }
  Cell Read(const Grid2D& g, const Eigen::Array2i& c) { return {static_cast<const ProbabilityGrid&>(g).GetProbability(c), 0.f}; }
  // Writes a batch; returns what is expected now (tolerance applies).
  void Write(pbt::Source& s, Grid2D* g, const std::vector<Eigen::Array2i>& cells, std::vector<std::pair<Eigen::Array2i, Cell>>* wrote) {
    auto* grid = static_cast<ProbabilityGrid*>(g);
    if (s.Bits(1)) {
      for (const auto& c : cells) {
        if (grid->IsKnown(c)) continue;
        const float p = s.Chance(0.2) ? (s.Bits(1) ? 0.01f : 0.99f) : s.Real(0.1, 0.9);
        grid->SetProbability(c, p);
        wrote->push_back({c, {std::min(0.9f, std::max(0.1f, p)), 0.f}});
      }
      return;
    }
    const double p = s.Real(0.02, 0.98);
    const auto table = mapping::ComputeLookupTableToApplyCorrespondenceCostOdds(mapping::Odds(p));
    std::map<Key, bool> done;
    for (const auto& c : cells) {
      const bool known = grid->IsKnown(c);
      const double old = grid->GetProbability(c);
      const bool first = !done[{c.x(), c.y()}];
      PBT_CHECK_EQ(grid->ApplyLookupTable(c, table), first) << "every update but the first until the end of the scan is ignored";
      done[{c.x(), c.y()}] = true;
      PBT_CHECK(grid->IsKnown(c));
      const double odds = known ? old / (1. - old) * p / (1. - p) : p / (1. - p);
      const float want = first ? std::min(0.9, std::max(0.1, odds / (1. + odds))) : old;
      PBT_CHECK(std::abs(grid->GetProbability(c) - want) < 3e-5) << "during the update " << grid->GetProbability(c) << " want " << want;
      if (first) wrote->push_back({c, {want, 0.f}});
    }
    grid->FinishUpdate();
  }
  Cell Tolerance() { return {3e-5f, 0.f}; }
  Cell Outside() { return {0.1f, 0.f}; }
  void CheckPixel(const Cell& c, uint8_t value, uint8_t alpha) {
    const double logit = std::log(c.a / (1. - c.a)), top = std::log(9.);
    const double level = (logit + top) * 254. / (2. * top) + 1.;
    const double delta = 128. - level;
    PBT_CHECK(value == 0 || alpha == 0);
    PBT_CHECK(value || alpha) << "a known cell must not look unknown";
    PBT_CHECK(std::abs((double(value) - alpha) - delta) <= (alpha == 1 ? 1.51 : 0.51)) << "probability " << c.a << " drawn " << int(value) << "," << int(alpha);
  }
  void CheckRange(const Grid2D& g) { PBT_CHECK(std::abs(g.GetMinCorrespondenceCost() - 0.1) < 1e-6 && std::abs(g.GetMaxCorrespondenceCost() - 0.9) < 1e-6); }
  double Cost(const Cell& c) { return 1. - c.a; }
  double CostOutside() { return 0.9; }
};

struct Distance {
  using Grid = TSDF2D;
  float trunc, max_weight;
  explicit Distance(pbt::Source& s) : trunc(s.Pick(std::vector<float>{0.1f, 0.3f, 1.f, 2.5f})), max_weight(s.Pick(std::vector<float>{1.f, 10.f, 128.f})) {}
  std::unique_ptr<Grid2D> Make(const MapLimits& l, mapping::ValueConversionTables* t) { return std::make_unique<TSDF2D>(l, trunc, max_weight, t); }
  std::unique_ptr<Grid2D> Load(const mapping::proto::Grid2D& p, mapping::ValueConversionTables* t) { return std::make_unique<TSDF2D>(p, t); }
  Cell Read(const Grid2D& g, const Eigen::Array2i& c) {
    const auto& grid = static_cast<const TSDF2D&>(g);
    const auto both = grid.GetTSDAndWeight(c);
    PBT_CHECK(both.first == grid.GetTSD(c) && both.second == grid.GetWeight(c));
    return {both.first, both.second};
  }
  void Write(pbt::Source& s, Grid2D* g, const std::vector<Eigen::Array2i>& cells, std::vector<std::pair<Eigen::Array2i, Cell>>* wrote) {
    auto* grid = static_cast<TSDF2D*>(g);
    std::map<Key, bool> done;
    for (const auto& c : cells) {
      PBT_CHECK_EQ(grid->CellIsUpdated(c), (done[Key(c.x(), c.y())]));
      const float d = s.Real(-1.2 * trunc, 1.2 * trunc), w = s.Real(0., 1.2 * max_weight);
      grid->SetCell(c, d, w);
      if (!done[{c.x(), c.y()}]) wrote->push_back({c, {std::min(trunc, std::max(-trunc, d)), std::min(max_weight, w)}});
      done[{c.x(), c.y()}] = true;
      PBT_CHECK(grid->CellIsUpdated(c));
    }
    grid->FinishUpdate();
    for (const auto& c : cells) PBT_CHECK(!grid->CellIsUpdated(c));
  }
  Cell Tolerance() { return {2.5f * trunc / 32766.f, 2.5f * max_weight / 32766.f}; }
  Cell Outside() { return {-trunc, 0.f}; }
  void CheckPixel(const Cell& c, uint8_t value, uint8_t alpha) {
    const double delta = c.b / max_weight * (std::sqrt(std::abs(c.a) / trunc) * 255. - 128.);
    PBT_CHECK(value == 0 || alpha == 0);
    PBT_CHECK(value || alpha) << "a known cell must not look unknown";
    PBT_CHECK(std::abs((double(value) - alpha) - delta) <= (alpha == 1 ? 1.6 : 0.6)) << "distance " << c.a << " weight " << c.b << " drawn " << int(value) << "," << int(alpha);
  }
  void CheckRange(const Grid2D& g) { PBT_CHECK(g.GetMinCorrespondenceCost() == -trunc && g.GetMaxCorrespondenceCost() == trunc); }
  double Cost(const Cell& c) { return c.a; }
  double CostOutside() { return trunc; }
};

template <typename Kind>
void Run(pbt::Source& s) {
  Kind kind(s);
  mapping::ValueConversionTables tables;
  const double res = s.Pick(std::vector<double>{0.05, 0.1, 0.25, 1.});
  const int nx = s.Int(1, 7), ny = s.Int(1, 7);
  const Eigen::Vector2d max(s.Real(-5., 5.), s.Real(-5., 5.));
  std::unique_ptr<Grid2D> grid = kind.Make(MapLimits(res, max, CellLimits(nx, ny)), &tables);
  std::map<Key, Cell> model;
  Eigen::Array2i shift(0, 0);  // index = lattice + shift
  const int ops = s.Len(1, 14);
  int writes = 0, moves = 0;
  for (int op = 0; op != ops; ++op) {
    const MapLimits before = grid->limits();
    const int x_cells = before.cell_limits().num_x_cells, y_cells = before.cell_limits().num_y_cells;
    switch (s.Weighted({5, 3, 2, 2, 2, 0.02})) {
      case 0: {
        std::vector<Eigen::Array2i> cells;
        const int n = s.Len(1, 8);
        for (int i = 0; i != n; ++i) {
          const int x = s.Bits(x_cells - 1), y = s.Bits(y_cells - 1);
          cells.push_back({x, y});
        }
        std::vector<std::pair<Eigen::Array2i, Cell>> wrote;
        kind.Write(s, grid.get(), cells, &wrote);
        for (const auto& w : wrote) {
          const Cell got = kind.Read(*grid, w.first);
          PBT_CHECK(std::abs(got.a - w.second.a) <= kind.Tolerance().a && std::abs(got.b - w.second.b) <= kind.Tolerance().b)
              << "wrote " << w.second.a << "," << w.second.b << " read " << got.a << "," << got.b;
          const Eigen::Array2i l = w.first - shift;
          model[{l.x(), l.y()}] = got;
          ++writes;
        }
        break;
      }
      case 1: {
        if (x_cells * y_cells > 3000) break;
        const Eigen::Vector2d c = before.max() - res * 0.5 * Eigen::Vector2d(y_cells, x_cells);
        const Eigen::Vector2f p = (c + res * Eigen::Vector2d(s.Real(-1., 1.) * y_cells * 1.3, s.Real(-1., 1.) * x_cells * 1.3)).cast<float>();
        const bool inside = before.Contains(before.GetCellIndex(p));
        grid->GrowLimits(p);
        const MapLimits after = grid->limits();
        PBT_CHECK(after.Contains(after.GetCellIndex(p))) << "did not grow to the point";
        if (inside) PBT_CHECK(after.cell_limits().num_x_cells == x_cells && after.cell_limits().num_y_cells == y_cells && after.max() == before.max()) << "grew without need";
        shift += grid2d::Shift(before, after);
        if (!model.empty() && !inside) ++moves;
        break;
      }
      case 2: {
        const bool keep = s.Bits(1);
        Eigen::Array2i offset;
        CellLimits cl;
        grid->ComputeCroppedLimits(&offset, &cl);
        std::unique_ptr<Grid2D> cropped = grid->ComputeCroppedGrid();
        PBT_CHECK(cropped->GetGridType() == grid->GetGridType());
        Eigen::Array2i lo(1 << 20, 1 << 20), hi(-(1 << 20), -(1 << 20));
        for (const auto& e : model) lo = lo.min(Eigen::Array2i(e.first.first, e.first.second)), hi = hi.max(Eigen::Array2i(e.first.first, e.first.second));
        if (model.empty()) { lo = -shift; hi = -shift; }
        PBT_CHECK((offset == lo + shift).all()) << "crop offset";
        PBT_CHECK(cl.num_x_cells == hi.x() - lo.x() + 1 && cl.num_y_cells == hi.y() - lo.y() + 1) << "crop size";
        const Eigen::Array2i cs = grid2d::Shift(before, cropped->limits());
        PBT_CHECK((cs == -offset).all()) << "cropping moved the cells";
        PBT_CHECK(cropped->limits().cell_limits().num_x_cells == cl.num_x_cells && cropped->limits().cell_limits().num_y_cells == cl.num_y_cells);
        for (int y = 0; y != cl.num_y_cells; ++y)
          for (int x = 0; x != cl.num_x_cells; ++x) {
            const Eigen::Array2i c(x, y), l = c + offset - shift;
            const auto it = model.find({l.x(), l.y()});
            PBT_CHECK_EQ(cropped->IsKnown(c), it != model.end()) << "cropped cell " << x << "," << y;
            if (it == model.end()) continue;
            const Cell got = kind.Read(*cropped, c);
            PBT_CHECK(got.a == it->second.a && got.b == it->second.b) << "cropping changed a cell: " << got.a << "," << got.b << " was " << it->second.a << "," << it->second.b;
          }
        if (keep) {
          grid = std::move(cropped);
          shift += cs;
          if (!model.empty()) ++moves;
        }
        break;
      }
      case 3: {
        mapping::proto::Grid2D proto;
        PBT_CHECK(proto.ParseFromString(grid->ToProto().SerializeAsString()));
        const std::string bytes = proto.SerializeAsString();
        grid = kind.Load(proto, &tables);
        PBT_CHECK(grid->ToProto().SerializeAsString() == bytes) << "serialized form is not stable";
        PBT_CHECK(grid->limits().max() == before.max() && grid->limits().resolution() == res);
        PBT_CHECK(grid->limits().cell_limits().num_x_cells == x_cells && grid->limits().cell_limits().num_y_cells == y_cells);
        if (!model.empty()) ++moves;
        break;
      }
      case 4: {
        const transform::Rigid3d pose = GenRigid3(s, 10.);
        mapping::proto::SubmapQuery::Response::SubmapTexture texture;
        PBT_CHECK(grid->DrawToSubmapTexture(&texture, pose));
        Eigen::Array2i offset;
        CellLimits cl;
        grid->ComputeCroppedLimits(&offset, &cl);
        PBT_CHECK_EQ(texture.width(), cl.num_x_cells);
        PBT_CHECK_EQ(texture.height(), cl.num_y_cells);
        PBT_CHECK_EQ(texture.resolution(), res);
        std::string cells;
        common::FastGunzipString(texture.cells(), &cells);
        PBT_CHECK_EQ(cells.size(), 2u * cl.num_x_cells * cl.num_y_cells);
        for (int y = 0; y != cl.num_y_cells; ++y)
          for (int x = 0; x != cl.num_x_cells; ++x) {
            const uint8_t value = cells[2 * (y * cl.num_x_cells + x)], alpha = cells[2 * (y * cl.num_x_cells + x) + 1];
            const Eigen::Array2i l = Eigen::Array2i(x, y) + offset - shift;
            const auto it = model.find({l.x(), l.y()});
            if (it == model.end()) PBT_CHECK(value == 0 && alpha == 0) << "an unknown cell is drawn";
            else kind.CheckPixel(it->second, value, alpha);
          }
        // The upper left corner of the texture in the frame of the submap.
        const Eigen::Vector3d corner = pose * transform::ToRigid3(texture.slice_pose()).translation();
        const Eigen::Vector2d want = before.max() - res * Eigen::Vector2d(offset.y(), offset.x());
        PBT_CHECK((corner - Eigen::Vector3d(want.x(), want.y(), 0.)).norm() < 1e-9 * (100.)) << "texture is displaced " << corner.transpose();
        PBT_CHECK(RotationDistance(pose.rotation() * transform::ToRigid3(texture.slice_pose()).rotation(), Eigen::Quaterniond::Identity()) < 1e-7);
        break;
      }
      default: {
        if (model.empty() || grid->GetGridType() != mapping::GridType::PROBABILITY_GRID) break;
        const Eigen::Array2i c = Eigen::Array2i(model.begin()->first.first, model.begin()->first.second) + shift;
        PBT_CHECK_EQ(pbt::RunForked([&] { static_cast<ProbabilityGrid*>(grid.get())->SetProbability(c, 0.5f); }), 1) << "a known cell must not be set";
      }
    }
    // Everything agrees with the model.
    kind.CheckRange(*grid);
    const CellLimits cl = grid->limits().cell_limits();
    size_t known = 0;
    for (int y = -1; y <= cl.num_y_cells; ++y)
      for (int x = -1; x <= cl.num_x_cells; ++x) {
        const Eigen::Array2i c(x, y), l = c - shift;
        const auto it = model.find({l.x(), l.y()});
        PBT_CHECK_EQ(grid->IsKnown(c), it != model.end()) << "cell " << x << "," << y << " after operation " << op;
        const Cell got = kind.Read(*grid, c);
        if (it != model.end()) {
          ++known;
          PBT_CHECK(got.a == it->second.a && got.b == it->second.b) << "cell " << x << "," << y << " changed: " << got.a << "," << got.b << " was " << it->second.a << "," << it->second.b;
          PBT_CHECK(std::abs(grid->GetCorrespondenceCost(c) - kind.Cost(got)) < 1e-5) << "cost";
        } else {
          PBT_CHECK(std::abs(grid->GetCorrespondenceCost(c) - kind.CostOutside()) < 1e-6) << "cost of an unknown cell";
          if (!grid->limits().Contains(c)) PBT_CHECK(std::abs(got.a - kind.Outside().a) < 1e-6 && got.b == 0.f) << "outside";
        }
      }
    PBT_CHECK_EQ(known, model.size());
  }
  if (writes >= 3 && moves >= 1) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(ops) + " operations, " + std::to_string(model.size()) + " known cells, " + std::to_string(moves) + " moves");
}
}  // namespace

PBT_FACET(occupancy, o.weight = 1; o.rule =
    "random histories of writing, growing, cropping, serializing and drawing an occupancy grid against a lattice model; "
    "non-trivial: >=3 writes and known cells went through growing, cropping or serialization") { Run<Probability>(s); }
PBT_FACET(distance, o.weight = 1; o.rule = "as occupancy, for signed-distance grids") { Run<Distance>(s); }

PBT_FACET(old_format, o.weight = 0.2; o.rule =
    "occupancy grids serialized without cost bounds (older files) read with the default bounds; non-trivial: >=1 known cell") {
  mapping::ValueConversionTables tables;
  ProbabilityGrid grid(MapLimits(0.1, Eigen::Vector2d(1., 2.), CellLimits(s.Int(1, 5), s.Int(1, 5))), &tables);
  const CellLimits cl = grid.limits().cell_limits();
  int n = 0;
  for (int y = 0; y != cl.num_y_cells; ++y)
    for (int x = 0; x != cl.num_x_cells; ++x)
      if (s.Chance(0.4)) { grid.SetProbability({x, y}, s.Real(0.1, 0.9)); ++n; }
  if (n) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(n) + " cells");
  auto proto = grid.ToProto();
  proto.clear_min_correspondence_cost();
  proto.clear_max_correspondence_cost();
  const ProbabilityGrid back(proto, &tables);
  for (int y = 0; y != cl.num_y_cells; ++y)
    for (int x = 0; x != cl.num_x_cells; ++x) {
      const Eigen::Array2i c(x, y);
      PBT_CHECK_EQ(back.IsKnown(c), grid.IsKnown(c));
      PBT_CHECK_EQ(back.GetProbability(c), grid.GetProbability(c));
      PBT_CHECK_EQ(back.GetCorrespondenceCost(c), grid.GetCorrespondenceCost(c));
    }
}

PBT_FACET(cells_and_points, o.weight = 1; o.rule =
    "random limits and points: a point lies in the cell it is assigned to, cell centres map back to their cell, and "
    "containment follows the limits; non-trivial: point inside the limits") {
  const double res = s.LogReal(0.01, 2.);
  const int nx = s.Int(1, 300), ny = s.Int(1, 300);
  const Eigen::Vector2d max(s.Real(-20., 20.), s.Real(-20., 20.));
  const MapLimits l(res, max, CellLimits(nx, ny));
  const Eigen::Vector2f p(max.x() - res * s.Real(-0.3 * ny, 1.3 * ny), max.y() - res * s.Real(-0.3 * nx, 1.3 * nx));
  const Eigen::Array2i c = l.GetCellIndex(p);
  const grid2d::Box box = grid2d::Grow(grid2d::CellBox(l, c), 1e-9 * (1 + res * 300));
  PBT_CHECK(grid2d::Inside(box, p.cast<double>())) << "point " << p.transpose() << " cell " << c.transpose();
  const bool inside = c.x() >= 0 && c.x() < nx && c.y() >= 0 && c.y() < ny;
  PBT_CHECK_EQ(l.Contains(c), inside);
  if (inside) s.NonTrivial();
  const Eigen::Array2i d(s.Int(-3, nx + 3), s.Int(-3, ny + 3));
  PBT_CHECK((l.GetCellIndex(l.GetCellCenter(d)) == d).all()) << "centre of " << d.transpose();
  const MapLimits back(mapping::ToProto(l));
  PBT_CHECK(back.max() == l.max() && back.resolution() == res && back.cell_limits().num_x_cells == nx && back.cell_limits().num_y_cells == ny);
  if (s.Sampling()) s.Describe(std::to_string(nx) + "x" + std::to_string(ny) + " resolution " + std::to_string(res));
  if (s.Chance(0.05)) {
    // Row-major iteration over a region visits every cell once.
    const Eigen::Array2i a(s.Int(-3, 3), s.Int(-3, 3)), b = a + Eigen::Array2i(s.Int(0, 5), s.Int(0, 5));
    Eigen::Array2i want = a;
    int n = 0;
    for (const Eigen::Array2i& i : mapping::XYIndexRangeIterator(a, b)) {
      PBT_CHECK((i == want).all());
      ++n;
      if (want.x() == b.x()) want = {a.x(), want.y() + 1};
      else ++want.x();
    }
    PBT_CHECK_EQ(n, (b - a + 1).prod());
  }
}

PBT_FACET(tables, o.weight = 0.2; o.rule =
    "random sequences of requests for conversion tables from one shared store, bounds and unknown value often shared "
    "between requests: every table, including those handed out earlier, maps unknown to its own unknown value and 1..32767 "
    "linearly onto its own bounds, whether or not marked as updated; non-trivial: >=3 requests of >=2 different tables") {
  mapping::ValueConversionTables store;
  const std::vector<float> pool = {0.f, 0.1f, 0.9f, -0.3f, 0.3f, 1.f, 10.f, -10.f, float(s.LogReal(0.01, 100.))};
  struct Want { float unknown, lower, upper; const std::vector<float>* table; };
  std::vector<Want> wants;
  const int n = s.Len(1, 6);
  for (int i = 0; i != n; ++i) {
    Want w{s.Pick(pool), s.Pick(pool), s.Pick(pool), nullptr};
    if (w.lower > w.upper) std::swap(w.lower, w.upper);
    if (!wants.empty() && s.Chance(0.4)) {
      const Want& old = wants[s.Int(0, int(wants.size()) - 1)];
      if (s.Bits(1)) w.unknown = old.unknown;
      else w.lower = old.lower, w.upper = old.upper;
    }
    w.table = store.GetConversionTable(w.unknown, w.lower, w.upper);
    wants.push_back(w);
  }
  std::set<std::tuple<float, float, float>> different;
  for (const Want& w : wants) {
    different.insert({w.unknown, w.lower, w.upper});
    PBT_CHECK_EQ(w.table->size(), 65536u);
    auto check = [&](int value) {
      const double want = value == 0 ? double(w.unknown) : double(w.lower) + (value - 1) * (double(w.upper) - w.lower) / 32766.;
      for (int marked : {0, 1 << 15})
        PBT_CHECK(std::abs((*w.table)[value + marked] - want) <= 1e-5 * (1. + std::abs(w.lower) + std::abs(w.upper)))
            << "value " << value << " of table " << w.unknown << " [" << w.lower << ", " << w.upper << "] is " << (*w.table)[value + marked] << ", want " << want;
    };
    check(0), check(1), check(32767);
    for (int k = 0; k != 40; ++k) check(s.Int(0, 32767));
  }
  if (n >= 3 && different.size() >= 2) s.NonTrivial();
}
