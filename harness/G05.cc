// G05: the life of submaps.
#include <map>
#include <set>

#include "geo.h"
#include "grid2d.h"

#include "cartographer/common/port.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "cartographer/mapping/internal/submap_controller.h"
#include "cartographer/mapping/proto/submap.pb.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::Submap2D;
using mapping::Submap3D;

// Which scans each submap must hold, in creation order.
struct Life {
  int first = 0;   // scan that created it
  int count = 0;   // scans so far
  bool finished = false;
};
// The documented schedule: two submaps overlapping by 'n' scans.
std::vector<Life> Expected(int scans, int n) {
  std::vector<Life> result;
  for (int first = 0; first < scans; first += n) {
    Life l;
    l.first = first;
    l.count = std::min(2 * n, scans - first);
    l.finished = l.count == 2 * n;
    result.push_back(l);
  }
  return result;
}
// The active ones after 'scans' insertions: the last two.
template <typename T>
void CheckLives(const std::vector<std::shared_ptr<const T>>& all, const std::vector<std::shared_ptr<const T>>& active, int scans, int n) {
  const std::vector<Life> want = Expected(scans, n);
  PBT_CHECK_EQ(all.size(), want.size()) << "number of submaps after " << scans << " scans, " << n << " per submap";
  for (size_t i = 0; i != all.size(); ++i) {
    PBT_CHECK_EQ(all[i]->num_range_data(), want[i].count) << "submap " << i << " after " << scans << " scans";
    PBT_CHECK_EQ(all[i]->insertion_finished(), want[i].finished) << "submap " << i << " after " << scans << " scans";
  }
  const size_t k = std::min<size_t>(2, all.size());
  PBT_CHECK_EQ(active.size(), k);
  for (size_t i = 0; i != k; ++i) PBT_CHECK(active[i] == all[all.size() - k + i]) << "active submaps are not the latest, oldest first";
}

sensor::RangeData GenScan(pbt::Source& s, const Eigen::Vector3f& origin, double reach, bool flat, bool intensities) {
  sensor::RangeData d;
  d.origin = origin;
  const int n = s.Len(0, 8);
  std::vector<sensor::RangefinderPoint> r;
  std::vector<float> v;
  for (int i = 0; i != n; ++i) {
    r.push_back({origin + Eigen::Vector3f(s.Real(-reach, reach), s.Real(-reach, reach), flat ? 0. : s.Real(-reach, reach))});
    v.push_back(s.Int(0, 100));
  }
  d.returns = intensities ? sensor::PointCloud(r, v) : sensor::PointCloud(r);
  if (s.Chance(0.3)) d.misses.push_back({origin + Eigen::Vector3f(s.Real(-reach, reach), s.Real(-reach, reach), 0.)});
  return d;
}

// Known cells of a grid keyed by their place on the lattice of 'reference'.
std::map<std::pair<int, int>, std::pair<float, float>> Cells(const mapping::Grid2D& g, const mapping::MapLimits& reference) {
  const Eigen::Array2i shift = grid2d::Shift(reference, g.limits());
  std::map<std::pair<int, int>, std::pair<float, float>> result;
  const auto cl = g.limits().cell_limits();
  for (int y = 0; y != cl.num_y_cells; ++y)
    for (int x = 0; x != cl.num_x_cells; ++x) {
      const Eigen::Array2i c(x, y);
      if (!g.IsKnown(c)) continue;
      const float w = g.GetGridType() == mapping::GridType::TSDF ? static_cast<const mapping::TSDF2D&>(g).GetWeight(c) : 0.f;
      result[{x - shift.x(), y - shift.y()}] = {g.GetCorrespondenceCost(c), w};
    }
  return result;
}
bool SameProto(const mapping::proto::Submap& a, const mapping::proto::Submap& b) { return a.SerializeAsString() == b.SerializeAsString(); }
}  // namespace

PBT_FACET(submaps_2d, o.weight = 1; o.rule =
    "random scan sequences (occupancy and signed-distance grids) into the active submaps: creation, overlap, finishing, "
    "poses and contents compared with an independent replay of the scans, serialization on the way; non-trivial: >=1 "
    "finished and >=3 submaps, >=5 returns") {
  const bool tsdf = s.Bits(1);
  const int n = s.Int(1, 4);
  mapping::proto::SubmapsOptions2D options;
  options.set_num_range_data(n);
  const float res = s.Pick(std::vector<float>{0.25f, 0.5f});
  options.mutable_grid_options_2d()->set_resolution(res);
  options.mutable_grid_options_2d()->set_grid_type(tsdf ? mapping::proto::GridOptions2D::TSDF : mapping::proto::GridOptions2D::PROBABILITY_GRID);
  auto* ins = options.mutable_range_data_inserter_options();
  ins->set_range_data_inserter_type(tsdf ? mapping::proto::RangeDataInserterOptions::TSDF_INSERTER_2D : mapping::proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* po = ins->mutable_probability_grid_range_data_inserter_options_2d();
  po->set_hit_probability(0.6);
  po->set_miss_probability(0.45);
  po->set_insert_free_space(s.Chance(0.8));
  auto* to = ins->mutable_tsdf_range_data_inserter_options_2d();
  to->set_truncation_distance(2 * res);
  to->set_maximum_weight(10.);
  to->set_update_free_space(s.Bits(1));
  std::unique_ptr<mapping::RangeDataInserterInterface> inserter;
  if (tsdf) inserter = std::make_unique<mapping::TSDFRangeDataInserter2D>(*to);
  else inserter = std::make_unique<mapping::ProbabilityGridRangeDataInserter2D>(*po);
  mapping::ActiveSubmaps2D active(options);
  PBT_CHECK(active.submaps().empty());
  std::vector<std::shared_ptr<const Submap2D>> all;
  std::vector<sensor::RangeData> scans;
  std::vector<std::string> frozen;
  mapping::ValueConversionTables tables;
  const int total = s.Len(1, 14);
  int returns = 0;
  Eigen::Vector3f origin(s.Real(-5., 5.), s.Real(-5., 5.), s.Real(-1., 1.));
  for (int k = 0; k != total; ++k) {
    origin += Eigen::Vector3f(s.Real(-1., 1.), s.Real(-1., 1.), 0.f);
    const sensor::RangeData scan = GenScan(s, origin, s.Chance(0.05) ? 40. : 5., s.Bits(1), false);
    returns += scan.returns.size();
    scans.push_back(scan);
    const auto now = active.InsertRangeData(scan);
    for (const auto& submap : now)
      if (std::find(all.begin(), all.end(), submap) == all.end()) all.push_back(submap);
    CheckLives(all, now, k + 1, n);
    PBT_CHECK(active.submaps() == now);
    // A finished submap never changes again.
    frozen.resize(all.size());
    for (size_t i = 0; i != all.size(); ++i) {
      if (!all[i]->insertion_finished()) continue;
      const std::string bytes = all[i]->ToProto(true).SerializeAsString();
      if (frozen[i].empty()) frozen[i] = bytes;
      PBT_CHECK(frozen[i] == bytes) << "a finished submap changed";
    }
  }
  // Contents and poses.
  const std::vector<Life> lives = Expected(total, n);
  for (size_t i = 0; i != all.size(); ++i) {
    const Submap2D& submap = *all[i];
    const Eigen::Vector3f o = scans[lives[i].first].origin;
    PBT_CHECK((submap.local_pose().translation() - Eigen::Vector3d(o.x(), o.y(), 0.)).norm() < 1e-6) << "pose of submap " << i;
    PBT_CHECK(submap.local_pose().rotation().angularDistance(Eigen::Quaterniond::Identity()) < 1e-9);
    const mapping::MapLimits limits(res, o.head<2>().cast<double>() + 50. * res * Eigen::Vector2d::Ones(), mapping::CellLimits(100, 100));
    std::unique_ptr<mapping::Grid2D> replay;
    if (tsdf) replay = std::make_unique<mapping::TSDF2D>(limits, 2 * res, 10.f, &tables);
    else replay = std::make_unique<mapping::ProbabilityGrid>(limits, &tables);
    for (int k = lives[i].first; k != lives[i].first + lives[i].count; ++k) inserter->Insert(scans[k], replay.get());
    const auto want = Cells(*replay, limits), got = Cells(*submap.grid(), limits);
    PBT_CHECK(want == got) << "submap " << i << " does not hold exactly its scans: " << got.size() << " known cells, want " << want.size();
    if (lives[i].finished && !want.empty()) {
      // Finished submaps are cropped.
      Eigen::Array2i lo(1 << 20, 1 << 20), hi(-(1 << 20), -(1 << 20));
      for (const auto& e : want) lo = lo.min(Eigen::Array2i(e.first.first, e.first.second)), hi = hi.max(Eigen::Array2i(e.first.first, e.first.second));
      const auto cl = submap.grid()->limits().cell_limits();
      PBT_CHECK(cl.num_x_cells == hi.x() - lo.x() + 1 && cl.num_y_cells == hi.y() - lo.y() + 1) << "a finished submap is not cropped";
    }
    // Serialized form.
    const auto proto = submap.ToProto(true);
    PBT_CHECK_EQ(proto.submap_2d().num_range_data(), submap.num_range_data());
    PBT_CHECK_EQ(proto.submap_2d().finished(), submap.insertion_finished());
    const Submap2D loaded(proto.submap_2d(), &tables);
    PBT_CHECK(SameProto(loaded.ToProto(true), proto)) << "submap changes when serialized";
    PBT_CHECK(loaded.grid() != nullptr && Cells(*loaded.grid(), limits) == want);
    PBT_CHECK(Near(loaded.local_pose(), submap.local_pose(), 0., 0.));
    PBT_CHECK(!submap.ToProto(false).submap_2d().has_grid());
    Submap2D updated(Eigen::Vector2f(o.x(), o.y()), nullptr, &tables);
    updated.UpdateFromProto(proto);
    PBT_CHECK(SameProto(updated.ToProto(true), proto)) << "updating from serialized form";
    // Texture.
    mapping::proto::SubmapQuery::Response response;
    submap.ToResponseProto(transform::Rigid3d::Identity(), &response);
    PBT_CHECK_EQ(response.submap_version(), submap.num_range_data());
    PBT_CHECK_EQ(response.textures_size(), 1);
    std::string cells;
    common::FastGunzipString(response.textures(0).cells(), &cells);
    PBT_CHECK_EQ(cells.size(), 2u * response.textures(0).width() * response.textures(0).height());
    size_t drawn = 0;
    for (size_t c = 0; c < cells.size(); c += 2)
      if (cells[c] || cells[c + 1]) ++drawn;
    PBT_CHECK_EQ(drawn, want.size()) << "texture shows another number of cells";
  }
  if (s.Chance(0.01) && all[0]->insertion_finished())
    PBT_CHECK_EQ(pbt::RunForked([&] { const_cast<Submap2D*>(all[0].get())->InsertRangeData(scans[0], inserter.get()); }), 1) << "a finished submap took more data";
  if (all.size() >= 3 && returns >= 5) s.NonTrivial();
  s.LabelIf(tsdf, "signed distance");
  if (s.Sampling()) s.Describe(std::to_string(total) + " scans, " + std::to_string(n) + " per submap, " + std::to_string(all.size()) + " submaps");
}

PBT_FACET(submaps_3d, o.weight = 1; o.rule =
    "as submaps_2d, for 3D submaps with two resolutions, intensities and rotation histograms, on tilted and turned poses; "
    "non-trivial: >=3 submaps, >=5 returns, some beyond the high-resolution range") {
  const int n = s.Int(1, 4);
  mapping::proto::SubmapsOptions3D options;
  options.set_num_range_data(n);
  const float hi = 0.25f, lo = 1.f;
  const float range = s.Real(2., 6.);
  options.set_high_resolution(hi);
  options.set_low_resolution(lo);
  options.set_high_resolution_max_range(range);
  auto* ins = options.mutable_range_data_inserter_options();
  ins->set_hit_probability(0.6);
  ins->set_miss_probability(0.45);
  ins->set_num_free_space_voxels(s.Int(0, 3));
  ins->set_intensity_threshold(60.f);
  const mapping::RangeDataInserter3D inserter(*ins);
  mapping::ActiveSubmaps3D active(options);
  std::vector<std::shared_ptr<const Submap3D>> all;
  struct Scan { sensor::RangeData data; Eigen::Quaterniond gravity; Eigen::VectorXf histogram; };
  std::vector<Scan> scans;
  std::vector<std::string> frozen;
  const int total = s.Len(1, 12), buckets = s.Pick(std::vector<int>{4, 10, 30});
  int returns = 0, far = 0;
  Eigen::Vector3f origin = GenVector(s, 5.).cast<float>();
  const bool with = s.Bits(1);
  for (int k = 0; k != total; ++k) {
    origin += GenVector(s, 1.).cast<float>();
    Scan scan{GenScan(s, origin, 5., false, with), GenRotation(s), Eigen::VectorXf::Zero(buckets)};
    for (int b = 0; b != buckets; ++b) scan.histogram(b) = s.Int(0, 8);
    returns += scan.data.returns.size();
    for (const auto& p : scan.data.returns) {
      const double d = (p.position - scan.data.origin).norm();
      if (std::abs(d - range) < 1e-3) throw pbt::Discard();
      if (d > range) ++far;
    }
    scans.push_back(scan);
    const auto now = active.InsertData(scan.data, scan.gravity, scan.histogram);
    for (const auto& submap : now)
      if (std::find(all.begin(), all.end(), submap) == all.end()) all.push_back(submap);
    CheckLives(all, now, k + 1, n);
    PBT_CHECK(active.submaps() == now);
    frozen.resize(all.size());
    for (size_t i = 0; i != all.size(); ++i) {
      if (!all[i]->insertion_finished()) continue;
      const std::string bytes = all[i]->ToProto(true).SerializeAsString();
      if (frozen[i].empty()) frozen[i] = bytes;
      PBT_CHECK(frozen[i] == bytes) << "a finished submap changed";
    }
  }
  const std::vector<Life> lives = Expected(total, n);
  for (size_t i = 0; i != all.size(); ++i) {
    const Submap3D& submap = *all[i];
    const Scan& first = scans[lives[i].first];
    const transform::Rigid3d pose(first.data.origin.cast<double>(), first.gravity);
    PBT_CHECK(Near(submap.local_pose(), pose, 1e-6, 1e-6)) << "pose of submap " << i;
    mapping::HybridGrid want_hi(hi), want_lo(lo);
    mapping::IntensityHybridGrid want_in(hi);
    Eigen::VectorXf want_hist = Eigen::VectorXf::Zero(buckets);
    for (int k = lives[i].first; k != lives[i].first + lives[i].count; ++k) {
      const sensor::RangeData moved = sensor::TransformRangeData(scans[k].data, pose.inverse().cast<float>());
      sensor::RangeData near{moved.origin, {}, {}};
      std::vector<sensor::RangefinderPoint> p;
      std::vector<float> v;
      for (size_t j = 0; j != moved.returns.size(); ++j) {
        if ((scans[k].data.returns[j].position - scans[k].data.origin).norm() > range) continue;
        p.push_back(moved.returns[j]);
        if (with) v.push_back(moved.returns.intensities()[j]);
      }
      near.returns = with ? sensor::PointCloud(p, v) : sensor::PointCloud(p);
      inserter.Insert(near, &want_hi, &want_in);
      inserter.Insert(moved, &want_lo, nullptr);
      want_hist += mapping::scan_matching::RotationalScanMatcher::RotateHistogram(
          scans[k].histogram, transform::GetYaw(pose.inverse().rotation() * scans[k].gravity));
    }
    auto bytes = [](const mapping::HybridGrid& g) { return g.ToProto().SerializeAsString(); };
    PBT_CHECK(bytes(want_hi) == bytes(submap.high_resolution_hybrid_grid())) << "fine grid of submap " << i << " does not hold exactly its scans";
    PBT_CHECK(bytes(want_lo) == bytes(submap.low_resolution_hybrid_grid())) << "coarse grid of submap " << i << " does not hold exactly its scans";
    PBT_CHECK_EQ(submap.rotational_scan_matcher_histogram().size(), buckets);
    PBT_CHECK((submap.rotational_scan_matcher_histogram() - want_hist).norm() < 1e-3 * (1 + want_hist.norm())) << "histogram of submap " << i;
    if (i + 2 >= all.size())
      for (const auto it : want_hi)
        PBT_CHECK(std::abs(submap.high_resolution_intensity_hybrid_grid().GetIntensity(it.first) - want_in.GetIntensity(it.first)) < 1e-3);
    const auto proto = submap.ToProto(true);
    const Submap3D loaded(proto.submap_3d());
    PBT_CHECK(SameProto(loaded.ToProto(true), proto)) << "submap changes when serialized";
    PBT_CHECK_EQ(loaded.num_range_data(), submap.num_range_data());
    PBT_CHECK_EQ(loaded.insertion_finished(), submap.insertion_finished());
    PBT_CHECK(bytes(loaded.high_resolution_hybrid_grid()) == bytes(want_hi) && bytes(loaded.low_resolution_hybrid_grid()) == bytes(want_lo));
    PBT_CHECK(loaded.rotational_scan_matcher_histogram() == submap.rotational_scan_matcher_histogram());
    PBT_CHECK(Near(loaded.local_pose(), submap.local_pose(), 0., 1e-15));
    PBT_CHECK(!submap.ToProto(false).submap_3d().has_high_resolution_hybrid_grid() && !submap.ToProto(false).submap_3d().has_low_resolution_hybrid_grid());
  }
  if (all.size() >= 3 && returns >= 5 && far > 0) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(total) + " scans, " + std::to_string(n) + " per submap, " + std::to_string(all.size()) + " submaps");
}

PBT_FACET(texture_3d, o.weight = 0.5; o.rule =
    "random occupied columns in a 3D submap at quarter-turn poses: the texture is the view from above, columns spanning "
    "at least three cells are drawn at their place, others are left blank; non-trivial: >=1 drawn and >=1 blank column") {
  // Build the grid through its serialized form.
  mapping::proto::Submap3D proto;
  *proto.mutable_local_pose() = transform::ToProto(transform::Rigid3d::Identity());
  const float res = 0.25f;
  mapping::HybridGrid grid(res), low(1.f);
  std::map<std::pair<int, int>, std::map<int, float>> columns;
  const int m = s.Len(1, 8);
  for (int c = 0; c != m; ++c) {
    const int x = s.Int(-6, 6), y = s.Int(-6, 6), z = s.Int(-4, 4), h = s.Int(1, 6);
    for (int k = 0; k != h; ++k) {
      if (s.Chance(0.3) && k != 0 && k != h - 1) continue;
      grid.SetProbability({x, y, z + k}, s.Chance(0.1) ? s.Real(0.1, 0.48) : s.Real(0.52, 0.9));
    }
  }
  low.SetProbability({0, 0, 0}, 0.7f);
  *proto.mutable_high_resolution_hybrid_grid() = grid.ToProto();
  *proto.mutable_low_resolution_hybrid_grid() = low.ToProto();
  proto.set_num_range_data(s.Int(1, 9));
  const Submap3D submap(proto);
  const int quarter = s.Bits(3);
  const transform::Rigid3d pose(Eigen::Vector3d(res * (s.Int(-9, 9) + s.Pick(std::vector<double>{0., 0.25, -0.25})), res * (s.Int(-9, 9) + 0.2), res * (s.Int(-9, 9) - 0.2)),
                                Eigen::Quaterniond(Eigen::AngleAxisd(quarter * M_PI / 2, Eigen::Vector3d::UnitZ())));
  for (const auto it : grid) {
    const float p = grid.GetProbability(it.first);
    if (p < 0.501f) continue;
    const Eigen::Vector3d g = pose * (it.first.matrix().cast<double>() * res);
    columns[{std::lround(g.x() / res), std::lround(g.y() / res)}][std::lround(g.z() / res)] = p;
  }
  if (columns.empty()) throw pbt::Discard();
  mapping::proto::SubmapQuery::Response response;
  submap.ToResponseProto(pose, &response);
  PBT_CHECK_EQ(response.submap_version(), submap.num_range_data());
  PBT_CHECK_EQ(response.textures_size(), 2);
  const auto& t = response.textures(0);
  PBT_CHECK(t.resolution() == res && response.textures(1).resolution() == 1.);
  int lx = 1 << 20, ly = 1 << 20, hx = -(1 << 20), hy = -(1 << 20);
  for (const auto& c : columns) lx = std::min(lx, c.first.first), hx = std::max(hx, c.first.first), ly = std::min(ly, c.first.second), hy = std::max(hy, c.first.second);
  PBT_CHECK_EQ(t.width(), hy - ly + 1);
  PBT_CHECK_EQ(t.height(), hx - lx + 1);
  std::string cells;
  common::FastGunzipString(t.cells(), &cells);
  PBT_CHECK_EQ(cells.size(), 2u * t.width() * t.height());
  const Eigen::Vector3d corner = (pose * transform::ToRigid3(t.slice_pose())).translation();
  PBT_CHECK(std::abs(corner.x() - hx * res) <= 0.51 * res && std::abs(corner.y() - hy * res) <= 0.51 * res) << "texture is displaced";
  PBT_CHECK(RotationDistance((pose * transform::ToRigid3(t.slice_pose())).rotation(), Eigen::Quaterniond::Identity()) < 1e-6);
  int drawn = 0, blank = 0;
  for (int r = 0; r != t.height(); ++r)
    for (int c = 0; c != t.width(); ++c) {
      const int value = static_cast<uint8_t>(cells[2 * (r * t.width() + c)]), alpha = static_cast<uint8_t>(cells[2 * (r * t.width() + c) + 1]);
      const auto it = columns.find({hx - r, hy - c});
      const int span = it == columns.end() ? 0 : it->second.rbegin()->first - it->second.begin()->first;
      if (it == columns.end() || span < 3) {
        PBT_CHECK(value == 0 && alpha == 0) << "drawn without need";
        if (it != columns.end()) ++blank;
        continue;
      }
      ++drawn;
      PBT_CHECK(value || alpha) << "column not drawn";
      PBT_CHECK(value == 0 || alpha == 0);
      double sum = 0, top = 0.5;
      for (const auto& e : it->second) sum += e.second, top = std::max<double>(top, e.second);
      const double count = it->second.size(), free = std::max(span - count, 0.) * 0.15;
      const double p = std::min(0.9, std::max(0.1, (sum + (1. - top) * free) / (count + free)));
      const double level = (std::log(p / (1 - p)) + std::log(9.)) * 254. / (2 * std::log(9.)) + 1.;
      PBT_CHECK(std::abs(value - alpha - (128. - level)) < (alpha == 1 ? 1.6 : 0.6)) << "probability " << p << " drawn " << value << "," << alpha;
    }
  if (drawn && blank) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(columns.size()) + " columns, " + std::to_string(drawn) + " drawn");
}

PBT_FACET(updates, o.weight = 0.5; o.rule =
    "random sequences of serialized submap states (with or without grids, growing or shrinking counts, finished or not, any "
    "histogram) given to submaps directly and to the controller that follows remote submaps by id: after each one a submap "
    "reports exactly the last state received and keeps the grids that were not sent; non-trivial: >=4 updates, >=1 without "
    "and >=1 with a grid, >=1 finished") {
  const bool three = s.Bits(1);
  mapping::ValueConversionTables tables;
  struct State {
    int count = 0;
    bool finished = false;
    std::string fine, coarse;  // serialized grids
    std::vector<float> histogram;
  };
  int with = 0, without = 0, finished = 0;
  const transform::Rigid3d pose(geo::GenVector(s, 9.), three ? geo::GenRotation(s) : Eigen::Quaterniond::Identity());
  auto gen = [&](bool grids, State* state) {
    mapping::proto::Submap p;
    state->finished = s.Chance(0.3);
    finished += state->finished;
    ++(grids ? with : without);
    if (three) {
      auto* m = p.mutable_submap_3d();
      *m->mutable_local_pose() = transform::ToProto(pose);
      m->set_num_range_data(state->count);
      m->set_finished(state->finished);
      const bool only_one = grids && s.Chance(0.2);
      if (grids) {
        mapping::HybridGrid g(0.25f);
        for (int i = s.Len(0, 4); i > 0; --i) g.SetProbability({s.Int(-9, 9), s.Int(-9, 9), s.Int(-9, 9)}, s.Real(0.2, 0.8));
        *m->mutable_high_resolution_hybrid_grid() = g.ToProto();
        state->fine = g.ToProto().SerializeAsString();
      }
      if (grids && !only_one) {
        mapping::HybridGrid g(1.f);
        for (int i = s.Len(0, 4); i > 0; --i) g.SetProbability({s.Int(-9, 9), s.Int(-9, 9), s.Int(-9, 9)}, s.Real(0.2, 0.8));
        *m->mutable_low_resolution_hybrid_grid() = g.ToProto();
        state->coarse = g.ToProto().SerializeAsString();
      }
      state->histogram.clear();
      for (int i = s.Len(0, 5); i > 0; --i) state->histogram.push_back(s.Int(0, 9)), m->add_rotational_scan_matcher_histogram(state->histogram.back());
    } else {
      auto* m = p.mutable_submap_2d();
      *m->mutable_local_pose() = transform::ToProto(pose);
      m->set_num_range_data(state->count);
      m->set_finished(state->finished);
      if (grids) {
        const mapping::MapLimits limits(0.5, Eigen::Vector2d(s.Int(-4, 4), s.Int(-4, 4)), mapping::CellLimits(s.Int(1, 9), s.Int(1, 9)));
        std::unique_ptr<mapping::Grid2D> grid;
        if (s.Bits(1)) {
          auto g = std::make_unique<mapping::TSDF2D>(limits, 1.f, 10.f, &tables);
          for (int i = s.Len(0, 4); i > 0; --i) {
            const Eigen::Array2i c(s.Int(0, limits.cell_limits().num_x_cells - 1), s.Int(0, limits.cell_limits().num_y_cells - 1));
            if (!g->IsKnown(c)) g->SetCell(c, s.Real(-0.9, 0.9), s.Real(1., 9.));
          }
          g->FinishUpdate();
          grid = std::move(g);
        } else {
          auto g = std::make_unique<mapping::ProbabilityGrid>(limits, &tables);
          for (int i = s.Len(0, 4); i > 0; --i) {
            const Eigen::Array2i c(s.Int(0, limits.cell_limits().num_x_cells - 1), s.Int(0, limits.cell_limits().num_y_cells - 1));
            if (!g->IsKnown(c)) g->SetProbability(c, s.Real(0.2, 0.8));
          }
          grid = std::move(g);
        }
        *m->mutable_grid() = grid->ToProto();
        state->fine = grid->ToProto().SerializeAsString();
      }
    }
    return p;
  };
  auto check = [&](const mapping::Submap& submap, const State& want, int count) {
    PBT_CHECK_EQ(submap.num_range_data(), count) << "number of scans after an update";
    PBT_CHECK_EQ(submap.insertion_finished(), want.finished) << "finished flag after an update";
    PBT_CHECK(geo::Near(submap.local_pose(), pose, 1e-12, 1e-9)) << "pose after an update";
    if (three) {
      const auto& m = static_cast<const Submap3D&>(submap);
      PBT_CHECK(m.high_resolution_hybrid_grid().ToProto().SerializeAsString() == want.fine) << "fine grid after an update";
      PBT_CHECK(m.low_resolution_hybrid_grid().ToProto().SerializeAsString() == want.coarse) << "coarse grid after an update";
      PBT_CHECK_EQ(m.rotational_scan_matcher_histogram().size(), int(want.histogram.size())) << "histogram after an update";
      for (size_t i = 0; i != want.histogram.size(); ++i) PBT_CHECK(m.rotational_scan_matcher_histogram()(i) == want.histogram[i]);
    } else {
      const auto& m = static_cast<const Submap2D&>(submap);
      PBT_CHECK(m.grid() && m.grid()->ToProto().SerializeAsString() == want.fine) << "grid after an update";
    }
  };
  auto run = [&](auto* controller) {
    using T = typename std::decay<decltype(*controller->UpdateSubmap(mapping::proto::Submap()))>::type;
    std::map<mapping::SubmapId, std::pair<std::shared_ptr<T>, State>> known;  // not finished yet
    const int steps = s.Len(1, 10);
    for (int k = 0; k != steps; ++k) {
      const mapping::SubmapId id{s.Int(0, 1), s.Int(0, 1)};
      const bool fresh = known.count(id) == 0;
      State next = fresh ? State() : known[id].second;
      next.count = fresh && s.Chance(0.7) ? 1 : s.Int(0, 9);
      mapping::proto::Submap p = gen(fresh || s.Bits(1), &next);
      if (fresh && three && next.coarse.empty()) {
        mapping::HybridGrid g(1.f);
        *p.mutable_submap_3d()->mutable_low_resolution_hybrid_grid() = g.ToProto();
        next.coarse = g.ToProto().SerializeAsString();
      }
      if (fresh) {  // a new submap is not finished with its first scan
        if (three) p.mutable_submap_3d()->set_finished(false); else p.mutable_submap_2d()->set_finished(false);
        next.finished = false;
      }
      p.mutable_submap_id()->set_trajectory_id(id.trajectory_id);
      p.mutable_submap_id()->set_submap_index(id.submap_index);
      std::shared_ptr<T> got = controller->UpdateSubmap(p);
      if (fresh && next.count != 1) {
        PBT_CHECK(got == nullptr) << "a submap of which the beginning is missing was taken";
        continue;
      }
      PBT_CHECK(got != nullptr);
      if (fresh) for (const auto& other : known) PBT_CHECK(other.second.first != got) << "two ids share a submap";
      else PBT_CHECK(got == known[id].first) << "an update replaced the submap";
      known[id] = {got, next};
      check(*got, next, fresh || next.finished ? next.count : 0);
      if (next.finished) known.erase(id);
      for (const auto& other : known)
        if (other.first < id || id < other.first) check(*other.second.first, other.second.second, other.second.first->num_range_data());
    }
  };
  if (s.Bits(1)) {
    s.Label("controller");
    if (three) { mapping::SubmapController<Submap3D> c; run(&c); }
    else { mapping::SubmapController<Submap2D> c; run(&c); }
  } else {
    State state;
    state.count = s.Int(0, 9);
    mapping::proto::Submap p = gen(true, &state);
    if (three && state.coarse.empty()) {
      mapping::HybridGrid g(1.f);
      *p.mutable_submap_3d()->mutable_low_resolution_hybrid_grid() = g.ToProto();
      state.coarse = g.ToProto().SerializeAsString();
    }
    std::unique_ptr<mapping::Submap> submap;
    if (three) submap = std::make_unique<Submap3D>(p.submap_3d());
    else submap = std::make_unique<Submap2D>(p.submap_2d(), &tables);
    check(*submap, state, state.count);
    const int steps = s.Len(0, 8);
    for (int k = 0; k != steps; ++k) {
      state.count = s.Int(0, 9);
      p = gen(s.Bits(1), &state);
      submap->UpdateFromProto(p);
      check(*submap, state, state.count);
    }
  }
  if (with + without >= 4 && with >= 1 && without >= 1 && finished >= 1) s.NonTrivial();
  s.LabelIf(three, "3d");
  if (s.Sampling()) s.Describe(std::to_string(with + without) + " updates");
}
