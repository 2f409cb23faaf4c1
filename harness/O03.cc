// O03: which submaps are discarded to bound the size of a map.
#include <map>
#include <set>
#include <sstream>

#include "geo.h"

#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::NodeId;
using mapping::SubmapId;
using mapping::PoseGraphInterface;
using transform::Rigid2d;
using transform::Rigid3d;

struct Graph : public mapping::Trimmable {
  int num_submaps(int trajectory_id) const override { return data.SizeOfTrajectoryOrZero(trajectory_id); }
  std::vector<SubmapId> GetSubmapIds(int trajectory_id) const override {
    std::vector<SubmapId> out;
    for (const auto& d : data.trajectory(trajectory_id)) out.push_back(d.id);
    return out;
  }
  mapping::MapById<SubmapId, PoseGraphInterface::SubmapData> GetOptimizedSubmapData() const override { return data; }
  const mapping::MapById<NodeId, mapping::TrajectoryNode>& GetTrajectoryNodes() const override { return nodes; }
  const std::vector<PoseGraphInterface::Constraint>& GetConstraints() const override { return constraints; }
  void TrimSubmap(const SubmapId& id) override {
    PBT_CHECK(data.Contains(id)) << "discarded submap " << id << " which is not there";
    data.Trim(id);
    trimmed.push_back(id);
  }
  bool IsFinished(int trajectory_id) const override { return finished.count(trajectory_id) > 0; }
  void SetTrajectoryState(int trajectory_id, PoseGraphInterface::TrajectoryState state) override { states.emplace_back(trajectory_id, state); }

  mapping::MapById<SubmapId, PoseGraphInterface::SubmapData> data;
  mapping::MapById<NodeId, mapping::TrajectoryNode> nodes;
  std::vector<PoseGraphInterface::Constraint> constraints;
  std::set<int> finished;
  std::vector<SubmapId> trimmed;
  std::vector<std::pair<int, PoseGraphInterface::TrajectoryState>> states;
};

struct Sub {
  double res;
  Eigen::Vector2d max;
  int nx, ny;
  std::vector<bool> known;
  bool finished;
  Rigid3d local, global;
};
std::shared_ptr<const mapping::Submap2D> Build(const Sub& sub, mapping::ValueConversionTables* tables) {
  mapping::proto::Submap2D proto;
  proto.set_num_range_data(1);
  proto.set_finished(sub.finished);
  *proto.mutable_local_pose() = transform::ToProto(sub.local);
  auto* grid = proto.mutable_grid();
  int lox = sub.nx, loy = sub.ny, hix = -1, hiy = -1;
  for (int y = 0; y < sub.ny; ++y) {
    for (int x = 0; x < sub.nx; ++x) {
      const bool k = sub.known[x + y * sub.nx];
      grid->add_cells(k ? 1 + (x * 131 + y * 17) % 32767 : 0);
      if (!k) continue;
      lox = std::min(lox, x);
      loy = std::min(loy, y);
      hix = std::max(hix, x);
      hiy = std::max(hiy, y);
    }
  }
  auto* limits = grid->mutable_limits();
  limits->set_resolution(sub.res);
  *limits->mutable_max() = transform::ToProto(sub.max);
  limits->mutable_cell_limits()->set_num_x_cells(sub.nx);
  limits->mutable_cell_limits()->set_num_y_cells(sub.ny);
  if (hix >= 0) {
    auto* box = grid->mutable_known_cells_box();
    box->set_min_x(lox);
    box->set_min_y(loy);
    box->set_max_x(hix);
    box->set_max_y(hiy);
  }
  grid->mutable_probability_grid_2d();
  return std::make_shared<const mapping::Submap2D>(proto, tables);
}

struct Verdict {
  std::set<SubmapId> must_trim, may_trim;
  bool overlap = false;
};
// The rule, from the definition. Throws Discard where ties or rounding decide.
Verdict Decide(const Graph& graph, const std::map<SubmapId, Sub>& subs, int fresh, double area) {
  std::map<SubmapId, NodeId> latest;
  for (const auto& c : graph.constraints) {
    if (c.tag != PoseGraphInterface::Constraint::INTRA_SUBMAP) continue;
    const auto it = latest.emplace(c.submap_id, c.node_id).first;
    it->second = std::max(it->second, c.node_id);
  }
  std::map<SubmapId, common::Time> time;
  std::set<common::Time> seen;
  for (const auto& l : latest) {
    if (!graph.data.Contains(l.first) || !graph.nodes.Contains(l.second)) continue;
    if (!subs.at(l.first).finished) continue;
    time[l.first] = graph.nodes.at(l.second).time();
    if (!seen.insert(time[l.first]).second) throw pbt::Discard();
  }
  const SubmapId first = (*graph.data.begin()).id;
  const double res = subs.at(first).res;
  const Eigen::Vector2d origin = subs.at(first).max;
  std::map<std::pair<int64_t, int64_t>, std::vector<std::pair<common::Time, SubmapId>>> cells;
  for (const auto& t : time) {
    const Sub& sub = subs.at(t.first);
    const Rigid3d to_global = sub.global * sub.local.inverse();
    for (int y = 0; y < sub.ny; ++y) {
      for (int x = 0; x < sub.nx; ++x) {
        if (!sub.known[x + y * sub.nx]) continue;
        const Eigen::Vector3d p = to_global * Eigen::Vector3d(sub.max.x() - sub.res * (y + 0.5), sub.max.y() - sub.res * (x + 0.5), 0.);
        const double a = (origin.x() - p.x()) / res, b = (origin.y() - p.y()) / res;
        if (std::abs(a - std::round(a)) < 1e-6 || std::abs(b - std::round(b)) < 1e-6) throw pbt::Discard();
        cells[{int64_t(std::floor(a)), int64_t(std::floor(b))}].emplace_back(t.second, t.first);
      }
    }
  }
  std::map<SubmapId, int64_t> once, repeated;
  Verdict v;
  for (auto& cell : cells) {
    auto& entries = cell.second;
    std::sort(entries.rbegin(), entries.rend());
    // Two cells of one rotated submap may fall into one cell; whether this takes one or two of the places is left open.
    std::set<SubmapId> distinct;
    for (size_t i = 0; i < entries.size(); ++i) {
      if (int(i) < fresh) ++repeated[entries[i].second];
      if (!distinct.count(entries[i].second)) {
        if (int(distinct.size()) < fresh) ++once[entries[i].second];
        distinct.insert(entries[i].second);
      }
    }
    v.overlap |= int(distinct.size()) > fresh;
  }
  const double needed = area / (res * res);
  for (const auto& t : time) {
    const int64_t lo = std::min(once[t.first], repeated[t.first]), hi = std::max(once[t.first], repeated[t.first]);
    if (lo == 0 || lo < needed - 1e-9 * needed) v.may_trim.insert(t.first);
    if (hi == 0 || hi + 1 <= needed * (1 - 1e-9)) v.must_trim.insert(t.first);
    // Whole numbers of cells are compared exactly.
    if (needed == std::floor(needed) && hi < needed) v.must_trim.insert(t.first);
  }
  return v;
}

Sub GenSub(pbt::Source& s, double res, bool aligned, double spread, int max_cells) {
  Sub sub;
  sub.res = res;
  sub.nx = s.Int(1, max_cells);
  sub.ny = s.Int(1, max_cells);
  const double density = s.Pick(std::vector<double>{1., 0.7, 0.});
  sub.known.resize(sub.nx * sub.ny);
  for (size_t i = 0; i < sub.known.size(); ++i) sub.known[i] = density == 1. || s.Chance(density);
  sub.finished = s.Chance(0.9);
  if (aligned) {  // On the lattice of the first submap: quarter turns and whole cells.
    sub.max = Eigen::Vector2d(res * s.Int(-3, 3), res * s.Int(-3, 3));
    sub.local = transform::Embed3D(Rigid2d({s.Real(-3, 3), s.Real(-3, 3)}, GenAngle(s)));
    sub.global = transform::Embed3D(Rigid2d({res * s.Int(-4, 4), res * s.Int(-4, 4)}, M_PI / 2 * s.Int(-2, 2))) * sub.local;
  } else {
    sub.max = Eigen::Vector2d(s.Real(-1, 1), s.Real(-1, 1));
    sub.local = transform::Embed3D(Rigid2d({s.Real(-3, 3), s.Real(-3, 3)}, GenAngle(s)));
    sub.global = transform::Embed3D(Rigid2d({s.Real(-spread, spread), s.Real(-spread, spread)}, s.Bits(1) ? GenAngle(s) : 0.)) * sub.local;
  }
  return sub;
}

PBT_FACET(overlapping_submaps, o.weight = 2; o.rule =
    "random histories of adding submaps (rotated, shifted, partly unknown, unfinished), nodes and constraints over trajectories and invoking the trimmer: exactly the submaps with too little "
    "area among the freshest are discarded, and only once enough were added; non-trivial: some submap discarded and some kept with overlap") {
  const int fresh = s.Int(1, 4), added = s.Pick(std::vector<int>{0, 1, 3});
  const double res = s.Pick(std::vector<double>{1., 0.5, 0.05, 0.1});
  const bool aligned = s.Bits(1);
  const double area = s.Bits(1) ? s.Int(0, 30) * res * res : s.Real(0., 40.) * res * res;
  const double spread = res * s.Pick(std::vector<double>{2., 6.});
  mapping::ValueConversionTables tables;
  mapping::OverlappingSubmapsTrimmer2D trimmer(fresh, area, added);
  Graph graph;
  std::map<SubmapId, Sub> subs;
  std::map<int, int> next_submap, next_node;
  int64_t clock = 0;
  size_t base = 0;
  const int trajectories = s.Int(1, 2);
  for (int n = s.Len(1, 4); n > 0; --n) {
    for (int k = s.Len(0, 5); k > 0; --k) {
      const int t = s.Int(0, trajectories - 1);
      const SubmapId id{t, next_submap[t]++};
      Sub sub = GenSub(s, res, aligned, spread, s.Pick(std::vector<int>{3, 8}));
      if (subs.empty() && aligned) {
        sub.global = sub.local;
      }
      subs[id] = sub;
      graph.data.Insert(id, {Build(sub, &tables), sub.global});
      const int first_node = next_node[t];
      for (int m = s.Int(1, 3); m > 0; --m) {
        auto data = std::make_shared<mapping::TrajectoryNode::Data>();
        clock += s.Int(1, 1000);
        data->time = TimeAt(kEpoch + clock);
        const NodeId node{t, next_node[t]++};
        graph.nodes.Insert(node, mapping::TrajectoryNode{data, Rigid3d::Identity()});
        graph.constraints.push_back({id, node, {Rigid3d::Identity(), 1., 1.}, PoseGraphInterface::Constraint::INTRA_SUBMAP});
      }
      if (s.Chance(0.1)) graph.nodes.Trim({t, next_node[t] - 1});
      if (s.Chance(0.1) && first_node > 0) graph.constraints.push_back({id, {t, first_node - 1}, {Rigid3d::Identity(), 1., 1.}, PoseGraphInterface::Constraint::INTRA_SUBMAP});
      for (int m = s.Int(0, 2); m > 0; --m) {
        const int u = s.Int(0, trajectories - 1);
        graph.constraints.push_back({id, {u, s.Int(0, next_node[t] + 2)}, {Rigid3d::Identity(), 1., 1.}, PoseGraphInterface::Constraint::INTER_SUBMAP});
      }
      if (s.Bits(1)) s.Shuffle(&graph.constraints);
    }
    const bool invoked = graph.data.size() - base > size_t(added);
    Verdict want;
    if (invoked) want = Decide(graph, subs, fresh, area);
    const size_t before = graph.data.size();
    graph.trimmed.clear();
    trimmer.Trim(&graph);
    const std::set<SubmapId> got(graph.trimmed.begin(), graph.trimmed.end());
    for (const auto& id : want.must_trim) PBT_CHECK(got.count(id)) << "submap " << id << " of " << before << " was kept with too little fresh area";
    for (const auto& id : got) PBT_CHECK(want.may_trim.count(id)) << "submap " << id << " of " << before << " was discarded" << (invoked ? "" : " before enough submaps were added");
    if (invoked) base = before - got.size();
    if (!got.empty() && got.size() < before && want.overlap) s.NonTrivial();
    s.LabelIf(invoked && !got.empty(), "submaps discarded");
    s.LabelIf(invoked && got.empty() && before > 0, "nothing discarded");
    s.LabelIf(!invoked && before > 0, "not enough submaps added");
    PBT_CHECK(!trimmer.IsFinished()) << "the trimmer stopped";
  }
}

PBT_FACET(large_submaps, o.weight = 0.3; o.case_timeout_s = 20; o.rule =
    "submaps of up to 300 by 300 cells and large required areas: the rule holds beyond sixteen bit cell counts; non-trivial: more than 65535 cells or required cells") {
  const double res = s.Pick(std::vector<double>{0.05, 0.5});
  Graph graph;
  std::map<SubmapId, Sub> subs;
  mapping::ValueConversionTables tables;
  const int n = s.Int(1, 2);
  const int fresh = 1;
  int64_t largest = 0;
  for (int i = 0; i < n; ++i) {
    Sub sub;
    sub.res = res;
    sub.nx = s.Int(200, 300);
    sub.ny = s.Int(200, 300);
    sub.max = Eigen::Vector2d(res * sub.ny / 2, res * sub.nx / 2);
    sub.known.assign(sub.nx * sub.ny, true);
    sub.finished = true;
    sub.local = Rigid3d::Identity();
    sub.global = i == 0 ? Rigid3d::Identity() : Rigid3d::Translation(Eigen::Vector3d(res * s.Int(-300, 300), res * s.Int(-300, 300), 0.));
    largest = std::max<int64_t>(largest, sub.nx * sub.ny);
    const SubmapId id{0, i};
    subs[id] = sub;
    graph.data.Insert(id, {Build(sub, &tables), sub.global});
    auto data = std::make_shared<mapping::TrajectoryNode::Data>();
    data->time = TimeAt(kEpoch + i);
    graph.nodes.Insert(NodeId{0, i}, mapping::TrajectoryNode{data, Rigid3d::Identity()});
    graph.constraints.push_back({id, {0, i}, {Rigid3d::Identity(), 1., 1.}, PoseGraphInterface::Constraint::INTRA_SUBMAP});
  }
  const double needed = s.Pick(std::vector<double>{100., 30000., 60000., 70000., 90001.});
  s.NonTrivial(largest > 65535 || needed > 65535);
  mapping::OverlappingSubmapsTrimmer2D trimmer(fresh, needed * res * res, 0);
  if (n == 2 && subs.at({0, 0}).nx % 2 != subs.at({0, 1}).nx % 2) throw pbt::Discard();
  if (n == 2 && subs.at({0, 0}).ny % 2 != subs.at({0, 1}).ny % 2) throw pbt::Discard();
  const Verdict want = Decide(graph, subs, fresh, needed * res * res);
  const size_t before = graph.data.size();
  trimmer.Trim(&graph);
  const std::set<SubmapId> got(graph.trimmed.begin(), graph.trimmed.end());
  for (const auto& id : want.must_trim) PBT_CHECK(got.count(id)) << "large submap " << id << " of " << before << " was kept with too little fresh area";
  for (const auto& id : got) PBT_CHECK(want.may_trim.count(id)) << "large submap " << id << " of " << before << " was discarded";
}

PBT_FACET(localization, o.rule =
    "random histories of adding submaps to several trajectories, finishing the trajectory and trimming: only the latest of the own trajectory stay, after it finished none, then it is marked "
    "deleted and the trimmer stops; non-trivial: something discarded before the trajectory finished") {
  const int mine = s.Int(0, 3), keep = s.Int(2, 5);
  mapping::PureLocalizationTrimmer trimmer(mine, keep);
  Graph graph;
  std::map<int, int> next;
  for (int n = s.Len(1, 8); n > 0; --n) {
    for (int k = s.Len(0, 6); k > 0; --k) {
      const int t = s.Bits(1) ? mine : s.Int(0, 3);
      next[t] += s.Chance(0.2) ? s.Int(1, 3) : 0;
      graph.data.Insert(SubmapId{t, next[t]++}, {});
    }
    if (s.Chance(0.15)) graph.finished.insert(s.Int(0, 3));
    const auto all = graph.GetSubmapIds(mine);
    const bool done = graph.finished.count(mine) > 0;
    const size_t left = done ? 0 : std::min<size_t>(all.size(), keep);
    const std::set<SubmapId> expected(all.begin(), all.end() - left);
    graph.trimmed.clear();
    graph.states.clear();
    trimmer.Trim(&graph);
    PBT_CHECK(std::set<SubmapId>(graph.trimmed.begin(), graph.trimmed.end()) == expected) << graph.trimmed.size() << " of " << all.size() << " submaps were discarded instead of " << expected.size();
    PBT_CHECK_EQ(trimmer.IsFinished(), done) << "trimmer state";
    PBT_CHECK_EQ(graph.states.size(), size_t(done ? 1 : 0)) << "changes of trajectory state";
    if (done) {
      PBT_CHECK(graph.states[0] == std::make_pair(mine, PoseGraphInterface::TrajectoryState::DELETED)) << "trajectory not marked deleted";
      s.Label("finished");
      break;
    }
    if (!expected.empty()) s.NonTrivial();
  }
}
}  // namespace
