// M01: the container of nodes and submaps keyed by trajectory and index.
#include <map>
#include <set>

#include "geo.h"

#include "cartographer/mapping/id.h"

namespace {
using namespace cartographer;
using namespace geo;
struct Datum {
  int value;
  int64_t ticks;
  common::Time time() const { return TimeAt(ticks); }
};

template <typename IdType>
struct Index;
template <>
struct Index<mapping::NodeId> { static int Of(const mapping::NodeId& id) { return id.node_index; } };
template <>
struct Index<mapping::SubmapId> { static int Of(const mapping::SubmapId& id) { return id.submap_index; } };

template <typename IdType>
void Run(pbt::Source& s) {
  mapping::MapById<IdType, Datum> map;
  std::map<std::pair<int, int>, Datum> model;
  std::map<int, bool> no_append;
  const int ops = s.Len(3, 100);
  int serial = 0, gaps = 0;
  // Trajectory ids and indices are numbers chosen by others: also large ones.
  const int t_base = s.Chance(0.1) ? s.Pick(std::vector<int>{120, 250, 1000, 32764, 65530, 1 << 20, (1 << 30)}) : 0;
  const int i_base = s.Chance(0.1) ? s.Pick(std::vector<int>{120, 250, 1000, 32764, 65530, 1 << 20, (1 << 30)}) : 0;
  s.LabelIf(t_base > 0, "large trajectory ids");
  s.LabelIf(i_base > 0, "large indices");
  // Times are non-decreasing in the index: time = index * 10 + noise.
  auto time_of = [&](int index) { return kEpoch + (index - i_base) * 10 + static_cast<int64_t>(s.Bits(9)); };
  // Rarely: a long trajectory to begin with.
  const int prefill = i_base == 0 && s.Chance(0.02) ? s.Int(100, 1500) : 0;
  s.LabelIf(prefill > 0, "long trajectory");
  const int prefilled = t_base + s.Bits(3);
  for (int i = 0; i != prefill; ++i) {
    const Datum d{++serial, kEpoch + i * 10 + (i * 7) % 10};
    PBT_CHECK_EQ(Index<IdType>::Of(map.Append(prefilled, d)), i);
    model.emplace(std::make_pair(prefilled, i), d);
  }
  for (int op = 0; op != ops; ++op) {
    const int t = t_base + s.Bits(3) * (1 + s.Bits(1));
    std::vector<int> indices;
    for (const auto& e : model)
      if (e.first.first == t) indices.push_back(e.first.second);
    switch (s.Weighted({8, 2, 4, 1, 0.05})) {
      case 0: {
        if (no_append[t]) break;
        if (indices.empty() && i_base > 0) break;
        const int want = indices.empty() ? 0 : indices.back() + 1;
        const Datum d{++serial, time_of(want)};
        const IdType id = map.Append(t, d);
        PBT_CHECK_EQ(id.trajectory_id, t);
        PBT_CHECK_EQ(Index<IdType>::Of(id), want) << "appended under the wrong index";
        model.emplace(std::make_pair(t, want), d);
        break;
      }
      case 1: {
        const int index = i_base + s.Bits(20);
        if (model.count({t, index})) break;
        const Datum d{++serial, time_of(index)};
        map.Insert(IdType(t, index), d);
        model.emplace(std::make_pair(t, index), d);
        no_append[t] = true;
        break;
      }
      case 2: {
        if (indices.empty()) break;
        const int index = s.Pick(indices);
        map.Trim(IdType(t, index));
        if (index == indices.back()) no_append[t] = true;
        else ++gaps;
        model.erase({t, index});
        if (indices.size() == 1) no_append[t] = false;
        break;
      }
      case 3: {
        if (indices.empty()) break;
        const int index = s.Pick(indices);
        map.at(IdType(t, index)).value = ++serial;
        model.at({t, index}).value = serial;
        break;
      }
      default: {
        if (no_append[t]) {
          PBT_CHECK_EQ(pbt::RunForked([&] { map.Append(t, Datum{0, 0}); }), 1) << "appending after the end was trimmed must be refused";
        } else if (!indices.empty()) {
          PBT_CHECK_EQ(pbt::RunForked([&] { map.Insert(IdType(t, indices[0]), Datum{0, 0}); }), 1) << "inserting twice must be refused";
        }
      }
    }
    // Compare.
    PBT_CHECK_EQ(map.size(), model.size());
    PBT_CHECK_EQ(map.empty(), model.empty());
    if (s.Chance(0.5)) {
      auto want = model.begin();
      for (const auto& e : map) {
        PBT_CHECK(want != model.end());
        PBT_CHECK(e.id == IdType(want->first.first, want->first.second)) << e.id;
        PBT_CHECK_EQ(e.data.value, want->second.value) << e.id;
        ++want;
      }
      PBT_CHECK(want == model.end()) << "iteration ended early";
      // Backwards.
      auto it = map.end();
      for (auto r = model.rbegin(); r != model.rend(); ++r) {
        --it;
        PBT_CHECK(it->id == IdType(r->first.first, r->first.second)) << "backwards";
      }
      PBT_CHECK(it == map.begin());
    }
    std::set<int> ids, want_ids;
    for (int id : map.trajectory_ids()) ids.insert(id);
    for (const auto& e : model) want_ids.insert(e.first.first);
    PBT_CHECK(ids == want_ids) << "set of trajectories";
    const int probe_t = t_base + s.Bits(7), probe_i = i_base + s.Bits(21 + prefill);
    const IdType probe(probe_t, probe_i);
    PBT_CHECK_EQ(map.Contains(probe), model.count({probe_t, probe_i}) > 0) << probe;
    PBT_CHECK_EQ(map.find(probe) != map.end(), model.count({probe_t, probe_i}) > 0) << probe;
    if (model.count({probe_t, probe_i})) {
      PBT_CHECK_EQ(map.find(probe)->data.value, model.at({probe_t, probe_i}).value);
      PBT_CHECK_EQ(map.at(probe).value, model.at({probe_t, probe_i}).value);
    }
    std::vector<std::pair<int, Datum>> of;
    for (const auto& e : model)
      if (e.first.first == probe_t) of.emplace_back(e.first.second, e.second);
    PBT_CHECK_EQ(map.SizeOfTrajectoryOrZero(probe_t), of.size());
    size_t k = 0;
    for (const auto& e : map.trajectory(probe_t)) {
      PBT_CHECK(k < of.size() && e.id == IdType(probe_t, of[k].first)) << "trajectory range";
      ++k;
    }
    PBT_CHECK_EQ(k, of.size());
    const int64_t probe_time = kEpoch + s.Int(-5, 230 + prefill * 10);
    const auto lb = map.lower_bound(probe_t, TimeAt(probe_time));
    k = 0;
    while (k < of.size() && of[k].second.ticks < probe_time) ++k;
    if (k == of.size()) PBT_CHECK(lb == map.EndOfTrajectory(probe_t)) << "lower bound past the end";
    else PBT_CHECK(lb != map.EndOfTrajectory(probe_t) && lb->id == IdType(probe_t, of[k].first)) << "lower bound";
  }
  if (serial >= 8 && gaps > 0) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(ops) + " operations, " + std::to_string(model.size()) + " left, " + std::to_string(gaps) + " gaps");
}
}  // namespace

PBT_FACET(nodes, o.weight = 1; o.rule =
    "random histories of append, insert, trim and update over several trajectories against a sorted-map model, with "
    "forward, backward, by-trajectory and by-time queries after every step; non-trivial: >=8 writes and a gap") { Run<mapping::NodeId>(s); }
PBT_FACET(submaps, o.weight = 0.5; o.rule =
    "as nodes, for submap ids; non-trivial: >=8 writes and a gap") { Run<mapping::SubmapId>(s); }
PBT_FACET(ids, o.weight = 0.2; o.rule = "ordering and serialized form of ids; non-trivial: ids differ") {
  const int a = s.IntEdge(0, 1000), b = s.IntEdge(0, 1000), c = s.Bits(1) ? a : s.IntEdge(0, 1000), d = s.Bits(1) ? b : s.IntEdge(0, 1000);
  const mapping::NodeId x(a, b), y(c, d);
  const mapping::SubmapId u(a, b), v(c, d);
  PBT_CHECK_EQ(x == y, a == c && b == d);
  PBT_CHECK_EQ(x != y, !(a == c && b == d));
  PBT_CHECK_EQ(x < y, std::make_pair(a, b) < std::make_pair(c, d));
  PBT_CHECK_EQ(u == v, a == c && b == d);
  PBT_CHECK_EQ(u != v, !(a == c && b == d));
  PBT_CHECK_EQ(u < v, std::make_pair(a, b) < std::make_pair(c, d));
  mapping::proto::NodeId pn;
  x.ToProto(&pn);
  PBT_CHECK(pn.trajectory_id() == a && pn.node_index() == b);
  mapping::proto::SubmapId ps;
  u.ToProto(&ps);
  PBT_CHECK(ps.trajectory_id() == a && ps.submap_index() == b);
  if (!(x == y)) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(a) + "," + std::to_string(b));
}
