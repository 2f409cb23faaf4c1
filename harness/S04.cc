// S04: sensor data indexed by trajectory and time, and its trimming.
#include <map>
#include <set>

#include "geo.h"

#include "cartographer/mapping/id.h"
#include "cartographer/sensor/map_by_time.h"

namespace {
using namespace cartographer;
using namespace geo;
struct Datum { common::Time time; int value; };
struct Node { common::Time time; };
}  // namespace

PBT_FACET(history, o.weight = 1; o.rule =
    "random histories of appending data and nodes and trimming nodes in any order, against an explicit model of which "
    "data stays; non-trivial: >=8 data, >=3 nodes, >=1 trim that removed data") {
  sensor::MapByTime<Datum> map;
  mapping::MapById<mapping::NodeId, Node> nodes;
  std::map<int, std::map<int64_t, int>> model;
  std::map<int, std::map<int, int64_t>> model_nodes;
  std::map<int, int64_t> last_data, last_node;
  std::map<int, bool> closed;
  const int ops = s.Len(5, 120);
  const int t_base = s.Chance(0.1) ? s.Pick(std::vector<int>{126, 254, 32766, 65533, 1 << 24}) : 0;
  s.LabelIf(t_base > 0, "large trajectory ids");
  // Data arrives much faster than nodes, or in step with them.
  const int rate = s.Chance(0.03) ? s.Int(20, 400) : 1;
  s.LabelIf(rate > 1, "much data per node");
  int serial = 0, data = 0, num_nodes = 0, removing = 0;
  for (int op = 0; op != ops; ++op) {
    const int t = t_base + s.Bits(2) * 3;
    const int kind = s.Weighted({6, 3, 2, 0.02});
    if (kind == 0) {
      int64_t& time = last_data[t];
      for (int i = 0; i != rate; ++i) {
        if (time == 0) time = kEpoch + s.Int(-20, 20);
        else time += rate > 1 ? 1 + i % 3 : s.Int(1, 6);
        map.Append(t, Datum{TimeAt(time), ++serial});
        model[t][time] = serial;
        ++data;
      }
    } else if (kind == 1) {
      if (closed[t]) continue;
      int64_t& time = last_node[t];
      if (time == 0) time = kEpoch + s.Int(-20, 20);
      else time += s.Int(1, 15 * rate);
      const auto id = nodes.Append(t, Node{TimeAt(time)});
      model_nodes[t][id.node_index] = time;
      ++num_nodes;
    } else if (kind == 2) {
      if (model_nodes[t].empty()) continue;
      // Which node goes.
      auto it = model_nodes[t].begin();
      std::advance(it, s.Bits(model_nodes[t].size() - 1));
      const mapping::NodeId id(t, it->first);
      map.Trim(nodes, id);
      // Model: of the data between the neighbours only the first and last stay.
      const bool has_prev = it != model_nodes[t].begin();
      const bool has_next = std::next(it) != model_nodes[t].end();
      const int64_t lo = has_prev ? std::prev(it)->second : std::numeric_limits<int64_t>::min();
      const int64_t hi = has_next ? std::next(it)->second : std::numeric_limits<int64_t>::max();
      if (model.count(t)) {
        std::vector<int64_t> inside;
        for (const auto& e : model[t])
          if (e.first >= lo && e.first <= hi) inside.push_back(e.first);
        for (size_t i = 0; i != inside.size(); ++i) {
          if (has_prev && i == 0) continue;
          if (has_next && i + 1 == inside.size()) continue;
          model[t].erase(inside[i]);
          ++removing;
        }
        if (model[t].empty()) model.erase(t);
      }
      if (!has_next) closed[t] = true;
      nodes.Trim(id);
      model_nodes[t].erase(it);
      if (model_nodes[t].empty()) closed[t] = false, last_node[t] = last_node[t];
    } else if (last_data.count(t) && last_data[t] && model.count(t) && !model[t].empty()) {
      const int64_t last = model[t].rbegin()->first;
      PBT_CHECK_EQ(pbt::RunForked([&] { map.Append(t, Datum{TimeAt(last - s.Bits(1)), 0}); }), 1) << "data that is not newer must be refused";
    }
    // The container agrees with the model.
    std::set<int> ids;
    for (int id : map.trajectory_ids()) PBT_CHECK(ids.insert(id).second);
    std::set<int> want;
    for (const auto& e : model) want.insert(e.first);
    PBT_CHECK(ids == want) << "set of trajectories";
    for (int id = 0; id != 12; ++id) PBT_CHECK_EQ(map.HasTrajectory(t_base + id), model.count(t_base + id) > 0);
    if (model.count(t)) {
      auto it = map.BeginOfTrajectory(t);
      for (const auto& e : model[t]) {
        PBT_CHECK(it != map.EndOfTrajectory(t)) << "data missing at " << e.first - kEpoch;
        PBT_CHECK_EQ(common::ToUniversal(it->time) - kEpoch, e.first - kEpoch);
        PBT_CHECK_EQ(it->value, e.second);
        ++it;
      }
      PBT_CHECK(it == map.EndOfTrajectory(t)) << "data left that should be gone";
      const int64_t probe = kEpoch + s.Int(-30, 200 * rate);
      const auto lb = map.lower_bound(t, TimeAt(probe));
      const auto want_lb = model[t].lower_bound(probe);
      PBT_CHECK_EQ(lb == map.EndOfTrajectory(t), want_lb == model[t].end());
      if (want_lb != model[t].end()) PBT_CHECK_EQ(lb->value, want_lb->second);
    }
  }
  if (data >= 8 && num_nodes >= 3 && removing > 0) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(data) + " data, " + std::to_string(num_nodes) + " nodes, " + std::to_string(removing) + " removed");
}
