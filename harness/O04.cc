// O04: which trajectories belong together, and since when.
#include <map>
#include <set>
#include <sstream>
#include <thread>

#include "geo.h"

#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/proto/connected_components.pb.h"

namespace {
using namespace cartographer;
using namespace geo;

// The model: tracked ids with a component number each.
struct Model {
  std::map<int, int> component;
  std::map<std::pair<int, int>, int> count;
  std::map<std::pair<int, int>, common::Time> last;
  int next = 0;
  void Add(int a) {
    if (!component.count(a)) component[a] = next++;
  }
  bool Together(int a, int b) const {
    if (a == b) return true;
    const auto i = component.find(a), j = component.find(b);
    return i != component.end() && j != component.end() && i->second == j->second;
  }
  std::vector<int> Members(int a) const {
    std::vector<int> out;
    for (const auto& e : component)
      if (e.second == component.at(a)) out.push_back(e.first);
    return out;
  }
  static std::pair<int, int> Key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
  void Connect(int a, int b, common::Time time) {
    Add(a);
    Add(b);
    if (Together(a, b)) {
      last[Key(a, b)] = std::max(last[Key(a, b)], time);
    } else {
      for (int i : Members(a))
        for (int j : Members(b)) last[Key(i, j)] = time;
    }
    ++count[Key(a, b)];
    const int from = component[a], to = component[b];
    for (auto& e : component)
      if (e.second == from) e.second = to;
  }
  std::set<std::vector<int>> Components() const {
    std::set<std::vector<int>> out;
    for (const auto& e : component) out.insert(Members(e.first));
    return out;
  }
};
std::set<std::vector<int>> Sorted(const std::vector<std::vector<int>>& components) {
  std::set<std::vector<int>> out;
  for (auto c : components) {
    std::sort(c.begin(), c.end());
    PBT_CHECK(out.insert(c).second) << "a component is listed twice";
  }
  return out;
}
std::string Show(const std::set<std::vector<int>>& components) {
  std::ostringstream os;
  for (const auto& c : components) {
    os << "{";
    for (int i : c) os << " " << i;
    os << " } ";
  }
  return os.str();
}

std::vector<int> GenIds(pbt::Source& s) {
  std::vector<int> ids;
  for (int n = s.Len(1, 10); n > 0; --n) ids.push_back(s.Chance(0.8) ? s.Int(0, 12) : s.IntEdge(-1000000, 1000000));
  return ids;
}

PBT_FACET(components, o.rule =
    "random histories of adding and connecting trajectories (also repeated, also with themselves, also never added) with queries in between: grouping, direct connection counts and "
    "members agree with a model, in either argument order; non-trivial: two components of at least two were joined") {
  mapping::ConnectedComponents actual;
  Model model;
  const std::vector<int> ids = GenIds(s);
  std::ostringstream log;
  for (int n = s.Len(1, 30); n > 0; --n) {
    const int a = s.Pick(ids), b = s.Pick(ids);
    switch (s.Weighted({2, 5, 2, 2, 1, 1})) {
      case 0:
        actual.Add(a);
        model.Add(a);
        log << "add " << a << "; ";
        break;
      case 1:
        if (model.component.count(a) && model.component.count(b) && !model.Together(a, b) && model.Members(a).size() > 1 && model.Members(b).size() > 1) s.NonTrivial();
        actual.Connect(a, b);
        model.Connect(a, b, common::Time());
        log << "connect " << a << " " << b << "; ";
        break;
      case 2:
        PBT_CHECK_EQ(actual.TransitivelyConnected(a, b), model.Together(a, b)) << "connection of " << a << " and " << b;
        break;
      case 3: {
        const auto it = model.count.find(Model::Key(a, b));
        PBT_CHECK_EQ(actual.ConnectionCount(a, b), it == model.count.end() ? 0 : it->second) << "direct connections of " << a << " and " << b;
        break;
      }
      case 4:
        if (model.component.count(a)) {
          auto members = actual.GetComponent(a);
          std::sort(members.begin(), members.end());
          PBT_CHECK(members == model.Members(a)) << "members of the component of " << a;
        }
        break;
      default:
        PBT_CHECK(Sorted(actual.Components()) == model.Components()) << Show(Sorted(actual.Components())) << "instead of " << Show(model.Components());
    }
  }
  if (s.Sampling()) s.Describe(log.str());
  for (int a : ids) {
    for (int b : ids) {
      PBT_CHECK_EQ(actual.TransitivelyConnected(a, b), model.Together(a, b)) << "finally, connection of " << a << " and " << b;
      const auto it = model.count.find(Model::Key(a, b));
      PBT_CHECK_EQ(actual.ConnectionCount(a, b), it == model.count.end() ? 0 : it->second) << "finally, direct connections of " << a << " and " << b;
    }
  }
  const auto got = actual.Components();
  PBT_CHECK(Sorted(got) == model.Components()) << Show(Sorted(got)) << "instead of " << Show(model.Components());
  // The serialized form does not depend on the order of what it is given.
  auto shuffled = got;
  s.Shuffle(&shuffled);
  for (auto& c : shuffled) s.Shuffle(&c);
  const auto proto = mapping::ToProto(shuffled);
  const auto want = model.Components();
  PBT_CHECK_EQ(size_t(proto.connected_component_size()), want.size()) << "serialized components";
  int i = 0;
  for (const auto& c : want) {
    PBT_CHECK_EQ(size_t(proto.connected_component(i).trajectory_id_size()), c.size()) << "size of serialized component " << i;
    for (size_t k = 0; k < c.size(); ++k) PBT_CHECK_EQ(proto.connected_component(i).trajectory_id(k), c[k]) << "serialized component " << i;
    ++i;
  }
}

PBT_FACET(connection_times, o.weight = 1.2; o.rule =
    "random histories of adding and connecting trajectories, also ones not added before, at any times with queries in between: joining two components dates all pairs across "
    "them, a later connection dates its own pair and never backwards, otherwise the beginning of time; non-trivial: components of at least three joined") {
  mapping::TrajectoryConnectivityState actual;
  Model model;
  const std::vector<int> ids = GenIds(s);
  const bool track = s.Bits(1);
  if (track) {
    for (int id : ids) {
      actual.Add(id);
      model.Add(id);
    }
  }
  const auto check = [&](int a, int b) {
    PBT_CHECK_EQ(actual.TransitivelyConnected(a, b), model.Together(a, b)) << "connection of " << a << " and " << b;
    const auto it = model.last.find(Model::Key(a, b));
    const common::Time want = it == model.last.end() ? common::Time() : it->second;
    const common::Time got = actual.LastConnectionTime(a, b);
    PBT_CHECK(got == want) << "last connection of " << a << " and " << b << " at " << common::ToUniversal(got) << " instead of " << common::ToUniversal(want);
  };
  for (int n = s.Len(1, 30); n > 0; --n) {
    const int a = s.Pick(ids), b = s.Pick(ids);
    switch (s.Weighted({1, 5, 3})) {
      case 0:
        actual.Add(a);
        model.Add(a);
        break;
      case 1: {
        const common::Time time = TimeAt(s.Bits(1) ? s.Int(1, 20) : kEpoch + s.Int(0, 1000));
        s.LabelIf(!model.component.count(a) || !model.component.count(b), "connection of a trajectory not added before");
        if (model.component.count(a) && model.component.count(b) && !model.Together(a, b) && model.Members(a).size() + model.Members(b).size() >= 4) s.NonTrivial();
        actual.Connect(a, b, time);
        model.Connect(a, b, time);
        break;
      }
      default: check(a, b);
    }
  }
  for (int a : ids)
    for (int b : ids) check(a, b);
  PBT_CHECK(Sorted(actual.Components()) == model.Components()) << Show(Sorted(actual.Components())) << "instead of " << Show(model.Components());
}

PBT_FACET(concurrent_connections, o.weight = 0.3; o.nondeterministic = true; o.rule =
    "two to four threads connecting and querying random pairs: afterwards every connection was counted and the grouping is the one of all connections; non-trivial: threads "
    "connected the same pair") {
  mapping::ConnectedComponents actual;
  const int threads = s.Int(2, 4), range = s.Int(1, 8);
  std::vector<std::vector<std::pair<int, int>>> work(threads);
  Model model;
  std::set<std::pair<int, int>> seen;
  for (auto& w : work) {
    std::set<std::pair<int, int>> mine;
    for (int n = s.Int(5, 60); n > 0; --n) {
      w.emplace_back(s.Int(0, range), s.Int(0, range));
      model.Connect(w.back().first, w.back().second, common::Time());
      mine.insert(Model::Key(w.back().first, w.back().second));
    }
    for (const auto& m : mine)
      if (!seen.insert(m).second) s.NonTrivial();
  }
  std::vector<std::thread> running;
  for (auto& w : work) {
    running.emplace_back([&actual, &w] {
      for (const auto& p : w) {
        actual.Connect(p.first, p.second);
        actual.TransitivelyConnected(p.second, p.first);
        actual.Components();
      }
    });
  }
  for (auto& t : running) t.join();
  PBT_CHECK(Sorted(actual.Components()) == model.Components()) << Show(Sorted(actual.Components())) << "instead of " << Show(model.Components());
  for (int a = 0; a <= range; ++a)
    for (int b = a; b <= range; ++b)
      PBT_CHECK_EQ(actual.ConnectionCount(b, a), model.count.count({a, b}) ? model.count.at({a, b}) : 0) << "direct connections of " << a << " and " << b;
}
}  // namespace
