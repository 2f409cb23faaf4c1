// K03: floors of a building are found from the heights travelled.
#include <algorithm>
#include <map>
#include <set>

#include "cartographer/mapping/detect_floors.h"
#include "pbt.h"

namespace {
namespace mapping = cartographer::mapping;
namespace common = cartographer::common;
using mapping::proto::Trajectory;

struct Node {
  int64_t time;
  double x, y, z;
};

Trajectory ToProto(const std::vector<Node>& nodes) {
  Trajectory out;
  for (const Node& n : nodes) {
    auto* p = out.add_node();
    p->set_timestamp(n.time);
    auto* t = p->mutable_pose()->mutable_translation();
    t->set_x(n.x);
    t->set_y(n.y);
    t->set_z(n.z);
    p->mutable_pose()->mutable_rotation()->set_w(1.);
  }
  return out;
}

using TimeSpan = std::pair<int64_t, int64_t>;
struct Found {
  double z;
  std::multiset<TimeSpan> spans;
};
std::vector<Found> Detect(const std::vector<Node>& nodes) {
  const Trajectory proto = ToProto(nodes);
  const std::string before = proto.SerializeAsString();
  const std::vector<mapping::Floor> floors = mapping::DetectFloors(proto);
  PBT_CHECK(proto.SerializeAsString() == before);
  std::vector<Found> out;
  for (const auto& f : floors) {
    out.push_back({f.z, {}});
    for (const auto& t : f.timespans) out.back().spans.emplace(common::ToUniversal(t.start), common::ToUniversal(t.end));
  }
  return out;
}

double MiddleOf(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  return v[v.size() / 2];
}

struct Piece {
  size_t begin, end;  // [begin, end)
  double middle;
  double length;
  int level = -1;
};
struct Expected {
  bool claimed = true;
  int pieces = 0, levels = 0, stray = 0;
  std::vector<std::pair<double, std::set<TimeSpan>>> floors;  // by z
};
// From the description: cut where the height leaves the middle of the piece by
// more than 2.5 m; heights within 1 m are one level; floors are the levels with
// a piece of at least 25 m; short pieces elsewhere belong to their neighbours.
Expected Model(const std::vector<Node>& nodes) {
  Expected out;
  std::vector<Piece> pieces;
  size_t begin = 0;
  for (size_t i = 1; i <= nodes.size(); ++i) {
    std::vector<double> z;
    for (size_t k = begin; k != i; ++k) z.push_back(nodes[k].z);
    const double middle = MiddleOf(z);
    if (i == nodes.size() || std::abs(middle - nodes[i].z) > 2.5) {
      double length = 0;
      for (size_t k = begin + 1; k < i; ++k)
        length += std::hypot(nodes[k].x - nodes[k - 1].x, nodes[k].y - nodes[k - 1].y);
      pieces.push_back({begin, i, middle, length, -1});
      // Rounding may not decide.
      if (std::abs(length - 25.) < 1e-9) {
        for (size_t k = begin; k < i; ++k)
          if (nodes[k].x * 16 != std::round(nodes[k].x * 16) || nodes[k].y * 16 != std::round(nodes[k].y * 16)) out.claimed = false;
      }
      begin = i;
    }
  }
  out.pieces = pieces.size();
  // Connected components of "closer than 1 m".
  int levels = 0;
  for (size_t i = 0; i != pieces.size(); ++i) {
    if (pieces[i].level >= 0) continue;
    std::vector<size_t> todo{i};
    pieces[i].level = levels;
    while (!todo.empty()) {
      const size_t a = todo.back();
      todo.pop_back();
      for (size_t b = 0; b != pieces.size(); ++b)
        if (pieces[b].level < 0 && std::abs(pieces[a].middle - pieces[b].middle) < 1.) {
          pieces[b].level = levels;
          todo.push_back(b);
        }
    }
    ++levels;
  }
  out.levels = levels;
  std::vector<bool> floor(levels, false);
  for (const Piece& p : pieces)
    if (p.length >= 25.) floor[p.level] = true;
  for (size_t i = 0; i + 1 < pieces.size(); ++i)
    if (!floor[pieces[i].level] && !floor[pieces[i + 1].level]) out.claimed = false;
  for (int l = 0; l != levels; ++l) {
    if (!floor[l]) continue;
    std::vector<double> z;
    std::set<TimeSpan> spans;
    for (size_t i = 0; i != pieces.size(); ++i) {
      const Piece& p = pieces[i];
      const TimeSpan span{nodes[p.begin].time, nodes[p.end - 1].time};
      if (p.level == l) {
        spans.insert(span);
        if (p.length >= 25.)
          for (size_t k = p.begin; k != p.end; ++k) z.push_back(nodes[k].z);
      } else if (!floor[p.level] && ((i > 0 && pieces[i - 1].level == l) || (i + 1 < pieces.size() && pieces[i + 1].level == l))) {
        spans.insert(span);
        ++out.stray;
      }
    }
    out.floors.emplace_back(MiddleOf(z), spans);
  }
  std::sort(out.floors.begin(), out.floors.end());
  return out;
}

void Compare(const std::vector<Found>& got, const Expected& want) {
  PBT_CHECK_EQ(got.size(), want.floors.size());
  for (size_t i = 0; i != got.size(); ++i) {
    PBT_CHECK_EQ(got[i].z, want.floors[i].first) << "floor " << i;
    const std::set<TimeSpan> spans(got[i].spans.begin(), got[i].spans.end());
    PBT_CHECK(spans == want.floors[i].second) << "floor " << i << " at " << got[i].z << ": " << spans.size() << " spans of time, expected "
                                              << want.floors[i].second.size();
  }
}

// A walk through a building, with visits to floors and landings between.
PBT_FACET(building, o.weight = 3; o.rule = "at least two floors found and a floor visited twice or a landing crossed") {
  std::vector<double> floors;
  const int n_floors = s.Len(1, 5);
  double z = 0.25 * s.Int(-40, 40);
  for (int i = 0; i != n_floors; ++i) {
    floors.push_back(z);
    z += 0.25 * s.Int(14, 32);
  }
  std::vector<Node> nodes;
  int64_t time = s.Int(1, 1000000);
  double x = 0, y = 0;
  const bool lattice = s.Chance(0.7);
  const auto visit = [&](double level, double length, int count, double noise) {
    for (int i = 0; i != count; ++i) {
      if (i > 0) {
        const double step = length / std::max(1, count - 1);
        if (lattice) {
          if (s.Chance(0.5)) x += s.Chance(0.5) ? step : -step;
          else y += s.Chance(0.5) ? step : -step;
        } else {
          const double a = s.Real(-3.15, 3.15);
          x += step * std::cos(a);
          y += step * std::sin(a);
        }
      } else if (!nodes.empty()) {
        x += 0.25 * s.Int(-8, 8);
      }
      time += s.Int(1, 5000000);
      nodes.push_back({time, x, y, level + (noise > 0 ? 0.05 * s.Int(-6, 6) : 0.)});
    }
  };
  const int visits = s.Len(1, 9);
  int previous = -1;
  std::map<int, int> long_visits;
  for (int v = 0; v != visits; ++v) {
    int f = s.Int(0, n_floors - 1);
    if (f == previous) f = (f + 1) % n_floors;
    if (previous >= 0 && s.Chance(0.3)) {
      // A landing, far from any floor, or an attic.
      const double level = s.Chance(0.7) ? (floors[f] + floors[previous]) / 2 : floors.back() + 4. + 0.25 * s.Int(0, 6);
      visit(level, 0.25 * s.Int(0, 60), s.Len(1, 4), 1.);
    }
    previous = f;
    const int count = s.Weighted({6, 1, 1}) == 0 ? s.Int(6, 21) : s.Int(1, 5);
    const int kind = s.Weighted({5, 3, 1});
    const double length = kind == 0 ? 26. + 0.5 * s.Int(0, 40) : kind == 1 ? 0.25 * s.Int(0, 96) : 25.;
    visit(floors[f], length, count, 1.);
  }
  const Expected want = Model(nodes);
  if (!want.claimed) throw pbt::Discard();
  s.LabelIf(want.stray > 0, "landing");
  s.LabelIf(want.floors.size() > 1, "floors");
  s.LabelIf(want.pieces > 0 && nodes.size() > 1 && std::abs(nodes[0].z - nodes[1].z) > 2.5, "single first");
  if (want.floors.size() >= 2 && want.pieces > static_cast<int>(want.floors.size())) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(nodes.size()) + " nodes, " + std::to_string(want.pieces) + " pieces, " + std::to_string(want.floors.size()) + " floors");
  Compare(Detect(nodes), want);
}

// Any heights, on a lattice that meets the limits exactly.
PBT_FACET(heights, o.weight = 2; o.rule = "at least three pieces and one floor") {
  std::vector<Node> nodes;
  const int count = s.Len(1, 40);
  int64_t time = 0;
  double x = 0, y = 0, z = 0;
  const int scale = s.Pick(std::vector<int>{1, 4, 10});
  for (int i = 0; i != count; ++i) {
    switch (s.Weighted({5, 2, 2, 1})) {
      case 0: break;
      case 1: z += 0.25 * s.Int(-scale, scale); break;
      case 2: z = 0.5 * s.Int(-6, 6); break;
      case 3: z += s.Real(-5., 5.); break;
    }
    const double step = s.Weighted({2, 4, 1}) == 0 ? 0. : 0.25 * s.Int(0, 60);
    if (s.Chance(0.5)) x += step; else y -= step;
    time += s.Chance(0.05) ? 0 : s.Int(1, 10000000);
    nodes.push_back({time, x, y, z});
  }
  const std::vector<Found> got = Detect(nodes);
  // Whatever the heights.
  std::set<int64_t> times;
  std::set<double> heights;
  for (const Node& n : nodes) {
    times.insert(n.time);
    heights.insert(n.z);
  }
  for (size_t i = 0; i != got.size(); ++i) {
    PBT_CHECK(heights.count(got[i].z) == 1);
    if (i > 0) PBT_CHECK(got[i - 1].z <= got[i].z);
    PBT_CHECK(!got[i].spans.empty());
    for (const TimeSpan& t : got[i].spans) PBT_CHECK(t.first <= t.second && times.count(t.first) == 1 && times.count(t.second) == 1);
  }
  const Expected want = Model(nodes);
  s.LabelIf(!want.claimed, "two landings in a row");
  if (want.pieces >= 3 && !want.floors.empty()) s.NonTrivial();
  if (want.claimed) {
    Compare(got, want);
  } else {
    PBT_CHECK_EQ(got.size(), want.floors.size());
    for (size_t i = 0; i != got.size(); ++i) PBT_CHECK_EQ(got[i].z, want.floors[i].first);
  }
}
}  // namespace
