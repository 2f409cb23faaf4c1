// T02: interpolated lookups in a time-ordered transform buffer.
#include <deque>

#include "geo.h"

#include "cartographer/mapping/proto/trajectory.pb.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/transform/transform.h"
#include "cartographer/transform/transform_interpolation_buffer.h"

namespace {
using namespace cartographer;
using namespace geo;
using transform::Rigid3d;
using transform::TransformInterpolationBuffer;

struct Entry { int64_t time; Rigid3d pose; };

// 'got' must lie on the straight line / shortest great arc between a and b.
void CheckBetween(const Entry& a, const Entry& b, int64_t t, const Rigid3d& got) {
  const double f = static_cast<double>(t - a.time) / static_cast<double>(b.time - a.time);
  const Eigen::Vector3d want = a.pose.translation() * (1. - f) + b.pose.translation() * f;
  const double scale = 1. + a.pose.translation().norm() + b.pose.translation().norm();
  PBT_CHECK((want - got.translation()).norm() < 1e-12 * scale * 10 + 1e-12) << "translation at " << f << " off by " << (want - got.translation()).norm();
  PBT_CHECK(std::abs(got.rotation().norm() - 1.) < 1e-6) << "rotation norm";
  const double total = RotationDistance(a.pose.rotation(), b.pose.rotation());
  const double tol = 2e-6;
  PBT_CHECK(std::abs(RotationDistance(a.pose.rotation(), got.rotation()) - f * total) < tol)
      << "rotation from the start: " << RotationDistance(a.pose.rotation(), got.rotation()) << " want " << f * total;
  PBT_CHECK(std::abs(RotationDistance(got.rotation(), b.pose.rotation()) - (1. - f) * total) < tol) << "rotation to the end";
}
}  // namespace

PBT_FACET(interpolate, o.weight = 1; o.rule =
    "random pairs of stamped poses and a time in between: translation on the line, rotation on the shortest arc, both "
    "at the same fraction; non-trivial: strictly inside, rotation between 0.01 and pi-0.01") {
  const int64_t t0 = kEpoch + s.Int(0, 1000000000);
  const int64_t span = s.Chance(0.2) ? s.Int(1, 20) : s.IntEdge(1, 100000000000ll);
  const Entry a{t0, GenRigid3(s, 40.)};
  const Entry b{t0 + span, GenRigid3(s, 40.)};
  const int64_t t = t0 + s.IntEdge(0, span);
  const double total = RotationDistance(a.pose.rotation(), b.pose.rotation());
  if (t > a.time && t < b.time && total > 0.01 && total < M_PI - 0.01) s.NonTrivial();
  if (s.Sampling()) s.Describe(a.pose.DebugString() + " -> " + b.pose.DebugString() + " at " + std::to_string(t - t0) + "/" + std::to_string(span));
  const auto got = transform::Interpolate({TimeAt(a.time), a.pose}, {TimeAt(b.time), b.pose}, TimeAt(t));
  PBT_CHECK_EQ(common::ToUniversal(got.time), t);
  CheckBetween(a, b, t, got.transform);
  if (s.Chance(0.02)) {
    const bool before = s.Bits(1);
    PBT_CHECK_EQ(pbt::RunForked([&] {
      transform::Interpolate({TimeAt(a.time), a.pose}, {TimeAt(b.time), b.pose}, TimeAt(before ? a.time - 1 : b.time + 1));
    }), 1) << "extrapolation must be refused";
  }
}

PBT_FACET(buffer, o.weight = 1; o.rule =
    "random histories of pushing (repeated times included), limiting, clearing and looking up against a list model; "
    "non-trivial: >=4 pushes and >=1 lookup strictly between entries") {
  TransformInterpolationBuffer buffer;
  std::deque<Entry> model;
  size_t limit = transform::kUnlimitedBufferSize;
  int64_t now = kEpoch;
  const int ops = s.Len(2, 50);
  int pushes = 0, between = 0, duplicates = 0;
  const bool large = s.Chance(0.01);
  if (large) {  // a drive of minutes at a high rate
    s.Label("long");
    const int n = s.Int(200, 6000);
    const int64_t step = s.Int(1, 1000);
    const Rigid3d turn = GenRigid3(s, 0.1);
    Rigid3d pose;
    for (int i = 0; i != n; ++i) {
      now += step;
      pose = pose * turn;
      pose = Rigid3d(pose.translation(), pose.rotation().normalized());
      buffer.Push(TimeAt(now), pose);
      model.push_back({now, pose});
    }
  }
  if (!large && s.Chance(0.3)) {
    mapping::proto::Trajectory trajectory;
    const int n = s.Len(0, 8);
    for (int i = 0; i != n; ++i) {
      const Rigid3d pose = GenRigid3(s, 10.);
      auto* node = trajectory.add_node();
      node->set_timestamp(now);
      *node->mutable_pose() = transform::ToProto(pose);
      model.push_back({now, pose});
      now += s.Int(1, 1000);
    }
    buffer = TransformInterpolationBuffer(trajectory);
    s.Label("from trajectory");
  }
  for (int op = 0; op != ops; ++op) {
    switch (s.Weighted({6, 6, 0.5, 0.2, 0.05})) {
      case 0: {
        if (!model.empty() && s.Chance(0.1)) { now = model.back().time; ++duplicates; }
        else now += s.Chance(0.3) ? s.Int(1, 3) : s.Int(1, 100000);
        const Rigid3d pose = GenRigid3(s, 10.);
        buffer.Push(TimeAt(now), pose);
        model.push_back({now, pose});
        while (model.size() > limit) model.pop_front();
        ++pushes;
        break;
      }
      case 1: {
        if (model.empty()) break;
        int64_t t;
        if (s.Chance(0.4)) t = model[s.Bits(model.size() - 1)].time;
        else t = s.Int(model.front().time, model.back().time);
        const Rigid3d got = buffer.Lookup(TimeAt(t));
        // Exactly at an entry: an entry with that time.
        bool at = false, exact = false;
        for (const Entry& e : model) {
          if (e.time != t) continue;
          at = true;
          exact |= e.pose.translation() == got.translation() && e.pose.rotation().coeffs() == got.rotation().coeffs();
        }
        if (at) {
          PBT_CHECK(exact) << "lookup at a recorded time must return what was recorded";
        } else {
          size_t i = 0;
          while (model[i].time < t) ++i;
          CheckBetween(model[i - 1], model[i], t, got);
          ++between;
        }
        break;
      }
      case 2:
        limit = large && s.Bits(1) ? s.Int(100, 5000) : 1 + s.Bits(8);
        buffer.SetSizeLimit(limit);
        while (model.size() > limit) model.pop_front();
        break;
      case 3:
        buffer.Clear();
        model.clear();
        break;
      case 4: {
        if (model.empty()) break;
        const int64_t t = s.Bits(1) ? model.front().time - 1 - s.Bits(5) : model.back().time + 1 + s.Bits(5);
        PBT_CHECK_EQ(pbt::RunForked([&] { buffer.Lookup(TimeAt(t)); }), 1) << "lookup outside must be refused";
        PBT_CHECK_EQ(pbt::RunForked([&] { buffer.Push(TimeAt(model.back().time - 1), Rigid3d()); }), 1) << "older push must be refused";
        break;
      }
    }
    PBT_CHECK_EQ(buffer.size(), model.size());
    PBT_CHECK_EQ(buffer.empty(), model.empty());
    PBT_CHECK_EQ(buffer.size_limit(), limit);
    if (!model.empty()) {
      PBT_CHECK_EQ(common::ToUniversal(buffer.earliest_time()), model.front().time);
      PBT_CHECK_EQ(common::ToUniversal(buffer.latest_time()), model.back().time);
    }
    const int64_t probe = now + s.Int(-200, 3);
    PBT_CHECK_EQ(buffer.Has(TimeAt(probe)), !model.empty() && model.front().time <= probe && probe <= model.back().time);
  }
  if (pushes >= 4 && between >= 1) s.NonTrivial();
  s.LabelIf(duplicates > 0, "repeated times");
  if (s.Sampling()) s.Describe(std::to_string(pushes) + " pushes, " + std::to_string(between) + " interpolated lookups");
}
