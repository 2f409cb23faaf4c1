// L02: merging of range data of several sensors, and motion filtering.
#include <map>
#include <set>

#include "geo.h"

#include "cartographer/mapping/internal/motion_filter.h"
#include "cartographer/mapping/internal/range_data_collator.h"

namespace {
using namespace cartographer;
using namespace geo;

struct P {
  int64_t ticks;  // absolute time
  int tag;        // unique
  float intensity;
};
struct Msg {
  int64_t time;
  int origin;
  std::vector<P> points;  // still pending
};
constexpr int64_t kStep = 1250000;  // 0.125 s
}  // namespace

PBT_FACET(collation, o.weight = 1; o.rule =
    "random messages of 1..4 sensors with overlapping time spans, repeated sensors, empty messages, ties and missing "
    "intensities: each result covers the documented window with exactly the pending points in it; non-trivial: >=2 "
    "sensors, >=2 non-empty results, one of them from several sensors or with points left for later") {
  const int sensors = s.Int(1, 4);
  std::vector<std::string> ids;
  for (int i = 0; i != sensors; ++i) ids.push_back("s" + std::to_string(i));
  mapping::RangeDataCollator collator(ids);
  std::map<std::string, Msg> pending;
  int64_t end = 0;
  bool ended = false;
  std::vector<int64_t> clock(sensors, 0);
  int tag = 0, nonempty = 0, rich = 0, dropped = 0;
  std::set<int> emitted;
  const int n = s.Len(1, 25);
  for (int k = 0; k != n; ++k) {
    const int i = s.Int(0, sensors - 1);
    const int64_t time = clock[i] = clock[i] + s.Int(s.Chance(0.1) ? 0 : 1, 12);
    Msg msg;
    msg.time = time;
    msg.origin = k;
    sensor::TimedPointCloudData data;
    data.time = TimeAt(kEpoch + time * kStep);
    data.origin = Eigen::Vector3f(k, -k, 0.5f);
    const int m = s.Len(0, 8);
    std::vector<int> offsets;
    for (int j = 0; j != m; ++j) offsets.push_back(-s.Int(0, 14));
    std::sort(offsets.begin(), offsets.end());
    const bool with_intensity = s.Chance(0.6);
    for (int j = 0; j != m; ++j) {
      const float intensity = with_intensity ? static_cast<float>(s.Int(1, 100)) : 0.f;
      msg.points.push_back(P{time + offsets[j], tag, intensity});
      data.ranges.push_back(sensor::TimedRangefinderPoint{Eigen::Vector3f(tag, i, k), offsets[j] * 0.125f});
      if (with_intensity) data.intensities.push_back(intensity);
      ++tag;
    }
    const auto result = collator.AddRangeData(ids[i], data);
    // Model.
    const bool repeated = pending.count(ids[i]) != 0;
    if (!repeated) pending.emplace(ids[i], msg);
    if (!repeated && static_cast<int>(pending.size()) != sensors) {
      PBT_CHECK(result.ranges.empty()) << "data before all sensors reported";
      PBT_CHECK(result.origins.empty());
      continue;
    }
    const bool had = ended;
    const int64_t start = end;
    if (repeated) {
      end = pending.at(ids[i]).time;
    } else {
      end = std::numeric_limits<int64_t>::max();
      for (const auto& p : pending) end = std::min(end, p.second.time);
    }
    ended = true;
    std::map<int, std::pair<P, int>> want;  // tag -> point, origin
    std::set<int> want_origins;
    bool later = false;
    for (auto it = pending.begin(); it != pending.end();) {
      std::vector<P> rest;
      for (const P& p : it->second.points) {
        if (had && p.ticks < start && p.ticks <= end) {
          ++dropped;
        } else if (p.ticks <= end) {
          want.emplace(p.tag, std::make_pair(p, it->second.origin));
          want_origins.insert(it->second.origin);
        } else if (had && p.ticks < start) {
          ++dropped;
        } else {
          rest.push_back(p);
        }
      }
      if (rest.empty()) {
        it = pending.erase(it);
      } else {
        later = true;
        it->second.points = rest;
        ++it;
      }
    }
    if (repeated) {
      // The newer message waits; a message with points after its own time stays as it is.
      pending.emplace(ids[i], msg);
    }
    PBT_CHECK(result.time == TimeAt(kEpoch + end * kStep)) << "window end";
    PBT_CHECK_EQ(result.ranges.size(), want.size()) << "points in the result";
    std::set<int> got;
    float last = -1e9f;
    for (const auto& r : result.ranges) {
      const int t = static_cast<int>(r.point_time.position.x());
      PBT_CHECK(got.insert(t).second) << "point given twice";
      PBT_CHECK(emitted.insert(t).second) << "point given in two results";
      const auto it = want.find(t);
      PBT_CHECK(it != want.end()) << "unexpected point";
      PBT_CHECK(r.intensity == it->second.first.intensity) << "intensity " << r.intensity << " want " << it->second.first.intensity;
      PBT_CHECK(r.point_time.time == (it->second.first.ticks - end) * 0.125f) << "time " << r.point_time.time;
      PBT_CHECK(r.point_time.time >= last) << "not in time order";
      last = r.point_time.time;
      PBT_CHECK(r.origin_index < result.origins.size());
      PBT_CHECK(result.origins[r.origin_index] == Eigen::Vector3f(it->second.second, -it->second.second, 0.5f)) << "wrong sensor position";
    }
    PBT_CHECK_EQ(result.origins.size(), want_origins.size());
    if (!want.empty()) {
      ++nonempty;
      if (want_origins.size() > 1 || later) ++rich;
    }
  }
  if (s.Chance(0.005)) {
    PBT_CHECK_EQ(pbt::RunForked([&] { collator.AddRangeData("other", sensor::TimedPointCloudData{TimeAt(kEpoch), {}, {}, {}}); }), 1) << "unknown sensor accepted";
  }
  s.LabelIf(dropped > 0, "dropped");
  if (sensors >= 2 && nonempty >= 2 && rich) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(sensors) + " sensors, " + std::to_string(n) + " messages, " + std::to_string(nonempty) + " results");
}

PBT_FACET(motion_filter, o.weight = 1; o.rule =
    "random pose sequences: a pose is skipped iff time, distance and angle to the last kept pose are all within the "
    "limits; the first is kept; non-trivial: some kept and some skipped after the first") {
  mapping::proto::MotionFilterOptions options;
  const double max_t = s.Int(0, 40) * 0.125, max_d = s.Real(0., 2.), max_a = s.Real(0., 1.);
  options.set_max_time_seconds(max_t);
  options.set_max_distance_meters(max_d);
  options.set_max_angle_radians(max_a);
  mapping::MotionFilter filter(options);
  // Long histories creep along at a steady pace, standing still at times.
  const bool creeping = s.Chance(0.03);
  const int n = creeping ? s.Int(100, 1500) : s.Len(1, 30);
  const int pace = s.Int(1, 300), pause = s.Int(0, 40), tick = s.Int(0, 1);
  const Eigen::Vector3d heading = GenAxis(s), axis = GenAxis(s);
  const bool straight = s.Bits(1);
  int64_t t = 0, last_t = 0;
  transform::Rigid3d pose = GenRigid3(s, 10.), last = pose;
  int kept = 0, skipped = 0;
  for (int i = 0; i != n; ++i) {
    const bool got = filter.IsSimilar(TimeAt(kEpoch + t * kStep), pose);
    if (i == 0) {
      PBT_CHECK(!got) << "the first pose is skipped";
      last = pose;
      last_t = t;
    } else {
      const double d = (pose.translation() - last.translation()).norm(), a = RotationDistance(pose.rotation(), last.rotation());
      if (std::abs(d - max_d) < 1e-9 || std::abs(a - max_a) < (creeping ? 1e-5 : 1e-6)) throw pbt::Discard();
      const bool similar = (t - last_t) * 0.125 <= max_t && d <= max_d && a <= max_a;
      PBT_CHECK_EQ(got, similar) << "dt " << (t - last_t) * 0.125 << "/" << max_t << " d " << d << "/" << max_d << " a " << a << "/" << max_a;
      (similar ? skipped : kept)++;
      if (!similar) {
        last = pose;
        last_t = t;
      }
    }
    if (creeping) {
      t += i % 7 == 0 ? tick : 0;
      const bool still = i % 50 < pause;
      pose = transform::Rigid3d(pose.translation() + heading * (still ? 0. : 0.98713 * max_d / pace),
                                (pose.rotation() * Eigen::Quaterniond(Eigen::AngleAxisd(still || straight ? 0. : 0.98713 * max_a / pace, axis))).normalized());
      continue;
    }
    t += s.Int(0, 12);
    const double dr = s.Chance(0.3) ? 0. : max_d * s.Real(0., 1.), da = s.Chance(0.3) ? 0. : max_a * s.Real(0., 1.);
    pose = transform::Rigid3d(pose.translation() + GenAxis(s) * dr, pose.rotation() * Eigen::Quaterniond(Eigen::AngleAxisd(da, GenAxis(s))));
  }
  if (kept && skipped) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(kept) + " kept, " + std::to_string(skipped) + " skipped after the first");
}
