// S01: sensor collation.
#include <map>
#include <set>

#include "cartographer/mapping/internal/collated_trajectory_builder.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "pbt.h"

namespace {
using namespace cartographer;
using common::FromUniversal;
using common::ToUniversal;

class Packet : public sensor::Data {
 public:
  Packet(const std::string& sensor, int64_t time, int serial)
      : Data(sensor), time_(time), serial_(serial) {}
  common::Time GetTime() const override { return FromUniversal(time_); }
  void AddToTrajectoryBuilder(mapping::TrajectoryBuilderInterface*) override {}
  int serial() const { return serial_; }

 private:
  const int64_t time_;
  const int serial_;
};

struct Stream {  // one expected sensor of one trajectory
  std::vector<int64_t> times;   // all packets added so far
  std::vector<int> serials;
  int next = 0;                 // all packets before this are delivered or dropped
  int delivered = 0;
};
struct Trajectory {
  std::map<std::string, Stream> streams;
  bool finished = false;
  int64_t last_dispatched = -1;
};

struct Model {
  std::map<int, Trajectory> trajectories;
  int64_t last_dispatched = -1;  // over all trajectories
  int dropped = 0;
};

// The common start of a trajectory: known once every sensor has data; once the
// trajectory is finished, sensors without data no longer count.
bool StartTime(const Trajectory& t, int64_t* start) {
  bool any = false;
  for (const auto& s : t.streams) {
    if (s.second.times.empty()) {
      if (t.finished) continue;
      return false;
    }
    *start = any ? std::max(*start, s.second.times.front()) : s.second.times.front();
    any = true;
  }
  return any;
}

// Is packet i of the stream one that has to be delivered?
bool MustDrop(const Stream& s, size_t i, int64_t start) {
  return s.times[i] < start && i + 1 < s.times.size() && s.times[i + 1] <= start;
}

void OnDispatch(Model* m, bool global, int trajectory, const std::string& callback_sensor,
                const sensor::Data& data, bool* bad, std::string* why) {
  auto fail = [&](const std::string& w) {
    if (!*bad) *why = w;
    *bad = true;
  };
  const auto& packet = static_cast<const Packet&>(data);
  Trajectory& t = m->trajectories[trajectory];
  if (data.GetSensorId() != callback_sensor) return fail("delivered under the wrong sensor");
  auto it = t.streams.find(callback_sensor);
  if (it == t.streams.end()) return fail("delivery for an unexpected sensor " + callback_sensor);
  Stream& s = it->second;
  const int64_t time = ToUniversal(data.GetTime());
  int64_t start = 0;
  if (!StartTime(t, &start)) return fail("delivery before every sensor had data");
  // Everything skipped in this stream must be a legal drop.
  size_t i = s.next;
  while (i < s.serials.size() && s.serials[i] != packet.serial()) {
    if (!MustDrop(s, i, start)) return fail("packet lost or out of order in its stream");
    ++m->dropped;
    ++i;
  }
  if (i == s.serials.size()) return fail("packet delivered twice or never added");
  if (MustDrop(s, i, start)) return fail("packet before the common start was not dropped");
  if (s.times[i] != time) return fail("packet time changed");
  s.next = i + 1;
  ++s.delivered;
  int64_t* last = global ? &m->last_dispatched : &t.last_dispatched;
  if (time < *last) return fail("deliveries are not in time order");
  *last = time;
  // Nothing older may be pending in another stream (it would come later).
  for (const auto& other_t : m->trajectories) {
    if (!global && other_t.first != trajectory) continue;
    for (const auto& other : other_t.second.streams) {
      if (static_cast<size_t>(other.second.next) == other.second.times.size() &&
          !other_t.second.finished)
        if (!(other_t.first == trajectory && other.first == callback_sensor))
          return fail("dispatched while another unfinished sensor had no data");
    }
  }
}

// True if the stream is one that the collator legitimately waits for.
bool Blocks(const Trajectory& t, const Stream& s) {
  if (t.finished) return false;
  int64_t start = 0;
  size_t i = s.next;
  const bool known = StartTime(t, &start);
  if (known)
    while (i < s.times.size() && MustDrop(s, i, start)) ++i;
  if (i == s.times.size()) return true;
  // A single packet before the common start cannot be decided yet.
  if (known && i + 1 == s.times.size() && s.times[i] < start) return true;
  return false;
}

void RunHistory(pbt::Source& s, bool global) {
  Model model;
  bool bad = false;
  std::string why;
  std::unique_ptr<sensor::CollatorInterface> collator;
  if (global) {
    collator.reset(new sensor::Collator);
  } else {
    collator.reset(new sensor::TrajectoryCollator);
  }
  int next_trajectory = s.Chance(0.05) ? s.IntEdge(0, 1 << 30) : s.Int(0, 3);
  int serial = 0;
  const int64_t base = s.Pick(std::vector<int64_t>{0, 1, 1000, 635727208200176089});
  const int tie_range = s.Pick(std::vector<int>{2, 5, 1000});
  int ops = s.Len(4, 60);
  std::ostringstream trace;
  int finished_mid = 0, added_late = 0, floods = 0;
  const std::vector<std::string> kNames = {"a", "b", "imu", "scan", "odom"};
  auto add_trajectory = [&]() {
    const int id = next_trajectory;
    next_trajectory += 1 + s.Bits(1) * s.Bits(3);
    Trajectory t;
    absl::flat_hash_set<std::string> sensors;
    const int n = s.Weighted({1, 3, 3, 2}) + 1;
    while (static_cast<int>(sensors.size()) < n) {
      std::string name = kNames[s.Bits(kNames.size() - 1)];
      if (sensors.count(name)) name = kNames[sensors.size()] + name;
      sensors.insert(name);
    }
    for (const auto& x : std::set<std::string>(sensors.begin(), sensors.end())) t.streams[x];
    model.trajectories[id] = t;
    collator->AddTrajectory(id, sensors, [&, id](const std::string& sensor, std::unique_ptr<sensor::Data> d) {
      OnDispatch(&model, global, id, sensor, *d, &bad, &why);
    });
    if (s.Sampling()) trace << "+T" << id << "(" << n << ") ";
  };
  const int initial = 1 + s.Weighted({4, 3, 2});
  for (int i = 0; i != initial; ++i) add_trajectory();
  auto check_all = [&](const char* when) {
    PBT_CHECK(!bad) << why << " (" << when << ")";
    // Progress: every group of collated streams is either drained or waits for
    // some stream that really has nothing to offer.
    bool any_block_global = false, pending_global = false;
    for (const auto& t : model.trajectories) {
      bool any_block = false, pending = false;
      for (const auto& st : t.second.streams) {
        if (Blocks(t.second, st.second)) any_block = true;
        int64_t start = 0;
        size_t i = st.second.next;
        if (StartTime(t.second, &start))
          while (i < st.second.times.size() && MustDrop(st.second, i, start)) ++i;
        if (i != st.second.times.size()) pending = true;
      }
      if (!global)
        PBT_CHECK(any_block || !pending) << "trajectory " << t.first << " holds back data " << when;
      any_block_global |= any_block;
      pending_global |= pending;
    }
    if (global) PBT_CHECK(any_block_global || !pending_global) << "data held back " << when;
  };
  for (int op = 0; op != ops; ++op) {
    std::vector<int> live;
    for (const auto& t : model.trajectories)
      if (!t.second.finished) live.push_back(t.first);
    const int kind = s.Weighted({20, 1, live.empty() ? 0. : 1., 0.7});
    if (kind == 1 || live.empty()) {
      if (model.trajectories.size() < 6) {
        add_trajectory();
        if (op > 4) ++added_late;
      }
      continue;
    }
    const int id = s.Pick(live);
    Trajectory& t = model.trajectories[id];
    if (kind == 2) {
      if (s.Sampling()) trace << "fin" << id << " ";
      t.finished = true;
      ++finished_mid;
      collator->FinishTrajectory(id);
      check_all("after finishing a trajectory");
      continue;
    }
    if (kind == 3) {  // data from a sensor nobody expects is ignored
      collator->AddSensorData(id, absl::make_unique<Packet>("unexpected", base + s.Int(0, 10), -1));
      check_all("after unexpected data");
      continue;
    }
    auto it = t.streams.begin();
    std::advance(it, s.Bits(t.streams.size() - 1));
    // A burst of packets from one sensor.
    // Rarely: a flood, as when another sensor fell silent for minutes.
    const bool flood = floods < 2 && s.Chance(0.003);
    if (flood) ++floods;
    const int burst = flood ? s.Int(400, 3000) : 1 + s.Weighted({6, 2, 1, 1});
    const int flood_step = flood ? s.Int(0, tie_range) : 0;
    for (int b = 0; b != burst; ++b) {
      Stream& st = it->second;
      int64_t floor = st.times.empty() ? base : st.times.back();
      // Callers of the shared collator deliver (roughly) live data: nothing
      // older than what has been dispatched already.
      const int64_t last = global ? model.last_dispatched : t.last_dispatched;
      floor = std::max(floor, last);
      const int64_t time = floor + (flood ? flood_step : s.Int(0, tie_range));
      st.times.push_back(time);
      st.serials.push_back(++serial);
      if (s.Sampling() && b < 10) trace << id << it->first << "@" << time - base << " ";
      collator->AddSensorData(id, absl::make_unique<Packet>(it->first, time, serial));
      if (flood && b + 1 != burst) continue;
      check_all("after adding data");
      if (global) {
        const auto blocker = collator->GetBlockingTrajectoryId();
        PBT_CHECK(blocker.has_value());
        PBT_CHECK(model.trajectories.count(*blocker)) << "blocker is no trajectory";
        const Trajectory& bt = model.trajectories[*blocker];
        bool blocks = false;
        for (const auto& bs : bt.streams) blocks |= Blocks(bt, bs.second);
        PBT_CHECK(blocks) << "reported blocking trajectory " << *blocker << " is not waiting for data";
      } else {
        PBT_CHECK(!collator->GetBlockingTrajectoryId().has_value());
      }
    }
  }
  // End of input: everything is flushed out.
  const bool flush = s.Chance(0.7);
  if (flush) {
    for (auto& t : model.trajectories) t.second.finished = true;
    collator->Flush();
  } else {
    for (auto& t : model.trajectories) {
      if (t.second.finished) continue;
      t.second.finished = true;
      collator->FinishTrajectory(t.first);
      PBT_CHECK(!bad) << why;
    }
  }
  PBT_CHECK(!bad) << why << " (at the end)";
  int delivered = 0, multi = 0;
  for (const auto& t : model.trajectories) {
    int64_t start = 0;
    StartTime(t.second, &start);
    if (t.second.streams.size() > 1) ++multi;
    for (const auto& st : t.second.streams) {
      delivered += st.second.delivered;
      size_t i = st.second.next;
      while (i < st.second.times.size() && MustDrop(st.second, i, start)) ++i, ++model.dropped;
      PBT_CHECK_EQ(i, st.second.times.size()) << "data never delivered: trajectory " << t.first
                                              << " sensor " << st.first;
    }
  }
  s.LabelIf(model.dropped > 0, "dropped before common start");
  s.LabelIf(floods > 0, "flood of one sensor");
  s.LabelIf(finished_mid > 0, "trajectory finished mid-stream");
  s.LabelIf(added_late > 0, "trajectory added late");
  s.LabelIf(model.trajectories.size() > 1, "several trajectories");
  if (delivered >= 3 && multi > 0) s.NonTrivial();
  if (s.Sampling()) s.Describe(trace.str());
}

// The real data types through the collated trajectory builder.
class Recorder : public mapping::TrajectoryBuilderInterface {
 public:
  struct Event {
    int type;
    std::string sensor;
    int64_t time;
    double tag;
  };
  explicit Recorder(std::vector<Event>* events) : events_(events) {}
  void AddSensorData(const std::string& id, const sensor::TimedPointCloudData& d) override {
    events_->push_back({0, id, ToUniversal(d.time), d.ranges.empty() ? -1. : d.ranges[0].position.x()});
  }
  void AddSensorData(const std::string& id, const sensor::ImuData& d) override {
    events_->push_back({1, id, ToUniversal(d.time), d.angular_velocity.x()});
  }
  void AddSensorData(const std::string& id, const sensor::OdometryData& d) override {
    events_->push_back({2, id, ToUniversal(d.time), d.pose.translation().x()});
  }
  void AddSensorData(const std::string& id, const sensor::FixedFramePoseData& d) override {
    events_->push_back({3, id, ToUniversal(d.time), d.pose.has_value() ? d.pose->translation().x() : -1.});
  }
  void AddSensorData(const std::string& id, const sensor::LandmarkData& d) override {
    events_->push_back({4, id, ToUniversal(d.time), d.landmark_observations.empty()
                                                       ? -1.
                                                       : d.landmark_observations[0].translation_weight});
  }
  void AddLocalSlamResultData(std::unique_ptr<mapping::LocalSlamResultData>) override {}
  std::vector<Event>* events_;
};

}  // namespace

PBT_FACET(shared_collator, o.weight = 4; o.nondeterministic = true; o.rule =
    "random interleavings of live sensor streams of several trajectories, with late trajectories, "
    "finishes and a flush; non-trivial: >=3 packets delivered and a trajectory with >=2 sensors") {
  RunHistory(s, true);
}

PBT_FACET(per_trajectory_collator, o.weight = 4; o.nondeterministic = true; o.rule = "as shared_collator, per-trajectory ordering") {
  RunHistory(s, false);
}

PBT_FACET(collated_builder, o.weight = 1; o.rule =
    "typed sensor data through the collated trajectory builder; non-trivial: >=2 sensors, >=3 events") {
  mapping::proto::TrajectoryBuilderOptions options;
  const bool collate_landmarks = s.Chance(0.5);
  const bool collate_fixed = s.Chance(0.5);
  options.set_collate_landmarks(collate_landmarks);
  options.set_collate_fixed_frame(collate_fixed);
  std::unique_ptr<sensor::CollatorInterface> collator;
  if (s.Chance(0.5)) collator.reset(new sensor::Collator);
  else collator.reset(new sensor::TrajectoryCollator);
  using SensorId = mapping::TrajectoryBuilderInterface::SensorId;
  using SensorType = SensorId::SensorType;
  const SensorType kTypes[5] = {SensorType::RANGE, SensorType::IMU, SensorType::ODOMETRY,
                                SensorType::FIXED_FRAME_POSE, SensorType::LANDMARK};
  std::set<SensorId> expected;
  std::vector<std::pair<int, std::string>> sensors;
  std::map<std::string, std::vector<Recorder::Event>> sent;
  const int n = 1 + s.Bits(4);
  bool any_collated = false;
  for (int i = 0; i != n; ++i) {
    const int type = s.Bits(4);
    const std::string name = "s" + std::to_string(i);
    sensors.emplace_back(type, name);
    expected.insert(SensorId{kTypes[type], name});
    if (!((type == 3 && !collate_fixed) || (type == 4 && !collate_landmarks))) any_collated = true;
  }
  if (!any_collated) {
    sensors.emplace_back(1, "imu");
    expected.insert(SensorId{SensorType::IMU, "imu"});
  }
  std::vector<Recorder::Event> events;
  mapping::CollatedTrajectoryBuilder builder(options, collator.get(), 3, expected,
                                             absl::make_unique<Recorder>(&events));
  std::map<std::string, int64_t> last;
  const int count = s.Len(1, 40);
  int64_t last_collated = 0;
  for (int i = 0; i != count; ++i) {
    const auto& sensor = s.Pick(sensors);
    const int type = sensor.first;
    const bool direct = (type == 3 && !collate_fixed) || (type == 4 && !collate_landmarks);
    int64_t& l = last[sensor.second];
    l = std::max(l, last_collated) + s.Int(0, 4);
    const common::Time time = FromUniversal(l);
    const double tag = i + 1;
    const size_t before = events.size();
    const Recorder::Event e{type, sensor.second, l, tag};
    sent[sensor.second].push_back(e);
    switch (type) {
      case 0: {
        sensor::TimedPointCloudData d;
        d.time = time;
        d.origin = Eigen::Vector3f::Zero();
        d.ranges.push_back({Eigen::Vector3f(tag, 0, 0), 0.f});
        builder.AddSensorData(sensor.second, d);
        break;
      }
      case 1:
        builder.AddSensorData(sensor.second, sensor::ImuData{time, Eigen::Vector3d::UnitZ(),
                                                             Eigen::Vector3d(tag, 0, 0)});
        break;
      case 2:
        builder.AddSensorData(sensor.second,
                              sensor::OdometryData{time, transform::Rigid3d::Translation({tag, 0, 0})});
        break;
      case 3:
        builder.AddSensorData(sensor.second, sensor::FixedFramePoseData{
                                                 time, transform::Rigid3d::Translation({tag, 0, 0})});
        break;
      case 4: {
        sensor::LandmarkData d{time, {}};
        d.landmark_observations.push_back({"l", transform::Rigid3d::Identity(), tag, 1.});
        builder.AddSensorData(sensor.second, d);
        break;
      }
    }
    if (direct) {
      PBT_CHECK_EQ(events.size(), before + 1) << "uncollated data is handed on at once";
      PBT_CHECK(events.back().sensor == e.sensor && events.back().tag == e.tag);
    }
    for (size_t k = before; k < events.size(); ++k) {
      const auto& ev = events[k];
      const bool ev_direct = (ev.type == 3 && !collate_fixed) || (ev.type == 4 && !collate_landmarks);
      if (ev_direct) continue;
      PBT_CHECK(ev.time >= last_collated) << "collated data out of order";
      last_collated = ev.time;
    }
  }
  collator->Flush();
  // Every stream arrives as a suffix of what was sent (packets before the
  // common start may be missing), unchanged and once.
  std::map<std::string, std::vector<Recorder::Event>> got;
  for (const auto& e : events) got[e.sensor].push_back(e);
  for (const auto& g : got) {
    const auto& all = sent[g.first];
    PBT_CHECK(g.second.size() <= all.size());
    const size_t skip = all.size() - g.second.size();
    for (size_t i = 0; i != g.second.size(); ++i) {
      const auto& a = all[skip + i];
      const auto& b = g.second[i];
      PBT_CHECK(a.type == b.type && a.time == b.time && a.tag == b.tag) << "payload changed in " << g.first;
    }
  }
  for (const auto& x : sent)
    PBT_CHECK(got.count(x.first)) << "nothing delivered for " << x.first;
  if (sensors.size() > 1 && events.size() >= 3) s.NonTrivial();
  s.LabelIf(!collate_landmarks, "landmarks not collated");
}
