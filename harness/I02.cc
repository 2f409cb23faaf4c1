// I02: saving and loading the map.
#include <unistd.h>

#include <chrono>
#include <thread>

#include "map_state.h"

#include "cartographer/mapping/map_builder.h"
#include "cartographer/mapping/pose_graph.h"

namespace {
using namespace map_state;
using mapping::NodeId;
using mapping::SubmapId;
using TrajectoryState = mapping::PoseGraphInterface::TrajectoryState;

mapping::proto::MapBuilderOptions Options(bool three_d, int threads) {
  mapping::proto::MapBuilderOptions o;
  o.set_use_trajectory_builder_2d(!three_d);
  o.set_use_trajectory_builder_3d(three_d);
  o.set_num_background_threads(threads);
  auto* p = o.mutable_pose_graph_options();
  p->set_max_num_final_iterations(2);
  auto* q = p->mutable_optimization_problem_options();
  q->set_huber_scale(10.);
  q->set_local_slam_pose_translation_weight(1.);
  q->set_local_slam_pose_rotation_weight(1.);
  q->set_odometry_translation_weight(1.);
  q->set_odometry_rotation_weight(1.);
  q->set_fixed_frame_pose_translation_weight(1.);
  q->set_fixed_frame_pose_rotation_weight(1.);
  q->set_fix_z_in_3d(true);
  q->mutable_ceres_solver_options()->set_max_num_iterations(2);
  q->mutable_ceres_solver_options()->set_num_threads(1);
  auto* c = p->mutable_constraint_builder_options();
  c->mutable_ceres_scan_matcher_options()->mutable_ceres_solver_options()->set_num_threads(1);
  c->mutable_ceres_scan_matcher_options_3d()->mutable_ceres_solver_options()->set_num_threads(1);
  c->mutable_ceres_scan_matcher_options_3d()->add_occupied_space_weight(1.);
  c->mutable_ceres_scan_matcher_options_3d()->add_occupied_space_weight(1.);
  return o;
}

mapping::PoseGraph* Graph(mapping::MapBuilder* b) { return static_cast<mapping::PoseGraph*>(b->pose_graph()); }

// Waits until everything queued so far is in the pose graph, by queueing a landmark after it.
void Settle(mapping::MapBuilder* b) {
  static int counter = 0;
  const std::string name = "~" + std::to_string(counter++);
  b->pose_graph()->SetLandmarkPose(name, Rigid3d::Identity(), true);
  for (int i = 0; i < 100000; ++i) {
    if (b->pose_graph()->GetLandmarkPoses().count(name)) return;
    std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 20 : 1000));
  }
  PBT_FAIL() << "queued work is never done";
}

State Save(mapping::MapBuilder* b, bool include_unfinished) {
  Recorder recorder;
  b->SerializeState(include_unfinished, &recorder.writer);
  State out = Parse(recorder.messages);
  // Those are ours.
  for (auto it = out.landmark_poses.begin(); it != out.landmark_poses.end();)
    it = it->first[0] == '~' ? out.landmark_poses.erase(it) : std::next(it);
  return out;
}

// Message kinds may come in any order; those of one kind keep theirs.
std::vector<SerializedData> Interleave(pbt::Source& s, std::vector<SerializedData> messages) {
  if (s.Chance(0.5)) return messages;
  std::map<int, std::vector<SerializedData>> by_kind;
  std::vector<SerializedData> out(messages.begin(), messages.begin() + 2);
  std::vector<int> order;
  for (size_t i = 2; i < messages.size(); ++i) {
    const int kind = messages[i].data_case();
    by_kind[kind].push_back(messages[i]);
    order.push_back(kind);
  }
  s.Shuffle(&order);
  std::map<int, size_t> next;
  for (int kind : order) out.push_back(by_kind[kind][next[kind]++]);
  return out;
}

std::map<int, int> ExpectedIds(const State& st, int first) {
  std::map<int, int> out;
  for (const auto& t : st.trajectories) out[t.first] = first++;
  return out;
}

// The pose graph shows what is in the state.
void CheckContent(mapping::MapBuilder* b, const State& st) {
  auto* g = Graph(b);
  std::map<Id, Rigid3d> nodes, submaps;
  for (const auto& e : g->GetTrajectoryNodes()) nodes[Id(e.id.trajectory_id, e.id.node_index)] = e.data.global_pose;
  SamePoses(nodes, st.node_poses, "node in the pose graph");
  for (const auto& e : g->GetAllSubmapData()) submaps[Id(e.id.trajectory_id, e.id.submap_index)] = e.data.pose;
  SamePoses(submaps, st.submap_poses, "submap in the pose graph");
}

// Trajectories are connected by constraints from loop closures, and frozen ones with each other.
void CheckConnected(mapping::MapBuilder* b, const State& st, const std::map<int, bool>& frozen) {
  std::map<int, int> parent;
  std::function<int(int)> find = [&](int i) { return parent.at(i) == i ? i : find(parent.at(i)); };
  for (const auto& e : st.submaps) parent[e.first.first] = e.first.first;
  for (const auto& e : st.nodes) parent[e.first.first] = e.first.first;
  int last = -1;
  for (const auto& e : frozen)
    if (e.second) {
      parent[e.first] = last < 0 ? e.first : last;
      last = e.first;
    }
  for (const auto& c : st.constraints)
    if (c.inter) parent[find(c.submap.first)] = find(c.node.first);
  std::map<int, std::set<int>> want;
  for (const auto& e : parent) want[find(e.first)].insert(e.first);
  std::set<std::set<int>> components, got;
  for (const auto& e : want) components.insert(e.second);
  for (const auto& c : Graph(b)->GetConnectedTrajectories()) got.emplace(c.begin(), c.end());
  PBT_CHECK(got == components) << "connected trajectories: " << got.size() << " groups for " << components.size();
}

void LoadAndSave(pbt::Source& s, bool three_d) {
  mapping::MapBuilder builder(Options(three_d, s.Int(1, 3)));
  State want;
  int trajectories = 0;
  const int loads = s.Chance(0.6) ? 1 : 2;
  std::map<int, bool> frozen_ids;
  std::map<int, bool> any_ids;
  for (int k = 0; k < loads; ++k) {
    const State st = Gen(s, three_d, 100 * k);
    const bool frozen = s.Chance(0.4);
    s.LabelIf(frozen, "frozen");
    const int version = three_d ? 2 : s.Int(1, 2);
    const auto reader = Reader(Interleave(s, ToMessages(st)), version);
    const std::map<int, int> ids = builder.LoadState(reader.get(), frozen);
    const std::map<int, int> expected = ExpectedIds(st, trajectories);
    PBT_CHECK(ids == expected) << "the reported new trajectory ids";
    trajectories += st.trajectories.size();
    PBT_CHECK_EQ(builder.num_trajectory_builders(), trajectories) << "number of trajectories";
    for (const auto& e : ids) frozen_ids[e.second] = frozen;
    want = Merge(want, Expected(Remap(st, ids), three_d, frozen, true));
    for (const auto& e : st.submaps) any_ids[ids.at(e.first.first)] = true;
    for (const auto& e : st.nodes) any_ids[ids.at(e.first.first)] = true;
  }
  Settle(&builder);
  CheckConnected(&builder, want, frozen_ids);
  s.NonTrivial(!want.submaps.empty() && !want.nodes.empty());
  s.LabelIf(!want.constraints.empty(), "constraints");
  s.LabelIf(want.trajectories.size() > 1, "several trajectories");
  CheckContent(&builder, want);
  for (const auto& e : builder.pose_graph()->GetTrajectoryStates())
    PBT_CHECK(e.second == (frozen_ids.at(e.first) ? TrajectoryState::FROZEN : TrajectoryState::ACTIVE))
        << "state of trajectory " << e.first;
  for (const auto& e : any_ids) {
    PBT_CHECK(builder.pose_graph()->GetTrajectoryStates().count(e.first)) << "no state for trajectory " << e.first;
    PBT_CHECK_EQ(builder.pose_graph()->IsTrajectoryFrozen(e.first), frozen_ids.at(e.first));
  }
  // Asking for a submap that is not there is an error, not a crash.
  for (int n = 3; n > 0; --n) {
    const Id id(s.Int(-1, trajectories + 1), s.Int(-1, 6));
    mapping::proto::SubmapQuery::Response response;
    if (want.submaps.count(id)) {
      if (!three_d) {
        PBT_CHECK(builder.SubmapToProto(SubmapId{id.first, id.second}, &response).empty()) << "submap query failed";
        PBT_CHECK_EQ(response.submap_version(), want.submaps.at(id).submap_2d().num_range_data());
      }
    } else {
      PBT_CHECK(!builder.SubmapToProto(SubmapId{id.first, id.second}, &response).empty())
          << "no error for submap " << Show(id) << ", which does not exist";
    }
  }
  const bool include = s.Chance(0.6);
  s.LabelIf(!include, "without unfinished submaps");
  const State expected = Expected(want, three_d, false, include);
  State saved = Save(&builder, include);
  Same(saved, expected);
  PBT_CHECK(Save(&builder, include).trajectories == saved.trajectories) << "saving changed the map";
  // What was saved can be loaded again, and saved again.
  mapping::MapBuilder second(Options(three_d, 1));
  const bool frozen = s.Chance(0.3);
  const auto ids = second.LoadState(Reader(ToMessages(saved)).get(), frozen);
  PBT_CHECK(ids == ExpectedIds(saved, 0)) << "new ids on loading again";
  Settle(&second);
  State again = Expected(Remap(saved, ids), three_d, frozen, true);
  CheckContent(&second, again);
  Same(Save(&second, true), again);
}
PBT_FACET(load_and_save_2d, o.weight = 3; o.nondeterministic = true; o.rule = "a state with submaps and nodes") { LoadAndSave(s, false); }
PBT_FACET(load_and_save_3d, o.weight = 3; o.nondeterministic = true; o.rule = "a state with submaps and nodes") { LoadAndSave(s, true); }

// Through a file, including one that cannot be written.
PBT_FACET(files, o.weight = 1; o.nondeterministic = true; o.rule = "a state with submaps or nodes") {
  const bool three_d = s.Bits(1);
  mapping::MapBuilder builder(Options(three_d, 1));
  const State st = Gen(s, three_d);
  const auto ids = builder.LoadState(Reader(ToMessages(st)).get(), false);
  Settle(&builder);
  State want = Expected(Remap(st, ids), three_d, false, true);
  s.NonTrivial(!want.submaps.empty() || !want.nodes.empty());
  char name[] = "/tmp/verif_i02_XXXXXX";
  const int fd = mkstemp(name);
  if (fd < 0) throw pbt::Discard();
  close(fd);
  struct Remove {
    const char* name;
    ~Remove() { unlink(name); }
  } remove{name};
  PBT_CHECK(builder.SerializeStateToFile(true, name)) << "writing the file failed";
  PBT_CHECK(!builder.SerializeStateToFile(true, "/dev/full")) << "success reported though nothing was written";
  mapping::MapBuilder second(Options(three_d, 1));
  const auto new_ids = second.LoadStateFromFile(name, false);
  Settle(&second);
  Same(Save(&second, true), Remap(want, new_ids));
}

// After any history, what is saved can be loaded and is what the pose graph showed.
void Live(pbt::Source& s, bool three_d) {
  mapping::MapBuilder builder(Options(three_d, s.Int(1, 2)));
  State st = Gen(s, three_d, 0, true);
  std::set<int> with_data;
  for (const auto& e : st.submaps) with_data.insert(e.first.first);
  for (const auto& e : st.nodes) with_data.insert(e.first.first);
  const bool frozen = s.Chance(0.3);
  builder.LoadState(Reader(ToMessages(st)).get(), frozen);
  Settle(&builder);
  auto* g = Graph(&builder);
  int count = st.trajectories.size();
  // Sensors of trajectories added live have to be finished before the builder goes.
  struct Finish {
    mapping::MapBuilder* b;
    std::set<int> ids;
    ~Finish() {
      for (int id : ids) b->FinishTrajectory(id);
    }
  } finish{&builder, {}};
  std::map<int, int> state;  // 0 active, 1 finished, 2 frozen, 3 deleted.
  if (frozen)
    for (int t = 0; t < count; ++t) state[t] = 2;
  int64_t time = kEpoch + 100000000;
  bool deleted = false, bare = false;
  for (int n = s.Len(0, 8); n > 0; --n) {
    time += 1000;
    const int t = count > 0 ? s.Int(0, count - 1) : 0;
    switch (s.Int(0, 5)) {
      case 0: {
        mapping::proto::TrajectoryBuilderOptions o;
        o.set_collate_landmarks(s.Bits(1));
        const int id = builder.AddTrajectoryBuilder({{mapping::MapBuilder::SensorId::SensorType::RANGE, "r" + std::to_string(count)}}, o, nullptr);
        PBT_CHECK_EQ(id, count++) << "id of a new trajectory";
        finish.ids.insert(id);
        break;
      }
      case 1:
        if (count == 0 || state[t] != 0) break;
        if (finish.ids.erase(t))
          builder.FinishTrajectory(t);
        else
          g->FinishTrajectory(t);
        if (!with_data.count(t)) bare = true;
        state[t] = 1;
        break;
      case 2:
        if (count == 0 || state[t] != 0) break;
        g->FreezeTrajectory(t);
        if (!with_data.count(t)) bare = true;
        state[t] = 2;
        break;
      case 3:
        if (count == 0 || state[t] == 0 || state[t] == 3) break;
        Settle(&builder);
        g->DeleteTrajectory(t);
        state[t] = 3;
        deleted = true;
        break;
      case 4:
        if (count == 0 || state[t] == 1 || state[t] == 3) break;
        g->AddOdometryData(t, sensor::OdometryData{TimeAt(time), GenRigid3(s, 3.)});
        g->AddFixedFramePoseData(t, sensor::FixedFramePoseData{TimeAt(time), GenRigid3(s, 3.)});
        if (three_d) g->AddImuData(t, sensor::ImuData{TimeAt(time), GenVector(s, 10.), GenVector(s, 1.)});
        if (!with_data.count(t)) bare = true;
        break;
      case 5: {
        if (count == 0 || state[t] == 1 || state[t] == 3) break;
        sensor::LandmarkData d;
        d.time = TimeAt(time);
        d.landmark_observations.push_back({"mark" + std::to_string(s.Int(0, 3)), GenRigid3(s, 3.), 1., 1.});
        g->AddLandmarkData(t, d);
        if (!with_data.count(t)) bare = true;
        break;
      }
    }
  }
  // Deletions take effect with the next optimization.
  if (deleted || s.Chance(0.4)) {
    g->RunFinalOptimization();
    Settle(&builder);
    s.Label("optimized");
    // Loaded landmarks stay where they are, and so does what was frozen.
    const auto landmarks = g->GetLandmarkPoses();
    for (const auto& e : st.landmark_poses) {
      PBT_CHECK(landmarks.count(e.first)) << "landmark is gone";
      PBT_CHECK(Near(landmarks.at(e.first), e.second, 1e-9, 1e-7)) << "loaded landmark moved";
    }
    if (frozen) {
      for (const auto& e : g->GetTrajectoryNodes())
        PBT_CHECK(state[e.id.trajectory_id] == 3 ||
                  Near(e.data.global_pose, st.node_poses.at({e.id.trajectory_id, e.id.node_index}), 1e-7, 1e-6))
            << "node of a frozen trajectory moved";
      for (const auto& e : g->GetAllSubmapData())
        PBT_CHECK(state[e.id.trajectory_id] == 3 ||
                  Near(e.data.pose, st.submap_poses.at({e.id.trajectory_id, e.id.submap_index}), 1e-7, 1e-6))
            << "submap of a frozen trajectory moved";
    }
  }
  Settle(&builder);
  s.NonTrivial(deleted || bare);
  s.LabelIf(deleted, "deleted");
  s.LabelIf(bare, "trajectory without nodes in use");
  const auto states = g->GetTrajectoryStates();
  for (const auto& e : state)
    if (e.second == 3) {
      PBT_CHECK(states.at(e.first) == TrajectoryState::DELETED) << "trajectory " << e.first << " is not deleted";
      PBT_CHECK(g->GetAllSubmapData().SizeOfTrajectoryOrZero(e.first) == 0) << "submaps of a deleted trajectory";
      for (const auto& c : st.constraints)
        PBT_CHECK(c.inter || c.node.first != e.first ||
                  !g->GetTrajectoryNodes().Contains(NodeId{c.node.first, c.node.second}))
            << "node of a deleted trajectory";
    }
  const bool include = s.Chance(0.7);
  const State saved = Save(&builder, include);
  if (include) CheckContent(&builder, saved);
  std::set<int> listed;
  for (const auto& t : saved.trajectories) listed.insert(t.first);
  for (const auto& e : saved.submaps) PBT_CHECK(saved.submap_poses.count(e.first)) << "submap without pose";
  for (const auto& e : saved.nodes) PBT_CHECK(saved.node_poses.count(e.first)) << "node without pose";
  mapping::MapBuilder second(Options(three_d, 1));
  std::vector<SerializedData> messages;
  Recorder recorder;
  builder.SerializeState(include, &recorder.writer);
  std::queue<std::unique_ptr<google::protobuf::Message>> queue;
  for (auto& m : recorder.messages) queue.push(std::move(m));
  io::InMemoryProtoStreamReader reader(std::move(queue));
  const auto ids = second.LoadState(&reader, false);
  Settle(&second);
  State expected = Expected(Remap(saved, ids), three_d, false, true);
  Same(Save(&second, true), expected);
}
PBT_FACET(history_2d, o.weight = 2; o.nondeterministic = true; o.rule = "a trajectory was deleted, or one without nodes was used") { Live(s, false); }
PBT_FACET(history_3d, o.weight = 2; o.nondeterministic = true; o.rule = "a trajectory was deleted, or one without nodes was used") { Live(s, true); }
}  // namespace
