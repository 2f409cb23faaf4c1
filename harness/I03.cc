// I03: maps saved in the older format.
#include <unistd.h>

#include <chrono>
#include <thread>

#include "map_state.h"

#include "cartographer/io/proto_stream.h"
#include "cartographer/io/serialization_format_migration.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/mapping/pose_graph.h"

namespace {
using namespace map_state;
using mapping::NodeId;
using mapping::SubmapId;
using Histogram = std::vector<double>;

// Turns a histogram over half a revolution, spreading each bucket over the two it then overlaps.
Histogram Turned(const Histogram& h, double angle) {
  const int n = h.size();
  Histogram out(n, 0.);
  for (int i = 0; i < n; ++i) {
    const double to = i + angle / M_PI * n;
    const double low = std::floor(to), part = to - low;
    const int a = ((static_cast<int>(low) % n) + n) % n;
    out[a] += h[i] * (1. - part);
    out[(a + 1) % n] += h[i] * part;
  }
  return out;
}

// A state as the older format has it: no histograms in submaps, those of nodes are of one size.
State GenOld(pbt::Source& s, bool three_d, bool consecutive) {
  State st = Gen(s, three_d, 0, consecutive);
  st.version = 1;
  if (!three_d) return st;
  const int size = s.Chance(0.1) ? 120 : s.Int(1, 9);
  for (auto& e : st.submaps) {
    e.second.mutable_submap_3d()->clear_rotational_scan_matcher_histogram();
    const Rigid3d pose = Rigid3d::Rotation(Eigen::AngleAxisd(s.Real(-4., 4.), Eigen::Vector3d::UnitZ())) * Rigid3d(GenVector(s, 10.), GenRotation(s, 0.3));
    *e.second.mutable_submap_3d()->mutable_local_pose() = transform::ToProto(pose);
  }
  for (auto& e : st.nodes) {
    e.second.clear_rotational_scan_matcher_histogram();
    const int spike = s.Int(0, size - 1);
    for (int i = 0; i < size; ++i) e.second.add_rotational_scan_matcher_histogram(i == spike ? s.Real(1., 9.) : s.Chance(0.5) ? 0. : s.Real(0., 3.));
    const Eigen::Quaterniond tilt = GenRotation(s, 0.3);
    const Rigid3d pose(GenVector(s, 10.), Eigen::AngleAxisd(s.Real(-4., 4.), Eigen::Vector3d::UnitZ()) * tilt);
    *e.second.mutable_local_pose() = transform::ToProto(pose);
    *e.second.mutable_gravity_alignment() = transform::ToProto(s.Bits(1) ? tilt : GenRotation(s, 0.3));
  }
  return st;
}

std::map<Id, Histogram> ExpectedHistograms(const State& st) {
  std::map<Id, Histogram> out;
  for (const auto& c : st.constraints) {
    if (c.inter) continue;
    const auto& node = st.nodes.at(c.node);
    const Rigid3d submap = transform::ToRigid3(st.submaps.at(c.submap).submap_3d().local_pose());
    const Eigen::Quaterniond level = transform::ToRigid3(node.local_pose()).rotation() * transform::ToEigen(node.gravity_alignment()).inverse();
    const Eigen::Vector3d ahead = submap.rotation().inverse() * (level * Eigen::Vector3d::UnitX());
    if (ahead.head<2>().norm() < 0.1) throw pbt::Discard();
    Histogram h(node.rotational_scan_matcher_histogram().begin(), node.rotational_scan_matcher_histogram().end());
    h = Turned(h, std::atan2(ahead.y(), ahead.x()));
    auto& sum = out[c.submap];
    sum.resize(h.size(), 0.);
    for (size_t i = 0; i < h.size(); ++i) sum[i] += h[i];
  }
  return out;
}

// Compares the histograms and takes them away, so that the rest can be compared exactly.
void TakeHistograms(std::map<Id, mapping::proto::Submap>* submaps, const std::map<Id, Histogram>& want) {
  for (auto& e : *submaps) {
    auto* m = e.second.mutable_submap_3d();
    const auto it = want.find(e.first);
    if (it == want.end()) {
      for (float v : m->rotational_scan_matcher_histogram()) PBT_CHECK_EQ(v, 0.f) << "histogram of submap " << Show(e.first) << " which no node was inserted into";
    } else {
      PBT_CHECK_EQ(m->rotational_scan_matcher_histogram_size(), static_cast<int>(it->second.size())) << "size of the histogram of submap " << Show(e.first);
      double total = 0;
      for (double v : it->second) total += v;
      for (size_t i = 0; i < it->second.size(); ++i)
        PBT_CHECK(std::abs(m->rotational_scan_matcher_histogram(i) - it->second[i]) <= 2e-4 * (1. + total))
            << "bucket " << i << " of submap " << Show(e.first) << " is " << m->rotational_scan_matcher_histogram(i) << ", should be " << it->second[i];
    }
    m->clear_rotational_scan_matcher_histogram();
  }
}

PBT_FACET(submaps, o.weight = 3; o.rule = "a 3D submap with at least two nodes inserted") {
  const bool three_d = !s.Chance(0.1);
  const State st = GenOld(s, three_d, s.Bits(1));
  mapping::MapById<SubmapId, mapping::proto::Submap> submaps;
  mapping::MapById<NodeId, mapping::proto::Node> nodes;
  const auto messages = ToMessages(st);
  for (const auto& m : messages) {
    if (m.has_submap()) submaps.Insert(SubmapId{m.submap().submap_id().trajectory_id(), m.submap().submap_id().submap_index()}, m.submap());
    if (m.has_node()) nodes.Insert(NodeId{m.node().node_id().trajectory_id(), m.node().node_id().node_index()}, m.node());
  }
  const auto migrated = io::MigrateSubmapFormatVersion1ToVersion2(submaps, nodes, messages[0].pose_graph());
  PBT_CHECK_EQ(migrated.size(), submaps.size()) << "number of submaps";
  std::map<Id, mapping::proto::Submap> got, want;
  for (const auto& e : migrated) got[Id(e.id.trajectory_id, e.id.submap_index)] = e.data;
  for (const auto& e : submaps) want[Id(e.id.trajectory_id, e.id.submap_index)] = e.data;
  SameKeys(got, want, "submap");
  if (three_d) {
    const auto histograms = ExpectedHistograms(st);
    std::map<Id, int> inserted;
    for (const auto& c : st.constraints) inserted[c.submap] += !c.inter;
    for (const auto& e : inserted) s.NonTrivial(e.second > 1);
    TakeHistograms(&got, histograms);
  }
  for (const auto& e : want) PBT_CHECK(got.at(e.first).SerializeAsString() == e.second.SerializeAsString()) << "the rest of submap " << Show(e.first) << " changed";
  for (const auto& e : nodes)
    PBT_CHECK(e.data.node_data().SerializeAsString() == st.nodes.at(Id(e.id.trajectory_id, e.id.node_index)).SerializeAsString()) << "node changed";
}

void CheckMigrated(State got, const State& st, const std::map<Id, Histogram>& histograms, bool include_unfinished) {
  State want = Expected(st, true, false, include_unfinished);
  want.version = 2;
  for (const auto& e : got.submaps) PBT_CHECK(e.second.has_submap_3d()) << "not a 3D submap";
  TakeHistograms(&got.submaps, histograms);
  // All of the rest is kept; nodes were given in the form they are stored in.
  for (auto& e : want.nodes) e.second = mapping::ToProto(mapping::FromProto(e.second));
  for (auto& e : want.submaps) e.second = mapping::Submap3D(e.second.submap_3d()).ToProto(true);
  for (auto& e : want.submaps) e.second.mutable_submap_3d()->clear_rotational_scan_matcher_histogram();
  Same(got, want);
}

PBT_FACET(streams, o.weight = 2; o.nondeterministic = true; o.rule = "a node inserted into a submap and sensor data or a landmark") {
  State st = GenOld(s, true, true);
  const int version = s.Chance(0.8) ? 1 : 2;  // Files that are up to date stay as they are.
  const auto histograms = version == 1 ? ExpectedHistograms(st) : std::map<Id, Histogram>();
  const bool include = s.Chance(0.7);
  s.NonTrivial(!histograms.empty() && (!st.imu.empty() || !st.odometry.empty() || !st.landmark_poses.empty()));
  s.LabelIf(!include, "without unfinished submaps");
  s.LabelIf(!st.constraints.empty(), "constraints");
  std::vector<SerializedData> messages = ToMessages(st);
  if (s.Bits(1)) {
    std::vector<SerializedData> rest(messages.begin() + 2, messages.end());
    std::stable_partition(rest.begin(), rest.end(), [](const SerializedData& m) { return m.has_node(); });
    std::copy(rest.begin(), rest.end(), messages.begin() + 2);
  }
  Recorder recorder;
  const auto reader = Reader(messages, version);
  io::MigrateStreamVersion1ToVersion2(reader.get(), &recorder.writer, include);
  CheckMigrated(Parse(recorder.messages), st, histograms, include);
}

mapping::proto::MapBuilderOptions Options() {
  mapping::proto::MapBuilderOptions o;
  o.set_use_trajectory_builder_3d(true);
  o.set_num_background_threads(1);
  auto* c = o.mutable_pose_graph_options()->mutable_constraint_builder_options();
  c->mutable_ceres_scan_matcher_options()->mutable_ceres_solver_options()->set_num_threads(1);
  c->mutable_ceres_scan_matcher_options_3d()->mutable_ceres_solver_options()->set_num_threads(1);
  c->mutable_ceres_scan_matcher_options_3d()->add_occupied_space_weight(1.);
  c->mutable_ceres_scan_matcher_options_3d()->add_occupied_space_weight(1.);
  return o;
}

// A file in the older format is refused by a 3D builder; once migrated, it can be loaded and nothing is lost.
PBT_FACET(loading, o.weight = 1; o.nondeterministic = true; o.rule = "a node inserted into a submap") {
  State st = GenOld(s, true, true);
  if (s.Chance(0.1)) {
    PBT_CHECK_EQ(pbt::RunForked([&] {
                   mapping::MapBuilder builder(Options());
                   builder.LoadState(Reader(ToMessages(st), 1).get(), false);
                   _exit(0);
                 }),
                 1)
        << "loaded although the submaps have no histograms";
  }
  const auto histograms = ExpectedHistograms(st);
  s.NonTrivial(!histograms.empty());
  // Through files, as the tool does it.
  char in[] = "/tmp/verif_i03_XXXXXX", out[] = "/tmp/verif_i03_XXXXXX";
  close(mkstemp(in));
  close(mkstemp(out));
  struct Remove {
    const char *a, *b;
    ~Remove() { unlink(a), unlink(b); }
  } remove{in, out};
  {
    io::ProtoStreamWriter writer(in);
    mapping::proto::SerializationHeader header;
    header.set_format_version(1);
    writer.WriteProto(header);
    for (const auto& m : ToMessages(st)) writer.WriteProto(m);
    if (!writer.Close()) throw pbt::Discard();
    io::ProtoStreamReader input(in);
    io::ProtoStreamWriter output(out);
    io::MigrateStreamVersion1ToVersion2(&input, &output, true);
    PBT_CHECK(output.Close()) << "writing the migrated file failed";
  }
  mapping::MapBuilder builder(Options());
  const auto ids = builder.LoadStateFromFile(out, false);
  // Everything queued before this landmark is done once it is there.
  builder.pose_graph()->SetLandmarkPose("~", Rigid3d::Identity(), true);
  for (int i = 0; !builder.pose_graph()->GetLandmarkPoses().count("~"); ++i) {
    PBT_CHECK(i < 100000) << "queued work is never done";
    std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 20 : 1000));
  }
  Recorder recorder;
  builder.SerializeState(true, &recorder.writer);
  State got = Parse(recorder.messages);
  got.landmark_poses.erase("~");
  std::map<Id, Histogram> mapped;
  for (const auto& e : histograms) mapped[Id(ids.at(e.first.first), e.first.second)] = e.second;
  CheckMigrated(got, Remap(Expected(st, true, false, true), ids), mapped, true);
}
}  // namespace
