// A generated map state: what a saved file holds, as plain data, with conversion to and from streams.
#pragma once
#include <map>
#include <set>
#include <sstream>

#include "geo.h"

#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/transform/transform.h"

namespace map_state {
using namespace cartographer;
using namespace geo;
using mapping::proto::SerializedData;
using transform::Rigid3d;
using Id = std::pair<int, int>;  // Trajectory, index.

struct Constraint {
  Id submap, node;
  Rigid3d pose;
  double translation_weight, rotation_weight;
  bool inter;
};
struct Observation {
  int trajectory;
  int64_t time;
  Rigid3d pose;
  double translation_weight, rotation_weight;
};
struct TrajectoryData {
  double gravity = 9.8;
  Eigen::Quaterniond calibration = Eigen::Quaterniond::Identity();
  bool has_origin = false;
  Rigid3d origin;
};
struct State {
  std::vector<std::pair<int, std::string>> trajectories;  // With serialized options.
  std::map<Id, Rigid3d> submap_poses, node_poses;
  std::map<Id, int64_t> node_times;
  std::map<Id, mapping::proto::Submap> submaps;             // Without ids.
  std::map<Id, mapping::proto::TrajectoryNodeData> nodes;
  std::vector<Constraint> constraints;
  std::map<std::string, Rigid3d> landmark_poses;
  std::map<int, TrajectoryData> data;
  std::map<int, std::vector<std::string>> imu, odometry, fixed_frame;  // Serialized.
  std::map<std::string, std::vector<Observation>> observations;
  int version = 2;

  bool Finished(const Id& id) const {
    const auto& m = submaps.at(id);
    return m.has_submap_2d() ? m.submap_2d().finished() : m.submap_3d().finished();
  }
};

inline mapping::proto::Submap GenSubmap(pbt::Source& s, bool three_d) {
  if (three_d) {
    Eigen::VectorXf histogram(s.Int(1, 5));
    for (int i = 0; i < histogram.size(); ++i) histogram(i) = s.Real(0, 5);
    mapping::Submap3D submap(0.1f, 0.45f, GenRigid3(s, 20.), histogram);
    mapping::proto::Submap proto = submap.ToProto(true);
    auto fill = [&](mapping::proto::HybridGrid* grid) {
      mapping::HybridGrid g(grid->resolution());
      for (int n = s.Int(1, 4); n > 0; --n)
        g.SetProbability(Eigen::Array3i(s.Int(-9, 9), s.Int(-9, 9), s.Int(-9, 9)), s.Real(0.2, 0.85));
      *grid = g.ToProto();
    };
    fill(proto.mutable_submap_3d()->mutable_high_resolution_hybrid_grid());
    fill(proto.mutable_submap_3d()->mutable_low_resolution_hybrid_grid());
    proto.mutable_submap_3d()->set_num_range_data(s.Int(0, 200));
    proto.mutable_submap_3d()->set_finished(s.Chance(0.7));
    return proto;
  }
  static auto* const tables = new mapping::ValueConversionTables();
  const int nx = s.Int(1, 6), ny = s.Int(1, 6);
  const double mx = s.Real(-3, 3), my = s.Real(-3, 3);
  mapping::ProbabilityGrid grid(mapping::MapLimits(0.05, {mx, my}, mapping::CellLimits(nx, ny)), tables);
  for (int n = s.Int(1, 4); n > 0; --n) {
    const Eigen::Array2i cell(s.Int(0, nx - 1), s.Int(0, ny - 1));
    if (!grid.IsKnown(cell)) grid.SetProbability(cell, s.Real(0.2, 0.85));
  }
  mapping::proto::Submap proto;
  auto* p = proto.mutable_submap_2d();
  *p->mutable_local_pose() = transform::ToProto(transform::Embed3D(GenRigid2(s, 20.)));
  p->set_num_range_data(s.Int(0, 200));
  p->set_finished(s.Chance(0.7));
  *p->mutable_grid() = grid.ToProto();
  return proto;
}

inline mapping::proto::TrajectoryNodeData GenNodeData(pbt::Source& s, bool three_d, int64_t time) {
  mapping::TrajectoryNode::Data d;
  d.time = TimeAt(time);
  d.gravity_alignment = GenRotation(s, 0.3);
  d.local_pose = three_d ? GenRigid3(s, 20.)
                         : transform::Embed3D(GenRigid2(s, 20.)) * Rigid3d::Rotation(d.gravity_alignment);
  auto fill = [&](sensor::PointCloud* cloud) {
    for (int n = s.Int(0, 3); n > 0; --n) cloud->push_back({GenVector(s, 5.).cast<float>()});
  };
  fill(&d.filtered_gravity_aligned_point_cloud);
  if (three_d) {
    fill(&d.high_resolution_point_cloud);
    fill(&d.low_resolution_point_cloud);
    d.rotational_scan_matcher_histogram.resize(s.Int(1, 4));
    for (int i = 0; i < d.rotational_scan_matcher_histogram.size(); ++i)
      d.rotational_scan_matcher_histogram(i) = s.Real(0, 3);
  }
  // Points are stored rounded: what counts is what the rounded form becomes.
  return mapping::ToProto(mapping::FromProto(mapping::ToProto(d)));
}

inline std::string GenTrajectoryOptions(pbt::Source& s, int tag) {
  mapping::proto::TrajectoryBuilderOptionsWithSensorIds o;
  // The tag keeps the options of any two trajectories apart.
  auto* id = o.add_sensor_id();
  id->set_id("sensor" + std::to_string(tag));
  id->set_type(static_cast<mapping::proto::SensorId::SensorType>(s.Int(0, 4)));
  o.mutable_trajectory_builder_options()->set_collate_fixed_frame(s.Bits(1));
  o.mutable_trajectory_builder_options()->set_collate_landmarks(s.Bits(1));
  return o.SerializeAsString();
}

// Ids of trajectories need not be consecutive, indices have gaps where something was trimmed.
inline State Gen(pbt::Source& s, bool three_d, int tag0 = 0, bool consecutive_ids = false, bool sane_size = true) {
  State st;
  int id = consecutive_ids ? 0 : s.Int(0, 2);
  const int count = s.Weighted({1, 3, 3, 2});
  std::vector<Id> all_nodes, all_submaps;
  for (int k = 0; k < count; ++k, id += consecutive_ids ? 1 : s.Int(1, 3)) {
    st.trajectories.emplace_back(id, GenTrajectoryOptions(s, tag0 + k));
    const int shape = s.Weighted({8, 1, 1, 1});  // Both, no submaps, no nodes, nothing.
    int64_t time = kEpoch + s.Int(0, 1000);
    std::vector<Id> own;
    if (shape == 0 || shape == 2) {
      int index = s.Chance(0.7) ? 0 : s.Int(1, 4);
      for (int n = s.Int(1, 3); n > 0; --n, index += s.Chance(0.8) ? 1 : 3) {
        const Id key(id, index);
        st.submaps[key] = GenSubmap(s, three_d);
        st.submap_poses[key] = three_d ? GenRigid3(s, 20.) : transform::Embed3D(GenRigid2(s, 20.));
        all_submaps.push_back(key);
      }
    }
    if (shape == 0 || shape == 1) {
      int index = s.Chance(0.7) ? 0 : s.Int(1, 4);
      for (int n = s.Int(1, 5); n > 0; --n, index += s.Chance(0.8) ? 1 : 3) {
        time += s.Int(1, 3000000);
        const Id key(id, index);
        st.nodes[key] = GenNodeData(s, three_d, time);
        st.node_times[key] = time;
        st.node_poses[key] = three_d ? GenRigid3(s, 20.)
                                     : transform::Embed3D(GenRigid2(s, 20.)) *
                                           Rigid3d::Rotation(mapping::FromProto(st.nodes[key]).gravity_alignment);
        own.push_back(key);
        all_nodes.push_back(key);
      }
      TrajectoryData d;
      if (three_d) {
        d.gravity = s.Real(9, 10);
        d.calibration = GenRotation(s, 0.2);
      }
      d.has_origin = s.Chance(0.4);
      if (d.has_origin) d.origin = GenRigid3(s, 10.);
      st.data[id] = d;
    }
    if (shape <= 2) {
      auto series = [&](int kind) {
        int64_t t = kEpoch + s.Int(0, 1000);
        for (int n = s.Int(0, 3); n > 0; --n) {
          t += s.Int(1, 100000);
          if (kind == 0)
            st.imu[id].push_back(
                sensor::ToProto(sensor::ImuData{TimeAt(t), GenVector(s, 10.), GenVector(s, 1.)}).SerializeAsString());
          if (kind == 1)
            st.odometry[id].push_back(
                sensor::ToProto(sensor::OdometryData{TimeAt(t), GenRigid3(s, 10.)}).SerializeAsString());
          if (kind == 2) {
            sensor::FixedFramePoseData d{TimeAt(t), absl::optional<Rigid3d>()};
            if (s.Chance(0.7)) d.pose = GenRigid3(s, 10.);
            st.fixed_frame[id].push_back(sensor::ToProto(d).SerializeAsString());
          }
        }
      };
      for (int kind = 0; kind < 3; ++kind) series(kind);
      for (int n = s.Int(0, 3); n > 0; --n) {
        Observation o{id, kEpoch + s.Int(0, 10000000), GenRigid3(s, 5.), s.Real(0, 10), s.Real(0, 10)};
        st.observations["mark" + std::to_string(s.Int(0, 3))].push_back(o);
      }
    }
    // Which nodes went into which submaps of their trajectory.
    for (const Id& sub : all_submaps)
      if (sub.first == id)
        for (const Id& node : own)
          if (s.Chance(0.5))
            st.constraints.push_back({sub, node, GenRigid3(s, 5.), s.Real(1, 100), s.Real(1, 100), false});
  }
  std::set<std::pair<Id, Id>> inside;
  for (const auto& c : st.constraints) inside.emplace(c.submap, c.node);
  if (!all_submaps.empty() && !all_nodes.empty())
    for (int n = s.Len(0, 5); n > 0; --n) {
      const Id sub = s.Pick(all_submaps), node = s.Pick(all_nodes);
      if (!inside.count({sub, node}))
        st.constraints.push_back({sub, node, GenRigid3(s, 5.), s.Real(1, 100), s.Real(1, 100), true});
    }
  s.Shuffle(&st.constraints);
  for (int n = s.Int(0, 3); n > 0; --n) st.landmark_poses["mark" + std::to_string(s.Int(0, 3))] = GenRigid3(s, 20.);
  return st;
}

inline std::vector<SerializedData> ToMessages(const State& st) {
  std::vector<SerializedData> out(2);
  auto* graph = out[0].mutable_pose_graph();
  auto* options = out[1].mutable_all_trajectory_builder_options();
  for (const auto& t : st.trajectories) {
    auto* p = graph->add_trajectory();
    p->set_trajectory_id(t.first);
    for (const auto& e : st.submap_poses)
      if (e.first.first == t.first) {
        auto* q = p->add_submap();
        q->set_submap_index(e.first.second);
        *q->mutable_pose() = transform::ToProto(e.second);
      }
    for (const auto& e : st.node_poses)
      if (e.first.first == t.first) {
        auto* q = p->add_node();
        q->set_node_index(e.first.second);
        q->set_timestamp(st.node_times.at(e.first));
        *q->mutable_pose() = transform::ToProto(e.second);
      }
    options->add_options_with_sensor_ids()->ParseFromString(t.second);
  }
  for (const auto& c : st.constraints) {
    auto* p = graph->add_constraint();
    p->mutable_submap_id()->set_trajectory_id(c.submap.first);
    p->mutable_submap_id()->set_submap_index(c.submap.second);
    p->mutable_node_id()->set_trajectory_id(c.node.first);
    p->mutable_node_id()->set_node_index(c.node.second);
    *p->mutable_relative_pose() = transform::ToProto(c.pose);
    p->set_translation_weight(c.translation_weight);
    p->set_rotation_weight(c.rotation_weight);
    p->set_tag(c.inter ? mapping::proto::PoseGraph::Constraint::INTER_SUBMAP
                       : mapping::proto::PoseGraph::Constraint::INTRA_SUBMAP);
  }
  for (const auto& l : st.landmark_poses) {
    auto* p = graph->add_landmark_poses();
    p->set_landmark_id(l.first);
    *p->mutable_global_pose() = transform::ToProto(l.second);
  }
  for (const auto& e : st.submaps) {
    out.emplace_back();
    auto* p = out.back().mutable_submap();
    *p = e.second;
    p->mutable_submap_id()->set_trajectory_id(e.first.first);
    p->mutable_submap_id()->set_submap_index(e.first.second);
  }
  for (const auto& e : st.nodes) {
    out.emplace_back();
    auto* p = out.back().mutable_node();
    p->mutable_node_id()->set_trajectory_id(e.first.first);
    p->mutable_node_id()->set_node_index(e.first.second);
    *p->mutable_node_data() = e.second;
  }
  for (const auto& e : st.data) {
    out.emplace_back();
    auto* p = out.back().mutable_trajectory_data();
    p->set_trajectory_id(e.first);
    p->set_gravity_constant(e.second.gravity);
    *p->mutable_imu_calibration() = transform::ToProto(e.second.calibration);
    if (e.second.has_origin) *p->mutable_fixed_frame_origin_in_map() = transform::ToProto(e.second.origin);
  }
  for (const auto& e : st.imu)
    for (const auto& bytes : e.second) {
      out.emplace_back();
      out.back().mutable_imu_data()->set_trajectory_id(e.first);
      out.back().mutable_imu_data()->mutable_imu_data()->ParseFromString(bytes);
    }
  for (const auto& e : st.odometry)
    for (const auto& bytes : e.second) {
      out.emplace_back();
      out.back().mutable_odometry_data()->set_trajectory_id(e.first);
      out.back().mutable_odometry_data()->mutable_odometry_data()->ParseFromString(bytes);
    }
  for (const auto& e : st.fixed_frame)
    for (const auto& bytes : e.second) {
      out.emplace_back();
      out.back().mutable_fixed_frame_pose_data()->set_trajectory_id(e.first);
      out.back().mutable_fixed_frame_pose_data()->mutable_fixed_frame_pose_data()->ParseFromString(bytes);
    }
  for (const auto& e : st.observations)
    for (const auto& o : e.second) {
      out.emplace_back();
      auto* p = out.back().mutable_landmark_data();
      p->set_trajectory_id(o.trajectory);
      p->mutable_landmark_data()->set_timestamp(o.time);
      auto* q = p->mutable_landmark_data()->add_landmark_observations();
      q->set_id(e.first);
      *q->mutable_landmark_to_tracking_transform() = transform::ToProto(o.pose);
      q->set_translation_weight(o.translation_weight);
      q->set_rotation_weight(o.rotation_weight);
    }
  return out;
}

inline std::unique_ptr<io::InMemoryProtoStreamReader> Reader(const std::vector<SerializedData>& messages, int version = 2) {
  auto reader = absl::make_unique<io::InMemoryProtoStreamReader>();
  mapping::proto::SerializationHeader header;
  header.set_format_version(version);
  reader->AddProto(header);
  for (const auto& m : messages) reader->AddProto(m);
  return reader;
}

// Collects what is written.
struct Recorder {
  std::vector<std::unique_ptr<google::protobuf::Message>> messages;
  io::ForwardingProtoStreamWriter writer;
  Recorder()
      : writer([this](const google::protobuf::Message* m) {
          if (m == nullptr) return true;
          messages.emplace_back(m->New());
          messages.back()->CopyFrom(*m);
          return true;
        }) {}
};

// The state a written stream describes; fails on anything malformed.
inline State Parse(const std::vector<std::unique_ptr<google::protobuf::Message>>& messages) {
  State st;
  PBT_CHECK(messages.size() >= 3) << "the written stream has only " << messages.size() << " messages";
  const auto* header = dynamic_cast<const mapping::proto::SerializationHeader*>(messages[0].get());
  PBT_CHECK(header != nullptr) << "no header first";
  st.version = header->format_version();
  std::vector<const SerializedData*> d;
  for (size_t i = 1; i < messages.size(); ++i) {
    d.push_back(dynamic_cast<const SerializedData*>(messages[i].get()));
    PBT_CHECK(d.back() != nullptr) << "message of the wrong type";
  }
  PBT_CHECK(d[0]->has_pose_graph()) << "pose graph not second";
  PBT_CHECK(d[1]->has_all_trajectory_builder_options()) << "options not third";
  const auto& graph = d[0]->pose_graph();
  const auto& options = d[1]->all_trajectory_builder_options();
  PBT_CHECK_EQ(graph.trajectory_size(), options.options_with_sensor_ids_size())
      << "trajectories and trajectory options written";
  for (int i = 0; i < graph.trajectory_size(); ++i) {
    const auto& t = graph.trajectory(i);
    for (const auto& other : st.trajectories)
      PBT_CHECK(other.first != t.trajectory_id()) << "trajectory written twice";
    st.trajectories.emplace_back(t.trajectory_id(), options.options_with_sensor_ids(i).SerializeAsString());
    for (const auto& m : t.submap())
      PBT_CHECK(
          st.submap_poses.emplace(Id(t.trajectory_id(), m.submap_index()), transform::ToRigid3(m.pose())).second)
          << "submap pose written twice";
    for (const auto& m : t.node()) {
      const Id id(t.trajectory_id(), m.node_index());
      PBT_CHECK(st.node_poses.emplace(id, transform::ToRigid3(m.pose())).second) << "node pose written twice";
      st.node_times[id] = m.timestamp();
    }
  }
  std::sort(st.trajectories.begin(), st.trajectories.end());
  for (const auto& c : graph.constraint())
    st.constraints.push_back({Id(c.submap_id().trajectory_id(), c.submap_id().submap_index()),
                              Id(c.node_id().trajectory_id(), c.node_id().node_index()),
                              transform::ToRigid3(c.relative_pose()), c.translation_weight(), c.rotation_weight(),
                              c.tag() == mapping::proto::PoseGraph::Constraint::INTER_SUBMAP});
  for (const auto& l : graph.landmark_poses())
    PBT_CHECK(st.landmark_poses.emplace(l.landmark_id(), transform::ToRigid3(l.global_pose())).second);
  for (size_t i = 2; i < d.size(); ++i) {
    const SerializedData& m = *d[i];
    switch (m.data_case()) {
      case SerializedData::kSubmap: {
        const Id id(m.submap().submap_id().trajectory_id(), m.submap().submap_id().submap_index());
        auto copy = m.submap();
        copy.clear_submap_id();
        PBT_CHECK(st.submaps.emplace(id, copy).second) << "submap written twice";
        break;
      }
      case SerializedData::kNode: {
        const Id id(m.node().node_id().trajectory_id(), m.node().node_id().node_index());
        PBT_CHECK(st.nodes.emplace(id, m.node().node_data()).second) << "node written twice";
        break;
      }
      case SerializedData::kTrajectoryData: {
        TrajectoryData t;
        t.gravity = m.trajectory_data().gravity_constant();
        t.calibration = transform::ToEigen(m.trajectory_data().imu_calibration());
        t.has_origin = m.trajectory_data().has_fixed_frame_origin_in_map();
        if (t.has_origin) t.origin = transform::ToRigid3(m.trajectory_data().fixed_frame_origin_in_map());
        PBT_CHECK(st.data.emplace(m.trajectory_data().trajectory_id(), t).second) << "trajectory data written twice";
        break;
      }
      case SerializedData::kImuData:
        st.imu[m.imu_data().trajectory_id()].push_back(m.imu_data().imu_data().SerializeAsString());
        break;
      case SerializedData::kOdometryData:
        st.odometry[m.odometry_data().trajectory_id()].push_back(m.odometry_data().odometry_data().SerializeAsString());
        break;
      case SerializedData::kFixedFramePoseData:
        st.fixed_frame[m.fixed_frame_pose_data().trajectory_id()].push_back(
            m.fixed_frame_pose_data().fixed_frame_pose_data().SerializeAsString());
        break;
      case SerializedData::kLandmarkData:
        for (const auto& o : m.landmark_data().landmark_data().landmark_observations())
          st.observations[o.id()].push_back({m.landmark_data().trajectory_id(),
                                             m.landmark_data().landmark_data().timestamp(),
                                             transform::ToRigid3(o.landmark_to_tracking_transform()),
                                             o.translation_weight(), o.rotation_weight()});
        break;
      default: PBT_FAIL() << "unexpected message of kind " << m.data_case();
    }
  }
  return st;
}

inline std::string Show(const Id& id) { return "(" + std::to_string(id.first) + ", " + std::to_string(id.second) + ")"; }
inline std::string Show(int id) { return std::to_string(id); }
inline std::string Show(const std::string& id) { return id; }
template <typename M>
void SameKeys(const M& got, const M& want, const std::string& what) {
  for (const auto& e : want) PBT_CHECK(got.count(e.first)) << what << " " << Show(e.first) << " is missing";
  for (const auto& e : got) PBT_CHECK(want.count(e.first)) << what << " " << Show(e.first) << " should not be there";
}
inline void SamePoses(const std::map<Id, Rigid3d>& got, const std::map<Id, Rigid3d>& want, const std::string& what) {
  SameKeys(got, want, what);
  for (const auto& e : want)
    PBT_CHECK(Near(got.at(e.first), e.second, 1e-9, 1e-7))
        << what << " " << Show(e.first) << " is " << got.at(e.first) << ", should be " << e.second;
}
inline void Same(const State& got, const State& want) {
  PBT_CHECK_EQ(got.version, want.version) << "format version";
  PBT_CHECK_EQ(got.trajectories.size(), want.trajectories.size()) << "number of trajectories";
  for (size_t i = 0; i < want.trajectories.size(); ++i) {
    PBT_CHECK_EQ(got.trajectories[i].first, want.trajectories[i].first) << "trajectory id";
    PBT_CHECK(got.trajectories[i].second == want.trajectories[i].second)
        << "trajectory " << want.trajectories[i].first << " has the options of another";
  }
  SamePoses(got.submap_poses, want.submap_poses, "pose of submap");
  SamePoses(got.node_poses, want.node_poses, "pose of node");
  PBT_CHECK(got.node_times == want.node_times) << "node times";
  SameKeys(got.submaps, want.submaps, "submap");
  for (const auto& e : want.submaps)
    PBT_CHECK(got.submaps.at(e.first).SerializeAsString() == e.second.SerializeAsString())
        << "content of submap " << Show(e.first) << "\n" << got.submaps.at(e.first).ShortDebugString() << "\n"
        << e.second.ShortDebugString();
  SameKeys(got.nodes, want.nodes, "node");
  for (const auto& e : want.nodes)
    PBT_CHECK(got.nodes.at(e.first).SerializeAsString() == e.second.SerializeAsString())
        << "content of node " << Show(e.first) << "\n" << got.nodes.at(e.first).ShortDebugString() << "\n"
        << e.second.ShortDebugString();
  PBT_CHECK_EQ(got.constraints.size(), want.constraints.size()) << "number of constraints";
  for (size_t i = 0; i < want.constraints.size(); ++i) {
    const auto& a = got.constraints[i];
    const auto& b = want.constraints[i];
    PBT_CHECK(a.submap == b.submap && a.node == b.node && a.inter == b.inter) << "constraint " << i << " links others";
    PBT_CHECK(a.translation_weight == b.translation_weight && a.rotation_weight == b.rotation_weight)
        << "weights of constraint " << i;
    PBT_CHECK(Near(a.pose, b.pose, 1e-9, 1e-7)) << "pose of constraint " << i << ": " << a.pose << " for " << b.pose;
  }
  SameKeys(got.landmark_poses, want.landmark_poses, "landmark");
  for (const auto& e : want.landmark_poses)
    PBT_CHECK(Near(got.landmark_poses.at(e.first), e.second, 1e-9, 1e-7)) << "pose of landmark " << e.first;
  SameKeys(got.data, want.data, "data of trajectory");
  for (const auto& e : want.data) {
    const auto& a = got.data.at(e.first);
    PBT_CHECK_EQ(a.gravity, e.second.gravity) << "gravity of trajectory " << e.first;
    PBT_CHECK((a.calibration.coeffs() - e.second.calibration.coeffs()).norm() < 1e-12) << "calibration";
    PBT_CHECK_EQ(a.has_origin, e.second.has_origin) << "origin of the fixed frame";
    if (a.has_origin) PBT_CHECK(Near(a.origin, e.second.origin, 1e-9, 1e-7)) << "origin of the fixed frame";
  }
  SameKeys(got.imu, want.imu, "IMU data of trajectory");
  PBT_CHECK(got.imu == want.imu) << "IMU data differ";
  SameKeys(got.odometry, want.odometry, "odometry of trajectory");
  PBT_CHECK(got.odometry == want.odometry) << "odometry differs";
  SameKeys(got.fixed_frame, want.fixed_frame, "fixed frame data of trajectory");
  PBT_CHECK(got.fixed_frame == want.fixed_frame) << "fixed frame data differ";
  SameKeys(got.observations, want.observations, "observations of landmark");
  for (const auto& e : want.observations) {
    const auto& a = got.observations.at(e.first);
    PBT_CHECK_EQ(a.size(), e.second.size()) << "observations of landmark " << e.first;
    for (size_t i = 0; i < a.size(); ++i) {
      const auto& b = e.second[i];
      PBT_CHECK(a[i].trajectory == b.trajectory && a[i].time == b.time && Near(a[i].pose, b.pose, 1e-9, 1e-7) &&
                a[i].translation_weight == b.translation_weight && a[i].rotation_weight == b.rotation_weight)
          << "observation " << i << " of landmark " << e.first;
    }
  }
}

// The same state under new trajectory ids; drops what belongs to none of them.
inline State Remap(const State& st, const std::map<int, int>& to) {
  State out;
  out.version = st.version;
  auto id = [&](const Id& i) { return Id(to.at(i.first), i.second); };
  for (const auto& t : st.trajectories)
    if (to.count(t.first)) out.trajectories.emplace_back(to.at(t.first), t.second);
  std::sort(out.trajectories.begin(), out.trajectories.end());
  for (const auto& e : st.submap_poses) if (to.count(e.first.first)) out.submap_poses[id(e.first)] = e.second;
  for (const auto& e : st.node_poses) if (to.count(e.first.first)) out.node_poses[id(e.first)] = e.second;
  for (const auto& e : st.node_times) if (to.count(e.first.first)) out.node_times[id(e.first)] = e.second;
  for (const auto& e : st.submaps) if (to.count(e.first.first)) out.submaps[id(e.first)] = e.second;
  for (const auto& e : st.nodes) if (to.count(e.first.first)) out.nodes[id(e.first)] = e.second;
  for (auto c : st.constraints) {
    if (!to.count(c.submap.first) || !to.count(c.node.first)) continue;
    c.submap = id(c.submap);
    c.node = id(c.node);
    out.constraints.push_back(c);
  }
  out.landmark_poses = st.landmark_poses;
  for (const auto& e : st.data) if (to.count(e.first)) out.data[to.at(e.first)] = e.second;
  for (const auto& e : st.imu) if (to.count(e.first)) out.imu[to.at(e.first)] = e.second;
  for (const auto& e : st.odometry) if (to.count(e.first)) out.odometry[to.at(e.first)] = e.second;
  for (const auto& e : st.fixed_frame) if (to.count(e.first)) out.fixed_frame[to.at(e.first)] = e.second;
  for (const auto& e : st.observations)
    for (auto o : e.second) {
      if (!to.count(o.trajectory)) continue;
      o.trajectory = to.at(o.trajectory);
      out.observations[e.first].push_back(o);
    }
  return out;
}

// What a loaded state is written back as.
inline State Expected(State st, bool three_d, bool frozen, bool include_unfinished) {
  // A trajectory without any submap or node is not written.
  std::map<int, int> keep;
  for (const auto& t : st.trajectories) {
    bool any = false;
    for (const auto& e : st.submaps) any |= e.first.first == t.first;
    for (const auto& e : st.nodes) any |= e.first.first == t.first;
    if (any) keep[t.first] = t.first;
  }
  st = Remap(st, keep);
  if (!three_d) {
    st.imu.clear();
    for (auto& e : st.data) {
      e.second.gravity = 9.8;
      e.second.calibration = Eigen::Quaterniond::Identity();
    }
  }
  if (frozen) {
    st.constraints.clear();
    st.imu.clear();
    st.odometry.clear();
    st.fixed_frame.clear();
    st.observations.clear();
  }
  if (!include_unfinished) {
    std::set<Id> unfinished;
    for (const auto& e : st.submaps)
      if (!st.Finished(e.first)) unfinished.insert(e.first);
    for (const Id& id : unfinished) {
      st.submaps.erase(id);
      st.submap_poses.erase(id);
    }
    st.constraints.erase(std::remove_if(st.constraints.begin(), st.constraints.end(),
                                        [&](const Constraint& c) { return unfinished.count(c.submap) > 0; }),
                         st.constraints.end());
  }
  return st;
}

// The union of two states with different trajectories, the second loaded after the first.
inline State Merge(State a, const State& b) {
  a.trajectories.insert(a.trajectories.end(), b.trajectories.begin(), b.trajectories.end());
  std::sort(a.trajectories.begin(), a.trajectories.end());
  a.submap_poses.insert(b.submap_poses.begin(), b.submap_poses.end());
  a.node_poses.insert(b.node_poses.begin(), b.node_poses.end());
  a.node_times.insert(b.node_times.begin(), b.node_times.end());
  a.submaps.insert(b.submaps.begin(), b.submaps.end());
  a.nodes.insert(b.nodes.begin(), b.nodes.end());
  a.constraints.insert(a.constraints.end(), b.constraints.begin(), b.constraints.end());
  for (const auto& e : b.landmark_poses) a.landmark_poses[e.first] = e.second;
  a.data.insert(b.data.begin(), b.data.end());
  a.imu.insert(b.imu.begin(), b.imu.end());
  a.odometry.insert(b.odometry.begin(), b.odometry.end());
  a.fixed_frame.insert(b.fixed_frame.begin(), b.fixed_frame.end());
  for (const auto& e : b.observations)
    a.observations[e.first].insert(a.observations[e.first].end(), e.second.begin(), e.second.end());
  return a;
}
}  // namespace map_state
