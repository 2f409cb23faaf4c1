// O06: the optimization itself: the result minimizes the stated objective over exactly the variables that are free.
#include <functional>
#include <map>
#include <set>

#include "geo.h"

#include "absl/types/optional.h"
#include "cartographer/common/math.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::NodeId;
using mapping::SubmapId;
using transform::Rigid2d;
using transform::Rigid3d;
using Interface = mapping::PoseGraphInterface;
using Constraint = Interface::Constraint;
using TrajectoryState = Interface::TrajectoryState;
using Eigen::Quaterniond;
using Eigen::Vector3d;

struct Node {
  common::Time time;
  Rigid3d local;        // Without the gravity alignment in 2D.
  Quaterniond gravity;  // 2D only.
};
struct Imu {
  common::Time time;
  Vector3d acceleration, velocity;
};
struct World {
  mapping::optimization::proto::OptimizationProblemOptions options;
  std::map<NodeId, Node> nodes;
  std::map<int, std::vector<std::pair<common::Time, Rigid3d>>> odometry;
  std::map<int, std::vector<std::pair<common::Time, absl::optional<Rigid3d>>>> fixed;
  std::map<int, std::vector<Imu>> imu;
  std::vector<Constraint> constraints;
  std::map<int, TrajectoryState> states;
  std::map<std::string, Interface::LandmarkNode> landmarks;
  bool Frozen(int t) const {
    const auto it = states.find(t);
    return it != states.end() && it->second == TrajectoryState::FROZEN;
  }
};
// Poses are kept as 3D poses; in 2D they stay in the plane.
struct State {
  std::map<SubmapId, Rigid3d> submaps;
  std::map<NodeId, Rigid3d> nodes;
  std::map<int, Rigid3d> frames;
  std::map<std::string, Rigid3d> marks;
  std::map<int, double> gravity;
  std::map<int, Quaterniond> calibration;
};

double Seconds(common::Duration d) { return std::chrono::duration_cast<std::chrono::duration<double>>(d).count(); }
// A pose at a time between two; nothing outside.
absl::optional<Rigid3d> At(const std::vector<std::pair<common::Time, absl::optional<Rigid3d>>>& data, common::Time time) {
  for (size_t i = 0; i < data.size(); ++i) {
    if (data[i].first < time) continue;
    if (i == 0) return data[0].first == time ? data[0].second : absl::nullopt;
    if (!data[i].second.has_value() || !data[i - 1].second.has_value()) return absl::nullopt;
    const double f = Seconds(time - data[i - 1].first) / Seconds(data[i].first - data[i - 1].first);
    const Rigid3d &a = *data[i - 1].second, &b = *data[i].second;
    return Rigid3d(a.translation() + f * (b.translation() - a.translation()), a.rotation().slerp(f, b.rotation()));
  }
  return absl::nullopt;
}
absl::optional<Rigid3d> At(const std::vector<std::pair<common::Time, Rigid3d>>& data, common::Time time) {
  std::vector<std::pair<common::Time, absl::optional<Rigid3d>>> copy;
  for (const auto& e : data) copy.emplace_back(e.first, e.second);
  return At(copy, time);
}
Vector3d Log(const Quaterniond& q0) {
  Quaterniond q = q0.normalized();
  if (q.w() < 0) q.coeffs() = -q.coeffs();
  const double n = q.vec().norm();
  return n < 1e-12 ? Vector3d(2. * q.vec()) : Vector3d(2. * std::atan2(n, q.w()) / n * q.vec());
}
double Yaw(const Quaterniond& q) {
  const Vector3d d = q * Vector3d::UnitX();
  return std::atan2(d.y(), d.x());
}
double Huber(double s, double d) { return s <= d * d ? s : 2. * d * std::sqrt(s) - d * d; }
double Tolerant(double s, double a, double b) {
  const double x = (s - a) / b;
  return (x > 30. ? b * x : b * std::log(1. + std::exp(x))) - b * std::log(1. + std::exp(-a / b));
}
// The squared weighted difference between where 'end' is relative to 'start' and where it was observed.
template <bool k2d>
double Spa(const Rigid3d& start, const Rigid3d& end, const Rigid3d& observed, double wt, double wr) {
  const Rigid3d h = start.inverse() * end;
  if (k2d) {
    const double dx = observed.translation().x() - h.translation().x(), dy = observed.translation().y() - h.translation().y();
    const double da = std::remainder(Yaw(observed.rotation()) - Yaw(h.rotation()), 2. * M_PI);
    return wt * wt * (dx * dx + dy * dy) + wr * wr * da * da;
  }
  return wt * wt * (observed.translation() - h.translation()).squaredNorm() + wr * wr * Log(h.rotation().conjugate() * observed.rotation()).squaredNorm();
}
double Spa3(const Rigid3d& start, const Rigid3d& end, const Rigid3d& observed, double wt, double wr) { return Spa<false>(start, end, observed, wt, wr); }

// Turn and change of velocity over a span of time, from the latest data at or before each instant.
void Integrate(const std::vector<Imu>& imu, common::Time from, common::Time to, Quaterniond* turn, Vector3d* velocity) {
  *turn = Quaterniond::Identity();
  *velocity = Vector3d::Zero();
  for (size_t i = 0; i < imu.size(); ++i) {
    const common::Time begin = std::max(from, imu[i].time);
    const common::Time end = i + 1 < imu.size() ? std::min(to, imu[i + 1].time) : to;
    if (end <= begin) continue;
    const double dt = Seconds(end - begin);
    const Vector3d angle = imu[i].velocity * dt;
    *turn = *turn * (angle.norm() < 1e-12 ? Quaterniond::Identity() : Quaterniond(Eigen::AngleAxisd(angle.norm(), angle.normalized())));
    *velocity += *turn * (imu[i].acceleration * dt);
  }
}

template <bool k2d>
double Cost(const World& w, const State& s, std::map<std::string, double>* parts = nullptr) {
  const auto& o = w.options;
  double total = 0;
  const auto add = [&](const char* name, double c) {
    total += c;
    if (parts) (*parts)[name] += 0.5 * c;
  };
  for (const auto& c : w.constraints) {
    const double e = Spa<k2d>(s.submaps.at(c.submap_id), s.nodes.at(c.node_id), c.pose.zbar_ij, c.pose.translation_weight, c.pose.rotation_weight);
    add("constraints", c.tag == Constraint::INTER_SUBMAP ? Huber(e, o.huber_scale()) : e);
  }
  const auto tracking = [&](const NodeId& id) { return k2d ? s.nodes.at(id) * Rigid3d::Rotation(w.nodes.at(id).gravity) : s.nodes.at(id); };
  for (const auto& l : w.landmarks)
    for (const auto& obs : l.second.landmark_observations) {
      // The last node strictly before, or the first one at that time; and the one after it.
      const NodeId *prev = nullptr, *next = nullptr;
      for (const auto& n : w.nodes) {
        if (n.first.trajectory_id != obs.trajectory_id) continue;
        if (!prev) {
          if (n.second.time > obs.time) break;
          prev = &n.first;
          continue;
        }
        if (n.second.time >= obs.time) {
          next = &n.first;
          break;
        }
        prev = &n.first;
      }
      if (!prev || !next) continue;
      const double f = Seconds(obs.time - w.nodes.at(*prev).time) / Seconds(w.nodes.at(*next).time - w.nodes.at(*prev).time);
      const Rigid3d a = tracking(*prev), b = tracking(*next);
      const Rigid3d at(a.translation() + f * (b.translation() - a.translation()), a.rotation().slerp(f, b.rotation()));
      add("landmarks", Huber(Spa3(at, s.marks.at(l.first), obs.landmark_to_tracking_transform, obs.translation_weight, obs.rotation_weight), o.huber_scale()));
    }
  for (auto it = w.nodes.begin(); it != w.nodes.end(); ++it) {
    const NodeId id = it->first;
    if (w.Frozen(id.trajectory_id)) continue;
    const auto next = w.nodes.find(NodeId{id.trajectory_id, id.node_index + 1});
    if (next == w.nodes.end()) continue;
    const Rigid3d &first = s.nodes.at(id), &second = s.nodes.at(next->first);
    if (k2d || o.fix_z_in_3d()) {
      add("local", Spa<k2d>(first, second, it->second.local.inverse() * next->second.local, o.local_slam_pose_translation_weight(),
                            o.local_slam_pose_rotation_weight()));
      const auto odometry = w.odometry.find(id.trajectory_id);
      if (odometry != w.odometry.end()) {
        const auto a = At(odometry->second, it->second.time), b = At(odometry->second, next->second.time);
        if (a.has_value() && b.has_value()) {
          Rigid3d moved = a->inverse() * *b;
          if (k2d) moved = Rigid3d::Rotation(it->second.gravity) * moved * Rigid3d::Rotation(next->second.gravity.inverse());
          add("odometry", Spa<k2d>(first, second, moved, o.odometry_translation_weight(), o.odometry_rotation_weight()));
        }
      }
    } else {
      const auto& imu = w.imu.at(id.trajectory_id);
      const Quaterniond calibration = s.calibration.at(id.trajectory_id);
      Quaterniond turn;
      Vector3d unused;
      Integrate(imu, it->second.time, next->second.time, &turn, &unused);
      const double first_dt = Seconds(next->second.time - it->second.time);
      const Quaterniond error = second.rotation().conjugate() * first.rotation() * calibration * turn * calibration.conjugate();
      add("rotation", common::Pow2(o.rotation_weight() / first_dt) * error.vec().squaredNorm());
      const auto third = w.nodes.find(NodeId{id.trajectory_id, id.node_index + 2});
      if (third == w.nodes.end()) continue;
      const double second_dt = Seconds(third->second.time - next->second.time);
      const common::Time c1 = it->second.time + (next->second.time - it->second.time) / 2;
      const common::Time c2 = next->second.time + (third->second.time - next->second.time) / 2;
      Quaterniond to_c1, unused_turn;
      Vector3d delta;
      Integrate(imu, it->second.time, c1, &to_c1, &unused);
      Integrate(imu, c1, c2, &unused_turn, &delta);
      const Vector3d measured = second.rotation() * (calibration * (turn.conjugate() * (to_c1 * delta))) -
                                s.gravity.at(id.trajectory_id) * 0.5 * (first_dt + second_dt) * Vector3d::UnitZ();
      const Vector3d v1 = (second.translation() - first.translation()) / first_dt;
      const Vector3d v2 = (s.nodes.at(third->first).translation() - second.translation()) / second_dt;
      add("acceleration", common::Pow2(o.acceleration_weight() / (first_dt + second_dt)) * (measured - (v2 - v1)).squaredNorm());
    }
  }
  for (const auto& n : w.nodes) {
    const auto fixed = w.fixed.find(n.first.trajectory_id);
    if (fixed == w.fixed.end()) continue;
    const auto pose = At(fixed->second, n.second.time);
    if (!pose.has_value()) continue;
    const double e = Spa<k2d>(s.frames.at(n.first.trajectory_id), s.nodes.at(n.first), *pose, o.fixed_frame_pose_translation_weight(),
                              o.fixed_frame_pose_rotation_weight());
    add("fixed frame", o.fixed_frame_pose_use_tolerant_loss() ? Tolerant(e, o.fixed_frame_pose_tolerant_loss_param_a(), o.fixed_frame_pose_tolerant_loss_param_b()) : e);
  }
  return 0.5 * total;
}

struct T2 {
  using Problem = mapping::optimization::OptimizationProblem2D;
  static constexpr bool k2d = true;
  static void AddNode(Problem* p, const NodeId& id, const Node& n, const Rigid3d& pose) {
    p->InsertTrajectoryNode(id, mapping::optimization::NodeSpec2D{n.time, transform::Project2D(n.local), transform::Project2D(pose), n.gravity});
  }
  static void AddSubmap(Problem* p, const SubmapId& id, const Rigid3d& pose) { p->InsertSubmap(id, transform::Project2D(pose)); }
  static Rigid3d Pose(const mapping::optimization::NodeSpec2D& n) { return transform::Embed3D(n.global_pose_2d); }
  static Rigid3d Pose(const mapping::optimization::SubmapSpec2D& n) { return transform::Embed3D(n.global_pose); }
  static Rigid3d Gen(pbt::Source& s, double r, double a) { return transform::Embed3D(GenRigid2(s, r, a)); }
};
struct T3 {
  using Problem = mapping::optimization::OptimizationProblem3D;
  static constexpr bool k2d = false;
  static void AddNode(Problem* p, const NodeId& id, const Node& n, const Rigid3d& pose) {
    p->InsertTrajectoryNode(id, mapping::optimization::NodeSpec3D{n.time, n.local, pose});
  }
  static void AddSubmap(Problem* p, const SubmapId& id, const Rigid3d& pose) { p->InsertSubmap(id, pose); }
  static Rigid3d Pose(const mapping::optimization::NodeSpec3D& n) { return n.global_pose; }
  static Rigid3d Pose(const mapping::optimization::SubmapSpec3D& n) { return n.global_pose; }
  static Rigid3d Gen(pbt::Source& s, double r, double a) { return GenRigid3(s, r, a); }
};

Rigid3d Moved(const Rigid3d& p, const Vector3d& t, const Vector3d& r, bool global_frame = false) {
  const Quaterniond q = r.norm() == 0. ? Quaterniond::Identity() : Quaterniond(Eigen::AngleAxisd(r.norm(), r.normalized()));
  return Rigid3d(p.translation() + t, (global_frame ? q * p.rotation() : p.rotation() * q).normalized());
}

template <typename T>
void Solve(pbt::Source& s) {
  World w;
  auto& o = w.options;
  o.set_huber_scale(s.Pick(std::vector<double>{1., 0.3, 5., 50.}));
  o.set_acceleration_weight(s.LogReal(0.5, 4.));
  o.set_rotation_weight(s.LogReal(0.5, 4.));
  o.set_local_slam_pose_translation_weight(s.LogReal(0.5, 4.));
  o.set_local_slam_pose_rotation_weight(s.LogReal(0.5, 4.));
  o.set_odometry_translation_weight(s.LogReal(0.5, 4.));
  o.set_odometry_rotation_weight(s.LogReal(0.5, 4.));
  o.set_fixed_frame_pose_translation_weight(s.LogReal(0.5, 4.));
  o.set_fixed_frame_pose_rotation_weight(s.Chance(0.2) ? 0. : s.LogReal(0.5, 4.));
  o.set_fixed_frame_pose_use_tolerant_loss(s.Chance(0.3));
  o.set_fixed_frame_pose_tolerant_loss_param_a(s.Real(0.1, 2.));
  o.set_fixed_frame_pose_tolerant_loss_param_b(s.Real(0.2, 2.));
  o.set_fix_z_in_3d(s.Bits(1));
  o.set_use_online_imu_extrinsics_in_3d(s.Bits(1));
  o.mutable_ceres_solver_options()->set_max_num_iterations(100);
  o.mutable_ceres_solver_options()->set_num_threads(1);
  o.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(s.Chance(0.2));

  const int trajectories = s.Int(1, 3);
  State start;
  std::map<int, Rigid3d> to_global;
  std::map<int, Interface::TrajectoryData> data;
  int frozen = 0, gaps = 0;
  for (int t = 0; t < trajectories; ++t) {
    to_global[t] = T::Gen(s, 10., T::k2d ? M_PI : 1.);
    Rigid3d pose = T::Gen(s, 10., 1.);
    int64_t time = kEpoch + s.Int(0, 50) * 1000000ll;
    int index = s.Chance(0.2) ? s.Int(1, 5) : 0;
    std::vector<std::pair<int64_t, Rigid3d>> track;
    for (int n = s.Int(1, 6); n > 0; --n) {
      const NodeId id{t, index++};
      const Quaterniond gravity = GenRotation(s, 0.3);
      w.nodes[id] = {TimeAt(time), pose, gravity};
      start.nodes[id] = to_global[t] * pose * T::Gen(s, 0.5, 0.2);
      track.emplace_back(time, T::k2d ? pose * Rigid3d::Rotation(gravity) : pose);
      time += s.Int(2, 20) * 1000000ll;
      pose = pose * T::Gen(s, 1., 0.4);
      if (s.Chance(0.12)) {
        ++index;
        ++gaps;
      }
    }
    // Submaps, each with some of the nodes.
    int submap = s.Chance(0.2) ? s.Int(1, 3) : 0;
    for (int n = s.Int(t == 0 ? 1 : 0, 3); n > 0; --n, ++submap) start.submaps[SubmapId{t, submap}] = to_global[t] * pose * T::Gen(s, 2., 0.5);
    if (s.Bits(1)) w.states[t] = s.Pick(std::vector<TrajectoryState>{TrajectoryState::ACTIVE, TrajectoryState::FINISHED, TrajectoryState::FROZEN});
    frozen += w.Frozen(t);
    const auto sensed = [&](int64_t at, double noise) {
      // Roughly where the track is at a time.
      Rigid3d p = track.front().second;
      for (const auto& e : track)
        if (e.first <= at) p = e.second;
      return p * (T::k2d ? GenRigid3(s, noise, noise) : T::Gen(s, noise, noise));
    };
    if (s.Bits(1)) {
      auto& d = w.odometry[t];
      int64_t at = track.front().first - s.Int(-3, 10) * 1000000ll;
      for (int n = s.Int(1, 8); n > 0; --n) {
        d.emplace_back(TimeAt(at), sensed(at, 0.3));
        at = s.Chance(0.3) ? std::max<int64_t>(at + 1, track[s.Int(0, int(track.size()) - 1)].first) : at + s.Int(1, 30) * 1000000ll;
      }
    }
    if (s.Bits(1)) {
      auto& d = w.fixed[t];
      const Rigid3d frame = T::Gen(s, 5., 1.);
      int64_t at = track.front().first - s.Int(-3, 10) * 1000000ll;
      for (int n = s.Int(1, 8); n > 0; --n) {
        if (s.Chance(0.15))
          d.emplace_back(TimeAt(at), absl::nullopt);
        else
          d.emplace_back(TimeAt(at), frame * sensed(at, 0.3));
        at = s.Chance(0.3) ? std::max<int64_t>(at + 1, track[s.Int(0, int(track.size()) - 1)].first) : at + s.Int(1, 30) * 1000000ll;
      }
    }
    if (!T::k2d) {
      auto& d = w.imu[t];
      int64_t at = track.front().first - s.Int(0, 20) * 1000000ll;
      for (int n = s.Int(1, 12); n > 0; --n) {
        d.push_back({TimeAt(at), Vector3d(s.Real(-1, 1), s.Real(-1, 1), 9.8 + s.Real(-1, 1)), GenVector(s, 0.3)});
        at += s.Int(1, 15) * 500000ll;
      }
    }
    if (s.Chance(0.3)) {
      Interface::TrajectoryData d;
      d.gravity_constant = s.Real(8., 11.);
      if (s.Bits(1)) {
        const Quaterniond q = GenRotation(s, 0.2);
        d.imu_calibration = {{q.w(), q.x(), q.y(), q.z()}};
      }
      if (s.Bits(1)) d.fixed_frame_origin_in_map = T::Gen(s, 5., 0.5);
      data[t] = d;
    }
  }
  // Constraints: those of nodes to submaps, roughly where things start, some far off.
  std::vector<SubmapId> submaps;
  for (const auto& e : start.submaps) submaps.push_back(e.first);
  for (const auto& n : w.nodes)
    for (int k = s.Int(0, 2); k > 0; --k) {
      const SubmapId id = s.Pick(submaps);
      const auto tag = s.Bits(1) ? Constraint::INTER_SUBMAP : Constraint::INTRA_SUBMAP;
      const Rigid3d relative = start.submaps.at(id).inverse() * start.nodes.at(n.first) * T::Gen(s, s.Chance(0.2) ? 3. : 0.5, 0.3);
      const double wt = s.LogReal(0.5, 4.), wr = s.LogReal(0.5, 4.);
      w.constraints.push_back(Constraint{id, n.first, {relative, wt, wr}, tag});
    }
  // Landmarks seen from the nodes.
  for (int k = s.Int(0, 3); k > 0; --k) {
    auto& l = w.landmarks["mark" + std::to_string(k)];
    std::vector<NodeId> ids;
    for (const auto& e : w.nodes) ids.push_back(e.first);
    Rigid3d pose = start.nodes.at(s.Pick(ids)) * GenRigid3(s, 3., 0.3);
    for (int n = s.Int(0, 4); n > 0; --n) {
      const NodeId id = s.Pick(ids);
      common::Time time = w.nodes.at(id).time;
      if (!s.Chance(0.3)) time += common::FromSeconds(s.Real(-1.5, 1.5));
      l.landmark_observations.push_back({s.Chance(0.05) ? 7 : id.trajectory_id, time, start.nodes.at(id).inverse() * pose * GenRigid3(s, 0.3, 0.2), s.LogReal(0.5, 4.), s.LogReal(0.5, 4.)});
    }
    if (s.Bits(1)) l.global_landmark_pose = pose * GenRigid3(s, 0.5, 0.2);
    l.frozen = s.Chance(0.3);
  }
  const bool interrupted = s.Chance(0.3);
  // Hands everything over and solves until nothing changes anymore.
  const auto given = w.landmarks;
  struct Outcome {
    State before, now;
    double cost = 0;
    bool settled = false;
    double next_cost = 0;
  };
  const auto settle = [&](const State& from, const std::map<int, Interface::TrajectoryData>& trajectory_data, std::map<std::string, Interface::LandmarkNode> landmarks, bool one_step = false, bool next = false, bool once = false) {
    Outcome out;
    typename T::Problem problem(o);
    for (const auto& e : from.submaps) T::AddSubmap(&problem, e.first, e.second);
    for (const auto& e : w.nodes) T::AddNode(&problem, e.first, e.second, from.nodes.at(e.first));
    for (const auto& e : w.odometry)
      for (const auto& d : e.second) problem.AddOdometryData(e.first, sensor::OdometryData{d.first, d.second});
    for (const auto& e : w.fixed)
      for (const auto& d : e.second) problem.AddFixedFramePoseData(e.first, sensor::FixedFramePoseData{d.first, d.second});
    for (const auto& e : w.imu)
      for (const auto& d : e.second) problem.AddImuData(e.first, sensor::ImuData{d.time, d.acceleration, d.velocity});
    for (const auto& e : trajectory_data) problem.SetTrajectoryData(e.first, e.second);
    const auto read = [&] {
      State r;
      for (const auto& e : problem.submap_data()) r.submaps[e.id] = T::Pose(e.data);
      for (const auto& e : problem.node_data()) r.nodes[e.id] = T::Pose(e.data);
      r.marks = problem.landmark_data();
      for (const auto& e : problem.trajectory_data()) {
        if (e.second.fixed_frame_origin_in_map.has_value()) r.frames[e.first] = *e.second.fixed_frame_origin_in_map;
        r.gravity[e.first] = e.second.gravity_constant;
        const auto& q = e.second.imu_calibration;
        r.calibration[e.first] = Quaterniond(q[0], q[1], q[2], q[3]);
      }
      return r;
    };
    out.before = read();
    if (one_step) {
      problem.SetMaxNumIterations(1);
      problem.Solve(w.constraints, w.states, landmarks);
      out.now = read();
      return out;
    }
    const auto carry = [&] {
      for (auto& l : landmarks)
        if (out.now.marks.count(l.first)) l.second.global_landmark_pose = out.now.marks.at(l.first);
    };
    if (interrupted && !once) {
      // A first attempt is given little time.
      problem.SetMaxNumIterations(1);
      problem.Solve(w.constraints, w.states, landmarks);
      problem.SetMaxNumIterations(o.ceres_solver_options().max_num_iterations());
      out.now = read();
      carry();
    }
    for (int round = 0; round < 15 && !out.settled; ++round) {
      problem.Solve(w.constraints, w.states, landmarks);
      out.now = read();
      carry();
      const double c = Cost<T::k2d>(w, out.now);
      PBT_CHECK(std::isfinite(c)) << "the result is not finite";
      out.settled = round > 0 && std::abs(c - out.cost) <= 1e-7 * (out.cost + 1e-3);
      out.cost = c;
      if (once) break;
    }
    if (next) {
      problem.Solve(w.constraints, w.states, landmarks);
      out.next_cost = Cost<T::k2d>(w, read());
    }
    return out;
  };
  // What a problem has to be told to go on from a state.
  const auto resume = [&](const State& state, std::map<int, Interface::TrajectoryData>* trajectory_data, std::map<std::string, Interface::LandmarkNode>* landmarks) {
    trajectory_data->clear();
    for (const auto& g : state.gravity) {
      auto& d = (*trajectory_data)[g.first];
      d.gravity_constant = g.second;
      const Quaterniond& q = state.calibration.at(g.first);
      d.imu_calibration = {{q.w(), q.x(), q.y(), q.z()}};
      if (state.frames.count(g.first)) d.fixed_frame_origin_in_map = state.frames.at(g.first);
    }
    *landmarks = given;
    for (const auto& l : state.marks) landmarks->at(l.first).global_landmark_pose = l.second;
  };
  const bool compare = s.Chance(0.3);
  const Outcome outcome = settle(start, data, w.landmarks, false, compare);
  const State &before = outcome.before, &now = outcome.now;
  const double cost = outcome.cost;
  PBT_CHECK(now.submaps.size() == start.submaps.size() && now.nodes.size() == start.nodes.size()) << "submaps and nodes";
  // What must not move.
  bool first = true;
  const double kSame = 1e-9, kSameAngle = 1e-7;
  for (const auto& e : now.submaps) {
    const Rigid3d& was = start.submaps.at(e.first);
    if (w.Frozen(e.first.trajectory_id) || (first && T::k2d)) PBT_CHECK(Near(e.second, was, kSame, kSameAngle)) << "submap " << e.first << " must not move";
    if (first) PBT_CHECK((e.second.translation() - was.translation()).norm() <= kSame) << "the first submap must not move";
    first = false;
    if (!T::k2d && o.fix_z_in_3d()) PBT_CHECK(std::abs(e.second.translation().z() - was.translation().z()) <= kSame) << "height of submap " << e.first;
  }
  for (const auto& e : now.nodes) {
    const Rigid3d& was = start.nodes.at(e.first);
    if (w.Frozen(e.first.trajectory_id)) PBT_CHECK(Near(e.second, was, kSame, kSameAngle)) << "node " << e.first << " is frozen";
    if (!T::k2d && o.fix_z_in_3d()) PBT_CHECK(std::abs(e.second.translation().z() - was.translation().z()) <= kSame) << "height of node " << e.first;
  }
  for (const auto& e : now.marks)
    if (given.at(e.first).frozen && given.at(e.first).global_landmark_pose.has_value())
      PBT_CHECK(Near(e.second, *given.at(e.first).global_landmark_pose, kSame, kSameAngle)) << "landmark " << e.first << " is frozen";
  for (const auto& e : now.frames)
    if (!T::k2d && w.fixed.count(e.first) && (!before.frames.count(e.first) || !Near(before.frames.at(e.first), e.second, kSame, kSameAngle)))
      PBT_CHECK((e.second.rotation() * Vector3d::UnitZ() - Vector3d::UnitZ()).norm() <= 1e-6) << "the fixed frame is tilted";
  for (const auto& e : now.gravity) {
    PBT_CHECK(e.second >= 0.) << "negative gravity";
    if (T::k2d || o.fix_z_in_3d() || w.Frozen(e.first)) PBT_CHECK(e.second == before.gravity.at(e.first)) << "gravity must not change";
    if (T::k2d || o.fix_z_in_3d() || w.Frozen(e.first) || !o.use_online_imu_extrinsics_in_3d())
      PBT_CHECK(now.calibration.at(e.first).coeffs() == before.calibration.at(e.first).coeffs()) << "the mounting of the inertial sensor must not change";
  }
  if (!T::k2d) {
    // A single step does not turn the first submap around its own vertical axis.
    const Outcome step = settle(start, data, w.landmarks, true);
    const Quaterniond turn = start.submaps.begin()->second.rotation().normalized().inverse() * step.now.submaps.begin()->second.rotation().normalized();
    PBT_CHECK(std::abs(turn.z()) <= 1e-9) << "the first submap turned around its vertical axis: " << turn.coeffs().transpose();
    s.LabelIf(turn.vec().norm() > 1e-6, "the first submap is tilted");
  }
  if (!outcome.settled) {
    s.Label("not settled");
    return;
  }
  if (compare) {
    // Another attempt does the same as a problem that is told the state for the first time.
    std::map<int, Interface::TrajectoryData> trajectory_data;
    std::map<std::string, Interface::LandmarkNode> landmarks;
    resume(now, &trajectory_data, &landmarks);
    const Outcome fresh = settle(now, trajectory_data, landmarks, false, false, true);
    PBT_CHECK(std::abs(fresh.cost - outcome.next_cost) <= 1e-6 * (fresh.cost + 1e-3)) << "going on reaches " << outcome.next_cost << ", starting from the same state reaches " << fresh.cost;
  }
  // The free directions.
  struct Free {
    std::string first;
    std::function<void(State*, double)> second;
    std::function<Vector3d(State*)> part;  // What the variable is a part of.
  };
  std::vector<Free> free;
  const auto axes = [](const std::string& name, const std::function<Rigid3d*(State*)>& get, std::vector<Free>* out, bool z, bool tilt, bool turn = true, bool move = true) {
    for (int i = 0; i < 3; ++i) {
      Vector3d unit = Vector3d::Zero();
      unit[i] = 1.;
      if (move && (i < 2 || z))
        out->push_back(Free{name + " along axis " + std::to_string(i), [get, unit](State* st, double h) { *get(st) = Moved(*get(st), h * unit, Vector3d::Zero()); },
                          [get](State* st) -> Vector3d { return get(st)->translation(); }});
      if (i < 2 ? tilt : turn)
        out->push_back(Free{name + " around axis " + std::to_string(i), [get, unit](State* st, double h) { *get(st) = Moved(*get(st), Vector3d::Zero(), h * unit); },
                          [get, i](State* st) -> Vector3d { return get(st)->rotation().inverse() * (i < 2 ? Vector3d::UnitZ() : Vector3d::UnitX()); }});
    }
  };
  first = true;
  const bool z = !T::k2d && !o.fix_z_in_3d();
  for (const auto& e : now.submaps) {
    const SubmapId id = e.first;
    const bool is_first = first;
    first = false;
    if (w.Frozen(id.trajectory_id) || (is_first && T::k2d)) continue;
    axes("submap " + std::to_string(id.trajectory_id) + "/" + std::to_string(id.submap_index), [id](State* st) { return &st->submaps.at(id); }, &free, z, !T::k2d, !is_first, !is_first);
  }
  for (const auto& e : now.nodes) {
    const NodeId id = e.first;
    if (w.Frozen(id.trajectory_id)) continue;
    axes("node " + std::to_string(id.trajectory_id) + "/" + std::to_string(id.node_index), [id](State* st) { return &st->nodes.at(id); }, &free, z, !T::k2d);
  }
  for (const auto& e : now.marks) {
    const std::string id = e.first;
    if (!given.at(id).frozen) axes(id, [id](State* st) { return &st->marks.at(id); }, &free, true, true);
  }
  for (const auto& e : now.frames) {
    const int id = e.first;
    if (w.fixed.count(id)) axes("fixed frame", [id](State* st) { return &st->frames.at(id); }, &free, !T::k2d, false);
  }
  if (!T::k2d && !o.fix_z_in_3d())
    for (const auto& e : now.gravity) {
      const int t = e.first;
      if (w.Frozen(t)) continue;
      free.push_back(Free{"gravity", [t](State* st, double h) { st->gravity.at(t) = std::max(0., st->gravity.at(t) + h); },
                          [t](State* st) -> Vector3d { return Vector3d(st->gravity.at(t), 0., 0.); }});
      if (o.use_online_imu_extrinsics_in_3d())
        for (int i = 0; i < 3; ++i)
          free.push_back(Free{"mounting", [t, i](State* st, double h) {
            Vector3d v = Vector3d::Zero();
            v[i] = 1.;
            st->calibration.at(t) = st->calibration.at(t).normalized() * Quaterniond(Eigen::AngleAxisd(h, v));
          }, [t](State* st) -> Vector3d { return st->calibration.at(t).coeffs().template head<3>(); }});
    }
  std::map<std::string, double> parts;
  Cost<T::k2d>(w, now, &parts);
  for (const auto& e : parts) s.LabelIf(e.second > 1e-3, e.first.c_str());
  s.LabelIf(frozen > 0, "frozen");
  s.LabelIf(gaps > 0, "gaps");
  s.NonTrivial(cost > 1e-3 && free.size() > 3);
  const double allowed = 5e-4 * cost + 1e-6;
  // A turn by half a revolution or a jump of an interpolation can be the best place to be; there the cost is not smooth.
  std::string wrong;
  for (const auto& e : free) {
    const auto at = [&](double h) {
      State moved = now;
      e.second(&moved, h);
      return Cost<T::k2d>(w, moved);
    };
    const double h = 1e-4, plus = at(h), minus = at(-h);
    if (std::abs(plus + minus - 2. * cost) > 1e-4 * (1. + cost)) {
      s.Label("at a jump");
      return;
    }
    const double slope = (plus - minus) / (2. * h), bend = (plus - 2. * cost + minus) / (h * h);
    double best = std::min(plus, minus), step = plus < minus ? h : -h;
    for (double k : {bend > 0. ? common::Clamp(-slope / bend, -0.05, 0.05) : 0., slope > 0 ? -1e-3 : 1e-3, slope > 0 ? -1e-2 : 1e-2}) {
      const double c = at(k);
      if (c < best) best = c, step = k;
    }
    if (wrong.empty() && best < cost - allowed) {
      // Did the solver merely get stuck there? Then it stays below when it starts from the better place.
      State moved = now;
      e.second(&moved, step);
      std::map<int, Interface::TrajectoryData> trajectory_data;
      std::map<std::string, Interface::LandmarkNode> landmarks;
      resume(moved, &trajectory_data, &landmarks);
      Outcome again = settle(moved, trajectory_data, landmarks);
      if (again.cost < cost - 0.5 * allowed) {
        // Or is the variable held although it may move? Then it stays where it was both times.
        State from = start, to = now;
        bool others = false;
        for (const auto& n : moved.nodes) others = others || (again.now.nodes.at(n.first).translation() - n.second.translation()).norm() > 1e-6;
        for (const auto& n : moved.submaps) others = others || (again.now.submaps.at(n.first).translation() - n.second.translation()).norm() > 1e-6;
        const bool known = (!e.first.compare(0, 6, "submap") || !e.first.compare(0, 4, "node"));
        if (known && others && (e.part(&from) - e.part(&to)).norm() < 1e-13 && (e.part(&moved) - e.part(&again.now)).norm() < 1e-13)
          PBT_FAIL() << "moving " << e.first << " by " << step << " lowers the cost from " << cost << " to " << best << " but it is held";
        s.Label("stuck");
        return;
      }
      wrong = "moving " + e.first + " by " + std::to_string(step) + " lowers the cost from " + std::to_string(cost) + " to " + std::to_string(best);
    }
  }
  PBT_CHECK(wrong.empty()) << wrong;
}
PBT_FACET(solve_2d, o.weight = 1; o.rule = "the cost is not zero and more than three variables are free") { Solve<T2>(s); }
PBT_FACET(solve_3d, o.weight = 1; o.rule = "the cost is not zero and more than three variables are free") { Solve<T3>(s); }
}  // namespace
