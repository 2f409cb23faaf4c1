// O02: the pose graph: histories of nodes, submaps, searches, optimizations, trimming and deletion.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <thread>

#include "geo.h"

#include "cartographer/common/fixed_ratio_sampler.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/pose_graph_2d.h"
#include "cartographer/mapping/internal/3d/pose_graph_3d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::NodeId;
using mapping::SubmapId;
using transform::Rigid3d;
using Interface = mapping::PoseGraphInterface;
using Constraint = Interface::Constraint;
using TrajectoryState = Interface::TrajectoryState;
using NodeData = mapping::TrajectoryNode::Data;
using Landmarks = std::map<std::string, Interface::LandmarkNode>;

// Tasks run when told to, in an order that is chosen; or all of them, from a thread, once pumping.
class Steps : public common::ThreadPool {
 public:
  Steps() : common::ThreadPool(1) {}
  ~Steps() { StopPump(); }
  std::weak_ptr<common::Task> Schedule(std::unique_ptr<common::Task> task) override {
    std::shared_ptr<common::Task> shared = std::move(task);
    {
      std::lock_guard<std::mutex> lock(mutex_);
      waiting_[shared.get()] = shared;
    }
    SetThreadPool(shared.get());
    return shared;
  }
  size_t ready() {
    std::lock_guard<std::mutex> lock(mutex_);
    return ready_.size();
  }
  void Run(size_t i) {
    std::shared_ptr<common::Task> task;
    {
      std::lock_guard<std::mutex> lock(mutex_);
      task = ready_[i];
      ready_.erase(ready_.begin() + i);
    }
    Execute(task.get());
  }
  void StartPump() {
    if (pump_.joinable()) return;
    stop_ = false;
    pump_ = std::thread([this] {
      for (;;) {
        {
          std::unique_lock<std::mutex> lock(mutex_);
          changed_.wait(lock, [this] { return stop_ || !ready_.empty(); });
          if (ready_.empty()) return;
        }
        Run(0);
      }
    });
  }
  void StopPump() {
    {
      std::lock_guard<std::mutex> lock(mutex_);
      stop_ = true;
    }
    changed_.notify_all();
    if (pump_.joinable()) pump_.join();
  }

 private:
  void NotifyDependenciesCompleted(common::Task* task) override {
    {
      std::lock_guard<std::mutex> lock(mutex_);
      const auto it = waiting_.find(task);
      ready_.push_back(it->second);
      waiting_.erase(it);
    }
    changed_.notify_all();
  }
  std::mutex mutex_;
  std::condition_variable changed_;
  bool stop_ = false;
  std::map<common::Task*, std::shared_ptr<common::Task>> waiting_;
  std::vector<std::shared_ptr<common::Task>> ready_;
  std::thread pump_;
};

mapping::ValueConversionTables* Tables() {
  static auto* const tables = new mapping::ValueConversionTables;
  return tables;
}

struct D2 {
  using Submap = mapping::Submap2D;
  using Graph = mapping::PoseGraph2D;
  using Problem = mapping::optimization::OptimizationProblem2D;
  using NodeSpec = mapping::optimization::NodeSpec2D;
  using SubmapSpec = mapping::optimization::SubmapSpec2D;
  static constexpr bool kPlanar = true;
  static std::shared_ptr<Submap> MakeSubmap(pbt::Source& s, const Rigid3d& near) {
    const double res = 0.1;
    const int nx = s.Int(2, 5), ny = s.Int(2, 5);
    const Rigid3d frame = near * transform::Embed3D(GenRigid2(s, 0.5));
    mapping::ProbabilityGrid grid(
        mapping::MapLimits(res, Eigen::Vector2d(frame.translation().x() + 0.2, frame.translation().y() + 0.2), mapping::CellLimits(nx, ny)),
        Tables());
    for (int n = s.Int(1, 3); n > 0; --n) {
      const Eigen::Array2i c(s.Int(0, nx - 1), s.Int(0, ny - 1));
      if (!grid.IsKnown(c)) grid.SetProbability(c, 0.8);
    }
    mapping::proto::Submap2D proto;
    proto.set_num_range_data(1);
    *proto.mutable_local_pose() = transform::ToProto(frame);
    *proto.mutable_grid() = grid.ToProto();
    return std::make_shared<Submap>(proto, Tables());
  }
  static Rigid3d Pose(const NodeSpec& n) { return transform::Embed3D(n.global_pose_2d); }
  static Rigid3d Local(const NodeSpec& n) { return transform::Embed3D(n.local_pose_2d); }
  static Rigid3d Pose(const SubmapSpec& n) { return transform::Embed3D(n.global_pose); }
  static void Set(NodeSpec* n, const Rigid3d& p) { n->global_pose_2d = transform::Project2D(p); }
  static void Set(SubmapSpec* n, const Rigid3d& p) { n->global_pose = transform::Project2D(p); }
  // Of a node, as far as the problem is concerned.
  static Rigid3d Local(const NodeData& d) {
    return transform::Embed3D(transform::Project2D(d.local_pose * Rigid3d::Rotation(d.gravity_alignment.inverse())));
  }
  static Rigid3d Shown(const Rigid3d& pose, const NodeData& d) { return pose * Rigid3d::Rotation(d.gravity_alignment); }
  static Rigid3d Flat(const Rigid3d& p) { return transform::Embed3D(transform::Project2D(p)); }
  static Rigid3d GenPose(pbt::Source& s, double r) { return transform::Embed3D(GenRigid2(s, r)); }
  static std::shared_ptr<const NodeData> MakeNode(pbt::Source& s, int64_t time, const Rigid3d& near) {
    auto d = std::make_shared<NodeData>();
    d->time = TimeAt(time);
    d->gravity_alignment = GenRotation(s, 0.2);
    d->local_pose = transform::Embed3D(transform::Project2D(near * transform::Embed3D(GenRigid2(s, 0.5)))) * Rigid3d::Rotation(d->gravity_alignment);
    for (int n = s.Int(1, 2); n > 0; --n)
      d->filtered_gravity_aligned_point_cloud.push_back({Eigen::Vector3f(s.Real(-0.3, 0.3), s.Real(-0.3, 0.3), 0.f)});
    return d;
  }
};
struct D3 {
  using Submap = mapping::Submap3D;
  using Graph = mapping::PoseGraph3D;
  using Problem = mapping::optimization::OptimizationProblem3D;
  using NodeSpec = mapping::optimization::NodeSpec3D;
  using SubmapSpec = mapping::optimization::SubmapSpec3D;
  static constexpr bool kPlanar = false;
  static std::shared_ptr<Submap> MakeSubmap(pbt::Source& s, const Rigid3d& near) {
    const Rigid3d frame = near * Rigid3d(GenVector(s, 0.5), GenRotation(s, 0.1));
    mapping::Submap3D empty(0.2f, 0.6f, frame, Eigen::VectorXf::Ones(4));
    mapping::proto::Submap proto = empty.ToProto(true);
    for (const bool high : {true, false}) {
      mapping::HybridGrid grid(high ? 0.2f : 0.6f);
      for (int n = s.Int(1, 2); n > 0; --n) grid.SetProbability(Eigen::Array3i(s.Int(-1, 1), s.Int(-1, 1), s.Int(-1, 1)), 0.8f);
      *(high ? proto.mutable_submap_3d()->mutable_high_resolution_hybrid_grid() : proto.mutable_submap_3d()->mutable_low_resolution_hybrid_grid()) = grid.ToProto();
    }
    proto.mutable_submap_3d()->set_num_range_data(1);
    return std::make_shared<Submap>(proto.submap_3d());
  }
  static Rigid3d Pose(const NodeSpec& n) { return n.global_pose; }
  static Rigid3d Local(const NodeSpec& n) { return n.local_pose; }
  static Rigid3d Pose(const SubmapSpec& n) { return n.global_pose; }
  static void Set(NodeSpec* n, const Rigid3d& p) { n->global_pose = p; }
  static void Set(SubmapSpec* n, const Rigid3d& p) { n->global_pose = p; }
  static Rigid3d Local(const NodeData& d) { return d.local_pose; }
  static Rigid3d Shown(const Rigid3d& pose, const NodeData&) { return pose; }
  static Rigid3d Flat(const Rigid3d& p) { return p; }
  static Rigid3d GenPose(pbt::Source& s, double r) { return GenRigid3(s, r, 0.3); }
  static std::shared_ptr<const NodeData> MakeNode(pbt::Source& s, int64_t time, const Rigid3d& near) {
    auto d = std::make_shared<NodeData>();
    d->time = TimeAt(time);
    d->local_pose = near * Rigid3d(GenVector(s, 0.5), GenRotation(s, 0.2));
    d->gravity_alignment = d->local_pose.rotation();
    for (int n = s.Int(1, 2); n > 0; --n) d->high_resolution_point_cloud.push_back({GenVector(s, 0.3).cast<float>()});
    d->low_resolution_point_cloud.push_back({GenVector(s, 0.3).cast<float>()});
    d->rotational_scan_matcher_histogram = Eigen::VectorXf::Ones(4);
    return d;
  }
};

struct Rules {
  bool local_found, global_found;
  double ratio;
  double local_seconds;
  int every_n;
};
mapping::proto::PoseGraphOptions GenOptions(pbt::Source& s, Rules* r) {
  r->local_found = !s.Chance(0.3);
  r->global_found = !s.Chance(0.3);
  r->ratio = s.Pick(std::vector<double>{1., 1., 0., 0.5, 0.3});
  r->local_seconds = s.Pick(std::vector<double>{1e6, -1e6, 0.5, 2., 5.});
  r->every_n = s.Pick(std::vector<int>{0, 1, 2, 3, 5, 90});
  mapping::proto::PoseGraphOptions p;
  p.set_optimize_every_n_nodes(r->every_n);
  p.set_matcher_translation_weight(s.Pick(std::vector<double>{5e2, 3.}));
  p.set_matcher_rotation_weight(s.Pick(std::vector<double>{1.6e3, 7.}));
  p.set_max_num_final_iterations(3);
  p.set_global_sampling_ratio(r->ratio);
  p.set_log_residual_histograms(s.Bits(1));
  p.set_global_constraint_search_after_n_seconds(r->local_seconds);
  auto* q = p.mutable_optimization_problem_options();
  q->set_huber_scale(10.);
  q->set_local_slam_pose_translation_weight(1e3);
  q->set_local_slam_pose_rotation_weight(1e3);
  q->set_odometry_translation_weight(1.);
  q->set_odometry_rotation_weight(1.);
  q->set_fixed_frame_pose_translation_weight(1.);
  q->set_fixed_frame_pose_rotation_weight(1.);
  q->mutable_ceres_solver_options()->set_max_num_iterations(2);
  q->mutable_ceres_solver_options()->set_num_threads(1);
  auto* c = p.mutable_constraint_builder_options();
  c->set_sampling_ratio(1.);
  c->set_max_constraint_distance(1e6);
  c->set_min_score(r->local_found ? 0. : 1.5);
  c->set_global_localization_min_score(r->global_found ? 0. : 1.5);
  c->set_loop_closure_translation_weight(11.);
  c->set_loop_closure_rotation_weight(13.);
  auto* f = c->mutable_fast_correlative_scan_matcher_options();
  f->set_linear_search_window(0.1);
  f->set_angular_search_window(0.1);
  f->set_branch_and_bound_depth(2);
  auto* m = c->mutable_ceres_scan_matcher_options();
  m->set_occupied_space_weight(1.);
  m->set_translation_weight(1e3);
  m->set_rotation_weight(1e3);
  m->mutable_ceres_solver_options()->set_max_num_iterations(1);
  m->mutable_ceres_solver_options()->set_num_threads(1);
  auto* f3 = c->mutable_fast_correlative_scan_matcher_options_3d();
  f3->set_branch_and_bound_depth(7);
  f3->set_full_resolution_depth(3);
  f3->set_min_rotational_score(0.);
  f3->set_min_low_resolution_score(0.);
  f3->set_linear_xy_search_window(0.2);
  f3->set_linear_z_search_window(0.2);
  f3->set_angular_search_window(0.1);
  auto* m3 = c->mutable_ceres_scan_matcher_options_3d();
  m3->add_occupied_space_weight(1.);
  m3->add_occupied_space_weight(1.);
  m3->set_translation_weight(1e3);
  m3->set_rotation_weight(1e3);
  m3->mutable_ceres_solver_options()->set_max_num_iterations(1);
  m3->mutable_ceres_solver_options()->set_num_threads(1);
  return p;
}

template <typename D>
struct Model {
  struct Node {
    std::shared_ptr<const NodeData> data;
    std::vector<SubmapId> submaps;
    std::vector<std::shared_ptr<typename D::Submap>> insertion;
    bool finishes_front = false;
    bool in_problem = false;
  };
  struct Sub {
    std::shared_ptr<typename D::Submap> submap;
    std::set<NodeId> nodes;
    bool in_problem = false, finished = false;
    bool shown = false;  // Has an optimized pose.
    Rigid3d pose;
  };
  struct Item {
    int kind;  // 0 node, 1 finish, 2 freeze, 3 delete, 4 landmark, 5 landmark pose, 6 optimize.
    NodeId node{0, 0};
    int trajectory = 0;
    std::string mark;
    Interface::LandmarkNode::LandmarkObservation observation;
    Rigid3d pose;
  };
  struct Pair {
    bool local;
    bool fresh = true;
  };
  Rules rules;
  std::map<NodeId, Node> nodes;
  std::map<NodeId, Rigid3d> shown;  // Poses of nodes the graph shows.
  std::map<SubmapId, Sub> subs;
  std::map<std::pair<SubmapId, NodeId>, Pair> inter;
  std::vector<std::pair<SubmapId, NodeId>> fresh;
  std::map<int, TrajectoryState> states;
  std::set<int> to_delete;
  Landmarks landmarks;
  mapping::TrajectoryConnectivityState connectivity;
  std::map<int, std::unique_ptr<common::FixedRatioSampler>> samplers;
  std::map<int, std::pair<int, std::pair<Rigid3d, common::Time>>> initial;
  std::vector<Item> items;
  size_t done = 0;
  int since = 0;
  int last_kind = 0;
  int optimizations = 0;

  Rigid3d LocalToGlobal(int t) const {
    const Sub* last = nullptr;
    for (const auto& e : subs)
      if (e.first.trajectory_id == t && e.second.shown) last = &e.second;
    if (last) return last->pose * last->submap->local_pose().inverse();
    const auto it = initial.find(t);
    if (it == initial.end()) return Rigid3d::Identity();
    return Interpolated(it->second.first, it->second.second.second) * it->second.second.first;
  }
  Rigid3d Interpolated(int t, common::Time time) const {
    const Node* before = nullptr;
    Rigid3d pose;
    for (const auto& e : nodes) {
      if (e.first.trajectory_id != t) continue;
      if (e.second.data->time >= time) {
        if (!before) return shown.at(e.first);
        return transform::Interpolate(transform::TimestampedTransform{before->data->time, pose},
                                      transform::TimestampedTransform{e.second.data->time, shown.at(e.first)}, time)
            .transform;
      }
      before = &e.second;
      pose = shown.at(e.first);
    }
    return pose;
  }
  common::Time Latest(const NodeId& n, const SubmapId& s) const {
    common::Time time = nodes.at(n).data->time;
    const Sub& sub = subs.at(s);
    if (!sub.nodes.empty()) time = std::max(time, nodes.at(*sub.nodes.rbegin()).data->time);
    return time;
  }
  void Search(const NodeId& n, const SubmapId& sid) {
    if (!subs.at(sid).submap->insertion_finished()) return;
    const common::Time last = connectivity.LastConnectionTime(n.trajectory_id, sid.trajectory_id);
    bool local = n.trajectory_id == sid.trajectory_id;
    if (!local) local = Latest(n, sid) < last + common::FromSeconds(rules.local_seconds);
    if (!local && !samplers.at(n.trajectory_id)->Pulse()) return;
    if (local ? !rules.local_found : !rules.global_found) return;
    inter[{sid, n}] = {local, true};
    fresh.emplace_back(sid, n);
  }
  // Works off what is queued, up to and including the item that requests an optimization; whether there was one.
  bool Advance() {
    while (done < items.size()) {
      const Item& item = items[done++];
      last_kind = item.kind;
      switch (item.kind) {
        case 0: {
          Node& n = nodes.at(item.node);
          const SubmapId front = n.submaps.front();
          n.in_problem = true;
          const int t = item.node.trajectory_id;
          if (n.submaps.size() == 1 && !subs.at(front).in_problem && initial.count(t))
            connectivity.Connect(t, initial.at(t).first, n.data->time);
          for (const auto& sid : n.submaps) {
            subs.at(sid).in_problem = true;
            subs.at(sid).nodes.insert(item.node);
          }
          std::vector<SubmapId> finished;
          for (const auto& e : subs)
            if (e.second.finished) finished.push_back(e.first);
          for (const auto& sid : finished) Search(item.node, sid);
          if (n.finishes_front) {
            subs.at(front).finished = true;
            for (const auto& e : nodes)
              if (e.second.in_problem && !subs.at(front).nodes.count(e.first)) Search(e.first, front);
          }
          ++since;
          if (rules.every_n > 0 && since > rules.every_n) return true;
          break;
        }
        case 1:
          states[item.trajectory] = TrajectoryState::FINISHED;
          for (auto& e : subs)
            if (e.first.trajectory_id == item.trajectory) e.second.finished = true;
          return true;
        case 2:
          for (const auto& e : states)
            if (e.second == TrajectoryState::FROZEN && !connectivity.TransitivelyConnected(item.trajectory, e.first))
              connectivity.Connect(item.trajectory, e.first, common::FromUniversal(0));
          states[item.trajectory] = TrajectoryState::FROZEN;
          break;
        case 3: to_delete.insert(item.trajectory); break;
        case 4: landmarks[item.mark].landmark_observations.push_back(item.observation); break;
        case 5:
          landmarks[item.mark].global_landmark_pose = item.pose;
          landmarks[item.mark].frozen = item.trajectory;
          break;
        case 6: return true;
      }
    }
    return false;
  }
  void Trim(const SubmapId& sid) {
    std::set<NodeId> gone = subs.at(sid).nodes;
    subs.erase(sid);
    for (const auto& e : subs)
      for (const auto& n : e.second.nodes) gone.erase(n);
    for (auto it = inter.begin(); it != inter.end();)
      it = it->first.first == sid || gone.count(it->first.second) ? inter.erase(it) : std::next(it);
    for (const auto& n : gone) {
      nodes.erase(n);
      shown.erase(n);
    }
  }
};

void CheckConstraints(const std::vector<Constraint>& got, std::map<std::pair<SubmapId, NodeId>, Rigid3d> intra,
                      std::set<std::pair<SubmapId, NodeId>> inter, const mapping::proto::PoseGraphOptions& options,
                      const std::function<void(const Constraint&)>& on_inter) {
  for (const auto& c : got) {
    std::pair<SubmapId, NodeId> key(c.submap_id, c.node_id);
    if (c.tag == Constraint::INTRA_SUBMAP) {
      const auto it = intra.find(key);
      PBT_CHECK(it != intra.end()) << "unexpected or repeated constraint of node " << c.node_id << " in submap " << c.submap_id;
      PBT_CHECK(Near(c.pose.zbar_ij, it->second, 1e-6, 1e-6))
          << "constraint of node " << c.node_id << " in submap " << c.submap_id << ": " << c.pose.zbar_ij << ", should be " << it->second;
      PBT_CHECK(c.pose.translation_weight == options.matcher_translation_weight() && c.pose.rotation_weight == options.matcher_rotation_weight())
          << "weights";
      intra.erase(it);
    } else {
      PBT_CHECK(inter.erase(key)) << "unexpected or repeated loop closure of node " << c.node_id << " with submap " << c.submap_id;
      PBT_CHECK(c.pose.translation_weight == 11. && c.pose.rotation_weight == 13.) << "loop closure weights";
      if (on_inter) on_inter(c);
    }
  }
  PBT_CHECK(intra.empty()) << "no constraint for node " << intra.begin()->first.second << " in submap " << intra.begin()->first.first;
  PBT_CHECK(inter.empty()) << "no loop closure for node " << inter.begin()->second << " with submap " << inter.begin()->first;
}

template <typename D>
struct Session {
  // Stands in for the solver: checks what it is given, then moves everything somewhere.
  struct Problem : D::Problem {
    using D::Problem::Problem;
    std::function<void(const std::vector<Constraint>&, const std::map<int, TrajectoryState>&, const Landmarks&)> on_solve;
    int max_iterations = -1;
    void Solve(const std::vector<Constraint>& c, const std::map<int, TrajectoryState>& t, const Landmarks& l) override { on_solve(c, t, l); }
    void SetMaxNumIterations(int n) override { max_iterations = n; }
    mapping::MapById<NodeId, typename D::NodeSpec>& nodes() { return const_cast<mapping::MapById<NodeId, typename D::NodeSpec>&>(this->node_data()); }
    mapping::MapById<SubmapId, typename D::SubmapSpec>& submaps() {
      return const_cast<mapping::MapById<SubmapId, typename D::SubmapSpec>&>(this->submap_data());
    }
    std::map<std::string, Rigid3d>& marks() { return const_cast<std::map<std::string, Rigid3d>&>(this->landmark_data()); }
  };
  struct Trimmer : mapping::PoseGraphTrimmer {
    Session* session;
    explicit Trimmer(Session* s) : session(s) {}
    void Trim(mapping::Trimmable* graph) override {
      session->Guard([&] { session->OnTrim(graph); });
    }
    bool IsFinished() override { return false; }
  };

  pbt::Source& s;
  mapping::proto::PoseGraphOptions options;
  Model<D> model;
  Steps pool;
  std::unique_ptr<typename D::Graph> graph;
  Problem* problem = nullptr;
  std::exception_ptr failure;
  bool solved = false;
  bool may_trim = false;
  std::set<int> never_trim;
  std::set<int> last_states;
  bool final_phase = false;

  explicit Session(pbt::Source& source) : s(source) {}
  ~Session() {
    pool.StartPump();
    graph.reset();
    pool.StopPump();
  }
  void Guard(const std::function<void()>& f) {
    if (failure) return;
    try {
      f();
    } catch (...) {
      failure = std::current_exception();
    }
  }
  void Rethrow() {
    if (failure) std::rethrow_exception(failure);
  }
  void Start() {
    options = GenOptions(s, &model.rules);
    auto p = std::make_unique<Problem>(options.optimization_problem_options());
    problem = p.get();
    p->on_solve = [this](const std::vector<Constraint>& c, const std::map<int, TrajectoryState>& t, const Landmarks& l) {
      Guard([&] { OnSolve(c, t, l); });
    };
    graph = std::make_unique<typename D::Graph>(options, std::move(p), &pool);
    graph->SetGlobalSlamOptimizationCallback([this](const std::map<int, SubmapId>& submaps, const std::map<int, NodeId>& nodes) {
      Guard([&] { OnOptimized(submaps, nodes); });
    });
    graph->AddTrimmer(std::make_unique<Trimmer>(this));
  }

  std::map<std::pair<SubmapId, NodeId>, Rigid3d> Intra(bool shown) const {
    std::map<std::pair<SubmapId, NodeId>, Rigid3d> out;
    for (const auto& e : model.subs)
      for (const auto& n : e.second.nodes) {
        const auto& data = *model.nodes.at(n).data;
        const Rigid3d pose = D::Flat(e.second.submap->local_pose()).inverse() * D::Local(data);
        out[{e.first, n}] = shown ? D::Shown(pose, data) : pose;
      }
    return out;
  }
  std::set<std::pair<SubmapId, NodeId>> Inter() const {
    std::set<std::pair<SubmapId, NodeId>> out;
    for (const auto& e : model.inter) out.insert(e.first);
    return out;
  }

  void OnSolve(const std::vector<Constraint>& constraints, const std::map<int, TrajectoryState>& states, const Landmarks& landmarks) {
    PBT_CHECK(model.Advance()) << "an optimization nothing asked for";
    solved = true;
    if (model.last_kind == 6) PBT_CHECK_EQ(problem->max_iterations, options.max_num_final_iterations()) << "iterations of the final optimization";
    PBT_CHECK(states == model.states) << "states of trajectories given to the optimization";
    // The problem holds exactly what was worked off.
    size_t count = 0;
    for (const auto& e : model.nodes) {
      if (!e.second.in_problem) continue;
      ++count;
      PBT_CHECK(problem->nodes().Contains(e.first)) << "node " << e.first << " is not optimized";
      const auto& spec = problem->nodes().at(e.first);
      PBT_CHECK(spec.time == e.second.data->time) << "time of node";
      PBT_CHECK(Near(D::Local(spec), D::Local(*e.second.data), 1e-6, 1e-6)) << "local pose of node " << e.first;
    }
    PBT_CHECK_EQ(problem->nodes().size(), count) << "nodes in the optimization";
    count = 0;
    for (const auto& e : model.subs) {
      if (!e.second.in_problem) continue;
      ++count;
      PBT_CHECK(problem->submaps().Contains(e.first)) << "submap " << e.first << " is not optimized";
    }
    PBT_CHECK_EQ(problem->submaps().size(), count) << "submaps in the optimization";
    // New ones start where the last optimization puts them.
    for (const auto& e : model.subs) {
      if (!e.second.in_problem) continue;
      const Rigid3d pose = D::Pose(problem->submaps().at(e.first));
      Rigid3d want = e.second.pose;
      if (!e.second.shown) {
        const auto before = model.subs.find(SubmapId{e.first.trajectory_id, e.first.submap_index - 1});
        if (before != model.subs.end())
          want = D::Pose(problem->submaps().at(before->first)) * D::Flat(before->second.submap->local_pose()).inverse() *
                 D::Flat(e.second.submap->local_pose());
        else if (e.first.submap_index == 0)
          want = D::Flat(model.LocalToGlobal(e.first.trajectory_id) * e.second.submap->local_pose());
        else
          continue;
      }
      PBT_CHECK(Near(pose, want, 1e-6, 1e-6)) << "submap " << e.first << " starts at " << pose << ", should be " << want;
    }
    for (const auto& e : model.nodes) {
      if (!e.second.in_problem || placed.count(e.first)) continue;
      placed.insert(e.first);
      const auto& front = e.second.submaps.front();
      if (!model.subs.count(front)) continue;
      const Rigid3d pose = D::Pose(problem->nodes().at(e.first));
      const Rigid3d want = D::Pose(problem->submaps().at(front)) * D::Flat(model.subs.at(front).submap->local_pose()).inverse() * D::Local(*e.second.data);
      PBT_CHECK(Near(pose, want, 1e-6, 1e-6)) << "node " << e.first << " starts at " << pose << ", should be " << want;
    }
    CheckConstraints(constraints, Intra(false), Inter(), options, [this](const Constraint& c) {
      auto& pair = model.inter.at({c.submap_id, c.node_id});
      if (!pair.fresh) return;
      pair.fresh = false;
      if (!pair.local) return;
      const Rigid3d guess = D::Pose(problem->submaps().at(c.submap_id)).inverse() * D::Pose(problem->nodes().at(c.node_id));
      PBT_CHECK(Near(c.pose.zbar_ij, guess, 1., 0.9))
          << "local search of node " << c.node_id << " in submap " << c.submap_id << " gave " << c.pose.zbar_ij << " though the guess was " << guess;
    });
    PBT_CHECK_EQ(landmarks.size(), model.landmarks.size()) << "landmarks";
    for (const auto& e : model.landmarks) {
      PBT_CHECK(landmarks.count(e.first)) << "landmark is missing";
      const auto& l = landmarks.at(e.first);
      PBT_CHECK_EQ(l.frozen, e.second.frozen) << "frozen landmark";
      PBT_CHECK_EQ(l.global_landmark_pose.has_value(), e.second.global_landmark_pose.has_value()) << "pose of landmark known";
      if (l.global_landmark_pose.has_value())
        PBT_CHECK(Near(*l.global_landmark_pose, *e.second.global_landmark_pose, 1e-9, 1e-7)) << "pose of landmark";
      PBT_CHECK_EQ(l.landmark_observations.size(), e.second.landmark_observations.size()) << "observations of landmark";
      for (size_t i = 0; i < l.landmark_observations.size(); ++i) {
        const auto& a = l.landmark_observations[i];
        const auto& b = e.second.landmark_observations[i];
        PBT_CHECK(a.trajectory_id == b.trajectory_id && a.time == b.time && a.translation_weight == b.translation_weight &&
                  a.rotation_weight == b.rotation_weight && Near(a.landmark_to_tracking_transform, b.landmark_to_tracking_transform, 1e-9, 1e-7))
            << "observation of landmark";
      }
    }
    // Move everything, each trajectory a bit differently, and some things more.
    std::map<int, Rigid3d> old_to_global;
    for (const auto& e : model.states) old_to_global[e.first] = model.LocalToGlobal(e.first);
    std::map<int, Rigid3d> moves;
    for (const auto& e : model.states) moves[e.first] = D::GenPose(s, 5.);
    const double jitter = s.Bits(1) ? 0. : 0.5;
    std::set<int> moved;
    for (auto& e : model.subs) {
      if (!e.second.in_problem) continue;
      auto& spec = problem->submaps().at(e.first);
      D::Set(&spec, moves.at(e.first.trajectory_id) * D::Pose(spec) * D::GenPose(s, jitter));
      e.second.pose = D::Pose(spec);
      e.second.shown = true;
    }
    for (auto& e : model.nodes) {
      if (!e.second.in_problem) continue;
      auto& spec = problem->nodes().at(e.first);
      D::Set(&spec, moves.at(e.first.trajectory_id) * D::Pose(spec) * D::GenPose(s, jitter));
      model.shown[e.first] = D::Shown(D::Pose(spec), *e.second.data);
      moved.insert(e.first.trajectory_id);
    }
    // Nodes that are not in yet move along with the last submap.
    for (auto& e : model.shown) {
      if (model.nodes.at(e.first).in_problem || !moved.count(e.first.trajectory_id)) continue;
      const int t = e.first.trajectory_id;
      e.second = model.LocalToGlobal(t) * old_to_global.at(t).inverse() * e.second;
      s.Label("extrapolated");
    }
    problem->marks().clear();
    for (auto& e : model.landmarks)
      if (s.Chance(0.7)) {
        problem->marks()[e.first] = GenRigid3(s, 5.);
        e.second.global_landmark_pose = problem->marks()[e.first];
      }
  }
  std::set<NodeId> placed;
  std::set<int> trimmed;
  std::map<int, std::vector<std::pair<common::Time, Rigid3d>>> odometry, imu, fixed;
  template <typename Map, typename F>
  void CheckSensor(const Map& got, const std::map<int, std::vector<std::pair<common::Time, Rigid3d>>>& want, const char* name, const F& same) {
    for (const int t : got.trajectory_ids())
      PBT_CHECK(want.count(t)) << name << " of trajectory " << t << " that has none";
    for (const auto& e : want) {
      if (trimmed.count(e.first)) continue;
      size_t n = 0;
      PBT_CHECK(got.HasTrajectory(e.first)) << name << " of trajectory " << e.first << " is gone";
      for (const auto& d : got.trajectory(e.first)) {
        PBT_CHECK(n < e.second.size() && d.time == e.second[n].first && same(d, e.second[n].second)) << name << " of trajectory " << e.first;
        ++n;
      }
      PBT_CHECK_EQ(n, e.second.size()) << name << " of trajectory " << e.first;
    }
  }

  void CheckShown() {
    const auto nodes = graph->GetTrajectoryNodes();
    PBT_CHECK_EQ(nodes.size(), model.nodes.size()) << "nodes shown";
    for (const auto& e : model.nodes) {
      PBT_CHECK(nodes.Contains(e.first)) << "node " << e.first << " is gone";
      PBT_CHECK(nodes.at(e.first).constant_data == e.second.data) << "data of node";
      PBT_CHECK(Near(nodes.at(e.first).global_pose, model.shown.at(e.first), 1e-6, 1e-5))
          << "node " << e.first << (e.second.in_problem ? "" : " (not yet optimized)") << " is at " << nodes.at(e.first).global_pose << ", should be " << model.shown.at(e.first);
    }
    const auto poses = graph->GetTrajectoryNodePoses();
    PBT_CHECK_EQ(poses.size(), model.nodes.size()) << "node poses shown";
    for (const auto& e : poses) {
      PBT_CHECK(Near(e.data.global_pose, nodes.at(e.id).global_pose, 1e-12, 1e-7)) << "pose of node in the two lists";
      PBT_CHECK(e.data.constant_pose_data.has_value() && e.data.constant_pose_data->time == nodes.at(e.id).time() &&
                Near(e.data.constant_pose_data->local_pose, nodes.at(e.id).constant_data->local_pose, 1e-12, 1e-7))
          << "constant data of node";
    }
    const auto subs = graph->GetAllSubmapData();
    PBT_CHECK_EQ(subs.size(), model.subs.size()) << "submaps shown";
    const auto sub_poses = graph->GetAllSubmapPoses();
    PBT_CHECK_EQ(sub_poses.size(), model.subs.size()) << "submap poses shown";
    for (const auto& e : model.subs) {
      PBT_CHECK(subs.Contains(e.first) && sub_poses.Contains(e.first)) << "submap " << e.first << " is gone";
      PBT_CHECK(subs.at(e.first).submap == e.second.submap) << "which submap";
      const Rigid3d want = e.second.shown ? e.second.pose : model.LocalToGlobal(e.first.trajectory_id) * e.second.submap->local_pose();
      PBT_CHECK(Near(subs.at(e.first).pose, want, 1e-6, 1e-5)) << "submap " << e.first << " is at " << subs.at(e.first).pose << ", should be " << want;
      PBT_CHECK(Near(sub_poses.at(e.first).pose, want, 1e-6, 1e-5)) << "pose of submap " << e.first;
      PBT_CHECK_EQ(sub_poses.at(e.first).version, e.second.submap->num_range_data()) << "version of submap";
      const auto one = graph->GetSubmapData(e.first);
      PBT_CHECK(one.submap == e.second.submap && Near(one.pose, want, 1e-6, 1e-5)) << "single submap";
    }
    for (const auto& e : model.states)
      PBT_CHECK(Near(graph->GetLocalToGlobalTransform(e.first), model.LocalToGlobal(e.first), 1e-6, 1e-5))
          << "local to global of trajectory " << e.first << " is " << graph->GetLocalToGlobalTransform(e.first) << ", should be " << model.LocalToGlobal(e.first);
    const auto marks = graph->GetLandmarkPoses();
    for (const auto& e : model.landmarks) {
      PBT_CHECK_EQ(marks.count(e.first), size_t(e.second.global_landmark_pose.has_value())) << "landmark shown";
      if (marks.count(e.first)) PBT_CHECK(Near(marks.at(e.first), *e.second.global_landmark_pose, 1e-9, 1e-7)) << "pose of landmark";
    }
  }

  void OnOptimized(const std::map<int, SubmapId>& submaps, const std::map<int, NodeId>& nodes) {
    if (!solved) {
      PBT_CHECK(model.Advance()) << "an optimization nothing asked for";
      for (const auto& e : model.subs) PBT_CHECK(!e.second.in_problem) << "not optimized though there are submaps";
    }
    solved = false;
    ++model.optimizations;
    std::map<int, SubmapId> want_submaps;
    std::map<int, NodeId> want_nodes;
    for (const auto& e : model.nodes)
      if (e.second.in_problem) {
        want_nodes.erase(e.first.trajectory_id);
        want_nodes.emplace(e.first.trajectory_id, e.first);
      }
    for (const auto& e : model.subs)
      if (e.second.in_problem && want_nodes.count(e.first.trajectory_id)) {
        want_submaps.erase(e.first.trajectory_id);
        want_submaps.emplace(e.first.trajectory_id, e.first);
      }
    PBT_CHECK(submaps == want_submaps) << "last optimized submaps reported";
    PBT_CHECK(nodes == want_nodes) << "last optimized nodes reported";
    CheckShown();
    for (const auto& pair : model.fresh) model.connectivity.Connect(pair.second.trajectory_id, pair.first.trajectory_id, model.Latest(pair.second, pair.first));
    model.fresh.clear();
    for (const int t : model.to_delete) {
      std::vector<SubmapId> ids;
      for (const auto& e : model.subs)
        if (e.first.trajectory_id == t) ids.push_back(e.first);
      for (const auto& id : ids) model.Trim(id);
      model.states[t] = TrajectoryState::DELETED;
      trimmed.insert(t);
      s.Label("deleted");
    }
    model.to_delete.clear();
    model.since = 0;
  }

  void OnTrim(mapping::Trimmable* handle) {
    // What the trimmer is shown.
    std::map<int, int> sizes;
    for (const auto& e : model.subs) sizes[e.first.trajectory_id] += e.second.in_problem;
    for (const auto& e : model.states) {
      PBT_CHECK_EQ(handle->num_submaps(e.first), sizes[e.first]) << "submaps of trajectory " << e.first << " offered for trimming";
      PBT_CHECK_EQ(handle->IsFinished(e.first), e.second == TrajectoryState::FINISHED) << "finished trajectory";
      std::vector<SubmapId> ids;
      for (const auto& f : model.subs)
        if (f.first.trajectory_id == e.first && f.second.in_problem) ids.push_back(f.first);
      PBT_CHECK(handle->GetSubmapIds(e.first) == ids) << "ids of submaps offered for trimming";
    }
    const auto optimized = handle->GetOptimizedSubmapData();
    size_t count = 0;
    std::vector<SubmapId> candidates;
    for (const auto& e : model.subs)
      if (e.second.finished && e.second.shown) {
        ++count;
        PBT_CHECK(optimized.Contains(e.first) && Near(optimized.at(e.first).pose, e.second.pose, 1e-6, 1e-5)) << "optimized submap " << e.first;
        if (!never_trim.count(e.first.trajectory_id)) candidates.push_back(e.first);
      }
    PBT_CHECK_EQ(optimized.size(), count) << "optimized submaps";
    PBT_CHECK_EQ(handle->GetTrajectoryNodes().size(), model.nodes.size()) << "nodes";
    CheckConstraints(handle->GetConstraints(), Intra(false), Inter(), options, nullptr);
    if (!may_trim) return;
    for (const auto& id : candidates) {
      if (!s.Chance(0.25)) continue;
      handle->TrimSubmap(id);
      model.Trim(id);
      trimmed.insert(id.trajectory_id);
      s.Label("trimmed");
      CheckConstraints(handle->GetConstraints(), Intra(false), Inter(), options, nullptr);
    }
  }

  void Final() {
    CheckShown();
    PBT_CHECK(graph->GetTrajectoryStates() == model.states) << "states of trajectories";
    CheckConstraints(graph->constraints(), Intra(true), Inter(), options, nullptr);
    std::set<std::set<int>> got, want;
    for (const auto& c : graph->GetConnectedTrajectories()) got.emplace(c.begin(), c.end());
    for (const auto& c : model.connectivity.Components()) want.emplace(c.begin(), c.end());
    PBT_CHECK(got == want) << "connected trajectories";
    CheckSensor(graph->GetOdometryData(), odometry, "odometry", [](const sensor::OdometryData& d, const Rigid3d& p) { return Near(d.pose, p, 1e-12, 1e-7); });
    CheckSensor(graph->GetFixedFramePoseData(), fixed, "fixed frame poses",
                [](const sensor::FixedFramePoseData& d, const Rigid3d& p) { return d.pose.has_value() && Near(*d.pose, p, 1e-12, 1e-7); });
    CheckSensor(graph->GetImuData(), D::kPlanar ? decltype(imu)() : imu, "inertial data",
                [](const sensor::ImuData& d, const Rigid3d& p) { return d.linear_acceleration == p.translation() && d.angular_velocity == Eigen::Vector3d(1, 2, 3); });
  }
};

template <typename D>
void History(pbt::Source& s) {
  using M = Model<D>;
  Session<D> session(s);
  session.Start();
  M& model = session.model;
  auto* const graph = session.graph.get();
  session.may_trim = s.Bits(1);
  const int trajectories = s.Int(1, 3);
  struct Live {
    std::vector<std::pair<SubmapId, std::shared_ptr<typename D::Submap>>> active;
    int next_node = 0, next_submap = 0;
    int64_t time = 0;
    Rigid3d pose;
    int state = 0;  // 0 active, 1 finished, 2 frozen, 3 deleted.
    int in_front = 0, in_back = 0;
  };
  std::vector<Live> live(trajectories);
  for (auto& l : live) l.time = kEpoch + s.Int(0, 100) * 10000000ll;
  std::map<std::pair<int, int>, int64_t> sensor_time;
  const auto run = [&] {
    while (session.pool.ready() && s.Chance(0.6)) session.pool.Run(s.Int(0, int(session.pool.ready()) - 1));
    session.Rethrow();
  };
  int node_count = 0;
  const int limit = s.Int(1, 3);
  for (int n = s.Chance(0.7) ? s.Int(5, 30) : s.Len(1, 60); n > 0; --n) {
    const int t = s.Int(0, trajectories - 1);
    Live& l = live[t];
    switch (s.Weighted({14, 2, 1, 2, 1, 1, 2, 2})) {
      case 0: {
        if (l.state != 0) break;
        // As the local side does it: a new submap every 'limit' nodes, each getting twice as many.
        l.pose = l.pose * D::GenPose(s, 0.5);
        if (l.active.empty() || l.in_back >= limit) {
          if (l.active.size() == 2) l.active.erase(l.active.begin());
          l.active.emplace_back(SubmapId{t, l.next_submap++}, D::MakeSubmap(s, l.pose));
          l.in_back = 0;
        }
        ++l.in_back;
        l.time += s.Int(1, 20) * 1000000ll;
        const auto data = D::MakeNode(s, l.time, l.pose);
        typename M::Node node;
        node.data = data;
        if (l.active.size() == 2 && l.in_back >= limit) {
          l.active.front().second->Finish();
          node.finishes_front = true;
        }
        std::vector<std::shared_ptr<const typename D::Submap>> insertion;
        for (const auto& e : l.active) {
          node.submaps.push_back(e.first);
          node.insertion.push_back(e.second);
          insertion.push_back(e.second);
        }
        const Rigid3d to_global = model.LocalToGlobal(t);
        PBT_CHECK(Near(graph->GetLocalToGlobalTransform(t), to_global, 1e-6, 1e-5))
            << "local to global of trajectory " << t << " is " << graph->GetLocalToGlobalTransform(t) << ", should be " << to_global;
        const NodeId id = graph->AddNode(data, t, insertion);
        const NodeId expected{t, l.next_node++};
        PBT_CHECK(id == expected) << "id of the new node is " << id;
        model.states.emplace(t, TrajectoryState::ACTIVE);
        model.connectivity.Add(t);
        auto& sampler = model.samplers[t];
        if (!sampler) sampler = std::make_unique<common::FixedRatioSampler>(model.rules.ratio);
        model.nodes[id] = node;
        model.shown[id] = to_global * data->local_pose;
        for (const auto& e : l.active)
          if (!model.subs.count(e.first) && e == l.active.back()) model.subs[e.first].submap = e.second;
        typename M::Item item;
        item.kind = 0;
        item.node = id;
        model.items.push_back(item);
        ++node_count;
        break;
      }
      case 1: {
        if (l.state != 0 || l.next_node == 0) break;
        if (s.Bits(1))
          for (auto& e : l.active)
            if (!e.second->insertion_finished()) e.second->Finish();
        // The submaps are finished only together with what is queued.
        while (session.pool.ready()) session.pool.Run(0);
        session.Rethrow();
        graph->FinishTrajectory(t);
        l.state = 1;
        typename M::Item item;
        item.kind = 1;
        item.trajectory = t;
        model.items.push_back(item);
        break;
      }
      case 2: {
        if (l.state != 1) break;
        graph->FreezeTrajectory(t);
        l.state = 2;
        typename M::Item item;
        item.kind = 2;
        item.trajectory = t;
        model.items.push_back(item);
        break;
      }
      case 3: {
        if ((l.state != 1 && l.state != 2) || session.never_trim.count(t)) break;
        graph->DeleteTrajectory(t);
        l.state = 3;
        typename M::Item item;
        item.kind = 3;
        item.trajectory = t;
        model.items.push_back(item);
        break;
      }
      case 4: {
        if (l.state != 0) break;
        sensor::LandmarkData d;
        d.time = TimeAt(l.time + s.Int(-1000000, 1000000));
        d.landmark_observations.push_back({"mark" + std::to_string(s.Int(0, 2)), GenRigid3(s, 3.), s.Real(0, 9), s.Real(0, 9)});
        graph->AddLandmarkData(t, d);
        const auto& o = d.landmark_observations[0];
        typename M::Item item;
        item.kind = 4;
        item.mark = o.id;
        item.observation = {t, d.time, o.landmark_to_tracking_transform, o.translation_weight, o.rotation_weight};
        model.items.push_back(item);
        break;
      }
      case 5: {
        typename M::Item item;
        item.kind = 5;
        item.mark = "mark" + std::to_string(s.Int(0, 2));
        item.pose = GenRigid3(s, 3.);
        item.trajectory = s.Bits(1);
        graph->SetLandmarkPose(item.mark, item.pose, item.trajectory);
        model.items.push_back(item);
        break;
      }
      case 6: {
        // A start relative to another trajectory.
        const int to = s.Int(0, trajectories - 1);
        if (to == t || l.next_node > 0 || live[to].next_node == 0 || live[to].state == 3 || model.initial.count(t)) break;
        session.never_trim.insert(to);
        std::vector<common::Time> times;
        for (const auto& e : model.nodes)
          if (e.first.trajectory_id == to) times.push_back(e.second.data->time);
        if (times.empty()) break;
        const common::Time time = times.front() + (times.back() - times.front()) * s.Int(0, 8) / 8;
        const Rigid3d pose = D::GenPose(s, 3.);
        graph->SetInitialTrajectoryPose(t, to, pose, time);
        model.initial[t] = {to, {pose, time}};
        s.Label("initial pose");
        break;
      }
      case 7: {
        if (l.state != 0) break;
        const int kind = s.Int(0, 2);
        int64_t& time = sensor_time[{kind, t}];
        time += s.Int(1, 1000000);
        const Rigid3d pose = GenRigid3(s, 3.);
        if (kind == 0) {
          graph->AddOdometryData(t, sensor::OdometryData{TimeAt(time), pose});
          session.odometry[t].emplace_back(TimeAt(time), pose);
        } else if (kind == 1) {
          graph->AddFixedFramePoseData(t, sensor::FixedFramePoseData{TimeAt(time), pose});
          session.fixed[t].emplace_back(TimeAt(time), pose);
        } else {
          graph->AddImuData(t, sensor::ImuData{TimeAt(time), pose.translation(), Eigen::Vector3d(1, 2, 3)});
          session.imu[t].emplace_back(TimeAt(time), pose);
        }
        break;
      }
    }
    run();
  }
  s.NonTrivial(node_count >= 3);
  s.LabelIf(node_count >= 8, "8 nodes");
  typename M::Item item;
  item.kind = 6;
  model.items.push_back(item);
  session.pool.StartPump();
  graph->RunFinalOptimization();
  session.pool.StopPump();
  session.Rethrow();
  PBT_CHECK(!model.Advance()) << "an optimization is missing";
  s.LabelIf(model.optimizations > 1, "several optimizations");
  s.LabelIf(!model.inter.empty(), "loop closures");
  session.Final();
}
// Real threads: each trajectory is fed by one of its own while others look; the outcome does not depend on who was first.
template <typename D>
void Threads(pbt::Source& s) {
  Session<D> session(s);
  Rules rules;
  auto options = GenOptions(s, &rules);
  options.set_global_sampling_ratio(1.);
  auto* c = options.mutable_constraint_builder_options();
  c->set_min_score(0.);
  c->set_global_localization_min_score(0.);
  common::ThreadPool pool(s.Int(1, 4));
  std::atomic<int> solving{0}, at_once{0}, optimizations{0};
  auto problem = std::make_unique<typename Session<D>::Problem>(options.optimization_problem_options());
  problem->on_solve = [&](const std::vector<Constraint>&, const std::map<int, TrajectoryState>&, const Landmarks&) {
    if (++solving > 1) ++at_once;
    std::this_thread::yield();
    --solving;
  };
  struct Step {
    std::shared_ptr<const NodeData> data;
    std::vector<std::shared_ptr<const typename D::Submap>> insertion;
    std::shared_ptr<typename D::Submap> finish;
    int pause;
  };
  const int trajectories = s.Int(1, 3);
  std::vector<std::vector<Step>> steps(trajectories);
  auto& model = session.model;
  const int limit = s.Int(1, 2);
  std::vector<std::pair<SubmapId, std::shared_ptr<typename D::Submap>>> closed;
  int total = 0;
  for (int t = 0; t < trajectories; ++t) {
    std::vector<std::pair<SubmapId, std::shared_ptr<typename D::Submap>>> active;
    int back = 0, submaps = 0;
    Rigid3d pose;
    for (int n = s.Int(1, 7), i = 0; i < n; ++i) {
      pose = pose * D::GenPose(s, 0.3);
      if (active.empty() || back >= limit) {
        if (active.size() == 2) active.erase(active.begin());
        active.emplace_back(SubmapId{t, submaps++}, D::MakeSubmap(s, pose));
        back = 0;
      }
      ++back;
      Step step;
      step.data = D::MakeNode(s, kEpoch + i * 1000000ll, pose);
      step.pause = s.Int(0, 2);
      const NodeId id{t, i};
      model.nodes[id].data = step.data;
      for (const auto& e : active) {
        step.insertion.push_back(e.second);
        model.subs[e.first].submap = e.second;
        model.subs[e.first].nodes.insert(id);
      }
      if (active.size() == 2 && back >= limit) {
        step.finish = active.front().second;
        closed.push_back(active.front());
      }
      steps[t].push_back(step);
      ++total;
    }
  }
  std::set<std::pair<SubmapId, NodeId>> inter;
  for (const auto& sub : closed)
    for (const auto& n : model.nodes)
      if (!model.subs.at(sub.first).nodes.count(n.first)) inter.emplace(sub.first, n.first);
  s.NonTrivial(trajectories > 1 && !inter.empty());
  std::string wrong;
  {
    typename D::Graph graph(options, std::move(problem), &pool);
    graph.SetGlobalSlamOptimizationCallback([&](const std::map<int, SubmapId>&, const std::map<int, NodeId>&) { ++optimizations; });
    std::vector<std::thread> threads;
    std::atomic<int> running{trajectories};
    std::mutex wrong_mutex;
    for (int t = 0; t < trajectories; ++t)
      threads.emplace_back([&, t] {
        for (size_t i = 0; i < steps[t].size(); ++i) {
          const Step& step = steps[t][i];
          if (step.finish) step.finish->Finish();
          const NodeId id = graph.AddNode(step.data, t, step.insertion);
          const NodeId want{t, int(i)};
          if (!(id == want)) {
            std::lock_guard<std::mutex> lock(wrong_mutex);
            wrong = "id of a node";
          }
          if (step.pause == 1) std::this_thread::yield();
          if (step.pause == 2) std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        --running;
      });
    while (running > 0) {
      const auto constraints = graph.constraints();
      const auto nodes = graph.GetTrajectoryNodes();
      const auto submaps = graph.GetAllSubmapData();
      for (const auto& constraint : constraints)
        if (!nodes.Contains(constraint.node_id) || !submaps.Contains(constraint.submap_id)) {
          std::lock_guard<std::mutex> lock(wrong_mutex);
          wrong = "a constraint refers to what is not there";
        }
      std::this_thread::yield();
    }
    for (auto& thread : threads) thread.join();
    graph.RunFinalOptimization();
    PBT_CHECK(wrong.empty()) << wrong;
    PBT_CHECK_EQ(at_once.load(), 0) << "two optimizations at once";
    PBT_CHECK(optimizations > 0) << "no optimization";
    const auto nodes = graph.GetTrajectoryNodes();
    PBT_CHECK_EQ(nodes.size(), size_t(total)) << "nodes";
    for (const auto& e : model.nodes) {
      PBT_CHECK(nodes.Contains(e.first) && nodes.at(e.first).constant_data == e.second.data) << "node " << e.first;
      PBT_CHECK(Near(nodes.at(e.first).global_pose, e.second.data->local_pose, 1e-6, 1e-5)) << "pose of node " << e.first;
    }
    PBT_CHECK_EQ(graph.GetAllSubmapData().size(), model.subs.size()) << "submaps";
    for (const auto& e : model.subs) PBT_CHECK(graph.GetSubmapData(e.first).submap == e.second.submap) << "submap " << e.first;
    CheckConstraints(graph.constraints(), session.Intra(true), inter, options, nullptr);
  }
}
PBT_FACET(threads_2d, o.weight = 1; o.hang_is_violation = true; o.nondeterministic = true; o.rule = "several trajectories and pairs to search") { Threads<D2>(s); }
PBT_FACET(threads_3d, o.weight = 1; o.hang_is_violation = true; o.nondeterministic = true; o.rule = "several trajectories and pairs to search") { Threads<D3>(s); }
PBT_FACET(history_2d, o.weight = 3; o.hang_is_violation = true; o.rule = "at least three nodes") { History<D2>(s); }
PBT_FACET(history_3d, o.weight = 3; o.hang_is_violation = true; o.rule = "at least three nodes") { History<D3>(s); }
}  // namespace
