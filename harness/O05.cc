// O05: the search for loop closures.
#include <map>
#include <mutex>
#include <set>
#include <sstream>

#include "absl/synchronization/notification.h"
#include "absl/types/optional.h"
#include "geo.h"
#include "pool.h"

#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
namespace sm = mapping::scan_matching;
using mapping::NodeId;
using mapping::SubmapId;
using mapping::constraints::ConstraintBuilder2D;
using mapping::constraints::ConstraintBuilder3D;
using mapping::constraints::proto::ConstraintBuilderOptions;
using transform::Rigid2d;
using transform::Rigid3d;
using Node = mapping::TrajectoryNode::Data;
using Constraint = mapping::PoseGraphInterface::Constraint;

ConstraintBuilderOptions GenOptions(pbt::Source& s) {
  ConstraintBuilderOptions o;
  o.set_sampling_ratio(s.Pick(std::vector<double>{1., 0.3, 0.5, 0., 0.75}));
  o.set_max_constraint_distance(s.Pick(std::vector<double>{1., 15., 0.3}));
  o.set_min_score(s.Pick(std::vector<double>{0.4, 0.55, 0.2, 0.7}));
  o.set_global_localization_min_score(s.Pick(std::vector<double>{0.5, 0.6, 0.3, 0.7}));
  o.set_loop_closure_translation_weight(s.Pick(std::vector<double>{1.1e4, 2., 0.5}));
  o.set_loop_closure_rotation_weight(s.Pick(std::vector<double>{1e5, 3., 0.25}));
  o.set_log_matches(s.Bits(1));
  auto* f = o.mutable_fast_correlative_scan_matcher_options();
  f->set_linear_search_window(0.35);
  f->set_angular_search_window(0.2);
  f->set_branch_and_bound_depth(3);
  auto* c = o.mutable_ceres_scan_matcher_options();
  c->set_occupied_space_weight(20.);
  c->set_translation_weight(10.);
  c->set_rotation_weight(1.);
  c->mutable_ceres_solver_options()->set_max_num_iterations(5);
  c->mutable_ceres_solver_options()->set_num_threads(1);
  auto* f3 = o.mutable_fast_correlative_scan_matcher_options_3d();
  f3->set_branch_and_bound_depth(6);
  f3->set_full_resolution_depth(3);
  f3->set_min_rotational_score(s.Pick(std::vector<double>{0., 0.5, 0.9}));
  f3->set_min_low_resolution_score(s.Pick(std::vector<double>{0., 0.3, 0.5}));
  f3->set_linear_xy_search_window(0.6);
  f3->set_linear_z_search_window(0.4);
  f3->set_angular_search_window(0.15);
  auto* c3 = o.mutable_ceres_scan_matcher_options_3d();
  c3->add_occupied_space_weight(5.);
  c3->add_occupied_space_weight(20.);
  c3->set_translation_weight(10.);
  c3->set_rotation_weight(1.);
  c3->set_only_optimize_yaw(s.Bits(1));
  c3->mutable_ceres_solver_options()->set_max_num_iterations(4);
  c3->mutable_ceres_solver_options()->set_num_threads(1);
  return o;
}

// ---------------------------------------------------------------- two dimensions
struct World2 {
  using Builder = ConstraintBuilder2D;
  struct Sub {
    std::shared_ptr<mapping::Submap2D> submap;
    std::vector<Eigen::Vector3d> marks;  // In the submap frame.
    std::unique_ptr<sm::FastCorrelativeScanMatcher2D> matcher;
    Rigid2d frame;
  };
  struct Guess {
    Rigid2d relative;
  };
  mapping::ValueConversionTables tables;
  std::vector<Sub> subs;
  std::vector<std::unique_ptr<Node>> nodes;
  ConstraintBuilderOptions options;

  void Generate(pbt::Source& s) {
    for (int n = s.Int(1, 3); n > 0; --n) {
      Sub sub;
      const int nx = s.Int(8, 20), ny = s.Int(8, 20);
      const double res = 0.1;
      const Eigen::Vector2d max(s.Real(-2, 2), s.Real(-2, 2));
      mapping::ProbabilityGrid grid(mapping::MapLimits(res, max, mapping::CellLimits(nx, ny)), &tables);
      sub.frame = Rigid2d({max.x() - res * ny / 2, max.y() - res * nx / 2}, s.Bits(1) ? 0. : GenAngle(s));
      const int count = s.Int(3, 20);
      for (int k = 0; k < count; ++k) {
        const Eigen::Array2i c(s.Int(0, nx - 1), s.Int(0, ny - 1));
        if (grid.IsKnown(c)) continue;
        grid.SetProbability(c, 0.9);
        const Eigen::Vector2d p = sub.frame.inverse() * grid.limits().GetCellCenter(c).cast<double>();
        sub.marks.emplace_back(p.x(), p.y(), 0.);
      }
      mapping::proto::Submap2D proto;
      proto.set_finished(true);
      proto.set_num_range_data(3);
      *proto.mutable_local_pose() = transform::ToProto(transform::Embed3D(sub.frame));
      *proto.mutable_grid() = grid.ToProto();
      sub.submap = std::make_shared<mapping::Submap2D>(proto, &tables);
      sub.matcher = std::make_unique<sm::FastCorrelativeScanMatcher2D>(*sub.submap->grid(), options.fast_correlative_scan_matcher_options());
      subs.push_back(std::move(sub));
    }
    for (int n = s.Int(1, 4); n > 0; --n) {
      // Seen from somewhere in one of the submaps, or nonsense.
      auto node = std::make_unique<Node>();
      const Sub& sub = s.Pick(subs);
      const Rigid3d from = transform::Embed3D(GenRigid2(s, 0.4, 0.3));
      const bool real = s.Chance(0.8);
      for (const auto& mark : sub.marks)
        node->filtered_gravity_aligned_point_cloud.push_back({(real ? from.inverse() * mark : GenVector(s, 1.)).cast<float>()});
      nodes.push_back(std::move(node));
    }
  }
  Guess GenGuess(pbt::Source& s) { return {GenRigid2(s, s.Pick(std::vector<double>{0.4, 0.9, 12.}), 0.4)}; }
  double Distance(const Guess& g) const { return g.relative.translation().norm(); }
  void AddLocal(Builder* b, const SubmapId& id, const Sub& sub, const NodeId& node_id, const Node& node, const Guess& g) const {
    b->MaybeAddConstraint(id, sub.submap.get(), node_id, &node, g.relative);
  }
  void AddGlobal(Builder* b, const SubmapId& id, const Sub& sub, const NodeId& node_id, const Node& node, const Guess&) const {
    b->MaybeAddGlobalConstraint(id, sub.submap.get(), node_id, &node);
  }
  absl::optional<Rigid3d> Expected(const Sub& sub, const Node& node, const Guess& g, bool global) const {
    float score = 0;
    Rigid2d pose;
    const auto& cloud = node.filtered_gravity_aligned_point_cloud;
    const bool found = global ? sub.matcher->MatchFullSubmap(cloud, options.global_localization_min_score(), &score, &pose)
                              : sub.matcher->Match(sub.frame * g.relative, cloud, options.min_score(), &score, &pose);
    if (!found) return absl::nullopt;
    ceres::Solver::Summary summary;
    const Rigid2d start = pose;
    sm::CeresScanMatcher2D(options.ceres_scan_matcher_options()).Match(start.translation(), start, cloud, *sub.submap->grid(), &pose, &summary);
    return transform::Embed3D(sub.frame.inverse() * pose);
  }
  static double GlobalChance() { return 0.3; }
};

// ---------------------------------------------------------------- three dimensions
struct World3 {
  using Builder = ConstraintBuilder3D;
  struct Sub {
    std::shared_ptr<mapping::Submap3D> submap;
    std::vector<Eigen::Vector3d> marks;  // In the submap frame.
    std::unique_ptr<sm::FastCorrelativeScanMatcher3D> matcher;
    Eigen::VectorXf histogram;
  };
  struct Guess {
    Rigid3d node, submap;
  };
  std::vector<Sub> subs;
  std::vector<std::unique_ptr<Node>> nodes;
  ConstraintBuilderOptions options;

  static Eigen::VectorXf GenHistogram(pbt::Source& s) {
    Eigen::VectorXf h(8);
    for (int i = 0; i < 8; ++i) h[i] = s.Real(0., 1.);
    return h;
  }
  void Generate(pbt::Source& s) {
    mapping::proto::RangeDataInserterOptions3D insert;
    insert.set_hit_probability(0.9);
    insert.set_miss_probability(0.45);
    insert.set_num_free_space_voxels(0);
    insert.set_intensity_threshold(100.);
    const mapping::RangeDataInserter3D inserter(insert);
    for (int n = s.Int(1, 2); n > 0; --n) {
      Sub sub;
      const Rigid3d frame = GenRigid3(s, 3., s.Bits(1) ? 0. : 0.5);
      sub.histogram = GenHistogram(s);
      sub.submap = std::make_shared<mapping::Submap3D>(0.2f, 0.6f, frame, Eigen::VectorXf::Zero(8));
      sensor::RangeData data;
      data.origin = frame.translation().cast<float>();
      for (int k = s.Int(3, 15); k > 0; --k) {
        const Eigen::Vector3d p = GenVector(s, 1.2);
        sub.marks.push_back(p);
        data.returns.push_back({(frame * p).cast<float>()});
      }
      for (int k = s.Int(1, 3); k > 0; --k) sub.submap->InsertData(data, inserter, 10.f, frame.rotation(), sub.histogram);
      sub.submap->Finish();
      sub.matcher = std::make_unique<sm::FastCorrelativeScanMatcher3D>(sub.submap->high_resolution_hybrid_grid(), &sub.submap->low_resolution_hybrid_grid(),
                                                                      &sub.submap->rotational_scan_matcher_histogram(), options.fast_correlative_scan_matcher_options_3d());
      subs.push_back(std::move(sub));
    }
    for (int n = s.Int(1, 3); n > 0; --n) {
      auto node = std::make_unique<Node>();
      const Sub& sub = s.Pick(subs);
      const Rigid3d from(GenVector(s, 0.4), GenRotation(s, 0.2));
      const bool real = s.Chance(0.8);
      for (const auto& mark : sub.marks) {
        const Eigen::Vector3f p = (real ? from.inverse() * mark : GenVector(s, 1.2)).cast<float>();
        node->high_resolution_point_cloud.push_back({p});
        if (s.Chance(0.7)) node->low_resolution_point_cloud.push_back({p});
      }
      if (node->low_resolution_point_cloud.empty()) node->low_resolution_point_cloud.push_back({Eigen::Vector3f::Zero()});
      node->gravity_alignment = from.rotation();
      node->rotational_scan_matcher_histogram = s.Bits(1) ? sub.histogram : GenHistogram(s);
      nodes.push_back(std::move(node));
    }
  }
  Guess GenGuess(pbt::Source& s) {
    Guess g;
    g.submap = GenRigid3(s, 5., s.Bits(1) ? 0. : 0.2);
    g.node = g.submap * Rigid3d(GenVector(s, s.Pick(std::vector<double>{0.4, 0.7, 12.})), GenRotation(s, 0.2));
    return g;
  }
  double Distance(const Guess& g) const { return (g.node.translation() - g.submap.translation()).norm(); }
  void AddLocal(Builder* b, const SubmapId& id, const Sub& sub, const NodeId& node_id, const Node& node, const Guess& g) const {
    b->MaybeAddConstraint(id, sub.submap.get(), node_id, &node, g.node, g.submap);
  }
  void AddGlobal(Builder* b, const SubmapId& id, const Sub& sub, const NodeId& node_id, const Node& node, const Guess& g) const {
    b->MaybeAddGlobalConstraint(id, sub.submap.get(), node_id, &node, g.node.rotation(), g.submap.rotation());
  }
  absl::optional<Rigid3d> Expected(const Sub& sub, const Node& node, const Guess& g, bool global) const {
    const auto found = global ? sub.matcher->MatchFullSubmap(g.node.rotation(), g.submap.rotation(), node, options.global_localization_min_score())
                              : sub.matcher->Match(g.node, g.submap, node, options.min_score());
    if (!found) return absl::nullopt;
    ceres::Solver::Summary summary;
    Rigid3d pose;
    sm::CeresScanMatcher3D(options.ceres_scan_matcher_options_3d())
        .Match(found->pose_estimate.translation(), found->pose_estimate,
               {{&node.high_resolution_point_cloud, &sub.submap->high_resolution_hybrid_grid(), nullptr},
                {&node.low_resolution_point_cloud, &sub.submap->low_resolution_hybrid_grid(), nullptr}},
               &pose, &summary);
    return pose;
  }
  static double GlobalChance() { return 0.05; }
};

struct Wanted {
  SubmapId submap;
  NodeId node;
  Rigid3d pose;
};
void CompareResults(const std::vector<Constraint>& got, const std::vector<Wanted>& want, const ConstraintBuilderOptions& o) {
  PBT_CHECK_EQ(got.size(), want.size()) << "constraints found";
  for (size_t i = 0; i < got.size(); ++i) {
    PBT_CHECK(got[i].submap_id == want[i].submap && got[i].node_id == want[i].node)
        << "constraint " << i << " is between " << got[i].submap_id << " and " << got[i].node_id << " instead of " << want[i].submap << " and " << want[i].node;
    PBT_CHECK(got[i].tag == Constraint::INTER_SUBMAP) << "tag";
    PBT_CHECK_EQ(got[i].pose.translation_weight, o.loop_closure_translation_weight()) << "translation weight";
    PBT_CHECK_EQ(got[i].pose.rotation_weight, o.loop_closure_rotation_weight()) << "rotation weight";
    PBT_CHECK(Near(got[i].pose.zbar_ij, want[i].pose, 1e-6, 1e-6)) << "relative pose " << got[i].pose.zbar_ij << " instead of " << want[i].pose;
  }
}

template <typename World>
void History(pbt::Source& s, bool threads) {
  // Everything tasks refer to is deliberately not destroyed when a check fails: the destructors insist on finished work.
  World& world = *new World;
  world.options = GenOptions(s);
  world.Generate(s);
  auto* const steps_owned = new pool::StepPool;
  pool::StepPool& steps = *steps_owned;
  common::ThreadPool* const workers = threads ? new common::ThreadPool(s.Int(1, 4)) : nullptr;
  const auto id_of = [](int i) { return SubmapId{i % 2, i}; };
  std::map<int, std::pair<int64_t, int64_t>> sampler;  // Pulses and samples.
  int total_nodes = 0;
  std::ostringstream log;
  {
    auto* const owned = new typename World::Builder(world.options, threads ? static_cast<common::ThreadPoolInterface*>(workers) : &steps);
    typename World::Builder& builder = *owned;
    PBT_CHECK_EQ(builder.GetNumFinishedNodes(), 0) << "finished nodes at first";
    int next_node = 0;
    for (int cycle = s.Len(1, 3); cycle > 0; --cycle) {
      std::vector<Wanted> want;
      int calls = 0, skipped = 0;
      for (int n = s.Len(0, 4); n > 0; --n) {
        for (int k = s.Len(0, 3); k > 0; --k) {
          const int i = s.Int(0, int(world.subs.size()) - 1), j = s.Int(0, int(world.nodes.size()) - 1);
          const auto guess = world.GenGuess(s);
          const bool global = s.Chance(World::GlobalChance());
          const NodeId node_id{s.Int(0, 1), next_node++};
          ++calls;
          bool tried = true;
          if (!global) {
            const double distance = world.Distance(guess);
            if (std::abs(distance - world.options.max_constraint_distance()) < 1e-9) throw pbt::Discard();
            tried = distance <= world.options.max_constraint_distance();
            if (tried) {
              auto& e = sampler[i];
              ++e.first;
              tried = double(e.second) / e.first < world.options.sampling_ratio();
              if (tried) ++e.second;
            }
          }
          if (global) world.AddGlobal(&builder, id_of(i), world.subs[i], node_id, *world.nodes[j], guess);
          else world.AddLocal(&builder, id_of(i), world.subs[i], node_id, *world.nodes[j], guess);
          if (!tried) {
            ++skipped;
            continue;
          }
          const auto pose = world.Expected(world.subs[i], *world.nodes[j], guess, global);
          s.LabelIf(pose && global, "global match");
          s.LabelIf(pose && !global, "local match");
          if (pose) want.push_back({id_of(i), node_id, *pose});
          if (!threads)
            while (steps.ready() && s.Chance(0.3)) steps.Run(s.Int(0, int(steps.ready()) - 1));
        }
        builder.NotifyEndOfNode();
        ++total_nodes;
        PBT_CHECK(builder.GetNumFinishedNodes() <= total_nodes) << "more nodes finished than started";
      }
      struct Report {
        std::mutex mutex;
        int called = 0;
        std::vector<Constraint> got;
        int finished = -1;
        absl::Notification done;
      };
      const auto report = std::make_shared<Report>();
      std::mutex& mutex = report->mutex;
      int& called = report->called;
      std::vector<Constraint>& got = report->got;
      int& finished = report->finished;
      absl::Notification& done = report->done;
      builder.WhenDone([report, owned](const std::vector<Constraint>& result) {
        const int n = owned->GetNumFinishedNodes();
        std::lock_guard<std::mutex> lock(report->mutex);
        if (++report->called > 1) return;
        report->got = result;
        report->finished = n;
        report->done.Notify();
      });
      if (threads) {
        PBT_CHECK(done.WaitForNotificationWithTimeout(absl::Seconds(20))) << "no result";
      } else {
        while (steps.ready()) steps.Run(s.Int(0, int(steps.ready()) - 1));
        PBT_CHECK_EQ(steps.waiting(), size_t(0)) << "tasks that can never run";
      }
      {
        std::lock_guard<std::mutex> lock(mutex);
        PBT_CHECK_EQ(called, 1) << "results reported";
      }
      PBT_CHECK_EQ(finished, total_nodes) << "finished nodes when the result was reported";
      CompareResults(got, want, world.options);
      if (want.size() >= 2 && int(want.size()) < calls) s.NonTrivial();
      log << calls << " searches, " << skipped << " skipped, " << want.size() << " found; ";
      if (s.Chance(0.2)) {
        const int i = s.Int(0, int(world.subs.size()) - 1);
        builder.DeleteScanMatcher(id_of(i));
        sampler.erase(i);
        s.Label("matcher deleted");
      }
    }
    delete workers;  // Waits for the last task.
    delete owned;
  }
  delete steps_owned;
  delete &world;
  if (s.Sampling()) s.Describe(log.str());
}

PBT_FACET(loop_closures_2d, o.rule =
    "random submaps, scans, options and histories of local and global searches, ends of nodes and result requests under random task schedules: found exactly the near, sampled searches that "
    "score enough, in order, once, with the refined pose; non-trivial: two constraints found, one search without") {
  History<World2>(s, false);
}
PBT_FACET(loop_closures_3d, o.weight = 0.7; o.case_timeout_s = 60; o.rule =
    "the same in three dimensions; non-trivial: two constraints found, one search without") {
  History<World3>(s, false);
}
PBT_FACET(loop_closures_threads, o.weight = 0.5; o.nondeterministic = true; o.case_timeout_s = 60; o.rule =
    "the same in two dimensions with one to four real threads; non-trivial: two constraints found, one search without") {
  History<World2>(s, true);
}
}  // namespace
