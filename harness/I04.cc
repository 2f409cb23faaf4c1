// I04: the filtering stages of the points pipeline.
#include <algorithm>
#include <array>
#include <set>

#include "pipeline.h"

namespace {
using namespace pipeline_h;

struct Stage {
  std::string lua;
  std::function<Batches(const Batches&)> model;
  int extra_passes = 0;
};

PointsBatch Select(const PointsBatch& b, const std::vector<bool>& keep) {
  PointsBatch out = b;
  out.points.clear();
  out.colors.clear();
  out.intensities.clear();
  for (size_t i = 0; i != keep.size(); ++i) {
    if (!keep[i]) continue;
    out.points.push_back(b.points[i]);
    if (!b.colors.empty()) out.colors.push_back(b.colors[i]);
    if (!b.intensities.empty()) out.intensities.push_back(b.intensities[i]);
  }
  return out;
}

template <typename F>
Batches Filter(const Batches& in, F keep_point) {
  Batches out;
  for (const PointsBatch& b : in) {
    std::vector<bool> keep;
    for (const auto& p : b.points) keep.push_back(keep_point(b, p.position));
    out.push_back(Select(b, keep));
  }
  return out;
}

bool InRange(const double x, const double lo, const double hi, const bool exact) {
  if (!exact && (std::abs(x - lo) < 1e-4 || std::abs(x - hi) < 1e-4)) throw pbt::Discard();
  return lo <= x && x <= hi;
}

Stage GenRange(pbt::Source& s, const bool exact) {
  Stage st;
  double lo = exact ? s.Int(0, 24) * 0.25 : s.Real(0., 6.);
  double hi = exact ? s.Int(0, 48) * 0.25 : s.Real(0., 12.);
  if (lo > hi && !s.Chance(1. / 8)) std::swap(lo, hi);
  st.lua = "{ action = \"min_max_range_filter\", min_range = " + Num(lo) + ", max_range = " + Num(hi) + " },\n";
  st.model = [=](const Batches& in) {
    return Filter(in, [=](const PointsBatch& b, const Eigen::Vector3f& p) {
      const double d2 = (p.cast<double>() - b.origin.cast<double>()).squaredNorm();
      // Exact for lattice points: both sides are small dyadic numbers.
      if (exact) return lo * lo <= d2 && d2 <= hi * hi;
      return InRange(std::sqrt(d2), lo, hi, false);
    });
  };
  return st;
}

Stage GenVertical(pbt::Source& s, const bool exact) {
  Stage st;
  double lo = exact ? s.Int(-32, 32) * 0.25 : s.Real(-8., 8.);
  double hi = exact ? s.Int(-32, 32) * 0.25 : s.Real(-8., 8.);
  if (lo > hi && !s.Chance(1. / 8)) std::swap(lo, hi);
  st.lua = "{ action = \"vertical_range_filter\", min_z = " + Num(lo) + ", max_z = " + Num(hi) + " },\n";
  st.model = [=](const Batches& in) {
    return Filter(in, [=](const PointsBatch& b, const Eigen::Vector3f& p) {
      return InRange(static_cast<double>(p.z()) - static_cast<double>(b.origin.z()), lo, hi, exact);
    });
  };
  return st;
}

Stage GenSampler(pbt::Source& s) {
  Stage st;
  const double ratio = s.Bits(2) ? s.Int(1, 15) / 16. : s.Real(0.02, 0.98);
  st.lua = "{ action = \"fixed_ratio_sampler\", sampling_ratio = " + Num(ratio) + " },\n";
  st.model = [=](const Batches& in) {
    int64_t seen = 0, kept = 0;
    return Filter(in, [=](const PointsBatch&, const Eigen::Vector3f&) mutable {
      ++seen;
      const double due = ratio * seen;
      if (std::abs(due - std::round(due)) < 1e-7 && ratio * 16 != std::round(ratio * 16)) throw pbt::Discard();
      const int64_t want = static_cast<int64_t>(std::ceil(due));
      const bool keep = want > kept;
      kept = want;
      return keep;
    });
  };
  return st;
}

Stage GenFrames(pbt::Source& s) {
  Stage st;
  std::set<std::string> chosen;
  const int n = s.Int(1, 3);
  for (int i = 0; i != n; ++i) chosen.insert(s.Chance(1. / 8) ? "other" : Frames()[s.Bits(Frames().size() - 1)]);
  const bool keep = s.Bits(1);
  std::string list;
  for (const auto& f : chosen) list += "\"" + f + "\", ";
  st.lua = std::string("{ action = \"frame_id_filter\", ") + (keep ? "keep" : "drop") + "_frames = {" + list + "} },\n";
  st.model = [=](const Batches& in) {
    return Filter(in, [=](const PointsBatch& b, const Eigen::Vector3f&) { return (chosen.count(b.frame_id) != 0) == keep; });
  };
  return st;
}

Stage GenColoring(pbt::Source& s) {
  Stage st;
  const std::string frame = Frames()[s.Bits(Frames().size() - 1)];
  const int r = s.IntEdge(0, 255), g = s.IntEdge(0, 255), b = s.IntEdge(0, 255);
  st.lua = "{ action = \"color_points\", frame_id = \"" + frame + "\", color = { " + std::to_string(r) + "., " + std::to_string(g) + "., " + std::to_string(b) + ". } },\n";
  st.model = [=](const Batches& in) {
    Batches out = in;
    for (PointsBatch& batch : out)
      if (batch.frame_id == frame) batch.colors.assign(batch.points.size(), FloatColor{{r / 255.f, g / 255.f, b / 255.f}});
    return out;
  };
  return st;
}

Stage GenIntensity(pbt::Source& s) {
  Stage st;
  const bool any = s.Bits(1);
  const std::string frame = any ? "" : Frames()[s.Bits(Frames().size() - 1)];
  const double lo = s.Int(-100, 300), hi = lo + s.Int(1, 4000);
  st.lua = "{ action = \"intensity_to_color\", min_intensity = " + Num(lo) + ", max_intensity = " + Num(hi) + ", " + (any ? std::string() : "frame_id = \"" + frame + "\", ") + "},\n";
  st.model = [=](const Batches& in) {
    Batches out = in;
    for (PointsBatch& batch : out) {
      if (batch.intensities.empty()) continue;
      if (!frame.empty() && batch.frame_id != frame) continue;
      batch.colors.clear();
      for (const float i : batch.intensities) {
        const float gray = static_cast<float>(std::min(1., std::max(0., (i - lo) / (hi - lo))));
        batch.colors.push_back({{gray, gray, gray}});
      }
    }
    return out;
  };
  return st;
}

using Index = std::array<int, 3>;
// The voxels of a position; several if it is too close to a boundary to tell.
std::vector<Index> Voxels(const Eigen::Vector3d& p, const double size) {
  std::vector<Index> out(1);
  for (int i = 0; i != 3; ++i) {
    const double v = p[i] / size;
    const int a = static_cast<int>(std::lround(v - 1e-4)), b = static_cast<int>(std::lround(v + 1e-4));
    const size_t n = out.size();
    for (size_t j = 0; j != n; ++j) {
      if (a != b) {
        Index other = out[j];
        other[i] = b;
        out.push_back(other);
      }
      out[j][i] = a;
    }
  }
  return out;
}

Stage GenOutliers(pbt::Source& s, const bool exact) {
  Stage st;
  st.extra_passes = 2;
  const double size = exact ? s.Pick(std::vector<double>{0.5, 1., 0.25, 2.}) : s.Real(0.2, 2.);
  const bool given = s.Bits(1);
  const double limit = given ? s.Int(0, 24) * 0.25 : 3.;
  st.lua = "{ action = \"voxel_filter_and_remove_moving_objects\", voxel_size = " + Num(size) + ", " +
           (given ? "miss_per_hit_limit = " + Num(limit) + ", " : std::string()) + "},\n";
  st.model = [=](const Batches& in) {
    std::map<Index, int> hits, rays_min, rays_max;
    for (const PointsBatch& b : in)
      for (const auto& p : b.points) {
        const auto voxels = Voxels(p.position.cast<double>(), size);
        if (voxels.size() != 1) throw pbt::Discard();
        ++hits[voxels[0]];
      }
    for (const PointsBatch& b : in)
      for (const auto& p : b.points) {
        const Eigen::Vector3d origin = b.origin.cast<double>(), delta = p.position.cast<double>() - origin;
        const double length = delta.norm();
        for (int i = 0;; ++i) {
          const double x = i * size;
          if (x == length ? exact : x > length + 1e-4) break;
          const bool certain = x < length - 1e-4;
          if (length == 0.) break;
          const auto voxels = Voxels(origin + x / length * delta, size);
          for (const Index& v : voxels) {
            ++rays_max[v];
            if (certain && voxels.size() == 1) ++rays_min[v];
          }
        }
      }
    return Filter(in, [&](const PointsBatch&, const Eigen::Vector3f& p) {
      const Index v = Voxels(p.cast<double>(), size)[0];
      const bool keep_max = rays_max[v] < limit * hits[v], keep_min = rays_min[v] < limit * hits[v];
      if (keep_max != keep_min) throw pbt::Discard();
      return keep_max;
    });
  };
  return st;
}

Stage GenCount() {
  Stage st;
  st.lua = "{ action = \"dump_num_points\" },\n";
  st.model = [](const Batches& in) { return in; };
  return st;
}

Stage GenLaterPass(pbt::Source& s) {
  Stage st;
  st.extra_passes = s.Int(1, 3);
  st.lua = "{ action = \"later_pass\", skip = " + std::to_string(st.extra_passes) + " },\n";
  st.model = [](const Batches& in) { return in; };
  return st;
}

void Check(pbt::Source& s, const GenOptions& o, const std::vector<Stage>& stages) {
  const Batches input = Gen(s, o);
  std::string lua;
  std::vector<Batches> expected;  // before stage i, and at the end
  expected.push_back(input);
  for (const Stage& st : stages) expected.push_back(st.model(expected.back()));
  int total = 1;
  for (const Stage& st : stages) total += st.extra_passes;
  std::vector<bool> tapped;
  for (size_t i = 0; i <= stages.size(); ++i) {
    tapped.push_back(i == stages.size() || s.Bits(1));
    if (tapped.back()) lua += "{ action = \"tap\", index = " + std::to_string(i) + " },\n";
    if (i < stages.size()) lua += stages[i].lua;
  }
  Run run;
  Execute(lua, {}, input, &run);
  if (s.Sampling()) s.Describe("stages:\n" + lua + "batches: " + Show(input) + " -> " + Show(expected.back()));
  PBT_CHECK_EQ(run.passes, total) << lua;
  int seen = total;
  for (size_t i = 0; i <= stages.size(); ++i) {
    if (i != 0) seen -= stages[i - 1].extra_passes;
    if (!tapped[i]) continue;
    const Tap& tap = run.taps[i];
    PBT_CHECK(tap.finished) << "the end of the stream does not reach position " << i << " of\n" << lua;
    // Every pass which gets this far is the same one.
    PBT_CHECK_EQ(static_cast<int>(tap.passes.size()), seen) << "passes at position " << i << " of\n" << lua;
    for (size_t pass = 0; pass != tap.passes.size(); ++pass) {
      const std::string difference = Compare(tap.passes[pass], expected[i]);
      PBT_CHECK(difference.empty()) << "at position " << i << " in pass " << pass << ": " << difference << "\n" << lua << "input " << Show(input);
    }
  }
  const size_t in = CountPoints(input), out = CountPoints(expected.back());
  s.LabelIf(total > 1, "several passes");
  s.LabelIf(out == 0 && in != 0, "nothing left");
  s.LabelIf(out != 0 && out < in, "some removed");
  s.NonTrivial(in >= 2 && !Compare(input, expected.back()).empty());
}

PBT_FACET(pipeline, o.weight = 3; o.rule = "at least two points enter the pipeline and it does not leave them all as they were") {
  GenOptions o;
  o.exact = s.Bits(3) != 0;
  const int n = s.Len(1, 5);
  std::vector<Stage> stages;
  for (int i = 0; i != n; ++i) {
    switch (s.Weighted({3, 3, 3, 3, 2, 2, 1, 1, 1})) {
      case 0: stages.push_back(GenRange(s, o.exact)); break;
      case 1: stages.push_back(GenVertical(s, o.exact)); break;
      case 2: stages.push_back(GenSampler(s)); break;
      case 3: stages.push_back(GenFrames(s)); break;
      case 4: stages.push_back(GenColoring(s)); break;
      case 5: stages.push_back(GenIntensity(s)); break;
      case 6: stages.push_back(GenCount()); break;
      case 7: stages.push_back(GenLaterPass(s)); break;
      default:
        // What follows it must finish in one pass.
        stages.push_back(GenOutliers(s, o.exact));
    }
  }
  // The outlier removal requires that the stages after it need one pass only.
  bool multi = false;
  for (size_t i = stages.size(); i-- > 0;) {
    if (stages[i].extra_passes == 0) continue;
    if (multi && stages[i].lua.find("moving_objects") != std::string::npos) stages[i] = GenCount();
    else multi = true;
  }
  Check(s, o, stages);
}

PBT_FACET(outliers, o.weight = 2; o.rule = "at least two points enter and some are removed") {
  GenOptions o;
  o.exact = s.Bits(2) != 0;
  o.extent = s.Pick(std::vector<int>{4, 8, 16, 1});
  o.max_points = 16;
  std::vector<Stage> stages;
  if (s.Chance(1. / 3)) stages.push_back(GenSampler(s));
  if (s.Chance(1. / 3)) stages.push_back(GenRange(s, o.exact));
  stages.push_back(GenOutliers(s, o.exact));
  if (s.Chance(1. / 3)) stages.push_back(GenSampler(s));
  Check(s, o, stages);
}

// A pipeline which cannot be meant is refused instead of being run as something else.
PBT_FACET(refused, o.weight = 0.1; o.rule = "every case"; o.max_cases = 40) {
  std::string lua;
  switch (s.Bits(5)) {
    case 0: lua = "{ action = \"fixed_ratio_sampler\", sampling_ratio = " + Num(s.Pick(std::vector<double>{0., 1., -0.5, 1.5})) + " },\n"; break;
    case 1: lua = "{ action = \"frame_id_filter\" },\n"; break;
    case 2: lua = "{ action = \"frame_id_filter\", keep_frames = {\"laser\"}, drop_frames = {\"vertical\"} },\n"; break;
    case 3: lua = "{ action = \"no_such_action\" },\n"; break;
    case 4: lua = "{ action = \"min_max_range_filter\", min_range = 1. },\n"; break;
    default: lua = "{ action = \"voxel_filter_and_remove_moving_objects\", voxel_size = 0.5 },\n{ action = \"voxel_filter_and_remove_moving_objects\", voxel_size = 0.5 },\n"; break;
  }
  s.NonTrivial();
  if (s.Sampling()) s.Describe("refused: " + lua);
  GenOptions o;
  const Batches input = Gen(s, o);
  const int status = pbt::RunForked([&]() {
    Run run;
    Execute(lua, {}, input, &run);
  });
  PBT_CHECK_EQ(status, 1) << "accepted:\n" << lua;
}
}  // namespace
