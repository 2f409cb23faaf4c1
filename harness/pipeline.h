// Batches of points, pipelines built from Lua text and in-memory files.
#ifndef VERIF_PIPELINE_H_
#define VERIF_PIPELINE_H_

#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/time.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/points_processor.h"
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "pbt.h"

namespace pipeline_h {
using cartographer::io::FloatColor;
using cartographer::io::PointsBatch;
using cartographer::io::PointsProcessor;
using Batches = std::vector<PointsBatch>;
using Trajectories = std::vector<cartographer::mapping::proto::Trajectory>;

class NoFiles : public cartographer::common::FileResolver {
 public:
  std::string GetFullPathOrDie(const std::string&) override { abort(); }
  std::string GetFileContentOrDie(const std::string&) override { abort(); }
};

inline std::string Num(const double x) {
  char buffer[40];
  snprintf(buffer, sizeof(buffer), "%.17g", x);
  return buffer;
}

inline const std::vector<std::string>& Frames() {
  static const std::vector<std::string> frames = {"laser", "horizontal_laser", "vertical", "", "laser2"};
  return frames;
}

struct GenOptions {
  bool exact = true;       // coordinates on a dyadic lattice
  int max_batches = 8;
  int max_points = 12;
  int extent = 24;         // in lattice units (1/4 m)
  bool uniform_extras = false;  // all batches alike in having colors and intensities
  bool allow_colors = true;
};

inline float Coordinate(pbt::Source& s, const GenOptions& o) {
  return o.exact ? static_cast<float>(s.Int(-o.extent, o.extent)) * 0.25f + 0.0625f
                 : static_cast<float>(s.Real(-0.25 * o.extent, 0.25 * o.extent));
}

inline Batches Gen(pbt::Source& s, const GenOptions& o) {
  Batches out;
  const int n = s.Len(0, o.max_batches);
  const bool all_colors = o.allow_colors && s.Bits(1), all_intensities = s.Bits(1);
  int64_t time = s.Int(0, 1000000);
  for (int b = 0; b != n; ++b) {
    PointsBatch batch;
    time += s.Int(0, 50000000);
    batch.start_time = cartographer::common::FromUniversal(time);
    for (int i = 0; i != 3; ++i) batch.origin[i] = Coordinate(s, o);
    batch.frame_id = Frames()[s.Bits(Frames().size() - 1)];
    batch.trajectory_id = s.Int(0, 3);
    const bool colors = o.uniform_extras ? all_colors : o.allow_colors && s.Bits(1);
    const bool intensities = o.uniform_extras ? all_intensities : s.Bits(1) == 1;
    const int m = s.Len(0, o.max_points);
    for (int i = 0; i != m; ++i) {
      Eigen::Vector3f p;
      if (i != 0 && s.Chance(1. / 8)) {
        p = batch.points[s.Bits(i - 1)].position;
      } else if (s.Chance(1. / 6)) {  // along an axis from the sensor
        p = batch.origin;
        p[s.Bits(2)] = Coordinate(s, o);
      } else {
        for (int j = 0; j != 3; ++j) p[j] = Coordinate(s, o);
      }
      batch.points.push_back({p});
      if (colors) {
        FloatColor c;
        for (int j = 0; j != 3; ++j) c[j] = s.Chance(1. / 12) ? static_cast<float>(s.Real(-0.5, 1.5)) : s.Int(0, 255) / 255.f;
        batch.colors.push_back(c);
      }
      if (intensities) batch.intensities.push_back(s.Bits(1) ? static_cast<float>(s.Int(0, 4096)) : static_cast<float>(s.Real(0., 300.)));
    }
    out.push_back(std::move(batch));
  }
  return out;
}

inline size_t CountPoints(const Batches& batches) {
  size_t n = 0;
  for (const PointsBatch& b : batches) n += b.points.size();
  return n;
}

inline std::string Show(const Batches& batches) {
  std::ostringstream out;
  for (const PointsBatch& b : batches) {
    out << "[" << b.frame_id << " t=" << cartographer::common::ToUniversal(b.start_time) << " origin=" << b.origin.transpose()
        << " n=" << b.points.size() << (b.colors.empty() ? "" : " colors") << (b.intensities.empty() ? "" : " intensities");
    for (size_t i = 0; i < b.points.size() && i < 4; ++i) out << " (" << b.points[i].position.transpose() << ")";
    out << "] ";
  }
  return out.str();
}

// The same points in the same order with the same attributes; batches without
// points carry nothing and are ignored.
inline std::string Compare(const Batches& got_all, const Batches& want_all) {
  Batches got, want;
  for (const PointsBatch& b : got_all) if (!b.points.empty()) got.push_back(b);
  for (const PointsBatch& b : want_all) if (!b.points.empty()) want.push_back(b);
  std::ostringstream out;
  if (got.size() != want.size()) { out << got.size() << " batches with points instead of " << want.size(); return out.str(); }
  for (size_t i = 0; i != got.size(); ++i) {
    const PointsBatch &g = got[i], &w = want[i];
    out << "batch " << i << ": ";
    if (g.start_time != w.start_time) { out << "time differs"; return out.str(); }
    if (g.origin != w.origin) { out << "origin differs"; return out.str(); }
    if (g.frame_id != w.frame_id) { out << "frame differs"; return out.str(); }
    if (g.trajectory_id != w.trajectory_id) { out << "trajectory differs"; return out.str(); }
    if (g.points.size() != w.points.size()) { out << g.points.size() << " points instead of " << w.points.size(); return out.str(); }
    if (g.colors.size() != w.colors.size()) { out << g.colors.size() << " colors instead of " << w.colors.size(); return out.str(); }
    if (g.intensities.size() != w.intensities.size()) { out << g.intensities.size() << " intensities instead of " << w.intensities.size(); return out.str(); }
    for (size_t j = 0; j != g.points.size(); ++j)
      if (g.points[j].position != w.points[j].position) { out << "point " << j << " is " << g.points[j].position.transpose() << " instead of " << w.points[j].position.transpose(); return out.str(); }
    for (size_t j = 0; j != g.intensities.size(); ++j)
      if (g.intensities[j] != w.intensities[j]) { out << "intensity " << j << " is " << g.intensities[j] << " instead of " << w.intensities[j]; return out.str(); }
    for (size_t j = 0; j != g.colors.size(); ++j)
      for (int k = 0; k != 3; ++k)
        if (!(std::abs(g.colors[j][k] - w.colors[j][k]) <= 1e-5f)) { out << "color " << j << " channel " << k << " is " << g.colors[j][k] << " instead of " << w.colors[j][k]; return out.str(); }
    out.str("");
  }
  return "";
}

// What went by at one place of the pipeline, pass by pass.
struct Tap {
  std::vector<Batches> passes = std::vector<Batches>(1);
  int flushes = 0;
  bool finished = false;
};

class TapProcessor : public PointsProcessor {
 public:
  TapProcessor(Tap* tap, PointsProcessor* next) : tap_(tap), next_(next) {}
  void Process(std::unique_ptr<PointsBatch> batch) override {
    tap_->passes.back().push_back(*batch);
    next_->Process(std::move(batch));
  }
  FlushResult Flush() override {
    ++tap_->flushes;
    const FlushResult result = next_->Flush();
    if (result == FlushResult::kRestartStream) tap_->passes.emplace_back();
    else tap_->finished = true;
    return result;
  }

 private:
  Tap* tap_;
  PointsProcessor* next_;
};

// A user's own stage which needs several passes over the data and lets points
// through in the last one.
class LaterPassProcessor : public PointsProcessor {
 public:
  LaterPassProcessor(int skip, PointsProcessor* next) : skip_(skip), next_(next) {}
  void Process(std::unique_ptr<PointsBatch> batch) override {
    if (skip_ == 0) next_->Process(std::move(batch));
  }
  FlushResult Flush() override {
    if (skip_ == 0) return next_->Flush();
    --skip_;
    return FlushResult::kRestartStream;
  }

 private:
  int skip_;
  PointsProcessor* next_;
};

struct File {
  std::string content;
  bool closed = false;
  int opened = 0;
  std::string misuse;
};

class MemoryFile : public cartographer::io::FileWriter {
 public:
  MemoryFile(const std::string& name, File* file) : name_(name), file_(file) { ++file->opened; }
  // The semantics of the interface: the header goes to the beginning of the
  // file, other writes follow the last one.
  bool WriteHeader(const char* data, size_t len) override {
    position_ = 0;
    return Write(data, len);
  }
  bool Write(const char* data, size_t len) override {
    if (file_->closed) file_->misuse = "written to after having been closed";
    if (position_ > file_->content.size()) file_->misuse = "hole";
    file_->content.replace(position_, std::min(len, file_->content.size() - position_), std::string(data, len));
    position_ += len;
    return true;
  }
  bool Close() override {
    if (file_->closed) file_->misuse = "closed twice";
    file_->closed = true;
    return true;
  }
  std::string GetFilename() override { return name_; }

 private:
  std::string name_;
  File* file_;
  size_t position_ = 0;
};

struct Run {
  std::map<std::string, File> files;
  std::map<int, Tap> taps;
  int passes = 0;
};

// Builds the pipeline from 'lua' (a list of stages; the additional actions are
// "tap" with an 'index' and "later_pass" with 'skip') and streams 'batches'.
inline void Execute(const std::string& lua, const Trajectories& trajectories, const Batches& batches, Run* run) {
  cartographer::io::PointsProcessorPipelineBuilder builder;
  cartographer::io::RegisterBuiltInPointsProcessors(
      trajectories,
      [run](const std::string& name) -> std::unique_ptr<cartographer::io::FileWriter> {
        return absl::make_unique<MemoryFile>(name, &run->files[name]);
      },
      &builder);
  builder.Register("tap", [run](cartographer::common::LuaParameterDictionary* d, PointsProcessor* next) -> std::unique_ptr<PointsProcessor> {
    return absl::make_unique<TapProcessor>(&run->taps[d->GetInt("index")], next);
  });
  builder.Register("later_pass", [](cartographer::common::LuaParameterDictionary* d, PointsProcessor* next) -> std::unique_ptr<PointsProcessor> {
    return absl::make_unique<LaterPassProcessor>(d->GetInt("skip"), next);
  });
  auto dictionary = cartographer::common::LuaParameterDictionary::NonReferenceCounted("return {\n" + lua + "}\n", absl::make_unique<NoFiles>());
  auto pipeline = builder.CreatePipeline(dictionary.get());
  PBT_CHECK(!pipeline.empty());
  for (;;) {
    ++run->passes;
    PBT_CHECK(run->passes < 20) << "the stream is restarted without end";
    for (const PointsBatch& b : batches) pipeline.back()->Process(absl::make_unique<PointsBatch>(b));
    if (pipeline.back()->Flush() == PointsProcessor::FlushResult::kFinished) break;
  }
  pipeline.clear();
  for (auto& f : run->files) PBT_CHECK(f.second.misuse.empty()) << "the file " << f.first << " was " << f.second.misuse;
}

}  // namespace pipeline_h

#endif
