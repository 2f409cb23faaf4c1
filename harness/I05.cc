// I05: the files written from a stream of points hold what was streamed.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>

#include "cairo/cairo.h"
#include "cartographer/io/image.h"
#include "cartographer/io/null_points_processor.h"
#include "cartographer/io/ply_writing_points_processor.h"
#include "cartographer/io/probability_grid_points_processor.h"
#include "cartographer/io/xray_points_processor.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/detect_floors.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/transform/transform.h"
#include "geo.h"
#include "pipeline.h"

// What memory holds before an object is built in it is nobody's promise.
namespace {
unsigned char g_fresh_memory = 0;
}
void* operator new(std::size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  memset(p, g_fresh_memory, n);
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }

namespace {
using namespace pipeline_h;
namespace mapping = cartographer::mapping;
namespace io = cartographer::io;
namespace transform = cartographer::transform;

struct Cloud {
  bool colors = false, intensities = false;
  std::vector<Eigen::Vector3f> points;
  std::vector<std::array<int, 3>> color;
  std::vector<float> intensity;
};

std::vector<std::string> Lines(const std::string& text, const std::string& last, size_t* body) {
  std::vector<std::string> out;
  size_t at = 0;
  for (;;) {
    const size_t end = text.find('\n', at);
    if (end == std::string::npos) { PBT_FAIL() << "the header does not end: " << text.substr(0, 200); }
    out.push_back(text.substr(at, end - at));
    at = end + 1;
    if (out.back() == last) break;
  }
  *body = at;
  return out;
}

std::vector<std::string> Words(const std::string& line) {
  std::istringstream in(line);
  std::vector<std::string> out;
  std::string w;
  while (in >> w) out.push_back(w);
  return out;
}

float ReadFloat(const std::string& bytes, const size_t at) {
  float f;
  PBT_CHECK(at + 4 <= bytes.size()) << "the file ends early";
  memcpy(&f, bytes.data() + at, 4);
  return f;
}
int ReadByte(const std::string& bytes, const size_t at) {
  PBT_CHECK(at < bytes.size()) << "the file ends early";
  return static_cast<unsigned char>(bytes[at]);
}

// A reader for the PLY format (binary, little endian, vertices only).
Cloud ReadPly(const std::string& bytes) {
  Cloud out;
  size_t at = 0;
  const auto lines = Lines(bytes, "end_header", &at);
  PBT_CHECK_EQ(lines[0], "ply");
  PBT_CHECK_EQ(lines[1], "format binary_little_endian 1.0");
  long count = -1;
  std::vector<std::pair<std::string, std::string>> properties;
  for (const std::string& line : lines) {
    const auto w = Words(line);
    if (w[0] == "element") {
      PBT_CHECK(w.size() == 3 && w[1] == "vertex" && count < 0) << line;
      count = std::stol(w[2]);
    } else if (w[0] == "property") {
      PBT_CHECK(w.size() == 3) << line;
      properties.emplace_back(w[1], w[2]);
    }
  }
  PBT_CHECK(count >= 0) << "no vertices in the header";
  for (const auto& p : properties) {
    if (p.second == "red") out.colors = true;
    if (p.second == "intensity") out.intensities = true;
  }
  for (long i = 0; i != count; ++i) {
    std::map<std::string, double> v;
    for (const auto& p : properties) {
      if (p.first == "float") { v[p.second] = ReadFloat(bytes, at); at += 4; }
      else if (p.first == "uchar") { v[p.second] = ReadByte(bytes, at); at += 1; }
      else PBT_FAIL() << "unknown type " << p.first;
    }
    for (const char* name : {"x", "y", "z"}) PBT_CHECK(v.count(name)) << "no " << name;
    out.points.emplace_back(v["x"], v["y"], v["z"]);
    if (out.colors) out.color.push_back({{static_cast<int>(v["red"]), static_cast<int>(v["green"]), static_cast<int>(v["blue"])}});
    if (out.intensities) out.intensity.push_back(v["intensity"]);
  }
  PBT_CHECK_EQ(at, bytes.size()) << "bytes after the last vertex";
  return out;
}

// A reader for the PCD format (binary, version 0.7).
Cloud ReadPcd(const std::string& bytes) {
  Cloud out;
  size_t at = 0;
  const auto lines = Lines(bytes, "DATA binary", &at);
  std::map<std::string, std::vector<std::string>> h;
  for (const auto& line : lines) {
    if (line.empty() || line[0] == '#') continue;
    auto w = Words(line);
    const std::string key = w[0];
    w.erase(w.begin());
    h[key] = w;
  }
  for (const char* key : {"FIELDS", "SIZE", "TYPE", "COUNT", "WIDTH", "HEIGHT", "POINTS"}) PBT_CHECK(h.count(key)) << "no " << key;
  const size_t fields = h["FIELDS"].size();
  PBT_CHECK(h["SIZE"].size() == fields && h["TYPE"].size() == fields && h["COUNT"].size() == fields) << "inconsistent header";
  const long count = std::stol(h["POINTS"].at(0));
  PBT_CHECK_EQ(count, std::stol(h["WIDTH"].at(0)) * std::stol(h["HEIGHT"].at(0)));
  for (long i = 0; i != count; ++i) {
    std::map<std::string, float> v;
    std::array<int, 3> c{{0, 0, 0}};
    bool colored = false;
    for (size_t f = 0; f != fields; ++f) {
      PBT_CHECK(h["SIZE"][f] == "4" && h["COUNT"][f] == "1");
      if (h["FIELDS"][f] == "rgb") {
        PBT_CHECK(h["TYPE"][f] == "U" || h["TYPE"][f] == "F");
        uint32_t u;
        PBT_CHECK(at + 4 <= bytes.size()) << "the file ends early";
        memcpy(&u, bytes.data() + at, 4);
        c = {{static_cast<int>(u >> 16 & 255), static_cast<int>(u >> 8 & 255), static_cast<int>(u & 255)}};
        colored = true;
      } else {
        v[h["FIELDS"][f]] = ReadFloat(bytes, at);
      }
      at += 4;
    }
    for (const char* name : {"x", "y", "z"}) PBT_CHECK(v.count(name)) << "no " << name;
    out.points.emplace_back(v["x"], v["y"], v["z"]);
    out.colors = colored;
    if (colored) out.color.push_back(c);
  }
  PBT_CHECK_EQ(at, bytes.size()) << "bytes after the last point";
  return out;
}

Cloud ReadXyz(const std::string& text) {
  Cloud out;
  std::istringstream in(text);
  std::string line;
  PBT_CHECK(text.empty() || text.back() == '\n') << "the last line is cut";
  while (std::getline(in, line)) {
    const auto w = Words(line);
    PBT_CHECK(w.size() == 3) << line;
    out.points.emplace_back(std::stof(w[0]), std::stof(w[1]), std::stof(w[2]));
  }
  return out;
}

int Channel(const float c) { return static_cast<int>(std::lround(std::min(1., std::max(0., static_cast<double>(c))) * 255.)); }

void CheckCloud(const Cloud& got, const Batches& want, const bool exact, const std::string& what) {
  size_t i = 0;
  for (const PointsBatch& b : want)
    for (size_t j = 0; j != b.points.size(); ++j, ++i) {
      PBT_CHECK(i < got.points.size()) << what << " ends after " << got.points.size() << " points of " << CountPoints(want);
      const Eigen::Vector3f &g = got.points[i], &w = b.points[j].position;
      for (int k = 0; k != 3; ++k)
        PBT_CHECK(exact ? g[k] == w[k] : std::abs(g[k] - w[k]) <= 6e-6 * std::abs(w[k]))
            << what << ": point " << i << " is " << g.transpose() << " instead of " << w.transpose();
      if (got.colors) {
        PBT_CHECK(!b.colors.empty()) << what << ": colors nobody gave";
        for (int k = 0; k != 3; ++k) PBT_CHECK(std::abs(got.color[i][k] - Channel(b.colors[j][k])) <= 1) << what << ": color of point " << i << " channel " << k << " is " << got.color[i][k] << " for " << b.colors[j][k];
      }
      if (got.intensities) {
        PBT_CHECK(!b.intensities.empty()) << what << ": intensities nobody gave";
        PBT_CHECK_EQ(got.intensity[i], b.intensities[j]) << what << ": intensity of point " << i;
      }
    }
  PBT_CHECK_EQ(got.points.size(), i) << what << " has more points than were streamed";
}

std::string GenFilter(pbt::Source& s) {
  switch (s.Weighted({2, 1, 1, 1, 1})) {
    case 0: return "{ action = \"fixed_ratio_sampler\", sampling_ratio = " + Num(s.Int(1, 15) / 16.) + " },\n";
    case 1: return "{ action = \"min_max_range_filter\", min_range = " + Num(s.Int(0, 8)) + ", max_range = " + Num(s.Int(6, 40)) + " },\n";
    case 2: return "{ action = \"frame_id_filter\", keep_frames = { \"" + Frames()[s.Bits(Frames().size() - 1)] + "\" } },\n";
    case 3: return "{ action = \"color_points\", frame_id = \"" + Frames()[s.Bits(Frames().size() - 1)] + "\", color = { 255., 10., 0. } },\n";
    default: return "{ action = \"intensity_to_color\", min_intensity = 0., max_intensity = 4096. },\n";
  }
}

struct Writer {
  std::string kind, file;
  int tap;
};

PBT_FACET(clouds, o.weight = 3; o.rule = "at least two points reach a file") {
  g_fresh_memory = s.Bits(1);
  GenOptions o;
  o.exact = s.Bits(1);
  o.uniform_extras = s.Bits(3) != 0;
  const bool outliers = s.Chance(0.15);
  o.extent = outliers || s.Bits(3) ? 24 : 400000;
  Batches input = Gen(s, o);
  std::string lua;
  std::vector<Writer> writers;
  const int n = s.Int(1, 4);
  if (outliers) lua += "{ action = \"voxel_filter_and_remove_moving_objects\", voxel_size = 1., miss_per_hit_limit = 4. },\n";
  for (int i = 0; i != n; ++i) {
    if (s.Chance(0.4)) lua += GenFilter(s);
    Writer w;
    w.kind = s.Pick(std::vector<std::string>{"ply", "pcd", "xyz"});
    w.file = "out" + std::to_string(i) + "." + w.kind;
    w.tap = i;
    lua += "{ action = \"tap\", index = " + std::to_string(i) + " },\n{ action = \"write_" + w.kind + "\", filename = \"" + w.file + "\" },\n";
    writers.push_back(w);
  }
  lua += "{ action = \"tap\", index = 100 },\n";
  if (s.Sampling()) s.Describe(lua + Show(input));
  // Batches which differ in what they carry may be refused, but not mixed up.
  bool alike = lua.find("color") == std::string::npos;
  int with_points = 0;
  for (const PointsBatch& b : input) {
    if (b.points.empty()) continue;
    ++with_points;
  }
  if (!o.uniform_extras && with_points > 1) alike = false;
  if (!alike) {
    s.Label("batches which may differ");
    const int status = pbt::RunForked([&]() {
      Run run;
      Execute(lua, {}, input, &run);
    });
    PBT_CHECK(status != 2);
    if (status == 1) {
      s.Label("refused");
      // Only a real difference is a reason.
      std::string reduced;
      std::istringstream in(lua);
      std::string line;
      while (std::getline(in, line)) if (line.find("write_") == std::string::npos) reduced += line + "\n";
      Run run;
      Execute(reduced, {}, input, &run);
      bool differ = false;
      for (const Writer& w : writers) {
        int c = -1, k = -1;
        for (const PointsBatch& b : run.taps[w.tap].passes.back()) {
          if (b.points.empty()) continue;
          if (c >= 0 && (c != !b.colors.empty() || k != !b.intensities.empty())) differ = true;
          c = !b.colors.empty();
          k = !b.intensities.empty();
        }
      }
      PBT_CHECK(differ) << "refused although all batches carry the same:\n" << lua << Show(input);
      s.NonTrivial();
      return;
    }
  }
  Run run;
  Execute(lua, {}, input, &run);
  bool tested = false;
  PBT_CHECK_EQ(run.files.size(), writers.size());
  for (const Writer& w : writers) {
    const Batches& want = run.taps[w.tap].passes.back();
    PBT_CHECK(run.files.count(w.file)) << "no " << w.file;
    const File& f = run.files[w.file];
    PBT_CHECK(f.closed) << w.file << " is not closed";
    PBT_CHECK_EQ(f.opened, 1);
    Cloud got = w.kind == "ply" ? ReadPly(f.content) : w.kind == "pcd" ? ReadPcd(f.content) : ReadXyz(f.content);
    CheckCloud(got, want, w.kind != "xyz", w.kind);
    // What all points carry is in the file, if the format has a place for it.
    bool all_colors = true, all_intensities = true, any = false;
    for (const PointsBatch& b : want) {
      if (b.points.empty()) continue;
      any = true;
      all_colors &= !b.colors.empty();
      all_intensities &= !b.intensities.empty();
    }
    if (any && all_colors && w.kind != "xyz") PBT_CHECK(got.colors) << w.kind << " lost the colors";
    if (any && all_intensities && w.kind == "ply") PBT_CHECK(got.intensities) << "intensities lost";
    if (!any) PBT_CHECK(!got.colors && !got.intensities) << w.kind << " of no points claims attributes";
    s.LabelIf(!any, "empty file");
    if (CountPoints(want) >= 2) tested = true;
  }
  PBT_CHECK(run.taps[100].finished);
  s.NonTrivial(tested);
}

PBT_FACET(forwarding, o.weight = 0.6; o.rule = "at least two points pass the writers") {
  GenOptions o;
  o.uniform_extras = true;
  o.extent = 16;
  const Batches input = Gen(s, o);
  std::string lua;
  const std::vector<std::string> writers = {
      "{ action = \"write_ply\", filename = \"a\" },\n", "{ action = \"write_pcd\", filename = \"b\" },\n", "{ action = \"write_xyz\", filename = \"c\" },\n",
      "{ action = \"write_hybrid_grid\", voxel_size = 1., range_data_inserter = { hit_probability = 0.6, miss_probability = 0.4, num_free_space_voxels = 1, intensity_threshold = 40. }, filename = \"d\" },\n",
      "{ action = \"write_probability_grid\", resolution = 0.5, range_data_inserter = { hit_probability = 0.6, miss_probability = 0.4, insert_free_space = true }, filename = \"e\" },\n",
      "{ action = \"write_xray_image\", voxel_size = 0.5, filename = \"f\", transform = { translation = { 0., 0., 0. }, rotation = { 0., 0., 0. } } },\n"};
  const int n = s.Int(1, 3);
  for (int i = 0; i != n; ++i) {
    std::string w = writers[s.Bits(5)];
    const size_t at = w.find("filename = \"") + 12;
    w.insert(at, std::to_string(i));
    lua += w + "{ action = \"tap\", index = " + std::to_string(i) + " },\n";
  }
  Run run;
  Execute(lua, {}, input, &run);
  for (int i = 0; i != n; ++i) {
    PBT_CHECK_EQ(run.taps[i].passes.size(), 1u);
    const std::string difference = Compare(run.taps[i].passes[0], input);
    PBT_CHECK(difference.empty()) << difference << " after a writer in\n" << lua;
    PBT_CHECK(run.taps[i].finished);
  }
  if (s.Sampling()) s.Describe(lua + Show(input));
  s.NonTrivial(CountPoints(input) >= 2);
}

// Comments of a PLY file (a library user's choice) do not disturb the rest.
PBT_FACET(ply_comments, o.weight = 0.3; o.rule = "at least two points and one comment") {
  g_fresh_memory = s.Bits(1);
  GenOptions o;
  o.uniform_extras = true;
  const Batches input = Gen(s, o);
  std::vector<std::string> comments;
  const int n = s.Len(0, 4);
  for (int i = 0; i != n; ++i) comments.push_back(s.Word(1, 12, "abc 0123"));
  File file;
  io::NullPointsProcessor null;
  {
    io::PlyWritingPointsProcessor writer(absl::make_unique<MemoryFile>("f", &file), comments, &null);
    for (const PointsBatch& b : input) writer.Process(absl::make_unique<PointsBatch>(b));
    PBT_CHECK(writer.Flush() == PointsProcessor::FlushResult::kFinished);
  }
  CheckCloud(ReadPly(file.content), input, true, "ply");
  size_t body;
  const auto lines = Lines(file.content, "end_header", &body);
  for (const auto& c : comments) PBT_CHECK(std::find(lines.begin(), lines.end(), "comment " + c) != lines.end()) << "comment '" << c << "' is missing";
  s.NonTrivial(n != 0 && CountPoints(input) >= 2);
  if (s.Sampling()) s.Describe(std::to_string(n) + " comments, " + Show(input));
}

// --- pictures ---------------------------------------------------------------
struct Picture {
  int width = 0, height = 0;
  std::vector<uint32_t> pixels;
  std::array<int, 3> At(int x, int y) const {
    const uint32_t p = pixels[y * width + x];
    return {{static_cast<int>(p >> 16 & 255), static_cast<int>(p >> 8 & 255), static_cast<int>(p & 255)}};
  }
};
struct PngSource {
  const std::string* bytes;
  size_t at;
};
cairo_status_t ReadPng(void* closure, unsigned char* data, unsigned int length) {
  auto* source = static_cast<PngSource*>(closure);
  if (source->at + length > source->bytes->size()) return CAIRO_STATUS_READ_ERROR;
  memcpy(data, source->bytes->data() + source->at, length);
  source->at += length;
  return CAIRO_STATUS_SUCCESS;
}
Picture Decode(const std::string& bytes) {
  PngSource source{&bytes, 0};
  auto surface = io::MakeUniqueCairoSurfacePtr(cairo_image_surface_create_from_png_stream(&ReadPng, &source));
  PBT_CHECK(cairo_surface_status(surface.get()) == CAIRO_STATUS_SUCCESS) << "not a readable PNG of " << bytes.size() << " bytes";
  Picture out;
  out.width = cairo_image_surface_get_width(surface.get());
  out.height = cairo_image_surface_get_height(surface.get());
  const int stride = cairo_image_surface_get_stride(surface.get());
  const auto format = cairo_image_surface_get_format(surface.get());
  PBT_CHECK(format == CAIRO_FORMAT_ARGB32 || format == CAIRO_FORMAT_RGB24);
  const unsigned char* data = cairo_image_surface_get_data(surface.get());
  for (int y = 0; y != out.height; ++y)
    for (int x = 0; x != out.width; ++x) {
      uint32_t p;
      memcpy(&p, data + y * stride + 4 * x, 4);
      if (format == CAIRO_FORMAT_ARGB32) PBT_CHECK_EQ(p >> 24, 255u) << "transparent pixel";
      out.pixels.push_back(p);
    }
  return out;
}

cartographer::mapping::proto::Trajectory ToTrajectory(const std::vector<Eigen::Vector3d>& positions) {
  mapping::proto::Trajectory out;
  int64_t t = 1;
  for (const auto& p : positions) {
    auto* node = out.add_node();
    node->set_timestamp(t++);
    *node->mutable_pose() = transform::ToProto(transform::Rigid3d::Translation(p));
  }
  return out;
}

double SegmentDistance(const Eigen::Vector2d& p, const Eigen::Vector2d& a, const Eigen::Vector2d& b) {
  const Eigen::Vector2d d = b - a;
  const double t = d.squaredNorm() == 0. ? 0. : std::min(1., std::max(0., (p - a).dot(d) / d.squaredNorm()));
  return (a + t * d - p).norm();
}

// Compares a picture with the one expected without trajectories; those are
// recognisable where they are and nothing else changes.
template <typename Expected>
void CheckPicture(const Picture& got, const Expected& expected, const std::vector<std::vector<Eigen::Vector2d>>& lines, const std::string& what) {
  for (int y = 0; y != got.height; ++y)
    for (int x = 0; x != got.width; ++x) {
      double nearest = 1e9;
      for (const auto& line : lines)
        for (size_t i = 0; i != line.size(); ++i) nearest = std::min(nearest, SegmentDistance(Eigen::Vector2d(x + 0.5, y + 0.5), line[i ? i - 1 : 0], line[i]));
      // Where a line turns sharply its corner reaches further.
      for (const auto& line : lines)
        for (size_t i = 1; i + 1 < line.size(); ++i)
          if ((Eigen::Vector2d(x + 0.5, y + 0.5) - line[i]).norm() < 23.) nearest = 0.;
      if (nearest < 9.) continue;
      const std::array<int, 3> g = got.At(x, y), w = expected(x, y);
      for (int k = 0; k != 3; ++k)
        PBT_CHECK(std::abs(g[k] - w[k]) <= 1) << what << ": pixel " << x << ", " << y << " is " << g[0] << " " << g[1] << " " << g[2] << " instead of " << w[0] << " " << w[1] << " " << w[2];
    }
  if (lines.size() != 1 || lines[0].empty()) return;
  const auto inside = [&](const Eigen::Vector2d& p) { return p.x() >= 0 && p.y() >= 0 && p.x() < got.width && p.y() < got.height; };
  const Eigen::Vector2d a = lines[0].front(), b = lines[0].back();
  if (inside(b)) {
    const auto c = got.At(b.x(), b.y());
    PBT_CHECK(c[0] > c[1] && c[0] > c[2]) << what << ": the end of the trajectory is not marked in red at " << b.transpose();
  }
  if (inside(a) && (a - b).norm() > 16.) {
    const auto c = got.At(a.x(), a.y());
    PBT_CHECK(c[1] > c[0] && c[1] > c[2]) << what << ": the start of the trajectory is not marked in green at " << a.transpose();
  }
  for (size_t i = 1; i < lines[0].size(); ++i) {
    const Eigen::Vector2d p = ((lines[0][i - 1] + lines[0][i]) / 2.).array().floor().matrix();
    if (!inside(p) || (p - a).norm() < 10. || (p - b).norm() < 10. || (lines[0][i] - lines[0][i - 1]).norm() < 10.) continue;
    const auto c = got.At(p.x(), p.y()), w = expected(p.x(), p.y());
    PBT_CHECK(std::abs(c[0] - w[0]) + std::abs(c[1] - w[1]) + std::abs(c[2] - w[2]) > 20) << what << ": the trajectory is missing at " << p.transpose();
  }
}

PBT_FACET(probability_grid, o.weight = 2; o.rule = "at least two points are inserted") {
  GenOptions o;
  o.exact = s.Bits(1);
  o.extent = s.Pick(std::vector<int>{8, 24, 60});
  const Batches input = Gen(s, o);
  const double resolution = s.Pick(std::vector<double>{0.25, 0.1, 0.5, 0.05});
  const double hit = s.Real(0.51, 0.9), miss = s.Real(0.1, 0.49);
  const int free = s.Bits(2);  // absent means yes
  const bool pb = s.Bits(1), named = pb || s.Bits(1);
  const int draw = s.Bits(2);  // absent means yes
  Trajectories trajectories;
  std::vector<std::vector<Eigen::Vector3d>> positions;
  if (s.Bits(1)) {
    std::vector<Eigen::Vector3d> p;
    const int n = s.Len(0, 5);
    for (int i = 0; i != n; ++i) p.push_back(Eigen::Vector3d(Coordinate(s, o), Coordinate(s, o), Coordinate(s, o)));
    positions.push_back(p);
    trajectories.push_back(ToTrajectory(p));
  }
  std::string lua = "{ action = \"write_probability_grid\", resolution = " + Num(resolution) + ", range_data_inserter = { hit_probability = " + Num(hit) + ", miss_probability = " + Num(miss) +
                    (free == 0 ? "" : free == 1 ? ", insert_free_space = true" : ", insert_free_space = false") + " }, filename = \"map\"" + (named ? pb ? ", output_type = \"pb\"" : ", output_type = \"png\"" : "") +
                    (draw == 0 ? "" : draw == 1 ? ", draw_trajectories = true" : ", draw_trajectories = false") + " },\n";
  if (s.Sampling()) s.Describe(lua + Show(input));
  Run run;
  Execute(lua, trajectories, input, &run);
  // The same points inserted into a grid of its own.
  mapping::proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(hit);
  options.set_miss_probability(miss);
  options.set_insert_free_space(free != 2);
  mapping::ValueConversionTables tables, other_tables;
  const mapping::ProbabilityGridRangeDataInserter2D inserter(options);
  mapping::ProbabilityGrid grid(mapping::MapLimits(resolution, 50. * resolution * Eigen::Vector2d::Ones(), mapping::CellLimits(100, 100)), &tables);
  for (const PointsBatch& b : input) inserter.Insert({b.origin, cartographer::sensor::PointCloud(b.points), {}}, &grid);
  Eigen::Array2i lo(1 << 30, 1 << 30), hi(-1, -1);
  for (int x = 0; x != grid.limits().cell_limits().num_x_cells; ++x)
    for (int y = 0; y != grid.limits().cell_limits().num_y_cells; ++y)
      if (grid.IsKnown({x, y})) {
        lo = lo.min(Eigen::Array2i(x, y));
        hi = hi.max(Eigen::Array2i(x, y));
      }
  const std::string name = pb ? "map.pb" : "map.png";
  PBT_CHECK(run.files.count(name)) << "no file " << name;
  const File& file = run.files[name];
  if (pb) {
    PBT_CHECK(file.closed);
    mapping::proto::Grid2D proto;
    PBT_CHECK(proto.ParseFromString(file.content)) << "the grid cannot be read back";
    const mapping::ProbabilityGrid back(proto, &other_tables);
    PBT_CHECK(std::abs(back.limits().resolution() - resolution) < 1e-12) << "resolution";
    int known = 0, known_back = 0;
    for (int x = 0; x != grid.limits().cell_limits().num_x_cells; ++x)
      for (int y = 0; y != grid.limits().cell_limits().num_y_cells; ++y) {
        if (!grid.IsKnown({x, y})) continue;
        ++known;
        const auto there = back.limits().GetCellIndex(grid.limits().GetCellCenter({x, y}));
        PBT_CHECK(back.limits().Contains(there) && back.IsKnown(there)) << "a cell is missing in the file";
        PBT_CHECK(std::abs(back.GetProbability(there) - grid.GetProbability({x, y})) < 1e-6f) << "probability differs";
      }
    for (int x = 0; x != back.limits().cell_limits().num_x_cells; ++x)
      for (int y = 0; y != back.limits().cell_limits().num_y_cells; ++y) known_back += back.IsKnown({x, y});
    PBT_CHECK_EQ(known_back, known) << "cells nobody observed are in the file";
  } else if (hi.x() < 0) {
    // Nothing known: no picture, or one that says so.
    if (!file.content.empty() && positions.empty()) {
      const Picture picture = Decode(file.content);
      CheckPicture(picture, [](int, int) { return std::array<int, 3>{{128, 128, 128}}; }, {}, "map of nothing");
    }
  } else {
    PBT_CHECK(file.closed);
    const Picture picture = Decode(file.content);
    PBT_CHECK_EQ(picture.width, hi.x() - lo.x() + 1);
    PBT_CHECK_EQ(picture.height, hi.y() - lo.y() + 1);
    std::vector<std::vector<Eigen::Vector2d>> lines;
    if (draw != 2)
      for (const auto& p : positions) {
        lines.emplace_back();
        for (const auto& q : p) {
          const Eigen::Array2i c = grid.limits().GetCellIndex(q.head<2>().cast<float>()) - lo;
          lines.back().emplace_back(c.x(), c.y());
        }
      }
    CheckPicture(picture, [&](int x, int y) {
      const Eigen::Array2i c(lo.x() + x, lo.y() + y);
      int v = 128;
      if (grid.IsKnown(c)) v = static_cast<int>(std::lround(255. * (1. - grid.GetProbability(c) - mapping::kMinProbability) / (mapping::kMaxProbability - mapping::kMinProbability)));
      return std::array<int, 3>{{v, v, v}};
    }, lines, "map");
    s.LabelIf(!lines.empty() && !lines[0].empty(), "trajectory drawn");
  }
  s.NonTrivial(CountPoints(input) >= 2);
}

PBT_FACET(hybrid_grid, o.weight = 1; o.rule = "at least two points are inserted") {
  GenOptions o;
  o.exact = s.Bits(1);
  const Batches input = Gen(s, o);
  const double size = s.Pick(std::vector<double>{0.5, 0.25, 0.1, 1.});
  const double hit = s.Real(0.51, 0.9), miss = s.Real(0.1, 0.49);
  const int free = s.Int(0, 4);
  const std::string lua = "{ action = \"write_hybrid_grid\", voxel_size = " + Num(size) + ", range_data_inserter = { hit_probability = " + Num(hit) + ", miss_probability = " + Num(miss) + ", num_free_space_voxels = " +
                          std::to_string(free) + ", intensity_threshold = 40. }, filename = \"grid\" },\n";
  if (s.Sampling()) s.Describe(lua + Show(input));
  Run run;
  Execute(lua, {}, input, &run);
  mapping::proto::RangeDataInserterOptions3D options;
  options.set_hit_probability(hit);
  options.set_miss_probability(miss);
  options.set_num_free_space_voxels(free);
  options.set_intensity_threshold(40.);
  const mapping::RangeDataInserter3D inserter(options);
  mapping::HybridGrid grid(size);
  for (const PointsBatch& b : input) inserter.Insert({b.origin, cartographer::sensor::PointCloud(b.points), {}}, &grid, nullptr);
  PBT_CHECK(run.files.count("grid"));
  PBT_CHECK(run.files["grid"].closed);
  mapping::proto::HybridGrid proto;
  PBT_CHECK(proto.ParseFromString(run.files["grid"].content)) << "the grid cannot be read back";
  const mapping::HybridGrid back(proto);
  PBT_CHECK(std::abs(back.resolution() - size) < 1e-6) << "voxel size " << back.resolution();
  size_t n = 0, m = 0;
  for (const auto it : grid) {
    ++n;
    PBT_CHECK_EQ(back.value(it.first), it.second) << "at " << it.first.transpose();
  }
  for (const auto it : back) { (void)it; ++m; }
  PBT_CHECK_EQ(m, n);
  s.NonTrivial(CountPoints(input) >= 2);
}

PBT_FACET(xray, o.weight = 2; o.rule = "at least two points are projected") {
  GenOptions o;
  o.exact = s.Bits(2) != 0;
  o.extent = s.Pick(std::vector<int>{4, 8, 24});
  o.max_points = 20;
  const Batches input = Gen(s, o);
  const double size = s.Pick(std::vector<double>{0.5, 1., 0.25, 0.3});
  const double factor = s.Bits(1) ? s.Real(0.2, 3.) : 1.;
  const bool named_factor = factor != 1. || s.Bits(1);
  double rpy[3] = {0., 0., 0.};
  if (s.Bits(1)) for (double& a : rpy) a = s.Bits(1) ? s.Int(-1, 2) * M_PI / 2. : s.Real(-3., 3.);
  const Eigen::Vector3d shift(s.Int(-8, 8) * 0.25, s.Int(-8, 8) * 0.25, s.Int(-8, 8) * 0.25);
  const int draw = s.Bits(2);
  const Eigen::Quaterniond rotation = Eigen::AngleAxisd(rpy[2], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rpy[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(rpy[0], Eigen::Vector3d::UnitX());
  Trajectories trajectories;
  std::vector<Eigen::Vector3d> path;
  if (s.Bits(1)) {
    const int n = s.Len(0, 5);
    for (int i = 0; i != n; ++i) path.push_back(Eigen::Vector3d(Coordinate(s, o), Coordinate(s, o), Coordinate(s, o)));
    trajectories.push_back(ToTrajectory(path));
  }
  std::vector<mapping::Floor> floors;
  const int num_floors = s.Bits(1) ? 0 : s.Int(1, 3);
  for (int f = 0; f != num_floors; ++f) {
    mapping::Floor floor;
    floor.z = f;
    const int n = s.Len(0, 3);
    for (int i = 0; i != n; ++i) {
      // Often at the times of the batches themselves.
      const auto pick = [&]() -> cartographer::common::Time {
        if (!input.empty() && s.Bits(2)) return input[s.Bits(input.size() - 1)].start_time;
        return cartographer::common::FromUniversal(s.Int(0, 400000000));
      };
      mapping::Timespan t{pick(), pick()};
      if (t.end < t.start) std::swap(t.start, t.end);
      floor.timespans.push_back(t);
    }
    floors.push_back(floor);
  }
  const auto voxel = [&](const Eigen::Vector3d& p) {
    const Eigen::Vector3d q = (rotation * p + shift) / size;
    std::array<int, 3> out;
    for (int k = 0; k != 3; ++k) {
      out[k] = static_cast<int>(std::lround(q[k]));
      if (std::abs(std::abs(q[k] - out[k]) - 0.5) < 1e-4) throw pbt::Discard();
    }
    return out;
  };
  struct Column {
    std::set<int> cells;
    double sum[3] = {0., 0., 0.};
    int count = 0;
  };
  std::vector<std::map<std::pair<int, int>, Column>> columns(std::max(1, num_floors));
  int lo[2] = {1 << 30, 1 << 30}, hi[2] = {-(1 << 30), -(1 << 30)};
  for (const PointsBatch& b : input)
    for (int f = 0; f != std::max(1, num_floors); ++f) {
      bool here = floors.empty();
      if (!floors.empty())
        for (const auto& t : floors[f].timespans) here |= t.start <= b.start_time && b.start_time <= t.end;
      if (!here) continue;
      for (size_t i = 0; i != b.points.size(); ++i) {
        const auto v = voxel(b.points[i].position.cast<double>());
        Column& c = columns[f][{v[1], v[2]}];
        c.cells.insert(v[0]);
        for (int k = 0; k != 3; ++k) c.sum[k] += b.colors.empty() ? 0. : b.colors[i][k];
        ++c.count;
        for (int k = 0; k != 2; ++k) {
          lo[k] = std::min(lo[k], v[k + 1]);
          hi[k] = std::max(hi[k], v[k + 1]);
        }
      }
    }
  Run run;
  const auto factory = [&run](const std::string& name) -> std::unique_ptr<io::FileWriter> { return absl::make_unique<MemoryFile>(name, &run.files[name]); };
  std::ostringstream what;
  what << "voxel size " << size << " saturation " << factor << " rotation " << rpy[0] << "," << rpy[1] << "," << rpy[2] << " shift " << shift.transpose() << " floors " << num_floors << " " << Show(input);
  if (s.Sampling()) s.Describe(what.str());
  if (floors.empty()) {
    std::string lua = "{ action = \"write_xray_image\", voxel_size = " + Num(size) + ", filename = \"xray\", transform = { translation = { " + Num(shift.x()) + ", " + Num(shift.y()) + ", " + Num(shift.z()) +
                      " }, rotation = { " + Num(rpy[0]) + ", " + Num(rpy[1]) + ", " + Num(rpy[2]) + " } }" + (named_factor ? ", saturation_factor = " + Num(factor) : "") +
                      (draw == 0 ? "" : draw == 1 ? ", draw_trajectories = true" : ", draw_trajectories = false") + (s.Bits(1) ? ", separate_floors = false" : "") + " },\n";
    Execute(lua, trajectories, input, &run);
  } else {
    s.Label("floors");
    io::NullPointsProcessor null;
    io::XRayPointsProcessor xray(size, factor, transform::Rigid3f(shift.cast<float>(), rotation.cast<float>()), floors,
                                 draw != 2 ? io::XRayPointsProcessor::DrawTrajectories::kYes : io::XRayPointsProcessor::DrawTrajectories::kNo, "xray", trajectories, factory, &null);
    for (const PointsBatch& b : input) xray.Process(absl::make_unique<PointsBatch>(b));
    PBT_CHECK(xray.Flush() == PointsProcessor::FlushResult::kFinished);
  }
  for (int f = 0; f != std::max(1, num_floors); ++f) {
    const std::string name = floors.empty() ? "xray.png" : "xray" + std::to_string(f) + ".png";
    PBT_CHECK(run.files.count(name)) << "no " << name;
    const File& file = run.files[name];
    if (hi[0] < lo[0]) {
      PBT_CHECK(file.content.empty()) << "a picture of nothing";
      continue;
    }
    PBT_CHECK(file.closed);
    const Picture picture = Decode(file.content);
    // Seen along the x axis: y to the left, z up.
    PBT_CHECK_EQ(picture.width, hi[0] - lo[0] + 1) << what.str();
    PBT_CHECK_EQ(picture.height, hi[1] - lo[1] + 1) << what.str();
    size_t most = 0;
    for (const auto& c : columns[f]) most = std::max(most, c.second.cells.size());
    std::vector<std::vector<Eigen::Vector2d>> lines;
    if (draw != 2 && !trajectories.empty()) {
      lines.emplace_back();
      for (const auto& p : path) {
        const auto v = voxel(p);
        lines.back().emplace_back(hi[0] - v[1], hi[1] - v[2]);
      }
    }
    CheckPicture(picture, [&](int x, int y) {
      const auto it = columns[f].find({hi[0] - x, hi[1] - y});
      if (it == columns[f].end() || it->second.cells.size() <= 1) return std::array<int, 3>{{255, 255, 255}};
      const Column& c = it->second;
      const double saturation = std::min(1., std::log(c.cells.size()) / std::log(most) * factor);
      std::array<int, 3> out;
      for (int k = 0; k != 3; ++k) {
        const double v = 1. - saturation + saturation * c.sum[k] / c.count;
        out[k] = static_cast<int>(std::lround(255. * std::min(1., std::max(0., v))));
      }
      return out;
    }, lines, name + " of " + what.str());
    s.LabelIf(most > 1, "visible column");
  }
  s.NonTrivial(CountPoints(input) >= 2);
}

// --- files on disk ------------------------------------------------------------
std::string Scratch() {
  static const std::string dir = []() {
    char name[] = "/tmp/verif_i05_XXXXXX";
    if (!mkdtemp(name)) abort();
    return std::string(name);
  }();
  return dir;
}
struct Cleaner {
  pid_t pid = getpid();
  ~Cleaner() {
    if (getpid() != pid) return;
    unlink((Scratch() + "/file").c_str());
    rmdir(Scratch().c_str());
  }
};

PBT_FACET(disk, o.weight = 0.4; o.rule = "two or more writes") {
  static Cleaner cleaner;
  const std::string path = Scratch() + "/file";
  std::string model;
  size_t position = 0;
  const int n = s.Len(0, 12);
  std::ostringstream what;
  {
    io::StreamFileWriter writer(path);
    PBT_CHECK_EQ(writer.GetFilename(), path);
    for (int i = 0; i != n; ++i) {
      std::string data(s.Bits(3) ? s.Len(0, 40) : s.Int(0, 20000), 'a');
      for (size_t j = 0; j != data.size(); ++j) data[j] = static_cast<char>(i * 37 + j * 11);
      if (s.Chance(0.3)) {
        PBT_CHECK(writer.WriteHeader(data.data(), data.size())) << "a header could not be written";
        position = 0;
        what << " header " << data.size();
      } else {
        PBT_CHECK(writer.Write(data.data(), data.size())) << "could not write";
        what << " " << data.size();
      }
      model.replace(position, std::min(data.size(), model.size() - position), data);
      position += data.size();
    }
    if (s.Bits(1)) PBT_CHECK(writer.Close()) << "could not close";
  }
  std::ifstream in(path, std::ios::binary);
  const std::string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  PBT_CHECK_EQ(got.size(), model.size()) << what.str();
  PBT_CHECK(got == model) << "different bytes after" << what.str();
  if (s.Sampling()) s.Describe("writes:" + what.str());
  s.NonTrivial(n >= 2);
}

// A file that cannot be written is noticed.
PBT_FACET(disk_trouble, o.weight = 0.3; o.rule = "something is written") {
  const bool full = s.Bits(1);
  const std::string path = full ? "/dev/full" : Scratch() + "/no/such/folder/file";
  if (full && access("/dev/full", W_OK) != 0) throw pbt::Discard();
  const int n = s.Len(1, 6);
  bool told = false;
  size_t total = 0;
  {
    io::StreamFileWriter writer(path);
    for (int i = 0; i != n; ++i) {
      const std::string data(s.Bits(2) ? s.Int(1, 40) : s.Int(1, 20000), 'x');
      total += data.size();
      if (i == 0 || s.Chance(0.2)) told |= !writer.WriteHeader(data.data(), data.size());
      else told |= !writer.Write(data.data(), data.size());
    }
    told |= !writer.Close();
  }
  if (s.Sampling()) s.Describe(path + " " + std::to_string(total) + " bytes in " + std::to_string(n) + " writes");
  PBT_CHECK(told) << total << " bytes to " << path << " are reported as written";
  s.NonTrivial();
}
}  // namespace
