// I06: pictures of a map show its submaps where they are.
#include <algorithm>
#include <array>
#include <cstring>

#include "cairo/cairo.h"
#include "cartographer/common/port.h"
#include "cartographer/io/image.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/io/submap_painter.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/transform/transform.h"
#include "map_state.h"
#include "pipeline.h"

namespace {
namespace io = cartographer::io;
namespace mapping = cartographer::mapping;
namespace transform = cartographer::transform;
using io::SubmapSlice;
using mapping::SubmapId;
using transform::Rigid3d;

struct Picture {
  int width = 0, height = 0;
  std::vector<uint32_t> pixels;
};
Picture Copy(cairo_surface_t* surface) {
  cairo_surface_flush(surface);
  PBT_CHECK(cairo_surface_status(surface) == CAIRO_STATUS_SUCCESS);
  Picture out;
  out.width = cairo_image_surface_get_width(surface);
  out.height = cairo_image_surface_get_height(surface);
  const int stride = cairo_image_surface_get_stride(surface);
  const unsigned char* data = cairo_image_surface_get_data(surface);
  for (int y = 0; y != out.height; ++y)
    for (int x = 0; x != out.width; ++x) {
      uint32_t p;
      memcpy(&p, data + y * stride + 4 * x, 4);
      out.pixels.push_back(p);
    }
  return out;
}
struct PngSource {
  const std::string* bytes;
  size_t at;
};
cairo_status_t ReadPng(void* closure, unsigned char* data, unsigned int length) {
  auto* source = static_cast<PngSource*>(closure);
  if (source->at + length > source->bytes->size()) return CAIRO_STATUS_READ_ERROR;
  memcpy(data, source->bytes->data() + source->at, length);
  source->at += length;
  return CAIRO_STATUS_SUCCESS;
}

void CheckImage(const io::Image& image, const std::vector<std::vector<io::Uint8Color>>& rows, const std::string& what) {
  PBT_CHECK_EQ(image.height(), static_cast<int>(rows.size())) << what;
  PBT_CHECK_EQ(image.width(), static_cast<int>(rows[0].size())) << what;
  for (size_t y = 0; y != rows.size(); ++y)
    for (size_t x = 0; x != rows[y].size(); ++x)
      PBT_CHECK(image.GetPixel(x, y) == rows[y][x]) << what << ": pixel " << x << ", " << y;
}

PBT_FACET(image, o.weight = 1; o.rule = "at least two rows and columns of different pixels") {
  const int w = s.Len(1, 12), h = s.Len(1, 12);
  io::Image image(w, h);
  std::vector<std::vector<io::Uint8Color>> rows(h, std::vector<io::Uint8Color>(w));
  for (auto& row : rows)
    for (auto& c : row) c = {{static_cast<uint8_t>(s.Bits(255)), static_cast<uint8_t>(s.Bits(255)), static_cast<uint8_t>(s.Bits(255))}};
  for (int y = 0; y != h; ++y)
    for (int x = 0; x != w; ++x) image.SetPixel(x, y, rows[y][x]);
  const auto turn = [&rows]() {
    std::vector<std::vector<io::Uint8Color>> out(rows[0].size(), std::vector<io::Uint8Color>(rows.size()));
    // The left column, read upwards, becomes the top row.
    for (size_t y = 0; y != rows.size(); ++y)
      for (size_t x = 0; x != rows[0].size(); ++x) out[x][rows.size() - 1 - y] = rows[y][x];
    rows = out;
  };
  CheckImage(image, rows, "as set");
  const int steps = s.Len(0, 6);
  for (int i = 0; i != steps; ++i) {
    switch (s.Bits(3)) {
      case 0:
        image.Rotate90DegreesClockwise();
        turn();
        break;
      case 1: {
        const int x = s.Bits(image.width() - 1), y = s.Bits(image.height() - 1);
        rows[y][x] = {{static_cast<uint8_t>(s.Bits(255)), static_cast<uint8_t>(s.Bits(255)), static_cast<uint8_t>(s.Bits(255))}};
        image.SetPixel(x, y, rows[y][x]);
        break;
      }
      case 2: {
        pipeline_h::File file;
        pipeline_h::MemoryFile writer("f", &file);
        image.WritePng(&writer);
        PngSource source{&file.content, 0};
        auto surface = io::MakeUniqueCairoSurfacePtr(cairo_image_surface_create_from_png_stream(&ReadPng, &source));
        const Picture p = Copy(surface.get());
        PBT_CHECK(p.width == image.width() && p.height == image.height()) << "the PNG has another size";
        for (int y = 0; y != p.height; ++y)
          for (int x = 0; x != p.width; ++x) {
            const uint32_t v = p.pixels[y * p.width + x];
            const io::Uint8Color& c = rows[y][x];
            PBT_CHECK_EQ(v & 0xffffff, static_cast<uint32_t>(c[0]) << 16 | c[1] << 8 | c[2]) << "pixel of the PNG";
          }
        break;
      }
      default: {
        // Through a surface and back.
        auto copy = io::MakeUniqueCairoSurfacePtr(cairo_image_surface_create(io::kCairoFormat, image.width(), image.height()));
        {
          auto cr = io::MakeUniqueCairoPtr(cairo_create(copy.get()));
          auto source = image.GetCairoSurface();
          cairo_set_source_surface(cr.get(), source.get(), 0, 0);
          cairo_set_operator(cr.get(), CAIRO_OPERATOR_SOURCE);
          cairo_paint(cr.get());
        }
        cairo_surface_flush(copy.get());
        image = io::Image(std::move(copy));
        break;
      }
    }
    CheckImage(image, rows, "after step " + std::to_string(i));
  }
  if (s.Sampling()) s.Describe(std::to_string(w) + "x" + std::to_string(h) + " pixels, " + std::to_string(steps) + " steps");
  s.NonTrivial(w > 1 && h > 1 && steps > 0);
}

struct Slice {
  SubmapId id{0, 0};
  int width = 0, height = 0;
  double resolution = 0.;
  Rigid3d pose, slice_pose;
  std::string cells;  // intensity and alpha, interleaved
  bool drawn = true;
};

void Fill(const Slice& slice, SubmapSlice* out) {
  out->width = slice.width;
  out->height = slice.height;
  out->version = 1;
  out->resolution = slice.resolution;
  out->pose = slice.pose;
  out->slice_pose = slice.slice_pose;
  if (!slice.drawn) return;
  std::string compressed;
  cartographer::common::FastGzipString(slice.cells, &compressed);
  const auto pixels = io::UnpackTextureData(compressed, slice.width, slice.height);
  PBT_CHECK_EQ(pixels.intensity.size(), static_cast<size_t>(slice.width * slice.height));
  PBT_CHECK_EQ(pixels.alpha.size(), pixels.intensity.size());
  for (size_t i = 0; i != pixels.intensity.size(); ++i) {
    PBT_CHECK_EQ(pixels.intensity[i], slice.cells[2 * i]) << "intensity of pixel " << i;
    PBT_CHECK_EQ(pixels.alpha[i], slice.cells[2 * i + 1]) << "alpha of pixel " << i;
  }
  out->surface = io::DrawTexture(pixels.intensity, pixels.alpha, slice.width, slice.height, &out->cairo_data);
  const Picture p = Copy(out->surface.get());
  PBT_CHECK(p.width == slice.width && p.height == slice.height);
  for (size_t i = 0; i != p.pixels.size(); ++i) {
    const uint32_t intensity = static_cast<uint8_t>(slice.cells[2 * i]), alpha = static_cast<uint8_t>(slice.cells[2 * i + 1]);
    PBT_CHECK_EQ(p.pixels[i], alpha << 24 | intensity << 16 | (intensity || alpha ? 255u : 0u) << 8) << "texture pixel " << i;
  }
}

Rigid3d Planar(const double x, const double y, const double z, const double yaw) {
  return Rigid3d(Eigen::Vector3d(x, y, z), Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())));
}

uint32_t Over(const uint32_t below, const uint32_t intensity, const uint32_t alpha) {
  // Pictures are blended with premultiplied colors.
  const uint32_t top = alpha << 24 | intensity << 16 | (intensity || alpha ? 255u : 0u) << 8;
  uint32_t out = 0;
  for (int k = 0; k != 32; k += 8) {
    const int t = top >> k & 255, b = below >> k & 255;
    out |= static_cast<uint32_t>(std::min<long>(255, t + std::lround(b * (255. - alpha) / 255.))) << k;
  }
  return out;
}

// Which pixel of the texture lies at this place of the map? The texture's rows
// go against x and its columns against y of the slice. 'margin' is how close to
// an edge of the texture's pixel the place may be.
enum Where { OUTSIDE, INSIDE, UNCLEAR };
Where Find(const Slice& slice, const Eigen::Vector2d& place, const double margin, int* row, int* column) {
  const Eigen::Vector3d q = (slice.pose * slice.slice_pose).inverse() * Eigen::Vector3d(place.x(), place.y(), (slice.pose * slice.slice_pose).translation().z());
  const double r = -q.x() / slice.resolution, c = -q.y() / slice.resolution;
  const double outside = std::max(std::max(-r, r - slice.height), std::max(-c, c - slice.width));
  if (outside > margin) return OUTSIDE;
  if (outside > -margin) return UNCLEAR;
  *row = static_cast<int>(std::floor(r));
  *column = static_cast<int>(std::floor(c));
  const double into = std::min(std::min(r - *row, *row + 1 - r), std::min(c - *column, *column + 1 - c));
  return into < margin ? UNCLEAR : INSIDE;
}

void CheckPainting(const std::map<SubmapId, SubmapSlice>& submaps, const std::vector<Slice>& slices, const double resolution, const bool aligned, int* compared, int* covered) {
  const auto result = io::PaintSubmapSlices(submaps, resolution);
  const Picture p = Copy(result.surface.get());
  // Everything is on the picture.
  for (const Slice& slice : slices) {
    if (!slice.drawn) continue;
    for (int corner = 0; corner != 4; ++corner) {
      const Eigen::Vector3d q = slice.pose * slice.slice_pose * Eigen::Vector3d(corner & 1 ? -slice.height * slice.resolution : 0., corner & 2 ? -slice.width * slice.resolution : 0., 0.);
      const double x = result.origin.x() + q.x() / resolution, y = result.origin.y() - q.y() / resolution;
      PBT_CHECK(x > 0. && x < p.width && y > 0. && y < p.height) << "a corner of submap " << slice.id << " is outside of the picture, at " << x << ", " << y << " of " << p.width << ", " << p.height;
    }
  }
  for (int y = 0; y != p.height; ++y)
    for (int x = 0; x != p.width; ++x) {
      const Eigen::Vector2d place((x + 0.5 - result.origin.x()) * resolution, (result.origin.y() - y - 0.5) * resolution);
      uint32_t want = 0xff800000;
      bool unclear = false, inside = false;
      for (const Slice& slice : slices) {  // in the order of their ids
        if (!slice.drawn) continue;
        int row = 0, column = 0;
        // Where pixels do not coincide they are interpolated near their edges.
        switch (Find(slice, place, aligned ? 0.2 : 0.5 + 1.5 * std::max(1., resolution / slice.resolution), &row, &column)) {
          case OUTSIDE: break;
          case UNCLEAR: unclear = true; break;
          case INSIDE:
            inside = true;
            want = Over(want, static_cast<uint8_t>(slice.cells[2 * (row * slice.width + column)]), static_cast<uint8_t>(slice.cells[2 * (row * slice.width + column) + 1]));
        }
      }
      if (unclear) continue;
      ++*compared;
      if (inside) ++*covered;
      const uint32_t got = p.pixels[y * p.width + x];
      for (int k = 0; k != 32; k += 8)
        PBT_CHECK(std::abs(static_cast<int>(got >> k & 255) - static_cast<int>(want >> k & 255)) <= 3)
            << "pixel " << x << ", " << y << " of " << p.width << ", " << p.height << " at " << place.transpose() << " is " << std::hex << got << " instead of " << want;
    }
}

void GenCells(pbt::Source& s, const bool uniform, Slice* slice) {
  const int n = slice->width * slice->height;
  slice->cells.resize(2 * n);
  const auto cell = [&](char* c) {
    switch (s.Bits(2)) {
      case 0: c[0] = c[1] = 0; break;                                  // unknown
      case 1: c[0] = static_cast<char>(s.Int(1, 127)); c[1] = 0; break;  // free
      default: c[0] = 0; c[1] = static_cast<char>(s.Int(1, 127)); break;  // occupied
    }
  };
  cell(&slice->cells[0]);
  for (int i = 1; i != n; ++i) {
    if (uniform) { slice->cells[2 * i] = slice->cells[0]; slice->cells[2 * i + 1] = slice->cells[1]; }
    else cell(&slice->cells[2 * i]);
  }
}

PBT_FACET(painting, o.weight = 3; o.rule = "at least one pixel of a submap is on the picture and compared") {
  const bool aligned = s.Bits(1);
  const double resolution = s.Pick(std::vector<double>{0.05, 0.1, 0.5, 1.});
  const int n = s.Len(1, 4);
  std::vector<Slice> slices;
  for (int i = 0; i != n; ++i) {
    Slice slice;
    slice.id = SubmapId{static_cast<int>(s.Int(0, 2)), static_cast<int>(s.Int(0, 3))};
    for (const Slice& other : slices) if (other.id == slice.id) throw pbt::Discard();
    slice.drawn = !s.Chance(0.12);
    if (aligned) {
      // Pixels of the texture are pixels of the picture.
      slice.resolution = resolution;
      slice.width = s.Len(2, 8);  // cairo treats single pixels differently
      slice.height = s.Len(2, 8);
      const Rigid3d corner = Planar(s.Int(-12, 12) * resolution, s.Int(-12, 12) * resolution, s.Real(-1., 1.), s.Bits(3) * M_PI / 2.);
      slice.pose = s.Bits(1) ? Planar(s.Real(-5., 5.), s.Real(-5., 5.), s.Real(-1., 1.), s.Real(-3., 3.)) : Rigid3d::Identity();
      slice.slice_pose = slice.pose.inverse() * corner;
    } else {
      slice.resolution = s.Bits(1) ? resolution : resolution * s.Real(0.5, 3.);
      slice.width = s.Len(4, 24);
      slice.height = s.Len(4, 24);
      slice.pose = Planar(s.Real(-20., 20.) * resolution, s.Real(-20., 20.) * resolution, s.Real(-1., 1.), s.Real(-3.2, 3.2));
      slice.slice_pose = Planar(s.Real(-20., 20.) * resolution, s.Real(-20., 20.) * resolution, 0., s.Bits(1) ? s.Real(-3.2, 3.2) : 0.);
    }
    GenCells(s, !aligned, &slice);
    slices.push_back(slice);
  }
  std::sort(slices.begin(), slices.end(), [](const Slice& a, const Slice& b) { return a.id < b.id; });
  bool any = false;
  for (const Slice& slice : slices) any |= slice.drawn;
  if (!any) throw pbt::Discard();
  std::map<SubmapId, SubmapSlice> submaps;
  for (const Slice& slice : slices) Fill(slice, &submaps[slice.id]);
  std::ostringstream what;
  for (const Slice& slice : slices)
    what << slice.id << (slice.drawn ? "" : " (not yet drawn)") << " " << slice.width << "x" << slice.height << " at " << slice.resolution << " corner " << (slice.pose * slice.slice_pose).DebugString() << "; ";
  if (s.Sampling()) s.Describe(what.str());
  int compared = 0, covered = 0;
  CheckPainting(submaps, slices, resolution, aligned, &compared, &covered);
  s.LabelIf(aligned, "aligned");
  for (const Slice& slice : slices) s.LabelIf(!slice.drawn, "a submap without texture");
  s.NonTrivial(covered > 0);
}

// From a saved map: every submap with a grid, at its pose in the pose graph.
PBT_FACET(saved_map, o.weight = 1; o.rule = "two or more submaps with cells") {
  const bool three_d = s.Bits(2) == 0;
  map_state::State st = map_state::Gen(s, three_d);
  for (auto& e : st.submaps) {
    // The texture is of what is occupied.
    if (!three_d) continue;
    mapping::HybridGrid g(e.second.submap_3d().high_resolution_hybrid_grid().resolution());
    const int n = s.Int(1, 6);
    const Eigen::Array3i base(s.Int(-5, 5), s.Int(-5, 5), s.Int(-5, 5));
    for (int i = 0; i <= n; ++i) g.SetProbability(base + Eigen::Array3i(0, 0, i), s.Real(0.6, 0.85));
    *e.second.mutable_submap_3d()->mutable_high_resolution_hybrid_grid() = g.ToProto();
    mapping::HybridGrid low(e.second.submap_3d().low_resolution_hybrid_grid().resolution());
    low.SetProbability(Eigen::Array3i(0, 0, 0), 0.7f);
    *e.second.mutable_submap_3d()->mutable_low_resolution_hybrid_grid() = low.ToProto();
  }
  std::set<map_state::Id> without;
  for (auto& e : st.submaps)
    if (s.Chance(0.15)) {
      without.insert(e.first);
      if (three_d) e.second.mutable_submap_3d()->clear_high_resolution_hybrid_grid();
      else e.second.mutable_submap_2d()->clear_grid();
    }
  auto reader = map_state::Reader(map_state::ToMessages(st));
  io::ProtoStreamDeserializer deserializer(reader.get());
  std::map<SubmapId, SubmapSlice> slices;
  mapping::ValueConversionTables tables;
  io::DeserializeAndFillSubmapSlices(&deserializer, &slices, &tables);
  PBT_CHECK_EQ(slices.size(), st.submaps.size() - without.size());
  int seen = 0;
  for (const auto& e : st.submaps) {
    const SubmapId id{e.first.first, e.first.second};
    if (without.count(e.first)) {
      PBT_CHECK(!slices.count(id)) << "a picture of submap " << id << " without a grid";
      continue;
    }
    PBT_CHECK(slices.count(id)) << "submap " << id << " is missing";
    const SubmapSlice& slice = slices.at(id);
    const Rigid3d pose = st.submap_poses.at(e.first);
    PBT_CHECK(map_state::Near(slice.pose, pose, 1e-9, 1e-7)) << "submap " << id << " is elsewhere";
    const Picture p = Copy(slice.surface.get());
    PBT_CHECK(p.width == slice.width && p.height == slice.height);
    if (three_d) {
      mapping::proto::SubmapQuery::Response response;
      mapping::Submap3D(e.second.submap_3d()).ToResponseProto(pose, &response);
      const auto& t = response.textures(0);
      PBT_CHECK(t.width() == slice.width && t.height() == slice.height && t.resolution() == slice.resolution) << "the high resolution texture is the one to show";
      std::string cells;
      cartographer::common::FastGunzipString(t.cells(), &cells);
      for (size_t i = 0; i != p.pixels.size(); ++i) {
        PBT_CHECK_EQ(p.pixels[i] >> 16 & 255, static_cast<uint8_t>(cells[2 * i]));
        PBT_CHECK_EQ(p.pixels[i] >> 24, static_cast<uint8_t>(cells[2 * i + 1]));
      }
      PBT_CHECK(map_state::Near(slice.slice_pose, transform::ToRigid3(t.slice_pose()), 1e-9, 1e-7));
      ++seen;
      continue;
    }
    mapping::ValueConversionTables own;
    const mapping::ProbabilityGrid grid(e.second.submap_2d().grid(), &own);
    PBT_CHECK(std::abs(slice.resolution - grid.limits().resolution()) < 1e-9);
    const Rigid3d local = transform::ToRigid3(e.second.submap_2d().local_pose());
    int shown = 0, known = 0;
    for (int y = 0; y != p.height; ++y)
      for (int x = 0; x != p.width; ++x) {
        // Where the middle of this pixel is, in the frame of the grid.
        const Eigen::Vector3d q = local * slice.slice_pose * Eigen::Vector3d(-(y + 0.5) * slice.resolution, -(x + 0.5) * slice.resolution, 0.);
        const auto cell = grid.limits().GetCellIndex(q.head<2>().cast<float>());
        const uint32_t v = p.pixels[y * p.width + x];
        const bool is_known = grid.limits().Contains(cell) && grid.IsKnown(cell);
        PBT_CHECK_EQ((v & 0xff00) != 0, is_known) << "pixel " << x << ", " << y << " of submap " << id;
        if (!is_known) continue;
        ++shown;
        const float probability = grid.GetProbability(cell);
        if (probability > 0.52f) PBT_CHECK((v >> 24) != 0 && (v >> 16 & 255) == 0) << "occupied cell is shown as " << std::hex << v;
        if (probability < 0.48f) PBT_CHECK((v >> 24) == 0 && (v >> 16 & 255) != 0) << "free cell is shown as " << std::hex << v;
      }
    for (int x = 0; x != grid.limits().cell_limits().num_x_cells; ++x)
      for (int y = 0; y != grid.limits().cell_limits().num_y_cells; ++y) known += grid.IsKnown({x, y});
    PBT_CHECK_EQ(shown, known) << "cells of submap " << id << " are not shown";
    ++seen;
  }
  if (s.Sampling()) s.Describe(std::string(three_d ? "3D" : "2D") + ", " + std::to_string(st.submaps.size()) + " submaps, " + std::to_string(without.size()) + " without grid");
  s.NonTrivial(seen >= 2);
}
}  // namespace
