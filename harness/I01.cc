// I01: files of serialized messages.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <queue>
#include <sstream>

#include "geo.h"

#include "cartographer/common/port.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/internal/pbstream_info.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "glog/logging.h"

namespace {
using namespace cartographer;
using namespace geo;
using mapping::proto::SerializedData;

// A scratch directory that vanishes with the object.
struct Scratch {
  std::string dir;
  Scratch() {
    char name[] = "/tmp/verif_i01_XXXXXX";
    if (mkdtemp(name) == nullptr) throw pbt::Discard();
    dir = name;
  }
  ~Scratch() {
    for (const char* f : {"/a", "/b"}) unlink((dir + f).c_str());
    rmdir(dir.c_str());
  }
  std::string path(const char* f) const { return dir + f; }
};
std::string Slurp(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}
void Spit(const std::string& path, const std::string& bytes) {
  std::ofstream out(path, std::ios::binary);
  out << bytes;
}

std::string GenBytes(pbt::Source& s, int max) {
  std::string out;
  const int n = s.Chance(0.2) ? 0 : s.IntEdge(0, max);
  const int mode = s.Int(0, 3);
  uint64_t state = s.Bits(32);
  for (int i = 0; i < n; ++i) {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    out.push_back(mode == 0 ? 0 : mode == 1 ? static_cast<char>(state >> 56)
                              : mode == 2 ? static_cast<char>(0xff) : static_cast<char>('a' + i % 7));
  }
  return out;
}
// A text field only takes valid UTF-8 without complaint: keep to ASCII there.
std::string GenText(pbt::Source& s, int max) {
  std::string t = GenBytes(s, max);
  for (char& c : t) c &= 0x7f;
  return t;
}

SerializedData GenData(pbt::Source& s, int max_bytes) {
  SerializedData d;
  switch (s.Int(0, 9)) {
    case 0: break;  // Nothing set: an empty message.
    case 1: {
      auto* g = d.mutable_pose_graph();
      for (int n = s.Int(0, 3); n > 0; --n) g->add_trajectory()->set_trajectory_id(s.IntEdge(-5, 1000));
      break;
    }
    case 2: {
      auto* o = d.mutable_all_trajectory_builder_options();
      for (int n = s.Int(0, 3); n > 0; --n)
        o->add_options_with_sensor_ids()->add_sensor_id()->set_id(GenText(s, max_bytes));
      break;
    }
    case 3: {
      auto* m = d.mutable_submap();
      m->mutable_submap_id()->set_submap_index(s.IntEdge(0, 1000000));
      const int kind = s.Int(0, 3);
      if (kind & 1) {
        m->mutable_submap_2d()->set_num_range_data(s.Int(0, 9));
        if (s.Chance(0.5))
          for (int n = s.IntEdge(0, max_bytes / 4); n > 0; --n)
            m->mutable_submap_2d()->mutable_grid()->add_cells(n * 37 % 32768);
      }
      if (kind & 2) {
        m->mutable_submap_3d()->set_num_range_data(s.Int(0, 9));
        if (s.Chance(0.5)) m->mutable_submap_3d()->mutable_high_resolution_hybrid_grid()->set_resolution(0.1f);
      }
      break;
    }
    case 4: {
      d.mutable_node()->mutable_node_id()->set_node_index(s.IntEdge(0, 100000));
      for (int n = s.IntEdge(0, max_bytes / 4); n > 0; --n)
        d.mutable_node()->mutable_node_data()->add_rotational_scan_matcher_histogram(n * 0.5f);
      break;
    }
    case 5: d.mutable_trajectory_data()->set_gravity_constant(s.Real(-10, 10)); break;
    case 6: d.mutable_imu_data()->mutable_imu_data()->set_timestamp(s.Bits(62)); break;
    case 7: d.mutable_odometry_data()->set_trajectory_id(s.IntEdge(-1, 100)); break;
    case 8: d.mutable_fixed_frame_pose_data()->set_trajectory_id(s.IntEdge(-1, 100)); break;
    default:
      d.mutable_landmark_data()->mutable_landmark_data()->add_landmark_observations()->set_id(GenText(s, max_bytes));
  }
  return d;
}
std::string Bytes(const google::protobuf::Message& m) { return m.SerializeAsString(); }

// Reads everything; returns the serialized messages.
template <typename Reader>
std::vector<std::string> ReadAll(Reader* reader) {
  std::vector<std::string> got;
  for (int guard = 0; guard < 2000; ++guard) {
    SerializedData d;
    if (!reader->ReadProto(&d)) {
      PBT_CHECK(reader->eof()) << "reading stopped without the end being reported";
      SerializedData again;
      PBT_CHECK(!reader->ReadProto(&again)) << "a message appeared after the end of the stream";
      return got;
    }
    got.push_back(Bytes(d));
  }
  PBT_FAIL() << "the stream never ends";
  return got;
}
void Same(const std::vector<std::string>& got, const std::vector<std::string>& want, size_t count,
          const std::string& where) {
  PBT_CHECK_EQ(got.size(), count) << where << ": number of messages read";
  for (size_t i = 0; i < count; ++i)
    PBT_CHECK(got[i] == want[i]) << where << ": message " << i << " has " << got[i].size()
                                 << " bytes and differs from the one written (" << want[i].size() << " bytes)";
}

PBT_FACET(round_trip, o.weight = 2; o.rule = "at least two messages, one of them not empty") {
  Scratch scratch;
  std::vector<std::string> want;
  {
    io::ProtoStreamWriter writer(scratch.path("/a"));
    const int count = s.Chance(0.1) ? s.Int(0, 1) : s.Len(2, 30);
    const int max = s.Pick<int>({8, 100, 100000});
    for (int i = 0; i < count; ++i) {
      const SerializedData d = GenData(s, max);
      writer.WriteProto(d);
      want.push_back(Bytes(d));
    }
    PBT_CHECK(writer.Close()) << "closing failed";
  }
  size_t total = 0;
  for (const auto& w : want) total += w.size();
  s.NonTrivial(want.size() >= 2 && total > 0);
  s.LabelIf(total > 65536, "larger than 64 KiB");
  if (s.Sampling()) s.Describe(std::to_string(want.size()) + " messages, " + std::to_string(total) + " bytes");
  io::ProtoStreamReader reader(scratch.path("/a"));
  PBT_CHECK(!reader.eof() || want.empty()) << "end reported before the first message was read";
  Same(ReadAll(&reader), want, want.size(), "file");
  // A second reader sees the same.
  io::ProtoStreamReader again(scratch.path("/a"));
  Same(ReadAll(&again), want, want.size(), "file read again");
}

PBT_FACET(truncation, o.weight = 3; o.rule = "cut inside a message or its length") {
  Scratch scratch;
  std::vector<std::string> want;
  std::vector<size_t> end;  // File size when everything up to message i is there.
  {
    for (int count = s.Len(1, 6); count > 0; --count) want.push_back(Bytes(GenData(s, s.Pick<int>({8, 60, 3000}))));
    // The sizes after each message, measured with files that hold a prefix.
    for (size_t n = 0; n <= want.size(); ++n) {
      io::ProtoStreamWriter writer(scratch.path("/a"));
      for (size_t i = 0; i < n; ++i) {
        SerializedData d;
        d.ParseFromString(want[i]);
        writer.WriteProto(d);
      }
      PBT_CHECK(writer.Close()) << "closing failed";
      end.push_back(Slurp(scratch.path("/a")).size());
    }
  }
  const std::string whole = Slurp(scratch.path("/a"));
  PBT_CHECK_EQ(whole.size(), end.back());
  // Try a batch of cuts, exhaustively when the file is small.
  std::vector<size_t> cuts;
  if (whole.size() - end[0] <= 150) {
    for (size_t c = end[0]; c <= whole.size(); ++c) cuts.push_back(c);
    s.Label("every cut of the file");
  } else {
    for (size_t e : end)
      for (int d = -10; d <= 10; ++d)
        if (static_cast<int64_t>(e) + d >= static_cast<int64_t>(end[0]) && e + d <= whole.size()) cuts.push_back(e + d);
    for (int n = 10; n > 0; --n) cuts.push_back(end[0] + s.Bits(40) % (whole.size() - end[0] + 1));
  }
  s.NonTrivial(cuts.size() > 1);
  if (s.Sampling()) s.Describe(std::to_string(want.size()) + " messages, " + std::to_string(cuts.size()) + " cuts");
  for (size_t cut : cuts) {
    Spit(scratch.path("/b"), whole.substr(0, cut));
    size_t complete = 0;
    while (complete + 1 < end.size() && end[complete + 1] <= cut) ++complete;
    io::ProtoStreamReader reader(scratch.path("/b"));
    Same(ReadAll(&reader), want, complete, "cut at " + std::to_string(cut) + " of " + std::to_string(whole.size()));
  }
}

PBT_FACET(not_a_stream, o.weight = 0.3; o.rule = "always") {
  s.NonTrivial();
  Scratch scratch;
  io::ProtoStreamWriter writer(scratch.path("/a"));
  PBT_CHECK(writer.Close());
  std::string bytes = Slurp(scratch.path("/a"));
  PBT_CHECK(!bytes.empty()) << "an empty stream is an empty file";
  const int kind = s.Int(0, 3);
  s.Label(kind == 0 ? "missing file" : kind == 1 ? "cut" : kind == 2 ? "altered" : "other content");
  if (kind == 1) bytes.resize(s.Bits(40) % bytes.size());
  if (kind == 2) bytes[s.Bits(40) % bytes.size()] ^= 1 << s.Int(0, 7);
  if (kind == 3) {
    bytes = "#!/bin/sh\n" + GenBytes(s, 100);
  }
  if (kind != 0) Spit(scratch.path("/b"), bytes);
  const int status = pbt::RunForked([&] { io::ProtoStreamReader reader(scratch.path("/b")); });
  PBT_CHECK_EQ(status, 1) << "a file which is not a stream was accepted";
}

// The format on disk, written and read by hand: files outlive the program that wrote them.
std::string Little(uint64_t v) {
  std::string out;
  for (int i = 0; i < 8; ++i) out.push_back(static_cast<char>((v >> (8 * i)) & 0xff));
  return out;
}
PBT_FACET(format_on_disk, o.weight = 1; o.rule = "at least two messages") {
  Scratch scratch;
  static const unsigned char kSignature[8] = {0xdb, 0x01, 0xf5, 0x5b, 0x7b, 0x1f, 0x1d, 0x7b};
  std::string by_hand(reinterpret_cast<const char*>(kSignature), 8);
  std::vector<std::string> want;
  {
    io::ProtoStreamWriter writer(scratch.path("/a"));
    for (int n = s.Len(0, 8); n > 0; --n) {
      const SerializedData d = GenData(s, s.Pick<int>({8, 100, 30000}));
      want.push_back(Bytes(d));
      writer.WriteProto(d);
      std::string packed;
      boost::iostreams::filtering_ostream out;
      out.push(boost::iostreams::gzip_compressor(boost::iostreams::gzip_params(s.Int(1, 9))));
      out.push(boost::iostreams::back_inserter(packed));
      boost::iostreams::write(out, want.back().data(), want.back().size());
      boost::iostreams::close(out);
      by_hand += Little(packed.size()) + packed;
    }
    PBT_CHECK(writer.Close());
  }
  s.NonTrivial(want.size() >= 2);
  Spit(scratch.path("/b"), by_hand);
  io::ProtoStreamReader reader(scratch.path("/b"));
  Same(ReadAll(&reader), want, want.size(), "file in the known format");
  const std::string written = Slurp(scratch.path("/a"));
  PBT_CHECK(written.substr(0, 8) == by_hand.substr(0, 8)) << "signature changed";
  size_t at = 8;
  for (size_t i = 0; i < want.size(); ++i) {
    PBT_CHECK(at + 8 <= written.size()) << "file ends before message " << i;
    uint64_t size = 0;
    for (int b = 7; b >= 0; --b) size = size << 8 | static_cast<unsigned char>(written[at + b]);
    at += 8;
    PBT_CHECK(size <= written.size() - at) << "length of message " << i << " exceeds the file";
    std::string unpacked;
    boost::iostreams::filtering_ostream out;
    out.push(boost::iostreams::gzip_decompressor());
    out.push(boost::iostreams::back_inserter(unpacked));
    boost::iostreams::write(out, written.data() + at, size);
    boost::iostreams::close(out);
    PBT_CHECK(unpacked == want[i]) << "message " << i << " on disk";
    at += size;
  }
  PBT_CHECK_EQ(at, written.size()) << "bytes after the last message";
}

PBT_FACET(full_disk, o.weight = 0.5; o.rule = "always") {
  s.NonTrivial();
  // /dev/full takes no byte: whatever is written, closing must report it.
  io::ProtoStreamWriter writer("/dev/full");
  for (int n = s.Len(0, 8); n > 0; --n) writer.WriteProto(GenData(s, s.Pick<int>({8, 100, 50000})));
  PBT_CHECK(!writer.Close()) << "closing reported success though nothing reached the device";
}

PBT_FACET(in_memory, o.weight = 1; o.rule = "at least two messages") {
  std::vector<std::string> want;
  std::queue<std::unique_ptr<google::protobuf::Message>> chunks;
  io::InMemoryProtoStreamReader added;
  std::vector<const google::protobuf::Message*> seen;
  std::vector<std::string> forwarded;
  int closed = 0;
  const bool close_result = s.Chance(0.5);
  io::ForwardingProtoStreamWriter writer([&](const google::protobuf::Message* m) {
    if (m == nullptr) {
      ++closed;
      return close_result;
    }
    forwarded.push_back(Bytes(*m));
    auto copy = absl::make_unique<SerializedData>();
    copy->CopyFrom(*m);
    chunks.push(std::move(copy));
    return true;
  });
  for (int n = s.Len(0, 20); n > 0; --n) {
    const SerializedData d = GenData(s, 60);
    want.push_back(Bytes(d));
    writer.WriteProto(d);
    added.AddProto(d);
  }
  s.NonTrivial(want.size() >= 2);
  PBT_CHECK(closed == 0) << "closed too early";
  PBT_CHECK(forwarded == want) << "forwarded messages differ";
  PBT_CHECK_EQ(writer.Close(), close_result) << "the result of closing";
  PBT_CHECK_EQ(closed, 1);
  io::InMemoryProtoStreamReader from_queue(std::move(chunks));
  for (int which = 0; which < 2; ++which) {
    io::InMemoryProtoStreamReader* reader = which == 0 ? &added : &from_queue;
    for (size_t i = 0; i < want.size(); ++i) {
      PBT_CHECK(!reader->eof()) << "end reported with messages left";
      SerializedData d = GenData(s, 8);
      PBT_CHECK(reader->ReadProto(&d));
      PBT_CHECK(Bytes(d) == want[i]) << "message " << i << " differs";
    }
    PBT_CHECK(reader->eof());
    SerializedData d;
    PBT_CHECK(!reader->ReadProto(&d)) << "read past the end";
  }
}

PBT_FACET(compression, o.weight = 1; o.rule = "more than 100 bytes") {
  const std::string data = GenBytes(s, s.Pick<int>({10, 1000, 300000}));
  s.NonTrivial(data.size() > 100);
  std::string packed, unpacked;
  common::FastGzipString(data, &packed);
  common::FastGunzipString(packed, &unpacked);
  PBT_CHECK(unpacked == data) << data.size() << " bytes became " << unpacked.size();
}

// What a map state file must begin with.
PBT_FACET(map_state_beginning, o.weight = 1.5; o.rule = "a well-formed beginning with messages after it") {
  Scratch scratch;
  int version = s.Weighted({4, 4, 1}) == 2 ? s.IntEdge(0, 300) : s.Int(1, 2);
  mapping::proto::SerializationHeader header;
  header.set_format_version(version);
  // Mostly the right beginning; sometimes with one thing wrong.
  SerializedData graph, options;
  int trajectories = s.Int(0, 4);
  int option_count = s.Chance(0.8) ? trajectories : s.Int(0, 4);
  graph.mutable_pose_graph();
  for (int i = 0; i < trajectories; ++i) graph.mutable_pose_graph()->add_trajectory()->set_trajectory_id(i);
  options.mutable_all_trajectory_builder_options();
  for (int i = 0; i < option_count; ++i)
    options.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids()->add_sensor_id()->set_id(
        GenText(s, 10));
  std::vector<SerializedData> messages = {graph, options};
  switch (s.Weighted({6, 1, 1, 1, 1, 1})) {
    case 1: std::swap(messages[0], messages[1]); break;
    case 2: messages.erase(messages.begin()); break;
    case 3: messages.erase(messages.begin() + 1); break;
    case 4: messages[s.Int(0, 1)] = GenData(s, 10); break;
    case 5: messages.insert(messages.begin() + s.Int(0, 1), GenData(s, 10)); break;
    default: break;
  }
  const int extra = s.Len(0, 10);
  for (int i = 0; i < extra; ++i) messages.push_back(GenData(s, 50));
  const bool has_header = s.Chance(0.95);
  const bool good = has_header && (version == 1 || version == 2) && messages.size() >= 2 &&
                    messages[0].has_pose_graph() && messages[1].has_all_trajectory_builder_options() &&
                    messages[0].pose_graph().trajectory_size() ==
                        messages[1].all_trajectory_builder_options().options_with_sensor_ids_size();
  if (!has_header) messages.clear();
  {
    io::ProtoStreamWriter writer(scratch.path("/a"));
    if (has_header) writer.WriteProto(header);
    for (const auto& m : messages) writer.WriteProto(m);
    PBT_CHECK(writer.Close());
  }
  const bool in_memory = s.Chance(0.3);
  auto open = [&](std::unique_ptr<io::ProtoStreamReaderInterface>* reader) {
    if (in_memory) {
      auto r = absl::make_unique<io::InMemoryProtoStreamReader>();
      if (has_header) r->AddProto(header);
      for (const auto& m : messages) r->AddProto(m);
      *reader = std::move(r);
    } else {
      *reader = absl::make_unique<io::ProtoStreamReader>(scratch.path("/a"));
    }
  };
  std::unique_ptr<io::ProtoStreamReaderInterface> reader;
  if (!good) {
    s.Label("refused");
    const int status = pbt::RunForked([&] {
      open(&reader);
      io::ProtoStreamDeserializer deserializer(reader.get());
    });
    PBT_CHECK_EQ(status, 1) << "a malformed beginning was accepted, version " << version;
    return;
  }
  s.NonTrivial(messages.size() > 2);
  open(&reader);
  io::ProtoStreamDeserializer deserializer(reader.get());
  PBT_CHECK_EQ(static_cast<int>(deserializer.header().format_version()), version);
  PBT_CHECK(Bytes(deserializer.pose_graph()) == Bytes(messages[0].pose_graph())) << "pose graph differs";
  PBT_CHECK(Bytes(deserializer.all_trajectory_builder_options()) ==
            Bytes(messages[1].all_trajectory_builder_options()))
      << "options differ";
  SerializedData d;
  for (size_t i = 2; i < messages.size(); ++i) {
    PBT_CHECK(deserializer.ReadNextSerializedData(&d)) << "message " << i << " missing";
    PBT_CHECK(Bytes(d) == Bytes(messages[i])) << "message " << i << " differs";
  }
  PBT_CHECK(!deserializer.ReadNextSerializedData(&d)) << "read past the end";
  if (!in_memory)
    PBT_CHECK(Bytes(io::DeserializePoseGraphFromFile(scratch.path("/a"))) == Bytes(messages[0].pose_graph()));
}

// The summary tool counts what is in the file.
struct Sink : google::LogSink {
  std::vector<std::string> lines;
  void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* message,
            size_t len) override {
    lines.emplace_back(message, len);
  }
};
PBT_FACET(summary, o.weight = 1; o.rule = "at least three messages after the beginning") {
  Scratch scratch;
  std::map<std::string, int> want = {{"submap_2d", 0}, {"submap_2d_grid", 0}, {"submap_3d", 0},
                                     {"submap_3d_high_resolution_hybrid_grid", 0}};
  int count = s.Len(0, 15);
  {
    io::ProtoStreamWriter writer(scratch.path("/a"));
    mapping::proto::SerializationHeader header;
    header.set_format_version(s.Int(1, 2));
    writer.WriteProto(header);
    SerializedData graph, options;
    graph.mutable_pose_graph();
    options.mutable_all_trajectory_builder_options();
    writer.WriteProto(graph);
    writer.WriteProto(options);
    for (int i = 0; i < count; ++i) {
      const SerializedData d = GenData(s, 40);
      writer.WriteProto(d);
      switch (d.data_case()) {
        case SerializedData::kSubmap:
          ++want["submap"];
          want["submap_2d"] += d.submap().has_submap_2d();
          want["submap_2d_grid"] += d.submap().submap_2d().has_grid();
          want["submap_3d"] += d.submap().has_submap_3d();
          want["submap_3d_high_resolution_hybrid_grid"] += d.submap().submap_3d().has_high_resolution_hybrid_grid();
          break;
        case SerializedData::kNode: ++want["node"]; break;
        case SerializedData::kTrajectoryData: ++want["trajectory_data"]; break;
        case SerializedData::kImuData: ++want["imu_data"]; break;
        case SerializedData::kOdometryData: ++want["odometry_data"]; break;
        case SerializedData::kFixedFramePoseData: ++want["fixed_frame_pose_data"]; break;
        case SerializedData::kLandmarkData: ++want["landmark_data"]; break;
        default: s.Label("message of no known kind"); break;
      }
    }
    PBT_CHECK(writer.Close());
  }
  s.NonTrivial(count >= 3);
  std::map<std::string, int> got;
  std::string path = scratch.path("/a");
  const std::string report = scratch.path("/b");
  const int status = pbt::RunForked([&] {
    FLAGS_minloglevel = 0;
    Sink sink;
    google::AddLogSink(&sink);
    std::string a0 = "cartographer_pbstream", a1 = "info";
    char* argv[] = {&a0[0], &a1[0], &path[0], nullptr};
    if (io::pbstream_info(3, argv) != 0) _exit(5);
    google::RemoveLogSink(&sink);
    std::ofstream out(report);
    for (const auto& l : sink.lines) out << l << "\n";
  });
  PBT_CHECK_EQ(status, 0) << "summarising a stream failed";
  std::istringstream in(Slurp(report));
  for (std::string line; std::getline(in, line);) {
    const auto hash = line.find(" contains #");
    if (hash == std::string::npos) continue;
    const auto colon = line.find(": ", hash);
    got[line.substr(hash + 11, colon - hash - 11)] = std::stoi(line.substr(colon + 2));
  }
  for (const auto& e : want) PBT_CHECK_EQ(got[e.first], e.second) << "count of " << e.first;
  PBT_CHECK_EQ(got.size(), want.size()) << "kinds listed in the summary";
}
}  // namespace
