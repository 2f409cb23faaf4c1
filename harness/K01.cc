// K01: ground truth relations are those the pose graph supports, and accuracy
// is measured against them as stated.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>

#include "cartographer/ground_truth/autogenerate_ground_truth.h"
#include "cartographer/ground_truth/proto/relations.pb.h"
#include "cartographer/ground_truth/relations_text_file.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/transform/transform.h"
#include "geo.h"

namespace {
namespace gt = cartographer::ground_truth;
namespace mapping = cartographer::mapping;
namespace transform = cartographer::transform;
using mapping::proto::PoseGraph;
using Rigid = Eigen::Isometry3d;

cartographer::transform::proto::Rigid3d Proto(const Rigid& r, bool flip) {
  cartographer::transform::proto::Rigid3d out;
  Eigen::Quaterniond q(r.linear());
  q.normalize();
  if (flip) q.coeffs() = -q.coeffs();
  out.mutable_translation()->set_x(r.translation().x());
  out.mutable_translation()->set_y(r.translation().y());
  out.mutable_translation()->set_z(r.translation().z());
  out.mutable_rotation()->set_w(q.w());
  out.mutable_rotation()->set_x(q.x());
  out.mutable_rotation()->set_y(q.y());
  out.mutable_rotation()->set_z(q.z());
  return out;
}
Rigid FromProto(const cartographer::transform::proto::Rigid3d& p) {
  Rigid out = Rigid::Identity();
  out.linear() = Eigen::Quaterniond(p.rotation().w(), p.rotation().x(), p.rotation().y(), p.rotation().z()).normalized().toRotationMatrix();
  out.translation() = Eigen::Vector3d(p.translation().x(), p.translation().y(), p.translation().z());
  return out;
}
double Angle(const Rigid& r) {
  const Eigen::Matrix3d m = r.linear();
  const Eigen::Vector3d v(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1));
  return std::atan2(v.norm(), m.trace() - 1.);
}
Rigid GenRigid(pbt::Source& s, double r, double angle) {
  Rigid out = Rigid::Identity();
  out.linear() = geo::GenRotation(s, angle).toRotationMatrix();
  out.translation() = geo::GenVector(s, r);
  return out;
}

struct Graph {
  PoseGraph proto;
  std::vector<Rigid> nodes, submaps;
  std::vector<int64_t> times;
};

Graph GenGraph(pbt::Source& s, bool plain) {
  Graph g;
  const int n = s.Chance(0.1) ? 1 : s.Int(2, 30);
  auto* t = g.proto.add_trajectory();
  t->set_trajectory_id(0);
  int64_t time = geo::kEpoch + s.Int(0, 1000000);
  Rigid pose = Rigid::Identity();
  if (!plain) pose = GenRigid(s, 20., M_PI);
  for (int i = 0; i != n; ++i) {
    if (i > 0) {
      if (plain) pose.translation()[s.Bits(2)] += 0.5 * s.Int(-4, 4);
      else pose = pose * GenRigid(s, 2., 1.5);
      // Round, so that what is written is what is meant.
      time += s.Chance(0.05) ? 1 : s.Int(1, 40000000);
    }
    g.nodes.push_back(pose);
    g.times.push_back(time);
    auto* node = t->add_node();
    node->set_node_index(i);
    node->set_timestamp(time);
    *node->mutable_pose() = Proto(pose, s.Chance(0.2));
  }
  // Submaps of 2 * size nodes, a new one every 'size' nodes.
  const int size = s.Len(1, 6);
  const int m = (n + size - 1) / size;
  for (int j = 0; j != m; ++j) {
    g.submaps.push_back(plain ? g.nodes[j * size] : g.nodes[j * size] * GenRigid(s, 1., 0.5));
    auto* submap = t->add_submap();
    submap->set_submap_index(j);
    *submap->mutable_pose() = Proto(g.submaps.back(), s.Chance(0.2));
  }
  std::vector<PoseGraph::Constraint> inter;
  for (int k = s.Len(1, 14); k > 0; --k) {
    PoseGraph::Constraint c;
    const int node = s.Int(0, n - 1), submap = s.Int(0, m - 1);
    c.mutable_node_id()->set_node_index(node);
    c.mutable_submap_id()->set_submap_index(submap);
    Rigid relative = g.submaps[submap].inverse() * g.nodes[node];
    switch (s.Weighted({3, 2, 2, 1})) {
      case 0: relative = relative * GenRigid(s, 0.1, 0.02); break;
      case 1: relative.translation() += geo::GenVector(s, 0.6); break;
      case 2: relative.linear() = relative.linear() * geo::GenRotation(s, 0.1).toRotationMatrix(); break;
      case 3: relative = GenRigid(s, 10., M_PI); break;
    }
    *c.mutable_relative_pose() = Proto(relative, s.Chance(0.2));
    c.set_tag(PoseGraph::Constraint::INTER_SUBMAP);
    inter.push_back(c);
  }
  size_t at = 0;
  for (int i = 0; i != n; ++i) {
    for (int j = std::max(0, i / size - 1); j <= i / size; ++j) {
      if (s.Chance(0.3) && at < inter.size()) *g.proto.add_constraint() = inter[at++];
      auto* c = g.proto.add_constraint();
      c->mutable_node_id()->set_node_index(i);
      c->mutable_submap_id()->set_submap_index(j);
      *c->mutable_relative_pose() = Proto(g.submaps[j].inverse() * g.nodes[i], false);
      c->set_tag(PoseGraph::Constraint::INTRA_SUBMAP);
    }
  }
  while (at < inter.size()) *g.proto.add_constraint() = inter[at++];
  return g;
}

struct Limits {
  double distance, meters, radians;
};
struct Relation {
  int64_t time1, time2;
  Rigid expected;
  double covered;
};
struct Kept {
  std::vector<Relation> relations;
  int rejected = 0, near = 0;
};

Kept Model(const Graph& g, const Limits& limits, bool exact) {
  const auto close = [&](double value, double limit) {
    return std::abs(value - limit) < 1e-9 && !(exact && value == limit);
  };
  Kept out;
  // Travelled distance up to each node.
  std::vector<double> travelled{0.};
  for (size_t i = 1; i != g.nodes.size(); ++i)
    travelled.push_back(travelled.back() + (g.nodes[i].translation() - g.nodes[i - 1].translation()).norm());
  // The node in the middle of a submap is the first of the next submap.
  std::map<int, int> middle;
  for (const auto& c : g.proto.constraint()) {
    if (c.tag() != PoseGraph::Constraint::INTRA_SUBMAP) continue;
    const int submap = c.submap_id().submap_index();
    if (submap > 0) middle.emplace(submap - 1, c.node_id().node_index());
  }
  for (const auto& c : g.proto.constraint()) {
    if (c.tag() == PoseGraph::Constraint::INTRA_SUBMAP) continue;
    const int submap = c.submap_id().submap_index(), node = c.node_id().node_index();
    if (middle.count(submap) == 0) continue;
    const int representative = middle[submap];
    const double covered = std::abs(travelled[node] - travelled[representative]);
    if (close(covered, limits.distance)) throw pbt::Discard();
    if (covered < limits.distance) {
      ++out.near;
      continue;
    }
    const Rigid solution = g.nodes[representative].inverse() * g.nodes[node];
    const Rigid expected = g.nodes[representative].inverse() * g.submaps[submap] * FromProto(c.relative_pose());
    const Rigid error = solution * expected.inverse();
    if (close(error.translation().norm(), limits.meters) || std::abs(Angle(error) - limits.radians) < 1e-7) throw pbt::Discard();
    if (error.translation().norm() > limits.meters || Angle(error) > limits.radians) {
      ++out.rejected;
      continue;
    }
    out.relations.push_back({g.times[representative], g.times[node], expected, covered});
  }
  return out;
}

void Compare(const gt::proto::GroundTruth& got, const Kept& want) {
  PBT_CHECK_EQ(got.relation_size(), static_cast<int>(want.relations.size()));
  for (int i = 0; i != got.relation_size(); ++i) {
    const auto& a = got.relation(i);
    const Relation& b = want.relations[i];
    PBT_CHECK_EQ(a.timestamp1(), b.time1) << "relation " << i;
    PBT_CHECK_EQ(a.timestamp2(), b.time2) << "relation " << i;
    PBT_CHECK(std::abs(a.covered_distance() - b.covered) < 1e-9) << "relation " << i;
    const Rigid e = FromProto(a.expected());
    PBT_CHECK((e.translation() - b.expected.translation()).norm() < 1e-9) << "relation " << i;
    PBT_CHECK(Angle(e.inverse() * b.expected) < 1e-7) << "relation " << i;
  }
}

Limits GenLimits(pbt::Source& s, const Graph& g, bool plain) {
  Limits l;
  l.distance = plain ? 0.5 * s.Int(0, 20) : s.Real(0., 15.);
  l.meters = s.Weighted({4, 1}) == 0 ? s.Real(0.01, 0.6) : s.Real(0., 30.);
  l.radians = s.Weighted({4, 1}) == 0 ? s.Real(0.001, 0.1) : s.Real(0., 3.2);
  return l;
}

PBT_FACET(generated, o.weight = 12; o.rule = "a relation kept and another rejected as too close or an outlier") {
  const bool plain = s.Chance(0.3);
  const Graph g = GenGraph(s, plain);
  const Limits limits = GenLimits(s, g, plain);
  const Kept want = Model(g, limits, plain);
  if (!want.relations.empty() && want.near + want.rejected > 0) s.NonTrivial();
  s.LabelIf(want.near > 0, "too close");
  s.LabelIf(want.rejected > 0, "outlier");
  s.LabelIf(want.relations.size() > 1, "several");
  const std::string before = g.proto.SerializeAsString();
  const gt::proto::GroundTruth got = gt::GenerateGroundTruth(g.proto, limits.distance, limits.meters, limits.radians);
  PBT_CHECK(g.proto.SerializeAsString() == before);
  Compare(got, want);
}

// --- Text files -----------------------------------------------------------
std::string Scratch() {
  const std::string dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/k01_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  return dir;
}
struct TextRelation {
  int64_t ticks1, ticks2;  // since the Unix epoch
  double v[6];
};
std::string Stamp(int64_t ticks, int digits) {
  char b[64];
  int64_t fraction = ticks % 10000000;
  for (int i = digits; i < 7; ++i) fraction /= 10;
  if (digits == 0) snprintf(b, sizeof b, "%lld", static_cast<long long>(ticks / 10000000));
  else snprintf(b, sizeof b, "%lld.%0*lld", static_cast<long long>(ticks / 10000000), digits, static_cast<long long>(fraction));
  return b;
}
std::string Number(pbt::Source& s, double v) {
  char b[64];
  snprintf(b, sizeof b, s.Chance(0.8) ? "%.17g" : "%.17e", v);
  return b;
}
struct TextFile {
  std::string text;
  std::vector<TextRelation> relations;
};
TextFile GenText(pbt::Source& s, int n, int64_t begin, int64_t end) {
  TextFile out;
  for (int i = 0; i != n; ++i) {
    TextRelation r;
    const int digits = s.Pick(std::vector<int>{0, 3, 6, 7});
    int64_t unit = 1;
    for (int k = digits; k < 7; ++k) unit *= 10;
    r.ticks1 = s.Int(begin, end) / unit * unit;
    r.ticks2 = s.Int(begin, end) / unit * unit;
    for (int k = 0; k != 3; ++k) r.v[k] = s.Chance(0.2) ? s.Int(-3, 3) : s.Real(-50., 50.);
    for (int k = 3; k != 6; ++k) r.v[k] = s.Chance(0.3) ? 0. : s.Real(-3.2, 3.2);
    const char* gap = s.Chance(0.2) ? "\t" : s.Chance(0.2) ? "  " : " ";
    out.text += Stamp(r.ticks1, digits) + gap + Stamp(r.ticks2, digits);
    for (double v : r.v) out.text += gap + Number(s, v);
    if (i + 1 != n || s.Chance(0.8)) out.text += s.Chance(0.2) ? "\n\n" : "\n";
    out.relations.push_back(r);
  }
  return out;
}
// 100 ns ticks between 0001-01-01 and 1970-01-01.
constexpr int64_t kUnixEpoch = 719162ll * 24 * 3600 * 10000000;

void WriteText(const std::string& path, const std::string& text) {
  std::ofstream f(path, std::ios::binary);
  f << text;
  f.close();
  PBT_CHECK(!f.fail());
}
void CheckText(const gt::proto::GroundTruth& got, const TextFile& want) {
  PBT_CHECK_EQ(got.relation_size(), static_cast<int>(want.relations.size()));
  for (int i = 0; i != got.relation_size(); ++i) {
    const auto& a = got.relation(i);
    const TextRelation& b = want.relations[i];
    // Read as double: good to a few ticks.
    PBT_CHECK(std::abs(a.timestamp1() - (b.ticks1 + kUnixEpoch)) <= 4) << a.timestamp1() << " for " << b.ticks1;
    PBT_CHECK(std::abs(a.timestamp2() - (b.ticks2 + kUnixEpoch)) <= 4) << a.timestamp2() << " for " << b.ticks2;
    Rigid e = Rigid::Identity();
    const Eigen::Matrix3d rx = Eigen::AngleAxisd(b.v[3], Eigen::Vector3d::UnitX()).toRotationMatrix();
    const Eigen::Matrix3d ry = Eigen::AngleAxisd(b.v[4], Eigen::Vector3d::UnitY()).toRotationMatrix();
    const Eigen::Matrix3d rz = Eigen::AngleAxisd(b.v[5], Eigen::Vector3d::UnitZ()).toRotationMatrix();
    const Rigid r = FromProto(a.expected());
    PBT_CHECK((r.linear() - rz * ry * rx).norm() < 1e-9) << "rotation of relation " << i;
    PBT_CHECK((r.translation() - Eigen::Vector3d(b.v[0], b.v[1], b.v[2])).norm() == 0.) << "translation of relation " << i;
  }
}

PBT_FACET(text_files, o.weight = 2; o.rule = "at least two relations") {
  const int n = s.Len(0, 8);
  const TextFile file = GenText(s, n, 0, 20000000000000000ll);
  const std::string path = Scratch() + "/relations.txt";
  if (n >= 2) s.NonTrivial();
  if (s.Chance(0.1) && n > 0) {
    // Something that is not a number, or no file at all.
    std::string text = file.text;
    if (s.Chance(0.7)) {
      const std::string word = s.Pick(std::vector<std::string>{"x ", "# time\n", ", "});
      text = word + text;
      WriteText(path, text);
    } else {
      unlink(path.c_str());
    }
    s.Label("refused");
    PBT_CHECK_EQ(pbt::RunForked([&]() { gt::ReadRelationsTextFile(path); }), 1);
    return;
  }
  WriteText(path, file.text);
  CheckText(gt::ReadRelationsTextFile(path), file);
}

// --- The programs ----------------------------------------------------------
struct Run {
  int status;  // exit status, or -signal
  std::string log;
};
Run RunProgram(const std::string& name, const std::vector<std::string>& args, const std::string& dir) {
  const char* programs = getenv("VERIF_PROGRAMS");
  PBT_CHECK(programs != nullptr);
  const std::string binary = std::string(programs) + "/" + name, log = dir + "/log";
  std::vector<char*> argv{const_cast<char*>(binary.c_str())};
  for (const auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    setenv("GLOG_minloglevel", "0", 1);
    if (chdir(dir.c_str()) != 0) _exit(126);
    execv(binary.c_str(), argv.data());
    _exit(127);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  std::ifstream f(log, std::ios::binary);
  std::stringstream text;
  text << f.rdbuf();
  return {WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status), text.str()};
}
void WriteStream(const std::string& path, const PoseGraph& graph) {
  cartographer::io::ProtoStreamWriter writer(path);
  mapping::proto::SerializationHeader header;
  header.set_format_version(2);
  writer.WriteProto(header);
  mapping::proto::SerializedData data;
  *data.mutable_pose_graph() = graph;
  writer.WriteProto(data);
  data.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids();
  writer.WriteProto(data);
  PBT_CHECK(writer.Close());
}
std::string Flag(const char* name, double v) {
  char b[100];
  snprintf(b, sizeof b, "--%s=%.17g", name, v);
  return b;
}

struct Error {
  double meters, radians;
};
Rigid At(const Graph& g, int64_t time) {
  if (time <= g.times.front()) return g.nodes.front();
  if (time >= g.times.back()) return g.nodes.back();
  size_t i = 1;
  while (g.times[i] < time) ++i;
  const double f = static_cast<double>(time - g.times[i - 1]) / (g.times[i] - g.times[i - 1]);
  Rigid out = Rigid::Identity();
  out.translation() = (1. - f) * g.nodes[i - 1].translation() + f * g.nodes[i].translation();
  const Eigen::AngleAxisd turn(Eigen::Matrix3d(g.nodes[i - 1].linear().transpose() * g.nodes[i].linear()));
  out.linear() = g.nodes[i - 1].linear() * Eigen::AngleAxisd(f * turn.angle(), turn.axis()).toRotationMatrix();
  return out;
}
std::vector<double> Numbers(const std::string& line) {
  std::vector<double> out;
  std::stringstream in(line);
  std::string word;
  while (std::getline(in, word, ',')) out.push_back(std::stod(word));
  return out;
}
bool Same(double got, double want, double absolute) { return std::abs(got - want) <= absolute + 1e-5 * std::abs(want); }

void CheckMetrics(pbt::Source& s, const Graph& g, const gt::proto::GroundTruth& truth, const std::string& csv_path, bool csv, const Run& run) {
  std::vector<Error> errors;
  for (const auto& r : truth.relation()) {
    const Rigid error = At(g, r.timestamp1()).inverse() * At(g, r.timestamp2()) * FromProto(r.expected()).inverse();
    errors.push_back({error.translation().norm(), Angle(error)});
  }
  PBT_CHECK_EQ(run.status, 0) << run.log;
  // Mean and deviation of the four measures.
  const auto check = [&](const std::string& name, const std::function<double(const Error&)>& measure) {
    const size_t at = run.log.find(name);
    PBT_CHECK(at != std::string::npos) << name << " is not reported:\n" << run.log;
    double mean = 0., deviation = 0.;
    PBT_CHECK_EQ(sscanf(run.log.c_str() + at + name.size(), "%lf +/- %lf", &mean, &deviation), 2) << run.log;
    double sum = 0., squares = 0.;
    for (const Error& e : errors) sum += measure(e);
    sum /= errors.size();
    for (const Error& e : errors) squares += (measure(e) - sum) * (measure(e) - sum);
    squares = std::sqrt(squares / (errors.size() - 1));
    PBT_CHECK(std::abs(mean - sum) <= 2e-5 + 1e-7 * sum) << name << ": mean " << mean << ", expected " << sum;
    PBT_CHECK(std::abs(deviation - squares) <= 2e-5 + 1e-7 * squares) << name << ": deviation " << deviation << ", expected " << squares;
  };
  const double deg = 180. / M_PI;
  check("Abs translational error", [](const Error& e) { return e.meters; });
  check("Sqr translational error", [](const Error& e) { return e.meters * e.meters; });
  check("Abs rotational error", [deg](const Error& e) { return e.radians * deg; });
  check("Sqr rotational error", [deg](const Error& e) { return e.radians * deg * e.radians * deg; });
  std::ifstream f(csv_path);
  PBT_CHECK_EQ(f.good(), csv);
  if (!csv) return;
  s.Label("csv");
  std::string line;
  PBT_CHECK(static_cast<bool>(std::getline(f, line)));
  PBT_CHECK(line == "translational_error,squared_translational_error,rotational_errors_degree,squared_rotational_errors_degree,expected_translation_x,"
                    "expected_translation_y,expected_translation_z,expected_rotation_w,expected_rotation_x,expected_rotation_y,expected_rotation_z,"
                    "covered_distance")
      << line;
  for (int i = 0; i != truth.relation_size(); ++i) {
    PBT_CHECK(static_cast<bool>(std::getline(f, line))) << "row " << i;
    const std::vector<double> v = Numbers(line);
    PBT_CHECK_EQ(v.size(), size_t{12}) << line;
    const auto& r = truth.relation(i);
    const double d = errors[i].radians * deg;
    PBT_CHECK(Same(v[0], errors[i].meters, 1e-6)) << i << ": " << v[0] << ", expected " << errors[i].meters;
    PBT_CHECK(Same(v[1], errors[i].meters * errors[i].meters, 1e-6)) << i;
    PBT_CHECK(Same(v[2], d, 1e-5)) << i << ": " << v[2] << ", expected " << d;
    PBT_CHECK(Same(v[3], d * d, 1e-5 + 2e-5 * d)) << i;
    const double rest[] = {r.expected().translation().x(), r.expected().translation().y(), r.expected().translation().z(), r.expected().rotation().w(),
                           r.expected().rotation().x(),    r.expected().rotation().y(),    r.expected().rotation().z(),    r.covered_distance()};
    for (int k = 0; k != 8; ++k) PBT_CHECK(Same(v[4 + k], rest[k], 1e-9)) << "row " << i << ", column " << 4 + k;
  }
  PBT_CHECK(!std::getline(f, line)) << line;
}

PBT_FACET(programs, o.weight = 6; o.case_timeout_s = 60; o.rule = "at least two relations written or measured") {
  const std::string dir = Scratch(), stream = dir + "/map.pbstream", relations = dir + "/relations", csv_path = stream + ".relation_metrics.csv";
  unlink(csv_path.c_str());
  unlink(relations.c_str());
  const Graph g = GenGraph(s, false);
  WriteStream(stream, g.proto);
  const Limits limits = GenLimits(s, g, false);
  const bool csv = s.Chance(0.7);
  gt::proto::GroundTruth truth;
  Graph assessed = g;
  std::vector<std::string> extra;
  if (csv) extra.push_back("--write_relation_metrics");
  if (s.Chance(0.6)) {
    const Kept want = Model(g, limits, false);
    const int fault = s.Weighted({8, 1, 1});
    const std::string target = fault == 1 ? dir + "/none/relations" : fault == 2 ? "/dev/full" : relations;
    if (fault == 2 && want.relations.empty()) throw pbt::Discard();
    const Run run = RunProgram("autogenerate_ground_truth", {"--pose_graph_filename=" + stream, "--output_filename=" + target, Flag("min_covered_distance", limits.distance),
                                                             Flag("outlier_threshold_meters", limits.meters), Flag("outlier_threshold_radians", limits.radians)},
                               dir);
    if (fault != 0) {
      s.Label("not writable");
      PBT_CHECK(run.status != 0) << run.log;
      return;
    }
    PBT_CHECK_EQ(run.status, 0) << run.log;
    std::ifstream in(relations, std::ios::binary);
    std::stringstream bytes;
    bytes << in.rdbuf();
    PBT_CHECK(truth.ParseFromString(bytes.str()));
    Compare(truth, want);
    if (truth.relation_size() >= 2) s.Label("measured against generated");
    // Assess another solution of the same drive.
    if (s.Chance(0.5)) {
      for (size_t i = 0; i != assessed.nodes.size(); ++i) {
        assessed.nodes[i] = assessed.nodes[i] * GenRigid(s, 0.3, 0.1);
        *assessed.proto.mutable_trajectory(0)->mutable_node(i)->mutable_pose() = Proto(assessed.nodes[i], s.Chance(0.2));
      }
      WriteStream(stream, assessed.proto);
    }
  } else {
    s.Label("text");
    const int64_t slack = s.Chance(0.3) ? 30000000 : 0;
    const TextFile file = GenText(s, s.Len(0, 6), g.times.front() - kUnixEpoch - slack, g.times.back() - kUnixEpoch + slack);
    WriteText(relations, file.text);
    truth = gt::ReadRelationsTextFile(relations);
    CheckText(truth, file);
    extra.push_back("--read_text_file_with_unix_timestamps");
  }
  if (truth.relation_size() < 2) return;
  s.NonTrivial();
  std::vector<std::string> args{"--pose_graph_filename=" + stream, "--relations_filename=" + relations};
  args.insert(args.end(), extra.begin(), extra.end());
  CheckMetrics(s, assessed, truth, csv_path, csv, RunProgram("compute_relations_metrics", args, dir));
}
}  // namespace
