// C04: every configuration value arrives in the option of the same name.
#include <cmath>
#include <map>
#include <set>

#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/internal/ceres_solver_options.h"
#include "cartographer/common/lua.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/map_builder_interface.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "pbt.h"

namespace {
namespace pb = google::protobuf;
using namespace cartographer;

struct Node {
  bool table = false;
  std::map<std::string, Node> keys;
  std::string text;  // Lua literal
  double number = 0;
  bool boolean = false;
  std::string str;
  int kind = 0;  // 0 number, 1 bool, 2 string
};

Node FromLua(lua_State* L) {
  Node n;
  if (lua_istable(L, -1)) {
    n.table = true;
    lua_pushnil(L);
    while (lua_next(L, -2)) {
      n.keys[lua_tostring(L, -2)] = FromLua(L);
      lua_pop(L, 1);
    }
  } else if (lua_isboolean(L, -1)) {
    n.kind = 1;
    n.boolean = lua_toboolean(L, -1);
  } else if (lua_type(L, -1) == LUA_TSTRING) {
    n.kind = 2;
    n.str = lua_tostring(L, -1);
  } else {
    n.number = lua_tonumber(L, -1);
  }
  return n;
}
int Include(lua_State* L) {
  const std::string path = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/configuration_files/" + lua_tostring(L, 1);
  if (luaL_dofile(L, path.c_str())) abort();
  return 0;
}
Node LoadShipped(const std::string& file, const std::string& name) {
  lua_State* L = luaL_newstate();
  luaL_openlibs(L);
  lua_register(L, "include", Include);
  if (luaL_dostring(L, ("include \"" + file + "\"").c_str())) abort();
  lua_getglobal(L, name.c_str());
  Node n = FromLua(L);
  lua_close(L);
  return n;
}

std::string Render(const Node& n) {
  if (n.table) {
    std::string out = "{";
    for (const auto& kv : n.keys) out += kv.first + " = " + Render(kv.second) + ",\n";
    return out + "}";
  }
  if (n.kind == 1) return n.boolean ? "true" : "false";
  if (n.kind == 2) return "\"" + n.str + "\"";
  char buf[40];
  snprintf(buf, sizeof buf, "%.17g", n.number);
  return buf;
}

const pb::FieldDescriptor* FieldFor(const pb::Descriptor* d, const std::string& key, int* index) {
  *index = -1;
  std::vector<std::string> names{key, key + "_options", key + "_options_2d", key + "_options_3d"};
  const size_t n = key.size();
  if (n > 3 && (key.substr(n - 3) == "_3d" || key.substr(n - 3) == "_2d"))
    names.push_back(key.substr(0, n - 3) + "_options" + key.substr(n - 3));
  for (const std::string& name : names)
    if (const auto* f = d->FindFieldByName(name)) return f;
  const size_t u = key.rfind('_');
  if (u != std::string::npos) {
    if (const auto* f = d->FindFieldByName(key.substr(0, u))) {
      if (f->is_repeated()) {
        *index = atoi(key.substr(u + 1).c_str());
        return f;
      }
    }
  }
  return nullptr;
}

Node Num(double d) { Node n; n.number = d; return n; }

// Gives leaves of the tree new values that fit the field.
int Mutate(Node* tree, const pb::Descriptor* d, pbt::Source& s, double p) {
  int changed = 0;
  for (auto& kv : tree->keys) {
    int index;
    const auto* f = FieldFor(d, kv.first, &index);
    if (!f) continue;
    Node& n = kv.second;
    if (n.table) {
      changed += Mutate(&n, f->message_type(), s, p);
      continue;
    }
    if (!s.Chance(p)) continue;
    ++changed;
    if (n.kind == 1) n.boolean = s.Bits(1);
    else if (n.kind == 2) continue;
    else if (kv.first == "hit_probability") n.number = 0.5 + 1e-3 * s.Int(1, 499);
    else if (kv.first == "miss_probability") n.number = 1e-3 * s.Int(1, 499);
    else if (kv.first == "min_num_points" || f->cpp_type() == pb::FieldDescriptor::CPPTYPE_INT32 || f->cpp_type() == pb::FieldDescriptor::CPPTYPE_UINT32 ||
             f->cpp_type() == pb::FieldDescriptor::CPPTYPE_INT64)
      n.number = s.Int(1, 5000);
    else if ((kv.first == "min_z" || kv.first == "max_z") && s.Bits(1)) n.number = -s.Real(0., 20.);
    else n.number = s.Chance(0.3) ? s.LogReal(1e-6, 1e7) : s.Real(0.001, 100.);
  }
  return changed;
}

void Compare(const Node& tree, const pb::Message& m, const std::string& path, const std::set<std::string>& ignore) {
  const auto* d = m.GetDescriptor();
  const auto* r = m.GetReflection();
  std::map<const pb::FieldDescriptor*, int> seen;
  for (const auto& kv : tree.keys) {
    int index;
    const auto* f = FieldFor(d, kv.first, &index);
    const std::string here = path + "." + kv.first;
    PBT_CHECK(f != nullptr) << "no option for " << here;
    ++seen[f];
    if (f->is_repeated()) {
      PBT_CHECK(index < r->FieldSize(m, f)) << here << " got lost";
      if (kv.second.table) Compare(kv.second, r->GetRepeatedMessage(m, f, index), here, ignore);
      else PBT_CHECK_EQ(r->GetRepeatedDouble(m, f, index), kv.second.number) << here;
      continue;
    }
    switch (f->cpp_type()) {
      case pb::FieldDescriptor::CPPTYPE_MESSAGE:
        PBT_CHECK(r->HasField(m, f)) << here << " got lost";
        Compare(kv.second, r->GetMessage(m, f), here, ignore);
        break;
      case pb::FieldDescriptor::CPPTYPE_BOOL: PBT_CHECK_EQ(r->GetBool(m, f), kv.second.boolean) << here; break;
      case pb::FieldDescriptor::CPPTYPE_DOUBLE: PBT_CHECK_EQ(r->GetDouble(m, f), kv.second.number) << here; break;
      case pb::FieldDescriptor::CPPTYPE_FLOAT: PBT_CHECK_EQ(r->GetFloat(m, f), static_cast<float>(kv.second.number)) << here; break;
      case pb::FieldDescriptor::CPPTYPE_INT32: PBT_CHECK_EQ(r->GetInt32(m, f), static_cast<int>(kv.second.number)) << here; break;
      case pb::FieldDescriptor::CPPTYPE_INT64: PBT_CHECK_EQ(r->GetInt64(m, f), static_cast<int64_t>(kv.second.number)) << here; break;
      case pb::FieldDescriptor::CPPTYPE_UINT32: PBT_CHECK_EQ(r->GetUInt32(m, f), static_cast<uint32_t>(kv.second.number)) << here; break;
      case pb::FieldDescriptor::CPPTYPE_ENUM: PBT_CHECK_EQ(r->GetEnum(m, f)->name(), kv.second.str) << here; break;
      case pb::FieldDescriptor::CPPTYPE_STRING: PBT_CHECK_EQ(r->GetString(m, f), kv.second.str) << here; break;
      default: PBT_FAIL() << here << " has an unexpected type";
    }
  }
  // Options nobody configured keep their default.
  std::vector<const pb::FieldDescriptor*> set;
  r->ListFields(m, &set);
  for (const auto* f : set) {
    if (ignore.count(f->name())) continue;
    PBT_CHECK(seen.count(f)) << path << "." << f->name() << " was set although nobody configured it";
    if (f->is_repeated()) PBT_CHECK_EQ(r->FieldSize(m, f), seen[f]) << path << "." << f->name();
  }
}

std::unique_ptr<common::LuaParameterDictionary> Load(const Node& tree) {
  return absl::make_unique<common::LuaParameterDictionary>(
      "return " + Render(tree), absl::make_unique<common::ConfigurationFileResolver>(std::vector<std::string>{}));
}
const Node& MapTree() {
  static const Node n = LoadShipped("map_builder.lua", "MAP_BUILDER");
  return n;
}
const Node& TrajectoryTree() {
  static const Node n = LoadShipped("trajectory_builder.lua", "TRAJECTORY_BUILDER");
  return n;
}

// A random leaf path below 'tree' (tables that may be absent are skipped).
void Leaves(Node* n, const std::string& path, std::vector<std::pair<Node*, std::string>>* out) {
  for (auto& kv : n->keys) {
    if (kv.second.table) Leaves(&kv.second, path + "." + kv.first, out);
    else out->emplace_back(n, kv.first);
  }
}

Node GenMap(pbt::Source& s, int* changed) {
  Node tree = MapTree();
  Node& pg = tree.keys["pose_graph"];
  if (s.Chance(0.4)) {
    Node t;
    t.table = true;
    t.keys["fresh_submaps_count"] = Num(1);
    t.keys["min_covered_area"] = Num(2);
    t.keys["min_added_submaps_count"] = Num(5);
    pg.keys["overlapping_submaps_trimmer_2d"] = t;
  }
  if (s.Chance(0.3)) {
    Node& c = pg.keys["constraint_builder"].keys["ceres_scan_matcher_3d"];
    const int extra = s.Bits(2);
    for (int i = 0; i != extra; ++i) c.keys["occupied_space_weight_" + std::to_string(2 + i)] = Num(7 + i);
  }
  *changed = Mutate(&tree, mapping::proto::MapBuilderOptions::descriptor(), s, s.Bits(1) ? 1. : 0.2);
  const bool three = s.Bits(1);
  tree.keys["use_trajectory_builder_2d"].boolean = !three;
  tree.keys["use_trajectory_builder_3d"].boolean = three;
  return tree;
}

Node GenTrajectory(pbt::Source& s, int* changed) {
  Node tree = TrajectoryTree();
  if (s.Chance(0.4)) {
    Node t;
    t.table = true;
    t.keys["max_submaps_to_keep"] = Num(3);
    tree.keys["pure_localization_trimmer"] = t;
  }
  if (s.Chance(0.4)) {
    Node t;
    t.table = true;
    t.keys["max_time_seconds"] = Num(1);
    t.keys["max_distance_meters"] = Num(2);
    t.keys["max_angle_radians"] = Num(3);
    tree.keys["pose_graph_odometry_motion_filter"] = t;
  }
  Node& c = tree.keys["trajectory_builder_3d"].keys["ceres_scan_matcher"];
  if (s.Chance(0.3)) c.keys.erase("intensity_cost_function_options_0");
  else if (s.Chance(0.3)) c.keys["intensity_cost_function_options_1"] = c.keys["intensity_cost_function_options_0"];
  *changed = Mutate(&tree, mapping::proto::TrajectoryBuilderOptions::descriptor(), s, s.Bits(1) ? 1. : 0.2);
  Node& submaps = tree.keys["trajectory_builder_2d"].keys["submaps"];
  const bool tsdf = s.Bits(1);
  submaps.keys["grid_options_2d"].keys["grid_type"].str = tsdf ? "TSDF" : "PROBABILITY_GRID";
  submaps.keys["range_data_inserter"].keys["range_data_inserter_type"].str = tsdf ? "TSDF_INSERTER_2D" : "PROBABILITY_GRID_INSERTER_2D";
  return tree;
}
}  // namespace

PBT_FACET(map_builder_options, o.weight = 1; o.rule =
    "the shipped configuration with random values for random options and optional tables present or absent; every "
    "value must arrive in the option of its name and nowhere else; non-trivial: >=5 options changed") {
  int changed = 0;
  const Node tree = GenMap(s, &changed);
  if (changed >= 5) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(changed) + " options changed: " + Render(tree).substr(0, 200));
  const auto options = mapping::CreateMapBuilderOptions(Load(tree).get());
  Compare(tree, options, "MAP_BUILDER", {});
  const auto& c = options.pose_graph_options().optimization_problem_options().ceres_solver_options();
  const ceres::Solver::Options ceres_options = common::CreateCeresSolverOptions(c);
  PBT_CHECK_EQ(ceres_options.max_num_iterations, c.max_num_iterations());
  PBT_CHECK_EQ(ceres_options.num_threads, c.num_threads());
  PBT_CHECK_EQ(ceres_options.use_nonmonotonic_steps, c.use_nonmonotonic_steps());
}

PBT_FACET(trajectory_builder_options, o.weight = 1; o.rule =
    "as map_builder_options, for the options of a trajectory; non-trivial: >=5 options changed") {
  int changed = 0;
  Node tree = GenTrajectory(s, &changed);
  if (changed >= 5) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(changed) + " options changed: " + Render(tree).substr(0, 200));
  Node& p = tree.keys["trajectory_builder_2d"].keys["submaps"].keys["range_data_inserter"].keys["probability_grid_range_data_inserter"];
  const bool implicit = s.Chance(0.3);
  std::set<std::string> ignore;
  if (implicit) {
    p.keys.erase("insert_free_space");
    ignore.insert("insert_free_space");
  }
  const auto options = mapping::CreateTrajectoryBuilderOptions(Load(tree).get());
  Compare(tree, options, "TRAJECTORY_BUILDER", ignore);
  if (implicit)
    PBT_CHECK(options.trajectory_builder_2d_options().submaps_options().range_data_inserter_options()
                  .probability_grid_range_data_inserter_options_2d().insert_free_space());
}

PBT_FACET(rejected, o.weight = 0.1; o.rule =
    "a valid configuration with one fault: an option missing, an option nobody knows, an option of the wrong type, or a "
    "value outside the documented range; the program must stop; non-trivial: always") {
  int changed = 0;
  const bool map = s.Bits(1);
  Node tree = map ? GenMap(s, &changed) : GenTrajectory(s, &changed);
  s.NonTrivial();
  std::string what;
  switch (s.Bits(3)) {
    case 0: {
      std::vector<std::pair<Node*, std::string>> leaves;
      Leaves(&tree, "", &leaves);
      auto& victim = leaves[s.Bits(leaves.size() - 1)];
      // Lists of weights may have any length, and free space insertion is on by default.
      if (victim.second.rfind("occupied_space_weight_", 0) == 0 || victim.second == "insert_free_space") throw pbt::Discard();
      victim.first->keys.erase(victim.second);
      what = "missing " + victim.second;
      break;
    }
    case 1: {
      std::vector<std::pair<Node*, std::string>> leaves;
      Leaves(&tree, "", &leaves);
      auto& victim = leaves[s.Bits(leaves.size() - 1)];
      const std::string name = victim.second + (s.Bits(1) ? "_typo" : "s");
      victim.first->keys[name] = Num(1);
      what = "unknown " + name;
      break;
    }
    case 2: {
      std::vector<std::pair<Node*, std::string>> leaves;
      Leaves(&tree, "", &leaves);
      auto& victim = leaves[s.Bits(leaves.size() - 1)];
      Node& n = victim.first->keys[victim.second];
      Node wrong;
      if (n.kind == 1) wrong = Num(1);
      else { wrong.kind = 1; wrong.boolean = true; }
      n = wrong;
      what = "type of " + victim.second;
      break;
    }
    default: {
      if (map) {
        Node& pg = tree.keys["pose_graph"];
        switch (s.Bits(3)) {
          case 0:
            tree.keys["use_trajectory_builder_3d"].boolean = tree.keys["use_trajectory_builder_2d"].boolean;
            what = "2D and 3D both or neither";
            break;
          case 1: pg.keys["max_num_final_iterations"] = Num(-s.Int(0, 3)); what = "no final iterations"; break;
          case 2: tree.keys["num_background_threads"] = Num(-1); what = "negative number of threads"; break;
          default: {
            const char* key = s.Bits(1) ? "num_threads" : "max_num_iterations";
            pg.keys["optimization_problem"].keys["ceres_solver_options"].keys[key] = Num(-s.Int(0, 2));
            what = std::string("solver ") + key;
          }
        }
      } else {
        Node& two = tree.keys["trajectory_builder_2d"];
        Node& three = tree.keys["trajectory_builder_3d"];
        Node& probability = two.keys["submaps"].keys["range_data_inserter"].keys["probability_grid_range_data_inserter"];
        switch (s.Bits(5)) {
          case 0: (s.Bits(1) ? two : three).keys["submaps"].keys["num_range_data"] = Num(-s.Int(0, 2)); what = "num_range_data"; break;
          case 1: probability.keys["hit_probability"] = Num(0.5 - 0.1 * s.Bits(4)); what = "hit 2d"; break;
          case 2: probability.keys["miss_probability"] = Num(0.5 + 0.1 * s.Bits(4)); what = "miss 2d"; break;
          case 3: three.keys["submaps"].keys["range_data_inserter"].keys["hit_probability"] = Num(0.5 - 0.1 * s.Bits(4)); what = "hit 3d"; break;
          case 4: three.keys["submaps"].keys["range_data_inserter"].keys["miss_probability"] = Num(0.5 + 0.1 * s.Bits(4)); what = "miss 3d"; break;
          default:
            two.keys["submaps"].keys["grid_options_2d"].keys["grid_type"].str =
                two.keys["submaps"].keys["grid_options_2d"].keys["grid_type"].str == "TSDF" ? "PROBABILITY_GRID" : "TSDF";
            what = "grid type does not fit the inserter";
        }
      }
    }
  }
  if (s.Sampling()) s.Describe(what);
  const int r = pbt::RunForked([&] {
    if (map) mapping::CreateMapBuilderOptions(Load(tree).get());
    else mapping::CreateTrajectoryBuilderOptions(Load(tree).get());
  });
  PBT_CHECK_EQ(r, 1) << "accepted: " << what;
}
