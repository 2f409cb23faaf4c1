// C03: the Lua parameter dictionary: what the configuration says is what is read.
#include <sys/stat.h>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <map>
#include <set>

#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "pbt.h"

namespace {
using cartographer::common::ConfigurationFileResolver;
using cartographer::common::FileResolver;
using Dict = cartographer::common::LuaParameterDictionary;

struct Value {
  enum Type { BOOL, NUMBER, INTEGER, STRING, TABLE } type = BOOL;
  bool b = false;
  double d = 0;
  std::string str;
  std::map<std::string, Value> keys;
  std::vector<Value> items;  // homogeneous: numbers, strings or tables
};

class MemoryResolver : public FileResolver {
 public:
  std::map<std::string, std::string> files;
  std::string GetFullPathOrDie(const std::string& b) override {
    if (!files.count(b)) abort();
    return "/virtual/" + b;
  }
  std::string GetFileContentOrDie(const std::string& b) override {
    if (!files.count(b)) abort();
    return files[b];
  }
};
std::unique_ptr<FileResolver> NoFiles() { return absl::make_unique<MemoryResolver>(); }

const std::vector<std::string> kNames = {"a", "b", "max_range", "z1", "use_imu_data", "_x", "A", "num", "options", "size",
                                         "name", "weight_0", "weight_1", "very_long_parameter_name_with_suffix_2d", "e1", "x0"};

double GenDouble(pbt::Source& s) {
  switch (s.Weighted({4, 2, 1, 1, 1, 1})) {
    case 0: return s.Real(-100., 100.);
    case 1: return static_cast<double>(s.Int(-1000, 1000));
    case 2: return s.LogReal(1e-6, 1e12);
    case 3: return -s.LogReal(1e-9, 1e6);
    case 4: return s.Bits(1) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    default: return 0.;
  }
}
std::string GenString(pbt::Source& s) {
  std::string out;
  const int n = s.Len(0, 12);
  static const std::string alphabet = "abcXYZ09 _-./\\\"'\n\t\r[]{}=%$;,\x01\x7f\xc3\xa9";
  for (int i = 0; i != n; ++i) out += alphabet[s.Bits(alphabet.size() - 1)];
  return out;
}

Value GenTable(pbt::Source& s, int depth);
Value GenValue(pbt::Source& s, int depth) {
  Value v;
  switch (s.Weighted({2, 3, 3, 2, depth > 0 ? 3. : 0.})) {
    case 0: v.type = Value::BOOL; v.b = s.Bits(1); break;
    case 1: v.type = Value::NUMBER; v.d = GenDouble(s); break;
    case 2: v.type = Value::INTEGER; v.d = s.Chance(0.2) ? s.IntEdge(-2147483647, 2147483647) : s.Int(-50, 5000); break;
    case 3: v.type = Value::STRING; v.str = GenString(s); break;
    default: return GenTable(s, depth - 1);
  }
  return v;
}
Value GenTable(pbt::Source& s, int depth) {
  Value v;
  v.type = Value::TABLE;
  const int n = s.Len(0, 8);
  for (int i = 0; i != n; ++i) v.keys[s.Pick(kNames)] = GenValue(s, depth);
  if (s.Chance(0.35)) {
    const int m = s.Len(1, 6), kind = s.Weighted({2, 2, depth > 0 ? 2. : 0.});
    for (int i = 0; i != m; ++i) {
      Value e;
      if (kind == 0) { e.type = Value::NUMBER; e.d = GenDouble(s); }
      else if (kind == 1) { e.type = Value::STRING; e.str = GenString(s); }
      else e = GenTable(s, depth - 1);
      v.items.push_back(e);
    }
  }
  return v;
}

std::string Quote(const std::string& str) {
  std::string out = "\"";
  for (unsigned char c : str) {
    char buf[8];
    snprintf(buf, sizeof buf, "\\%03d", c);
    if (isalnum(c) || c == ' ' || c == '_') out += c;
    else out += buf;
  }
  return out + "\"";
}
std::string Number(double d, pbt::Source* s) {
  if (std::isinf(d)) return d > 0 ? "math.huge" : "-math.huge";
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", d);
  std::string out = buf;
  if (s && d == std::floor(d) && std::abs(d) < 1e6 && s->Chance(0.3)) {
    snprintf(buf, sizeof buf, d < 0 ? "-(%d + %d)" : "%d + %d", std::abs((int)d) - 1, 1);
    out = buf;
  }
  return out;
}
std::string Render(const Value& v, pbt::Source& s);
// Writes values with the devices a configuration may use.
std::string RenderLeaf(const Value& v, pbt::Source& s) {
  switch (v.type) {
    case Value::BOOL: return v.b ? "true" : "false";
    case Value::NUMBER:
    case Value::INTEGER: return Number(v.d, &s);
    case Value::STRING: return Quote(v.str);
    default: return Render(v, s);
  }
}
std::string Render(const Value& v, pbt::Source& s) {
  std::string out = "{";
  // Array items in order, keys anywhere.
  std::vector<std::string> parts;
  for (const auto& kv : v.keys) {
    std::string value = RenderLeaf(kv.second, s);
    if (kv.second.type != Value::TABLE && s.Chance(0.1)) {
      value = s.Bits(1) ? "choose(true, " + value + ", \"other\")" : "choose(1 > 2, {}, " + value + ")";
    }
    parts.push_back(s.Chance(0.2) ? "[\"" + kv.first + "\"] = " + value : kv.first + " = " + value);
  }
  s.Shuffle(&parts);
  size_t next = 0;
  for (const Value& item : v.items) {
    while (next < parts.size() && s.Chance(0.3)) out += parts[next++] + (s.Bits(1) ? ", " : "; ");
    out += RenderLeaf(item, s) + ", ";
  }
  while (next < parts.size()) out += parts[next++] + (s.Bits(1) ? ",\n" : "; ");
  return out + "}";
}

bool SameReal(double a, double b) { return a == b; }
bool CloseReal(double a, double b) {
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= 5.1e-7 + 1e-12 * std::abs(a);
}

int CountLeaves(const Value& v) {
  int n = 0;
  for (const auto& kv : v.keys) n += kv.second.type == Value::TABLE ? CountLeaves(kv.second) : 1;
  for (const auto& i : v.items) n += i.type == Value::TABLE ? CountLeaves(i) : 1;
  return n;
}

// Reads every key exactly once, in a generated order.
void ReadAll(Dict* dict, const Value& want, pbt::Source& s, bool exact) {
  const auto same = exact ? SameReal : CloseReal;
  const auto check_keys = [&] {
    std::multiset<std::string> keys;
    for (const std::string& k : dict->GetKeys()) keys.insert(k);
    std::multiset<std::string> expected;
    for (const auto& kv : want.keys) expected.insert(kv.first);
    PBT_CHECK(keys == expected) << "keys of a table differ: " << keys.size() << " vs " << expected.size();
  };
  check_keys();
  for (const auto& name : kNames) PBT_CHECK_EQ(dict->HasKey(name), want.keys.count(name) > 0) << name;
  const auto check_items = [&] {
    if (want.items.empty()) {
      PBT_CHECK(dict->GetArrayValuesAsDoubles().empty());
      return;
    }
    if (want.items[0].type == Value::NUMBER) {
      const auto got = dict->GetArrayValuesAsDoubles();
      PBT_CHECK_EQ(got.size(), want.items.size());
      for (size_t i = 0; i != got.size(); ++i) PBT_CHECK(same(want.items[i].d, got[i])) << want.items[i].d << " vs " << got[i];
    } else if (want.items[0].type == Value::STRING) {
      const auto got = dict->GetArrayValuesAsStrings();
      PBT_CHECK_EQ(got.size(), want.items.size());
      for (size_t i = 0; i != got.size(); ++i) PBT_CHECK_EQ(want.items[i].str, got[i]);
    } else {
      const auto got = dict->GetArrayValuesAsDictionaries();
      PBT_CHECK_EQ(got.size(), want.items.size());
      for (size_t i = 0; i != got.size(); ++i) ReadAll(got[i].get(), want.items[i], s, exact);
    }
  };
  const bool items_first = s.Bits(1);
  if (items_first) check_items();
  std::vector<std::string> order;
  for (const auto& kv : want.keys) order.push_back(kv.first);
  s.Shuffle(&order);
  std::vector<std::pair<std::unique_ptr<Dict>, const Value*>> later;
  for (const std::string& k : order) {
    const Value& v = want.keys.at(k);
    switch (v.type) {
      case Value::BOOL: PBT_CHECK_EQ(dict->GetBool(k), v.b) << k; break;
      case Value::NUMBER: {
        const double got = dict->GetDouble(k);
        PBT_CHECK(same(v.d, got)) << k << " " << v.d << " vs " << got;
        break;
      }
      case Value::INTEGER:
        if (v.d >= 0 && s.Bits(1)) PBT_CHECK_EQ(dict->GetNonNegativeInt(k), static_cast<int>(v.d)) << k;
        else if (s.Bits(1)) PBT_CHECK_EQ(dict->GetInt(k), static_cast<int>(v.d)) << k;
        else PBT_CHECK_EQ(dict->GetDouble(k), v.d) << k;
        break;
      case Value::STRING: PBT_CHECK_EQ(dict->GetString(k), v.str) << k; break;
      case Value::TABLE: {
        auto sub = dict->GetDictionary(k);
        if (s.Bits(1)) later.emplace_back(std::move(sub), &v);
        else ReadAll(sub.get(), v, s, exact);
        break;
      }
    }
  }
  for (auto& l : later) ReadAll(l.first.get(), *l.second, s, exact);
  if (!items_first) check_items();
  check_keys();
}
}  // namespace

PBT_FACET(values, o.weight = 1; o.rule =
    "random nested tables of booleans, numbers, strings, arrays and sub-tables, written with literals, expressions and "
    "choose(), read back through every getter in random order with reference counting on, and printed and re-read; "
    "non-trivial: >=6 leaves over >=2 levels") {
  const Value tree = GenTable(s, 3);
  std::string code = "return " + Render(tree, s);
  if (s.Chance(0.2)) code = "local t = " + code.substr(7) + "\nreturn t";
  bool nested = false;
  for (const auto& kv : tree.keys) nested |= kv.second.type == Value::TABLE && CountLeaves(kv.second) > 0;
  if (nested && CountLeaves(tree) >= 6) s.NonTrivial();
  if (s.Sampling()) s.Describe(code.substr(0, 300));
  std::string printed;
  {
    Dict dict(code, NoFiles());
    if (s.Bits(1)) printed = dict.ToString();
    ReadAll(&dict, tree, s, true);
    if (printed.empty()) printed = dict.ToString();
  }
  Dict again("return " + printed, NoFiles());
  ReadAll(&again, tree, s, false);
  PBT_CHECK_EQ(again.ToString(), printed) << "printing is not stable";
}

PBT_FACET(misuse, o.weight = 0.08; o.rule =
    "random tables read with a generated plan: each key never, once or twice, wrong type, missing key, negative value "
    "for a non-negative option; the program must stop exactly if the plan misuses the configuration; non-trivial: the "
    "plan has >=3 reads") {
  Value tree = GenTable(s, 1);
  if (tree.keys.empty()) tree.keys["a"].type = Value::BOOL;
  for (auto& kv : tree.keys) kv.second.items.clear();
  tree.items.clear();
  const std::string code = "return " + Render(tree, s);
  struct Read { std::vector<std::string> path; Value::Type type; bool nonneg; };
  bool bad_access = false;   // an access that must stop the program at once
  bool bad_count = false;    // only reported when the dictionary goes away
  std::ostringstream what;
  // The plan: (table path, key, getter, times).
  std::vector<std::function<void(Dict*)>> plan;
  const int fault = s.Weighted({4, 2, 2, 2, 2, 2});
  std::vector<std::string> keys;
  for (const auto& kv : tree.keys) keys.push_back(kv.first);
  const std::string victim = s.Pick(keys);
  int reads = 0;
  const auto read_once = [](Dict* d, const std::string& k, const Value& v) {
    switch (v.type) {
      case Value::BOOL: d->GetBool(k); break;
      case Value::NUMBER: d->GetDouble(k); break;
      case Value::INTEGER: d->GetInt(k); break;
      case Value::STRING: d->GetString(k); break;
      case Value::TABLE: {
        auto sub = d->GetDictionary(k);
        for (const auto& e : v.keys) {
          if (e.second.type == Value::BOOL) sub->GetBool(e.first);
          else if (e.second.type == Value::NUMBER) sub->GetDouble(e.first);
          else if (e.second.type == Value::INTEGER) sub->GetInt(e.first);
          else if (e.second.type == Value::STRING) sub->GetString(e.first);
          else PBT_CHECK(sub->GetDictionary(e.first) != nullptr);
        }
        break;
      }
    }
  };
  for (auto& kv : tree.keys)
    if (kv.second.type == Value::TABLE)
      for (auto it = kv.second.keys.begin(); it != kv.second.keys.end();) {
        if (it->second.type == Value::TABLE) { it->second.keys.clear(); it->second.items.clear(); }
        ++it;
      }
  // Lists of tables: every key of every table counts.
  std::string body = Render(tree, s);
  if (s.Chance(0.4)) {
    const int items = s.Int(1, 4), spoiled = s.Chance(0.4) ? s.Int(0, items - 1) : -1, reads_of_spoiled = 2 * s.Bits(1);
    std::string list;
    for (int i = 0; i != items; ++i) list += (i ? ", " : "") + std::string("{ p = ") + std::to_string(i) + ", q = true }";
    body.insert(body.find('{') + 1, "the_list = { " + list + " },");
    if (spoiled >= 0) {
      bad_count = true;
      what << "; item " << spoiled << " of a list has a key read " << reads_of_spoiled << " times";
    }
    plan.push_back([items, spoiled, reads_of_spoiled](Dict* d) {
      auto list = d->GetDictionary("the_list");
      auto tables = list->GetArrayValuesAsDictionaries();
      PBT_CHECK_EQ(tables.size(), static_cast<size_t>(items));
      for (int i = 0; i != items; ++i) {
        PBT_CHECK_EQ(tables[i]->GetInt("p"), i) << "order of a list";
        for (int k = 0; k != (i == spoiled ? reads_of_spoiled : 1); ++k) PBT_CHECK(tables[i]->GetBool("q"));
      }
    });
  }
  // Written directly or in an included file.
  const bool included = s.Bits(1);
  const std::string final_code = included ? "include \"inc.lua\"\nreturn T" : "return " + body;
  const auto files = [&]() {
    auto resolver = absl::make_unique<MemoryResolver>();
    if (included) resolver->files["inc.lua"] = "T = " + body;
    return resolver;
  };
  for (const auto& kv : tree.keys) {
    const std::string k = kv.first;
    const Value& v = kv.second;
    int times = 1;
    if (k == victim && fault == 1) { times = 0; bad_count = true; what << k << " never read"; }
    if (k == victim && fault == 2) { times = 2 + s.Bits(1); bad_count = true; what << k << " read twice"; }
    if (k == victim && fault == 3) {
      const Value* pv = &v;
      if (v.type == Value::TABLE && !v.keys.empty()) {
        // leave one key of the sub-table unread
        bad_count = true;
        times = 0;
        what << k << " only partly read";
        plan.push_back([k, pv](Dict* d) {
          auto sub = d->GetDictionary(k);
          bool first = true;
          for (const auto& e : pv->keys) {
            if (first) { first = false; continue; }
            if (e.second.type == Value::BOOL) sub->GetBool(e.first);
            else if (e.second.type == Value::NUMBER) sub->GetDouble(e.first);
            else if (e.second.type == Value::INTEGER) sub->GetInt(e.first);
            else if (e.second.type == Value::STRING) sub->GetString(e.first);
            else sub->GetDictionary(e.first);
          }
        });
      } else {
        // wrong type
        bad_access = true;
        times = 0;
        what << k << " read as the wrong type";
        const int wrong = s.Bits(3);
        plan.push_back([k, pv, wrong](Dict* d) {
          if (pv->type == Value::BOOL) { if (wrong & 1) d->GetDouble(k); else d->GetString(k); }
          else if (pv->type == Value::STRING) { if (wrong & 1) d->GetBool(k); else d->GetDictionary(k); }
          else if (pv->type == Value::TABLE) { if (wrong == 0) d->GetInt(k); else if (wrong == 1) d->GetString(k); else if (wrong == 2) d->GetBool(k); else d->GetDouble(k); }
          else { if (wrong & 1) d->GetBool(k); else d->GetDictionary(k); }
        });
      }
    }
    if (k == victim && fault == 5) {
      if (v.type == Value::INTEGER && v.d < 0) {
        bad_access = true;
        times = 0;
        what << k << " negative";
        plan.push_back([k](Dict* d) { d->GetNonNegativeInt(k); });
      } else if (v.type == Value::INTEGER) {
        times = 0;
        plan.push_back([k](Dict* d) { d->GetNonNegativeInt(k); });
      }
    }
    const Value* pv = &v;
    for (int i = 0; i != times; ++i) plan.push_back([k, pv, read_once](Dict* d) { read_once(d, k, *pv); });
    if (s.Chance(0.3)) plan.push_back([k](Dict* d) { d->HasKey(k); d->GetKeys(); });
    if (s.Chance(0.1)) plan.push_back([](Dict* d) { d->ToString(); });
  }
  if (fault == 4) {
    std::string missing = s.Pick(kNames);
    if (!tree.keys.count(missing)) {
      bad_access = true;
      what << missing << " is missing";
      const int how = s.Bits(4);
      plan.push_back([missing, how](Dict* d) {
        if (how == 0) d->GetBool(missing);
        else if (how == 1) d->GetDouble(missing);
        else if (how == 2) d->GetInt(missing);
        else if (how == 3) d->GetString(missing);
        else d->GetDictionary(missing);
      });
    }
  }
  s.Shuffle(&plan);
  reads = plan.size();
  if (reads >= 3) s.NonTrivial();
  if (s.Sampling()) s.Describe(body.substr(0, 200) + (included ? " (included)" : "") + " plan: " + what.str());
  s.LabelIf(bad_access, "bad access");
  s.LabelIf(bad_count, "bad count");
  // Reference counted.
  const int counted = pbt::RunForked([&] {
    Dict dict(final_code, files());
    for (auto& step : plan) step(&dict);
  });
  PBT_CHECK_EQ(counted, (bad_access || bad_count) ? 1 : 0) << "counted: " << what.str() << " in " << body;
  if (s.Bits(1)) {
    // Not counted: only bad accesses stop the program.
    const int uncounted = pbt::RunForked([&] {
      auto dict = Dict::NonReferenceCounted(final_code, files());
      for (auto& step : plan) step(dict.get());
    });
    PBT_CHECK_EQ(uncounted, bad_access ? 1 : 0) << "uncounted: " << what.str() << " in " << body;
  }
}

PBT_FACET(functions, o.weight = 0.08; o.rule =
    "choose(), include() and read() called from generated code with right and wrong arguments, files that return several "
    "values, text of up to 100 kB, and code that fails; what they return and that misuse stops the program; non-trivial: "
    "a misuse, several values or a long text") {
  MemoryResolver files;
  std::string text;
  const int length = s.Chance(0.3) ? s.Int(3000, 100000) : s.Int(0, 200);
  const int period = s.Int(1, 97);
  for (int i = 0; i != length; ++i) text += static_cast<char>('!' + i % period % 90);
  files.files["text"] = text;
  const int values = s.Int(0, 4);
  std::string several;
  for (int i = 0; i != values; ++i) several += (i ? ", " : "return ") + std::to_string(10 + i);
  files.files["several.lua"] = several;
  const int a = s.Int(-50, 50), b = s.Int(-50, 50);
  std::string code, what;
  bool bad = true;
  int fault = s.Weighted({3, 1, 1, 1, 1, 1, 1, 1, 1});
  switch (fault) {
    case 1: what = "choose with two arguments"; code = "x = choose(true, 1)"; break;
    case 2: what = "choose with four arguments"; code = "x = choose(true, 1, 2, 3)"; break;
    case 3: what = "choose by something that is not a boolean"; code = "x = choose(" + s.Pick(std::vector<std::string>{"1", "0", "nil", "\"true\"", "{}"}) + ", 1, 2)"; break;
    case 4: what = "include of something that is not a name"; code = "include(" + s.Pick(std::vector<std::string>{"{}", "nil", "true", "\"several.lua\", 1"}) + ")"; break;
    case 5: what = "read of something that is not a name"; code = "x = read(" + s.Pick(std::vector<std::string>{"{}", "nil", "true", "\"text\", 1"}) + ")"; break;
    case 6: what = "code that cannot be parsed"; code = s.Pick(std::vector<std::string>{"x = = 1", "x = {", "if", "end"}); break;
    case 7: what = "code that fails"; code = s.Pick(std::vector<std::string>{"error(\"no\")", "x = nil + 1", "undefined_function()"}); break;
    case 8: what = "no table returned"; code = s.Pick(std::vector<std::string>{"if true then return 1 end", "if true then return end", "if true then return \"x\" end"}); break;
    default: bad = false;
  }
  const int negative = s.Pick(std::vector<int>{-1, -1, -2, -100000});
  if (!bad && s.Chance(0.2)) {
    bad = true;
    what = "a negative number of things";
    fault = 9;
  }
  const bool first = s.Bits(1);
  const std::string program = code + "\nv1, v2, v3, v4, v5 = include \"several.lua\"\nlocal count = 0\n"
      "for _, v in pairs({v1 or false, v2 or false, v3 or false, v4 or false, v5 or false}) do if v then count = count + 1 end end\n"
      "return { count = count, sum = (v1 or 0) + (v2 or 0) + (v3 or 0) + (v4 or 0), text = read \"text\", c = choose(" + (first ? "true" : "false") + ", " + std::to_string(a) + ", " +
      std::to_string(b) + "), n = " + std::to_string(fault == 9 ? negative : 3) + " }";
  const int result = pbt::RunForked([&] {
    auto resolver = absl::make_unique<MemoryResolver>();
    resolver->files = files.files;
    Dict dict(program, std::move(resolver));
    PBT_CHECK_EQ(dict.GetInt("count"), values) << "values returned by an included file";
    int sum = 0;
    for (int i = 0; i != values; ++i) sum += 10 + i;
    PBT_CHECK_EQ(dict.GetInt("sum"), sum) << "values returned by an included file";
    PBT_CHECK(dict.GetString("text") == text) << "text of " << text.size() << " characters changed";
    PBT_CHECK_EQ(dict.GetInt("c"), first ? a : b) << "choice";
    PBT_CHECK_EQ(dict.GetNonNegativeInt("n"), 3);
  });
  PBT_CHECK_EQ(result, bad ? 1 : 0) << (bad ? what + " goes unnoticed" : "stopped without reason, or wrong results") << ": " << code;
  if (bad || values > 1 || length > 3000) s.NonTrivial();
  s.LabelIf(bad, "misuse");
  if (s.Sampling()) s.Describe((bad ? what : std::string("no misuse")) + ", " + std::to_string(values) + " values, text of " + std::to_string(length));
}

PBT_FACET(files, o.weight = 0.15; o.rule =
    "random sets of directories with random files including one another and read as text; the first directory of the "
    "list that has a file wins; non-trivial: >=2 includes and a file present in >=2 directories") {
  const std::string scratch = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/c03_" + std::to_string(getpid());
  mkdir(scratch.c_str(), 0777);
  const int num_dirs = 1 + s.Bits(2);
  const int num_files = 2 + s.Bits(3);
  std::vector<std::string> dirs;
  for (int d = 0; d != num_dirs; ++d) {
    dirs.push_back(scratch + "/d" + std::to_string(d));
    mkdir(dirs.back().c_str(), 0777);
  }
  // File f may include files > f (acyclic); defines global V<f> = {id = f*10+dir, ...}.
  std::vector<std::vector<int>> includes(num_files);
  std::vector<int> winner(num_files, -1);
  std::vector<std::string> texts;
  bool doubled = false, missing = false;
  int total = 0, dup = 0;
  const bool allow_fault = s.Chance(0.15);
  std::set<int> included_by;
  for (int f = 0; f != num_files; ++f) {
    std::vector<int> in;
    for (int d = 0; d != num_dirs; ++d)
      if (s.Chance(0.6)) in.push_back(d);
    if (in.empty() && !(allow_fault && s.Chance(0.3))) in.push_back(s.Bits(num_dirs - 1));
    for (int g = f + 1; g != num_files; ++g) {
      if (!s.Chance(0.5)) continue;
      if (included_by.count(g) && !allow_fault) continue;
      included_by.insert(g);
      includes[f].push_back(g);
    }
    winner[f] = in.empty() ? -1 : in[0];
    if (in.size() > 1) ++dup;
    for (int d : in) {
      std::ofstream out(dirs[d] + "/f" + std::to_string(f) + ".lua");
      for (int g : includes[f]) out << "include \"f" << g << ".lua\"\n";
      out << "V" << f << " = { id = " << f * 10 + d << ", text = read(\"t" << f << ".txt\") }\n";
    }
    // Texts, which may be empty, in one or more directories.
    texts.push_back("");
    int first = s.Bits(num_dirs - 1);
    for (int d = first; d < num_dirs; ++d) {
      if (d != first && s.Chance(0.7)) continue;
      const std::string text = s.Chance(0.15) ? "" : "text " + std::to_string(f) + "\nsecond \"line\" " + std::to_string(d);
      if (d == first) texts[f] = text;
      std::ofstream(dirs[d] + "/t" + std::to_string(f) + ".txt") << text;
    }
  }
  // Model of the execution.
  std::vector<int> state(num_files, 0), loaded;
  std::function<void(int)> load = [&](int f) {
    if (missing || doubled) return;
    if (winner[f] < 0) { missing = true; return; }
    if (state[f]) { doubled = true; return; }
    state[f] = 1;
    for (int g : includes[f]) { ++total; load(g); }
    loaded.push_back(f);
  };
  load(0);
  std::string code = "include \"f0.lua\"\nreturn {";
  for (int f : loaded) code += "v" + std::to_string(f) + " = V" + std::to_string(f) + ", ";
  code += "}";
  if (total >= 1 && dup >= 1) s.NonTrivial();
  s.LabelIf(doubled, "included twice");
  s.LabelIf(missing, "missing file");
  if (s.Sampling()) s.Describe(std::to_string(num_dirs) + " dirs, " + std::to_string(num_files) + " files, " + std::to_string(total) + " includes; " + code);
  const auto run = [&] {
    Dict dict(code, absl::make_unique<ConfigurationFileResolver>(dirs));
    for (int f : loaded) {
      auto sub = dict.GetDictionary("v" + std::to_string(f));
      PBT_CHECK_EQ(sub->GetInt("id"), f * 10 + winner[f]) << "file " << f << " came from the wrong directory";
      PBT_CHECK_EQ(sub->GetString("text"), texts[f]) << "text " << f;
    }
  };
  if (doubled || missing) {
    PBT_CHECK_EQ(pbt::RunForked(run), 1) << (doubled ? "included twice" : "missing file") << " was accepted";
  } else {
    run();
    // The shipped configuration is found last.
    if (s.Chance(0.1)) {
      const bool shadow = s.Bits(1);
      if (shadow) std::ofstream(dirs[num_dirs - 1] + "/pose_graph.lua") << "POSE_GRAPH = { mine = 1 }\n";
      auto dict = Dict::NonReferenceCounted("include \"pose_graph.lua\"\nreturn POSE_GRAPH", absl::make_unique<ConfigurationFileResolver>(dirs));
      PBT_CHECK_EQ(dict->HasKey("mine"), shadow);
      PBT_CHECK_EQ(dict->HasKey("constraint_builder"), !shadow);
      if (shadow) unlink((dirs[num_dirs - 1] + "/pose_graph.lua").c_str());
    }
  }
  for (int d = 0; d != num_dirs; ++d)
    for (int f = 0; f != num_files; ++f)
      for (const char* pat : {"/f", "/t"})
        unlink((dirs[d] + pat + std::to_string(f) + (pat[1] == 'f' ? ".lua" : ".txt")).c_str());
}
