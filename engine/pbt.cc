#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t kMaxChoices = 1 << 20;

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

struct Rng {
  uint64_t s;
  uint64_t Next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

// Shared between the parent and one child (a worker or a replay child).
struct Shared {
  std::atomic<uint64_t> num_choices;
  std::atomic<int64_t> case_index;  // -1: idle
  std::atomic<int> facet;
  std::atomic<double> case_start;
  std::atomic<int> outcome;  // 0 none, 1 ok, 2 failure, 3 discard
  std::atomic<uint64_t> evaluations;
  char message[8192];
  uint64_t choices[kMaxChoices];
};

Shared* NewShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared*>(p);
}

struct Facet {
  std::string name;
  FacetOptions options;
  FacetFn fn;
};
std::vector<Facet>& Facets() {
  static auto* facets = new std::vector<Facet>;
  return *facets;
}

std::string JsonEscape(const std::string& s) {
  std::string out;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c == '\n') {
      out += "\\n";
    } else if (c < 32 || c > 126) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", c);
      out += buf;
    } else {
      out += c;
    }
  }
  return out;
}

}  // namespace

struct Source::State {
  bool replay = false;
  std::vector<uint64_t> input;  // for replay
  size_t pos = 0;
  Rng rng{0};
  Shared* shared = nullptr;
};

bool RegisterFacet(const char* name, FacetOptions options, FacetFn fn) {
  Facets().push_back({name, options, std::move(fn)});
  return true;
}

uint64_t Source::Bits(uint64_t max) {
  uint64_t v = 0;
  if (max > 0) {
    if (state_->replay) {
      v = state_->pos < state_->input.size() ? state_->input[state_->pos] : 0;
      if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    } else if (max == UINT64_MAX) {
      v = state_->rng.Next();
    } else {
      v = (static_cast<unsigned __int128>(state_->rng.Next()) * (max + 1)) >> 64;
    }
    ++state_->pos;
    const uint64_t n = state_->shared->num_choices.load(std::memory_order_relaxed);
    if (n < kMaxChoices) {
      state_->shared->choices[n] = v;
      state_->shared->num_choices.store(n + 1, std::memory_order_relaxed);
    }
  }
  hash_ = (hash_ ^ (v + 0x9e37)) * 1099511628211ull;
  hash_ ^= hash_ >> 29;
  return v;
}

int64_t Source::Int(int64_t lo, int64_t hi) {
  const uint64_t range = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
  const uint64_t u = Bits(range);
  if (lo < 0 && hi > 0) {
    // Zig-zag around zero so that shrinking moves towards it.
    const uint64_t neg = static_cast<uint64_t>(-(lo + 1)) + 1;
    const uint64_t pos = static_cast<uint64_t>(hi);
    const uint64_t both = std::min(neg, pos);
    if (u <= 2 * both) {
      return (u & 1) ? -static_cast<int64_t>((u + 1) / 2) : static_cast<int64_t>(u / 2);
    }
    const uint64_t rest = u - both;
    return neg > pos ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
  }
  if (hi <= 0) return hi - static_cast<int64_t>(u);
  return static_cast<int64_t>(static_cast<uint64_t>(lo) + u);
}

int64_t Source::IntEdge(int64_t lo, int64_t hi) {
  switch (Bits(7)) {
    case 0:
    case 1:
      return Int(lo, std::min(hi, lo + 3 < lo ? hi : lo + 3));
    case 2:
      return Int(std::max(lo, hi - 3 > hi ? lo : hi - 3), hi);
    default:
      return Int(lo, hi);
  }
}

int Source::Len(int lo, int hi) {
  if (hi <= lo) return lo;
  const int span = hi - lo;
  switch (Bits(3)) {
    case 0:
      return lo + static_cast<int>(Bits(std::min(span, 3)));
    case 1:
      return lo + static_cast<int>(Bits(std::min(span, 8)));
    case 2:
      return lo + static_cast<int>(Bits(std::min(span, std::max(8, span / 4))));
    default:
      return lo + static_cast<int>(Bits(span));
  }
}

bool Source::Chance(double p) {
  // 1 -> true, biased by rejection on a 1000-grid, shrinks to false.
  const uint64_t v = Bits(999);
  return v >= 1000 - static_cast<uint64_t>(std::lround(p * 1000.));
}

double Source::Real(double lo, double hi) {
  const uint64_t mode = Bits(7);
  if (mode <= 1) {
    const uint64_t j = Bits(16);
    // Even order: centre first, then ends, then the other grid points.
    static const int kOrder[17] = {8,  0, 16, 4, 12, 2, 6, 10, 14,
                                   1,  3, 5,  7, 9,  11, 13, 15};
    return lo + (hi - lo) * (kOrder[j] / 16.);
  }
  const uint64_t u = Bits((1ull << 40) - 1);
  return lo + (hi - lo) * (static_cast<double>(u) / static_cast<double>((1ull << 40) - 1));
}

double Source::LogReal(double lo, double hi) {
  return std::exp(Real(std::log(lo), std::log(hi)));
}

int Source::Weighted(const std::vector<double>& weights) {
  double sum = 0;
  for (double w : weights) sum += w;
  double v = sum * (static_cast<double>(Bits(9999)) / 10000.);
  for (size_t i = 0; i != weights.size(); ++i) {
    if (v < weights[i]) return i;
    v -= weights[i];
  }
  for (size_t i = weights.size(); i-- > 0;)
    if (weights[i] > 0) return i;
  return 0;
}

std::string Source::Word(int lo, int hi, const std::string& alphabet) {
  const int n = Len(lo, hi);
  std::string out;
  for (int i = 0; i != n; ++i) out += alphabet[Bits(alphabet.size() - 1)];
  return out;
}

void Source::Label(const std::string& label) { labels_.push_back(label); }
void Source::Describe(const std::string& text) {
  if (sampling_ && description_.size() < 1500) {
    if (!description_.empty()) description_ += "; ";
    description_ += text;
  }
}

int RunForked(const std::function<void()>& fn, double timeout_s) {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int devnull = open("/dev/null", O_WRONLY);
    if (devnull >= 0) dup2(devnull, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    try {
      fn();
    } catch (...) {
      _exit(2);
    }
    _exit(0);
  }
  const double start = Now();
  int status = 0;
  while (true) {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (Now() - start > timeout_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      return 3;
    }
    usleep(200);
  }
  if (WIFEXITED(status)) return WEXITSTATUS(status) == 0 ? 0 : 2;
  return 1;
}

namespace {

std::string g_property = "X00";
std::string g_out_dir = ".";

// Executes one case in this process. Returns outcome and fills 'source'.
int ExecuteCase(const Facet& facet, Source::State* state, Source* source,
                std::string* message) {
  state->shared->num_choices = 0;
  try {
    facet.fn(*source);
    return 1;
  } catch (const Discard&) {
    return 3;
  } catch (const Failure& f) {
    *message = f.message;
    return 2;
  } catch (const std::exception& e) {
    *message = std::string("uncaught exception: ") + e.what();
    return 2;
  }
}

void LimitProcess() {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
#if defined(__has_feature)
#if !__has_feature(address_sanitizer)
  struct rlimit as = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &as);
#endif
#else
  struct rlimit as = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &as);
#endif
#endif
}

struct ReplayResult {
  bool failed = false;
  std::string message;
  std::vector<uint64_t> choices;
};

Shared* g_replay_shared = nullptr;

std::string StatusMessage(int status, const std::string& log) {
  std::string m;
  if (WIFSIGNALED(status)) {
    m = "process died with signal " + std::to_string(WTERMSIG(status));
  } else {
    m = "process exited with status " + std::to_string(WEXITSTATUS(status));
  }
  std::ifstream in(log);
  std::string line, keep;
  while (std::getline(in, line)) {
    if (line.find("Check failed") != std::string::npos ||
        line.find("ERROR: AddressSanitizer") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        line.find("terminate called") != std::string::npos ||
        line.find("WARNING: ThreadSanitizer") != std::string::npos ||
        (!line.empty() && line[0] == 'F')) {
      keep += " | " + line;
      if (keep.size() > 800) break;
    }
  }
  return m + keep;
}

ReplayResult RunReplay(const Facet& facet, const std::vector<uint64_t>& choices,
                       bool verbose) {
  if (g_replay_shared == nullptr) g_replay_shared = NewShared();
  Shared* shared = g_replay_shared;
  shared->num_choices = 0;
  shared->outcome = 0;
  shared->message[0] = 0;
  const std::string log = g_out_dir + "/replay.log";
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    LimitProcess();
    if (!verbose) {
      const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      dup2(fd, 1);
    }
    Source::State state;
    state.replay = true;
    state.input = choices;
    state.shared = shared;
    Source source(&state);
    source.sampling_ = verbose;
    std::string message;
    const int outcome = ExecuteCase(facet, &state, &source, &message);
    if (verbose) {
      fprintf(stderr, "outcome=%d %s\n%s\n", outcome, message.c_str(), source.description_.c_str());
    }
    snprintf(shared->message, sizeof shared->message, "%s", message.c_str());
    shared->outcome = outcome;
    _exit(outcome == 2 ? 10 : 0);
  }
  const double start = Now();
  int status = 0;
  bool timeout = false;
  while (true) {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (Now() - start > facet.options.case_timeout_s) {
      timeout = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(300);
  }
  ReplayResult result;
  const uint64_t n = std::min<uint64_t>(shared->num_choices.load(), kMaxChoices);
  result.choices.assign(shared->choices, shared->choices + n);
  if (timeout) {
    result.failed = facet.options.hang_is_violation;
    result.message = "did not terminate within " +
                     std::to_string(facet.options.case_timeout_s) + " s";
  } else if (shared->outcome == 1 || shared->outcome == 3) {
    // The case itself succeeded; a sanitizer report at exit is a failure.
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      result.failed = true;
      result.message = StatusMessage(status, log);
    }
  } else if (shared->outcome == 2) {
    result.failed = true;
    result.message = shared->message;
  } else {
    result.failed = true;
    result.message = StatusMessage(status, log);
  }
  return result;
}

// Re-runs the cases first, first + stride, ..., last of a worker in one fresh
// process: catches failures that need state left behind by earlier cases.
bool RunHistory(uint64_t seed, int64_t first, int64_t last, int64_t stride,
                const std::string& only, std::string* message);

bool Better(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<uint64_t> Shrink(const Facet& facet, std::vector<uint64_t> best,
                             double budget_s, int* attempts) {
  const double end = Now() + budget_s;
  int tries_per = facet.options.nondeterministic ? 3 : 1;
  auto attempt = [&](const std::vector<uint64_t>& candidate) {
    if (Now() > end) return false;
    for (int t = 0; t != tries_per; ++t) {
      ++*attempts;
      ReplayResult r = RunReplay(facet, candidate, false);
      if (r.failed && Better(r.choices, best)) {
        best = r.choices;
        return true;
      }
    }
    return false;
  };
  bool improved = true;
  while (improved && Now() < end) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len = len / 2) {
      for (size_t i = best.size(); i >= len && Now() < end;) {
        if (i > best.size()) {
          i = best.size();
          if (i < len) break;
        }
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + (i - len), c.begin() + i);
        if (attempt(c)) {
          improved = true;
          i = std::min(i, best.size());
        } else {
          if (i < len + 1) break;
          i -= std::max<size_t>(1, len);
        }
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && Now() < end; ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best;
      c[i] = 0;
      if (attempt(c)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo + 1 < hi && Now() < end) {
        const uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          improved = true;
          hi = i < best.size() ? best[i] : 0;
        } else {
          lo = mid;
        }
      }
    }
  }
  return best;
}

struct WorkerStats {
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> per_facet;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
};

uint64_t CaseSeed(uint64_t seed, int64_t n) {
  return seed * 0x9e3779b97f4a7c15ull + static_cast<uint64_t>(n) * 0xd1342543de82ef95ull + 77;
}

// Which facet does case 'n' belong to? Weighted round robin.
std::vector<int> Schedule() {
  std::vector<int> schedule;
  const auto& facets = Facets();
  std::vector<double> credit(facets.size(), 0.);
  double total = 0;
  for (const auto& f : facets) total += f.options.weight;
  for (int i = 0; i != 1000; ++i) {
    int pick = 0;
    for (size_t k = 0; k != facets.size(); ++k) {
      credit[k] += facets[k].options.weight / total;
      if (credit[k] > credit[pick]) pick = k;
    }
    credit[pick] -= 1.;
    schedule.push_back(pick);
  }
  return schedule;
}

size_t Slot(int64_t n, int64_t stride) { return (n / stride + (n % stride) * 125) % 1000; }

void WorkerMain(int worker, int num_workers, uint64_t seed, int64_t start_case,
                double end_time, uint64_t max_cases, Shared* shared,
                const std::string& out, const std::string& only) {
  LimitProcess();
  const std::string log = out + ".log";
  const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(fd, 2);
  dup2(fd, 1);
  const auto schedule = Schedule();
  WorkerStats stats;
  double last_truncate = Now();
  auto flush = [&]() {
    std::ofstream o(out + ".json.tmp");
    o << stats.evaluations << " " << stats.discarded << " " << stats.nontrivial << "\n";
    o << stats.labels.size() << "\n";
    for (const auto& l : stats.labels) o << l.second << " " << l.first << "\n";
    o << stats.per_facet.size() << "\n";
    for (const auto& l : stats.per_facet) o << l.second << " " << l.first << "\n";
    o << stats.samples.size() << "\n";
    for (const auto& s : stats.samples) {
      std::string t = s;
      std::replace(t.begin(), t.end(), '\n', ' ');
      o << t << "\n";
    }
    o << stats.distinct.size() << "\n";
    for (uint64_t h : stats.distinct) o << h << "\n";
    o.close();
    rename((out + ".json.tmp").c_str(), (out + ".json").c_str());
  };
  std::map<int, int> samples_per_facet;
  double last_flush = Now();
  for (int64_t n = start_case; ; n += num_workers) {
    if (Now() > end_time || static_cast<uint64_t>(n) >= max_cases) break;
    const int f = schedule[Slot(n, num_workers)];
    const Facet& facet = Facets()[f];
    if (!only.empty() && facet.name != only) continue;
    if (facet.options.max_cases > 0 &&
        stats.per_facet[facet.name] * num_workers >= static_cast<uint64_t>(facet.options.max_cases)) {
      bool all = true;
      for (const auto& g : Facets())
        if (g.options.max_cases == 0 ||
            stats.per_facet[g.name] * num_workers < static_cast<uint64_t>(g.options.max_cases))
          all = false;
      if (all) break;
      continue;
    }
    shared->facet = f;
    shared->num_choices = 0;
    shared->outcome = 0;
    shared->case_start = Now();
    shared->case_index = n;
    Source::State state;
    state.shared = shared;
    state.rng.s = CaseSeed(seed, n);
    state.rng.Next();
    Source source(&state);
    source.sampling_ = samples_per_facet[f] < 2;
    std::string message;
    const int outcome = ExecuteCase(facet, &state, &source, &message);
    if (outcome == 2) {
      snprintf(shared->message, sizeof shared->message, "%s", message.c_str());
      shared->outcome = 2;
      flush();
      _exit(10);
    }
    shared->outcome = outcome;
    shared->case_index = -1;
    if (outcome == 3) {
      ++stats.discarded;
    } else {
      ++stats.evaluations;
      ++stats.per_facet[facet.name];
      for (const auto& l : source.labels_) ++stats.labels[facet.name + ":" + l];
      if (source.nontrivial_) {
        ++stats.nontrivial;
        if (stats.distinct.size() < 2000000) stats.distinct.insert(source.hash_ * 31 + f);
        if (source.sampling_ && !source.description_.empty()) {
          ++samples_per_facet[f];
          stats.samples.push_back(facet.name + ": " + source.description_);
        }
      }
    }
    const double now = Now();
    if (now - last_truncate > 1.) {
      // glog output of the code under test is not interesting; keep it short.
      fflush(nullptr);
      if (ftruncate(fd, 0) == 0) lseek(fd, 0, SEEK_SET);
      last_truncate = now;
    }
    if (now - last_flush > 5.) {
      flush();
      last_flush = Now();
    }
  }
  flush();
  _exit(0);
}

bool RunHistory(uint64_t seed, int64_t first, int64_t last, int64_t stride,
                const std::string& only, std::string* message) {
  if (g_replay_shared == nullptr) g_replay_shared = NewShared();
  Shared* shared = g_replay_shared;
  shared->outcome = 0;
  shared->message[0] = 0;
  const std::string log = g_out_dir + "/history.log";
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    LimitProcess();
    const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    const auto schedule = Schedule();
    for (int64_t n = first; n <= last; n += stride) {
      const Facet& facet = Facets()[schedule[Slot(n, stride)]];
      if (!only.empty() && facet.name != only) continue;
      Source::State state;
      state.shared = shared;
      state.rng.s = CaseSeed(seed, n);
      state.rng.Next();
      Source source(&state);
      std::string m;
      if (ExecuteCase(facet, &state, &source, &m) == 2) {
        snprintf(shared->message, sizeof shared->message, "%s", m.c_str());
        _exit(10);
      }
    }
    _exit(0);
  }
  const double start = Now();
  int status = 0;
  while (true) {
    if (waitpid(pid, &status, WNOHANG) == pid) break;
    if (Now() - start > 120) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      return false;
    }
    usleep(300);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return false;
  *message = WIFEXITED(status) && WEXITSTATUS(status) == 10 ? std::string(shared->message)
                                                            : StatusMessage(status, log);
  return true;
}

void MergeStats(const std::string& path, WorkerStats* total) {
  std::ifstream in(path);
  if (!in) return;
  uint64_t a, b, c, n;
  if (!(in >> a >> b >> c)) return;
  total->evaluations += a;
  total->discarded += b;
  total->nontrivial += c;
  std::string line;
  auto read_map = [&](std::map<std::string, uint64_t>* m) {
    in >> n;
    for (uint64_t i = 0; i != n; ++i) {
      uint64_t count;
      in >> count;
      in.get();
      std::getline(in, line);
      (*m)[line] += count;
    }
  };
  read_map(&total->labels);
  read_map(&total->per_facet);
  in >> n;
  std::getline(in, line);
  for (uint64_t i = 0; i != n; ++i) {
    std::getline(in, line);
    total->samples.push_back(line);
  }
  in >> n;
  for (uint64_t i = 0; i != n; ++i) {
    uint64_t h;
    in >> h;
    total->distinct.insert(h);
  }
}

void WriteReplay(const std::string& path, const std::string& facet,
                 const std::vector<uint64_t>& choices, const std::string& message) {
  std::ofstream o(path);
  o << "property " << g_property << "\nfacet " << facet << "\nchoices " << choices.size();
  for (uint64_t c : choices) o << " " << c;
  o << "\nmessage " << JsonEscape(message) << "\n";
}

int Main(int argc, char** argv) {
  uint64_t seed = 1;
  double time_s = 20;
  uint64_t max_cases = UINT64_MAX;
  int workers = 8;
  double shrink_s = 45;
  std::string tier = "quick", evidence, replay, only, replay_out;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(next());
    else if (a == "--time") time_s = std::stod(next());
    else if (a == "--cases") max_cases = std::stoull(next());
    else if (a == "--workers") workers = std::stoi(next());
    else if (a == "--tier") tier = next();
    else if (a == "--evidence") evidence = next();
    else if (a == "--property") g_property = next();
    else if (a == "--work") g_out_dir = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--only") only = next();
    else if (a == "--shrink") shrink_s = std::stod(next());
  }
  std::stable_sort(Facets().begin(), Facets().end(),
                   [](const Facet& a, const Facet& b) { return a.name < b.name; });
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string word, facet_name;
    std::vector<uint64_t> choices;
    int64_t h[4] = {0, 0, 0, 0};
    while (in >> word) {
      if (word == "facet") in >> facet_name;
      else if (word == "history") {
        for (auto& v : h) in >> v;
      } else if (word == "choices") {
        size_t n;
        in >> n;
        choices.resize(n);
        for (auto& c : choices) in >> c;
      }
    }
    if (h[3] > 0) {
      std::string m;
      const bool failed = RunHistory(h[0], h[1], h[2], h[3], only, &m);
      printf("replay history: %s %s\n", failed ? "FAILS" : "passes", m.c_str());
      return failed ? 1 : 0;
    }
    for (const auto& f : Facets()) {
      if (f.name != facet_name) continue;
      const ReplayResult r = RunReplay(f, choices, true);
      printf("replay %s: %s %s\n", facet_name.c_str(), r.failed ? "FAILS" : "passes",
             r.message.c_str());
      return r.failed ? 1 : 0;
    }
    fprintf(stderr, "no facet %s\n", facet_name.c_str());
    return 3;
  }

  const double start = Now();
  const double end = start + time_s;
  struct Worker {
    pid_t pid = -1;
    Shared* shared = nullptr;
    std::string out;
    int generation = 0;
    int64_t next_case = 0;
  };
  std::vector<Worker> ws(workers);
  std::vector<std::string> outs;
  auto launch = [&](int i) {
    Worker& w = ws[i];
    if (!w.shared) w.shared = NewShared();
    w.shared->case_index = -1;
    w.shared->outcome = 0;
    w.shared->message[0] = 0;
    w.out = g_out_dir + "/w" + std::to_string(i) + "_" + std::to_string(w.generation++);
    unlink((w.out + ".json").c_str());
    outs.push_back(w.out);
    fflush(nullptr);
    w.pid = fork();
    if (w.pid == 0) {
      WorkerMain(i, workers, seed, w.next_case, end, max_cases, w.shared, w.out, only);
    }
  };
  for (int i = 0; i != workers; ++i) {
    ws[i].next_case = i;
    launch(i);
  }
  bool violation = false;
  int inconclusive = 0;
  std::string vio_facet, vio_message;
  std::vector<uint64_t> vio_choices;
  std::vector<std::pair<const Facet*, std::vector<uint64_t>>> failures;
  std::vector<std::string> failure_messages;
  std::vector<std::pair<int64_t, int64_t>> failure_history;  // first, last case
  int running = workers;
  double first_failure_time = 0;
  while (running > 0) {
    usleep(2000);
    for (int i = 0; i != workers; ++i) {
      Worker& w = ws[i];
      if (w.pid < 0) continue;
      int status = 0;
      const pid_t r = waitpid(w.pid, &status, WNOHANG);
      const int64_t ci = w.shared->case_index;
      if (r == w.pid) {
        w.pid = -1;
        --running;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        // Failure or crash.
        const Facet& f = Facets()[w.shared->facet];
        const uint64_t n = std::min<uint64_t>(w.shared->num_choices.load(), kMaxChoices);
        failures.emplace_back(&f, std::vector<uint64_t>(w.shared->choices, w.shared->choices + n));
        failure_messages.push_back(w.shared->outcome == 2 ? std::string(w.shared->message)
                                                          : StatusMessage(status, w.out + ".log"));
        failure_history.emplace_back(w.next_case, ci);
        if (first_failure_time == 0) first_failure_time = Now();
      } else if (ci >= 0 &&
                 Now() - w.shared->case_start > Facets()[w.shared->facet].options.case_timeout_s) {
        const Facet& f = Facets()[w.shared->facet];
        kill(w.pid, SIGKILL);
        waitpid(w.pid, &status, 0);
        w.pid = -1;
        --running;
        if (f.options.hang_is_violation) {
          const uint64_t n = std::min<uint64_t>(w.shared->num_choices.load(), kMaxChoices);
          failures.emplace_back(&f, std::vector<uint64_t>(w.shared->choices, w.shared->choices + n));
          failure_messages.push_back("did not terminate in time");
          failure_history.emplace_back(w.next_case, ci);
          if (first_failure_time == 0) first_failure_time = Now();
        } else {
          ++inconclusive;
          if (Now() < end) {
            w.next_case = ci + workers;
            launch(i);
            ++running;
          }
        }
      }
    }
    if (first_failure_time > 0) {
      for (auto& w : ws) {
        if (w.pid > 0) {
          kill(w.pid, SIGKILL);
          int st;
          waitpid(w.pid, &st, 0);
          w.pid = -1;
        }
      }
      running = 0;
    }
  }
  const double search_s = Now() - start;
  int attempts = 0;
  int unreproduced = 0;
  for (size_t i = 0; i != failures.size() && !violation; ++i) {
    const Facet& f = *failures[i].first;
    // Reproduce before believing it.
    const int needed = f.options.nondeterministic ? 1 : 3;
    const int tries = f.options.nondeterministic ? 200 : 3;
    int got = 0;
    ReplayResult last;
    const double repro_end = Now() + (f.options.nondeterministic ? 60. : 300.);
    for (int t = 0; t != tries && got < needed && Now() < repro_end; ++t) {
      ReplayResult r = RunReplay(f, failures[i].second, false);
      if (r.failed) {
        ++got;
        last = r;
      } else if (!f.options.nondeterministic) {
        break;
      }
    }
    if (got < needed && !f.options.nondeterministic) {
      // Perhaps it needs the state that earlier cases left in the process.
      const int64_t first = failure_history[i].first, last_case = failure_history[i].second;
      std::string m;
      int64_t begin = -1;
      for (int64_t span = 1;; span *= 4) {
        const int64_t b = std::max<int64_t>(first, last_case - span * workers);
        if (RunHistory(seed, b, last_case, workers, only, &m)) {
          begin = b;
          break;
        }
        if (b == first) break;
      }
      if (begin >= 0 && RunHistory(seed, begin, last_case, workers, only, &m)) {
        violation = true;
        vio_facet = f.name;
        vio_message = "(needs the history of cases " + std::to_string(begin) + ".." +
                      std::to_string(last_case) + " step " + std::to_string(workers) + ") " + m;
        if (!replay_out.empty()) {
          std::ofstream o(replay_out);
          o << "property " << g_property << "\nfacet " << f.name << "\nhistory " << seed << " "
            << begin << " " << last_case << " " << workers << "\nmessage " << JsonEscape(m) << "\n";
        }
        continue;
      }
    }
    if (got < needed) {
      ++unreproduced;
      fprintf(stderr, "unreproduced failure in %s: %s\n", f.name.c_str(), failure_messages[i].c_str());
      WriteReplay(g_out_dir + "/unreproduced.replay", f.name, failures[i].second, failure_messages[i]);
      continue;
    }
    violation = true;
    vio_facet = f.name;
    vio_choices = Shrink(f, last.choices.empty() ? failures[i].second : last.choices, shrink_s, &attempts);
    vio_message = last.message;
    for (int t = 0; t != (f.options.nondeterministic ? 50 : 3); ++t) {
      ReplayResult r = RunReplay(f, vio_choices, false);
      if (r.failed) {
        vio_message = r.message;
        break;
      }
    }
    if (!replay_out.empty()) WriteReplay(replay_out, vio_facet, vio_choices, vio_message);
  }

  WorkerStats total;
  for (const auto& o : outs) MergeStats(o + ".json", &total);
  if (!evidence.empty()) {
    std::string rule;
    std::ostringstream per_facet, labels, samples;
    bool first = true;
    for (const auto& f : Facets()) {
      if (!rule.empty()) rule += " | ";
      rule += f.name + ": " + f.options.rule;
      if (!first) per_facet << ",";
      first = false;
      per_facet << "\"" << f.name << "\":" << total.per_facet[f.name];
    }
    first = true;
    for (const auto& l : total.labels) {
      if (!first) labels << ",";
      first = false;
      labels << "\"" << JsonEscape(l.first) << "\":" << l.second;
    }
    std::sort(total.samples.begin(), total.samples.end());
    // At most 2 samples per facet.
    std::map<std::string, int> seen;
    first = true;
    for (const auto& smp : total.samples) {
      const std::string key = smp.substr(0, smp.find(':'));
      if (seen[key]++ >= 2) continue;
      if (!first) samples << ",";
      first = false;
      samples << "\"" << JsonEscape(smp.substr(0, 700)) << "\"";
    }
    std::ofstream o(evidence);
    o << "{\"property\":\"" << g_property << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed
      << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << total.evaluations
      << ",\"distinct_nontrivial\":" << total.distinct.size() << ",\"rule\":\"" << JsonEscape(rule)
      << "\",\"samples\":[" << samples.str() << "],\"cases_per_facet\":{" << per_facet.str()
      << "},\"labels\":{" << labels.str() << "},\"discarded\":" << total.discarded
      << ",\"inconclusive_timeouts\":" << inconclusive
      << ",\"unreproduced_failures\":" << unreproduced << ",\"search_seconds\":" << search_s
      << ",\"shrink_attempts\":" << attempts << ",\"violation\":\""
      << JsonEscape(violation ? vio_facet + ": " + vio_message : "") << "\"},\"wall_s\":" << (Now() - start)
      << ",\"violations\":" << (violation ? 1 : 0) << "}\n";
  }
  printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %d inconclusive, "
         "%d unreproduced, %.1f s search\n",
         g_property.c_str(), tier.c_str(), (unsigned long long)seed,
         (unsigned long long)total.evaluations, (unsigned long long)total.distinct.size(),
         (unsigned long long)total.discarded, inconclusive, unreproduced, search_s);
  for (const auto& f : Facets())
    printf("  facet %-40s %llu cases\n", f.name.c_str(), (unsigned long long)total.per_facet[f.name]);
  if (getenv("PBT_LABELS"))
    for (const auto& l : total.labels) printf("    %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
  if (violation) {
    printf("violated in facet %s (%zu choices after shrinking): %s\n", vio_facet.c_str(),
           vio_choices.size(), vio_message.c_str());
    return 1;
  }
  return 0;
}

}  // namespace
}  // namespace pbt

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
