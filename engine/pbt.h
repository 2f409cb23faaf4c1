// A small property-based-testing engine: every generated case is a finite
// sequence of bounded integer choices.  A property ("facet") is a function that
// draws its inputs from a Source and checks an oracle; a failing case is the
// sequence of choices it consumed, which is what gets shrunk, written to the
// replay file and replayed.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure : public std::exception {
  explicit Failure(std::string m) : message(std::move(m)) {}
  const char* what() const noexcept override { return message.c_str(); }
  std::string message;
};
// Thrown to abandon a case that turned out to be outside the domain.
struct Discard : public std::exception {};

class Source {
 public:
  // --- primitive choices -------------------------------------------------
  // Uniform in [0, max]; shrinks towards 0.
  uint64_t Bits(uint64_t max);
  // Uniform in [lo, hi]; shrinks towards 0 if contained, else towards lo.
  int64_t Int(int64_t lo, int64_t hi);
  // Like Int, but the ends of the range and small values are over-represented.
  int64_t IntEdge(int64_t lo, int64_t hi);
  // A size in [lo, hi], skewed to small values but reaching hi.
  int Len(int lo, int hi);
  // True with probability p; shrinks to false.
  bool Chance(double p);
  // Real number in [lo, hi]: a mix of a coarse grid (incl. both ends and the
  // centre) and full-precision values. Shrinks to a grid value.
  double Real(double lo, double hi);
  // Log-uniform in [lo, hi], lo > 0.
  double LogReal(double lo, double hi);
  // Index drawn with the given weights; shrinks towards 0.
  int Weighted(const std::vector<double>& weights);
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[Bits(v.size() - 1)];
  }
  template <typename T>
  void Shuffle(std::vector<T>* v) {
    for (size_t i = v->size(); i > 1; --i)
      std::swap((*v)[i - 1], (*v)[i - 1 - Bits(i - 1)]);
  }
  std::string Word(int lo, int hi, const std::string& alphabet);

  // --- bookkeeping -------------------------------------------------------
  // Marks the case as non-trivial by the facet's stated rule.
  void NonTrivial(bool yes = true) {
    if (yes) nontrivial_ = true;
  }
  void Label(const std::string& label);
  void LabelIf(bool cond, const std::string& label) {
    if (cond) Label(label);
  }
  // Free-text description of the case for the evidence samples.
  bool Sampling() const { return sampling_; }
  void Describe(const std::string& text);

  // --- engine internals ---------------------------------------------------
  struct State;
  explicit Source(State* state) : state_(state) {}
  bool nontrivial_ = false;
  bool sampling_ = false;
  std::string description_;
  std::vector<std::string> labels_;
  uint64_t hash_ = 1469598103934665603ull;

 private:
  State* state_;
};

struct FacetOptions {
  double weight = 1.;          // share of the case budget
  double case_timeout_s = 60;  // watchdog
  bool hang_is_violation = false;
  bool nondeterministic = false;  // outcome may depend on the thread schedule
  std::string rule;               // what makes a case non-trivial
  int max_cases = 0;              // 0: unlimited (time bound decides)
};

using FacetFn = std::function<void(Source&)>;
bool RegisterFacet(const char* name, FacetOptions options, FacetFn fn);

// Runs 'fn' in a forked child and returns the wait status kind:
// 0 = returned normally, 1 = died by abort/fatal signal, 2 = pbt failure/other.
int RunForked(const std::function<void()>& fn, double timeout_s = 20.);

class FailStream {
 public:
  FailStream(const char* file, int line, const char* expr) {
    os_ << file << ":" << line << ": " << expr << " ";
  }
  template <typename T>
  FailStream& operator<<(const T& t) {
    os_ << t;
    return *this;
  }
  ~FailStream() noexcept(false) {
    if (std::uncaught_exceptions() == 0) throw Failure(os_.str());
  }

 private:
  std::ostringstream os_;
};

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_CHECK(cond) \
  if (cond) {           \
  } else                \
    ::pbt::FailStream(__FILE__, __LINE__, #cond)
#define PBT_CHECK_EQ(a, b) \
  PBT_CHECK((a) == (b)) << "[" << (a) << " vs " << (b) << "] "
#define PBT_FAIL() ::pbt::FailStream(__FILE__, __LINE__, "FAIL")
#define PBT_FACET(name, ...)                                                 \
  static void name(::pbt::Source&);                                          \
  static const bool PBT_CAT(pbt_reg_, name) = ::pbt::RegisterFacet(          \
      #name, []() { ::pbt::FacetOptions o; __VA_ARGS__; return o; }(), name); \
  static void name(::pbt::Source& s)
