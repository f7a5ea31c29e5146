// Property-based testing engine used by every check in /verif.
//
// A test case is a *choice sequence* ("genome"): a vector of 32-bit integers.
// A property is a function  void prop(Ctx&)  that draws every decision it makes
// from Ctx (which reads the genome; 0 is always the simplest decision and an
// exhausted genome yields 0) and calls CHECK(...) on what it observes.
// Shrinking, replay and campaign bookkeeping work on genomes only, so they are
// identical for all properties.  See engine.cc for the campaign driver.
#ifndef PBT_H
#define PBT_H

#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

using Genome = std::vector<uint32_t>;

inline uint64_t mix(uint64_t x) {  // splitmix64 finaliser
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

// Thrown when the property is violated. `tag` names the clause that failed.
struct Failure : std::runtime_error {
  Failure(std::string tag_, const std::string &msg)
      : std::runtime_error(msg), tag(std::move(tag_)) {}
  std::string tag;
};

// Expands one genome value into bulk data (visibilities, file noise...), so a
// case with thousands of samples still has a short, shrinkable genome.
class Expand {
 public:
  explicit Expand(uint64_t seed) : s_(seed) {}
  uint64_t u64() { return mix(s_++ * 0xD1342543DE82EF95ull + 1); }
  uint32_t below(uint32_t n) { return n ? uint32_t(u64() % n) : 0; }
  double unit() { return double(u64() >> 11) * 0x1.0p-53; }      // [0,1)
  double sym() { return 2.0 * unit() - 1.0; }                    // [-1,1)
  double normal() {
    double u = unit(), v = unit();
    return std::sqrt(-2.0 * std::log(1.0 - u)) * std::cos(6.283185307179586 * v);
  }

 private:
  uint64_t s_;
};

class Ctx {
 public:
  Ctx(const Genome &g, uint64_t caseId, std::string scratch)
      : g_(g), pos_(0), caseId_(caseId), scratch_(std::move(scratch)) {}

  // ---- choices ----
  uint32_t raw() { return pos_ < g_.size() ? g_[pos_++] : (++pos_, 0u); }
  // uniform in [0,n)
  uint32_t below(uint32_t n) { return n < 2 ? (raw(), 0u) : raw() % n; }
  // uniform in [lo,hi]; lo is simplest
  int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
  // true with probability num/den; false is simplest
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(uint32_t(l.size())));
  }
  // weighted choice, index of weight
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (unsigned x : w) sum += x;
    unsigned r = below(sum);
    size_t i = 0;
    for (unsigned x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  double unit() { return raw() * (1.0 / 4294967296.0); }
  // small most of the time, occasionally up to hi
  int sized(int lo, int small, int hi) {
    return chance(1, 8) ? range(lo, hi) : range(lo, small < hi ? small : hi);
  }

  // ---- bookkeeping ----
  void label(const std::string &l) { labels[l]++; }
  void count(const std::string &l, uint64_t n) { labels[l] += n; }
  void nontrivial() { isNontrivial = true; }
  template <typename T>
  Ctx &note(const T &x) {
    desc << x;
    return *this;
  }
  const std::string &scratch() const { return scratch_; }
  // A failure that may be a listed known finding; any other one is a violation.
  void finding(const std::string &id, const std::string &tag, const std::string &msg) {
    if (known().count(id) == 0) throw Failure(tag, msg);
    labels["KNOWN:" + id]++;
  }
  static std::map<std::string, std::string> &known() {  // id -> "property what fails"
    static std::map<std::string, std::string> k;
    return k;
  }
  size_t consumed() const { return pos_ < g_.size() ? pos_ : g_.size(); }

  std::map<std::string, uint64_t> labels;
  bool isNontrivial = false;
  uint64_t subEvaluations = 0;  // extra oracle evaluations inside this case
  std::ostringstream desc;      // human-readable form of the case

 private:
  const Genome &g_;
  size_t pos_;
  uint64_t caseId_;
  std::string scratch_;
};

struct Facet {
  std::string property;   // "C01"
  std::string name;       // "roundtrip"
  std::function<void(Ctx &)> fn;
  size_t genomeMax;       // max genome length
  uint64_t quick, thorough;  // cases per tier
  std::string rule;       // how cases are made, what is non-trivial
  int replays = 4;        // attempts when confirming a failure
  bool schedule = false;  // outcome may depend on thread schedule
  int maxJobs = 8;
  double hang = 60;       // a single case may take this many seconds
};

std::vector<Facet> &registry();
struct Register {
  Register(Facet f) { registry().push_back(std::move(f)); }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define FACET(...) static ::pbt::Register PBT_CAT(reg_, __COUNTER__)(::pbt::Facet{__VA_ARGS__})

// For cases that run encoding threads or random noise: an observed failure
// counts even when it does not recur.
#define TFACET(...)                                                   \
  static ::pbt::Register PBT_CAT(reg_, __COUNTER__)([] {              \
    ::pbt::Facet f{__VA_ARGS__};                                      \
    f.schedule = true;                                                \
    return f;                                                         \
  }())

#define CHECK(cond, tag, msg)                                     \
  do {                                                            \
    if (!(cond)) {                                                \
      std::ostringstream pbt_s_;                                  \
      pbt_s_.precision(9);                                        \
      pbt_s_ << msg;                                              \
      throw ::pbt::Failure(tag, pbt_s_.str());                    \
    }                                                             \
  } while (0)

}  // namespace pbt

#endif
