// Choice-tape property based testing engine (header part used by properties).
//
// A case is a sequence of bounded integer choices ("tape").  While exploring,
// choices come from a PRNG that is a pure function of (VERIF_SEED, facet, case
// index); while shrinking/replaying they come from a recorded tape.  Properties
// take every random decision from G, so a tape determines the case completely.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard { };

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// shared memory that mirrors the tape, so that a crashed case leaves it behind
extern uint64_t* spy;
extern uint64_t spy_cap;

class G {
public:
  // exploring
  G(uint64_t seed) : rng_(seed), replay_(false) {}
  // replaying
  explicit G(const std::vector<uint64_t>& tape) : rng_(0), replay_(true), in_(tape) {}

  // uniform in [0,n); shrinks towards 0
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (v >= n) v = n - 1;
    } else v = rng_.below(n);
    tape.push_back(v);
    if (spy && spy[0] < spy_cap) { spy[1 + spy[0]] = v; spy[0]++; }
    return v;
  }
  // inclusive, shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  // true with probability num/den, shrinks towards false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  // small values more likely: lo..hi
  int64_t small(int64_t lo, int64_t hi) {
    int64_t span = hi - lo;
    if (span <= 3) return range(lo, hi);
    switch (below(4)) {
      case 0: return range(lo, lo + 1);
      case 1: return range(lo, lo + span / 4 + 1);
      case 2: return range(lo, lo + span / 2 + 1);
      default: return range(lo, hi);
    }
  }
  uint64_t seed32() { return below(1ull << 32); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // weighted choice; index of weight, shrinks towards first
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t sum = 0; for (unsigned x : w) sum += x;
    uint64_t v = below(sum); size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  void assume(bool c) { if (!c) throw Discard(); }
  void nontrivial() { nontrivial_ = true; }
  void label(const std::string& l) { labels[l]++; }
  std::ostringstream& note() { return desc; }

  std::vector<uint64_t> tape;
  std::ostringstream desc;
  bool nontrivial_ = false;
  std::map<std::string, long> labels;
private:
  Rng rng_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
};

typedef void (*PropFn)(G&);
struct Facet { std::string name; PropFn fn; long quick, thorough; std::string rule; bool isolate; };
std::vector<Facet>& registry();
struct Reg { Reg(const char* n, PropFn f, long q, long t, const char* rule, bool isolate = false) {
  registry().push_back(Facet{n, f, q, t, rule, isolate}); } };

// a recorded defect (KNOWN_FINDINGS.txt): returns whether it still fails
struct Finding { std::string name; bool (*fn)(); };
std::vector<Finding>& findings();
struct RegFinding { RegFinding(const char* n, bool (*f)()) { findings().push_back(Finding{n, f}); } };
#define FINDING(fname) \
  static bool finding_##fname(); \
  static pbt::RegFinding regf_##fname(#fname, finding_##fname); \
  static bool finding_##fname()

// quick/thorough: numbers of cases; rule: what makes a case non-trivial
#define FACET(fname, quick, thorough, rule) \
  static void facet_##fname(pbt::G& g); \
  static pbt::Reg reg_##fname(#fname, facet_##fname, quick, thorough, rule); \
  static void facet_##fname(pbt::G& g)
// as FACET, but every case runs in a process of its own (code that kills or
// permanently changes process state)
#define FACET_ISOLATED(fname, quick, thorough, rule) \
  static void facet_##fname(pbt::G& g); \
  static pbt::Reg reg_##fname(#fname, facet_##fname, quick, thorough, rule, true); \
  static void facet_##fname(pbt::G& g)

#define FAILMSG(stream) do { std::ostringstream oss_; oss_ << stream; throw pbt::Fail{oss_.str()}; } while (0)
#define REQUIRE(cond, stream) do { if (!(cond)) FAILMSG("[" #cond "] " << stream); } while (0)

// provided by the property file: called once per process before any case, and
// before every case
void setup_process();
void setup_case();

}  // namespace pbt
