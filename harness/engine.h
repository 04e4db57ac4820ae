// A small property-based-testing / coverage-guided fuzzing engine.
//
// Every random decision of a case goes through Ctx (a recorded choice
// sequence), so that a case is a pure function of its choices: it can be
// mutated under coverage guidance, shrunk by editing the choices, and replayed
// from the list of numbers in the replay file.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace vf {

struct Failure {
  std::string msg;
};
struct Discard {};  // case turned out to be outside the domain

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n == 0 ? next() : next() % n; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ULL + b);
  r.next();
  return r.next();
}

class Ctx {
 public:
  // ---- choices -----------------------------------------------------------
  // uniform in [0,n); n == 0 means the full 64 bit range
  uint64_t draw(uint64_t n) {
    return draw_with(n, [n](Rng& r) { return r.below(n); });
  }
  // value in [0,n) made by f on fresh draws; recorded as the value itself
  template <typename F>
  uint64_t draw_with(uint64_t n, F&& f) {
    uint64_t v;
    if (pos_ < in_.size()) {
      v = in_[pos_];
      if (n != 0 && v >= n) v %= n;
    } else if (exhausted_zero_) {
      v = 0;
    } else {
      v = f(rng_);
      if (n != 0 && v >= n) v %= n;
    }
    ++pos_;
    record(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive, shrinks to lo
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // skewed small, with the constants the program compares against mixed in
  int64_t size(int64_t lo, int64_t hi);
  bool flip() { return draw(2) != 0; }
  // true with probability num/den; shrinks to false
  bool chance(uint64_t num, uint64_t den) {
    return draw_with(2, [&](Rng& r) { return r.below(den) < num ? 1 : 0; }) != 0;
  }
  // loop control: expected number of iterations ~avg, at most max
  bool more(unsigned avg) {
    return draw_with(2, [&](Rng& r) { return r.below(avg + 1) != 0 ? 1 : 0; }) != 0;
  }
  // index by weight; shrinks to 0
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t total = 0;
    for (auto x : w) total += x;
    return draw_with(w.size(), [&](Rng& r) -> uint64_t {
      auto v = r.below(total);
      size_t i = 0;
      for (auto x : w) {
        if (v < x) return i;
        v -= x;
        ++i;
      }
      return 0;
    });
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  const char* pick(std::initializer_list<const char*> v) {
    return *(v.begin() + draw(v.size()));
  }
  // finite double of assorted magnitudes (sign allowed when neg)
  double number(bool neg);

  // ---- outcome -----------------------------------------------------------
  [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
  void check(bool ok, const std::string& msg) {
    ++checks_;
    if (!ok) fail(msg);
  }
  void check(bool ok, const char* msg) {
    ++checks_;
    if (!ok) fail(msg);
  }
  template <typename F>
  void check_f(bool ok, F&& f) {
    ++checks_;
    if (!ok) fail(f());
  }
  void nontrivial(bool yes = true) { nontrivial_ = nontrivial_ || yes; }
  void label(const char* l) { labels_.insert(l); }
  void label_if(bool c, const char* l) {
    if (c) labels_.insert(l);
  }
  // count of sub-checks (assertions) for the evidence
  uint64_t checks_ = 0;

  // ---- tracing (only collected when the case is shown to a human) --------
  bool tracing() const { return tracing_; }
  template <typename F>
  void trace(F&& f) {
    if (tracing_) {
      std::ostringstream os;
      f(os);
      add_trace(os.str());
    }
  }

  struct Span {
    Ctx& c;
    size_t start;
    explicit Span(Ctx& c_) : c(c_), start(c_.pos_) {}
    ~Span() { c.end_span(start); }
  };

  // ---- engine side -------------------------------------------------------
  Ctx(std::vector<uint64_t> in, bool exhausted_zero, uint64_t seed, bool tracing)
      : in_(std::move(in)), exhausted_zero_(exhausted_zero), rng_(seed), tracing_(tracing) {}
  void record(uint64_t v);
  void end_span(size_t start);
  void add_trace(const std::string& s);

  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  bool exhausted_zero_;
  Rng rng_;
  bool tracing_;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
};

using PropFn = std::function<void(Ctx&)>;

struct Prop {
  std::string id;
  std::string rule;     // how cases are made and what makes one non-trivial
  uint64_t quick_cases = 0;
  uint64_t thorough_cases = 0;
  PropFn fn;
  bool isolate = false;      // one process per case
  bool guided = true;        // coverage-guided mutation of earlier cases
  int workers = 8;
  double hang_s = 60;        // a case running longer than this is a hang
  double quick_cap_s = 60;   // wall cap for the whole exploration
  double thorough_cap_s = 700;
  std::function<void()> init;       // once per worker process
  std::vector<std::string> assumptions;
};

void register_prop(Prop p);
struct Reg {
  explicit Reg(Prop p) { register_prop(std::move(p)); }
};

// a defect that is recorded instead of repaired: fn runs in a process of its
// own, and the finding is there if it does not end with exit status 0 within
// seconds
struct Known {
  std::string key;
  double seconds;
  std::function<void()> fn;
};
struct KnownReg {
  explicit KnownReg(Known k);
};

// constants seen in comparisons of the instrumented program
uint64_t dict_pick(Rng& r, bool* ok);

std::string quote(std::string_view s);
std::string dstr(double d);

}  // namespace vf
