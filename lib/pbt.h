// Small property-based testing engine (choice-sequence based).
//
// Every random decision of a case is one "choice" (an integer).  A case is a
// pure function of its choice sequence, so recording the sequence gives
// replay, and shrinking the sequence (deleting spans, lowering values) gives
// integrated shrinking without per-type shrinkers.
//
// Cases run in forked workers, so that a crash, a sanitizer report or a hang
// of the code under test is an ordinary failing case: the choices of the case
// in progress live in shared memory and are shrunk and replayed by the parent.
#ifndef PBT_H_
#define PBT_H_
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n,
                    uint64_t h = 1469598103934665603ull) {
  auto const *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

constexpr uint32_t MaxChoices = 1u << 15;
constexpr uint32_t MaxSpans = 1u << 14;
struct Shared {
  std::atomic<uint64_t> beat; // progress counter
  std::atomic<uint64_t> caseNo;
  uint32_t sub;
  uint32_t size;
  uint32_t n;
  uint64_t choices[MaxChoices];
  uint32_t nspans;
  uint32_t spans[MaxSpans][2];
  char msg[16384];
  char trace[1 << 17];
  int failed;
};

class Case {
public:
  Case(Shared *sh, const std::vector<uint64_t> *prefix, uint64_t seed,
       unsigned size, bool tracing)
      : sh_(sh), prefix_(prefix), rng_(seed), size_(size), tracing_(tracing) {
    sh_->n = 0;
    sh_->nspans = 0;
    sh_->msg[0] = 0;
    sh_->trace[0] = 0;
    sh_->failed = 0;
  }
  // value in [0,max]; `gen` proposes it in random mode
  template <class F> uint64_t choose(uint64_t max, F &&gen) {
    if (sh_->n >= MaxChoices)
      throw Discard{};
    uint64_t v;
    if (prefix_) {
      v = pos_ < prefix_->size() ? (*prefix_)[pos_] : 0;
      if (v > max)
        v = max;
    } else {
      v = gen();
    }
    ++pos_;
    sh_->choices[sh_->n++] = v;
    return v;
  }
  uint64_t raw() { return splitmix(rng_); }
  // uniform in [0,max]
  uint64_t u(uint64_t max) {
    return choose(max, [&] {
      return max == std::numeric_limits<uint64_t>::max() ? raw()
                                                         : raw() % (max + 1);
    });
  }
  // uniform in [lo,hi], shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) {
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        u(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  size_t idx(size_t n) { return static_cast<size_t>(u(n - 1)); }
  // true with probability num/den, shrinks to false
  bool chance(unsigned num, unsigned den) {
    return choose(1, [&] { return raw() % den < num ? 1u : 0u; }) != 0;
  }
  bool flip() { return chance(1, 2); }
  // index i with probability w[i]/sum; shrinks to 0
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (auto x : w)
      sum += x;
    return static_cast<size_t>(choose(w.size() - 1, [&] {
      uint64_t r = raw() % sum;
      uint64_t i = 0;
      for (auto x : w) {
        if (r < x)
          return i;
        r -= x;
        ++i;
      }
      return i;
    }));
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[idx(v.size())];
  }
  template <class T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + idx(l.size()));
  }
  // an integer of type T biased to edges
  template <class T> T integer() {
    using L = std::numeric_limits<T>;
    switch (weighted({3, 3, 3, 2})) {
    case 0: {
      auto v = range(-10, 40);
      return std::is_signed_v<T> ? static_cast<T>(v)
                                 : static_cast<T>(v < 0 ? -v : v);
    }
    case 1: {
      auto d = static_cast<T>(u(3));
      return flip() ? static_cast<T>(L::max() - d)
                    : static_cast<T>(L::lowest() + d);
    }
    case 2: { // around powers of two
      auto sh = u(sizeof(T) * 8 - 1);
      auto v = (uint64_t{1} << sh) + u(4) - 2;
      return static_cast<T>(flip() ? ~v + 1 : v);
    }
    default:
      return static_cast<T>(u(std::numeric_limits<uint64_t>::max()));
    }
  }
  // finite or special floating point value
  template <class T> T floating(bool special = true) {
    using L = std::numeric_limits<T>;
    switch (weighted({4, 3, 2, 2})) {
    case 0:
      return static_cast<T>(range(-1000, 1000)) / static_cast<T>(4);
    case 1: {
      T v = std::ldexp(static_cast<T>(1), static_cast<int>(range(-70, 70)));
      v += static_cast<T>(range(-2, 2));
      return flip() ? -v : v;
    }
    case 2:
      switch (u(special ? 8 : 5)) {
      case 0:
        return 0;
      case 1:
        return -static_cast<T>(0);
      case 2:
        return L::max();
      case 3:
        return L::lowest();
      case 4:
        return L::min();
      case 5:
        return L::denorm_min();
      case 6:
        return L::infinity();
      case 7:
        return -L::infinity();
      default:
        return L::quiet_NaN();
      }
    default: {
      T m = static_cast<T>(u((1ull << 52) - 1)) / static_cast<T>(1ull << 52);
      T v = std::ldexp(m, static_cast<int>(range(-40, 70)));
      return flip() ? -v : v;
    }
    }
  }
  std::string str(size_t maxLen, const std::string &alphabet) {
    auto n = u(maxLen);
    std::string s;
    for (size_t i = 0; i < n; ++i)
      s += alphabet[idx(alphabet.size())];
    return s;
  }
  // loop control for operation sequences: expected length grows with size
  bool more(unsigned maxOps) {
    if (ops_ >= maxOps)
      return false;
    unsigned avg = size_ < 2 ? 2 : size_;
    bool go = choose(1, [&] { return raw() % (avg + 1) != 0 ? 1u : 0u; }) != 0;
    if (go)
      ++ops_;
    return go;
  }
  unsigned ops() const { return ops_; }
  unsigned size() const { return size_; }

  bool tracing() const { return tracing_; }
  void note(const std::string &s) {
    if (!tracing_)
      return;
    trace_ += s;
    trace_ += "; ";
    auto n = std::min(trace_.size(), sizeof(sh_->trace) - 1);
    std::memcpy(sh_->trace, trace_.data(), n);
    sh_->trace[n] = 0;
  }
  void nontrivial() { nontrivial_ = true; }
  bool isNontrivial() const { return nontrivial_; }
  void label(const std::string &l) { labels_.insert(l); }
  const std::set<std::string> &labels() const { return labels_; }
  const std::string &trace() const { return trace_; }

  struct Span {
    Case &c;
    uint32_t start;
    explicit Span(Case &cc) : c(cc), start(cc.sh_->n) {}
    ~Span() {
      if (c.sh_->nspans < MaxSpans && c.sh_->n > start) {
        c.sh_->spans[c.sh_->nspans][0] = start;
        c.sh_->spans[c.sh_->nspans][1] = c.sh_->n;
        ++c.sh_->nspans;
      }
    }
  };

private:
  Shared *sh_;
  const std::vector<uint64_t> *prefix_;
  uint64_t rng_;
  unsigned size_;
  bool tracing_;
  size_t pos_{};
  unsigned ops_{};
  bool nontrivial_{};
  std::set<std::string> labels_;
  std::string trace_;
};

#define NOTE(c, expr)                                                          \
  do {                                                                         \
    if ((c).tracing()) {                                                       \
      std::ostringstream os_;                                                  \
      os_ << expr;                                                             \
      (c).note(os_.str());                                                     \
    }                                                                          \
  } while (0)
#define REQUIRE(cond, expr)                                                    \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream os_;                                                  \
      os_ << "line " << __LINE__ << ": " #cond ": " << expr;                   \
      throw pbt::Fail{os_.str()};                                              \
    }                                                                          \
  } while (0)
#define FAILURE(expr)                                                          \
  do {                                                                         \
    std::ostringstream os_;                                                    \
    os_ << "line " << __LINE__ << ": " << expr;                                \
    throw pbt::Fail{os_.str()};                                                \
  } while (0)

inline std::string show(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
      r += static_cast<char>(ch);
    else {
      char b[8];
      std::snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    }
  }
  return r + "\"";
}

struct Sub {
  std::string name;
  std::function<void(Case &)> fn;
  uint64_t quick;    // cases in the quick tier
  uint64_t thorough; // cases in the thorough tier
  unsigned maxSize = 24;
};
// A listed finding: run as a fixed regression, reported but not a violation.
struct Known {
  std::string key;
  std::string what;
  std::function<void()> fn; // throws Fail / crashes while the defect is there
};
struct Suite {
  std::string property;
  std::string rule;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
  std::vector<Known> known;
  double hangSeconds = 30;
  unsigned maxJobs = 8;
  bool flaky = false; // schedule-dependent: a failure need not replay each time
};

} // namespace pbt

// every harness defines this
pbt::Suite pbt_suite();
#endif
