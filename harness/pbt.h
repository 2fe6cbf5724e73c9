// pbt.h - a small property-based-testing engine for the kanon harnesses.
//
// A test case is a function of a recorded sequence of integer choices.  Cases
// are generated from hash(VERIF_SEED, property, suite, index), run in forked
// worker processes (so that crashes, sanitizer reports, assertion failures
// and hangs are observed, not suffered), and a failing choice sequence is
// replayed, shrunk (by deleting / lowering choices and re-executing) and
// written to a replay file.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace pbt {

static constexpr uint32_t kMaxChoices = 1 << 16;

class Gen {
 public:
  // Uniform in [lo, hi]; the smallest value is the shrink target.
  uint64_t range(uint64_t lo, uint64_t hi);
  int64_t irange(int64_t lo, int64_t hi)
  {
    return lo + (int64_t)range(0, (uint64_t)(hi - lo));
  }
  bool chance(unsigned num, unsigned den) { return range(0, den - 1) >= den - num; }
  bool boolean() { return range(0, 1) == 1; }
  // Index with the given weights.
  unsigned weighted(std::initializer_list<unsigned> w);
  // Skewed towards small values: log-uniform in [0, max].
  uint64_t small(uint64_t max);
  // Sizes around interesting boundaries, in [0, max].
  uint64_t size(uint64_t max, std::initializer_list<uint64_t> boundaries = {});
  // Any 64-bit pattern: boundaries, powers of two +-1, log-uniform, uniform.
  uint64_t u64();
  double real();  // finite doubles of all kinds
  template <class T> T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + range(0, l.size() - 1));
  }
  template <class C> auto &pickc(C &c) { return c[range(0, c.size() - 1)]; }
  // n bytes derived from one choice.
  std::string blob(size_t n);
  // n bytes from an alphabet, one choice per byte.
  std::string str(size_t n, const char *alphabet, size_t alen);
  std::string str(size_t n, const char *alphabet) { return str(n, alphabet, strlen(alphabet)); }
};

typedef std::function<void(Gen &)> CaseFn;

struct SuiteOpt {
  uint64_t quick = 1000;      // cases in the quick tier
  uint64_t thorough = 0;      // cases in the thorough tier (0: 20x quick)
  unsigned hang_s = 40;       // a case running longer than this is a hang
  bool nondet = false;        // schedule-dependent: see Confirm
  bool sound = false;         // the oracle holds in every schedule: one failing execution suffices
};

// Registers a suite.  Call before run().
void suite(const char *name, const char *what, SuiteOpt o, CaseFn fn);

struct Config {
  const char *property;
  const char *rule;                       // what makes a case non-trivial
  std::vector<std::string> assumptions;
  unsigned jobs = 8;                      // worker processes
};
int run(int argc, char **argv, Config const &cfg);

// ---- inside a case -------------------------------------------------------
bool noting();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char *name);             // classification (once per case per name)
void label_if(bool c, const char *name);
void nontrivial();                        // this case is non-trivial
void known(const char *id);               // this case met a listed known finding
bool is_known(const char *id);            // is the finding listed in known_findings.txt?
uint64_t case_index();
unsigned worker_index();                  // unique per worker process of this run
uint64_t mix(uint64_t x);

#define PBT_CHECK(c, ...)                                                      \
  do {                                                                         \
    if (!(c)) ::pbt::fail(__VA_ARGS__);                                        \
  } while (0)
#define NOTE(...)                                                              \
  do {                                                                         \
    if (::pbt::noting()) ::pbt::note(__VA_ARGS__);                             \
  } while (0)

std::string quote(const void *p, size_t n, size_t max = 60);
inline std::string quote(std::string const &s, size_t max = 60) { return quote(s.data(), s.size(), max); }

}  // namespace pbt
