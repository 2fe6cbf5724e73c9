// S03: text <-> number conversions.
#include "pbt.h"
#include <string>
#include <thread>
#include <vector>
#include <limits>
#include <atomic>
#include <math.h>
#include "kanon/string/lexical_cast.h"
#include "kanon/string/string_view_util.h"
using namespace kanon;
using pbt::Gen;

struct Heap {  // not terminated, ends at the end of its block
  char *block, *p;
  size_t n;
  explicit Heap(std::string const &s) : n(s.size())
  {
    block = (char *)malloc(8 + n);
    p = block + 8;
    memcpy(p, s.data(), n);
  }
  Heap(Heap const &) = delete;
  ~Heap() { free(block); }
  StringView v() const { return StringView(p, n); }
};

template <class T>
static T anyint(Gen &g)
{
  switch (g.weighted({3, 1, 1, 1})) {
    case 0: return (T)g.u64();
    case 1: return (T)(std::numeric_limits<T>::max() - (T)g.range(0, 2));
    case 2: return (T)(std::numeric_limits<T>::min() + (T)g.range(0, 2));
    default: return (T)g.irange(-12, 12);
  }
}

template <class T>
static void roundtrip(Gen &g, const char *name)
{
  T v = anyint<T>(g);
  std::string want = std::to_string(v);
  NOTE("%s %s", name, want.c_str());
  auto s = lexical_cast<std::string>(v);
  PBT_CHECK(s == want, "lexical_cast<std::string>(%s) is %s", want.c_str(), pbt::quote(s).c_str());
  auto sv = lexical_cast<StringView>(v);
  PBT_CHECK(std::string(sv.data(), sv.size()) == want && sv.data()[sv.size()] == 0, "lexical_cast<StringView>(%s) is %s", want.c_str(),
            pbt::quote(sv.data(), sv.size()).c_str());
  auto r = lexical_cast<T>(s);
  PBT_CHECK(r.has_value() && *r == v, "lexical_cast<%s>(\"%s\") from std::string is wrong", name, want.c_str());
  Heap h(want);
  auto r2 = lexical_cast<T>(h.v());
  PBT_CHECK(r2.has_value() && *r2 == v, "lexical_cast<%s>(\"%s\") from a view is wrong", name, want.c_str());
  pbt::nontrivial();
}

template <class T>
static std::string numtext(Gen &g)
{
  switch (g.weighted({3, 2, 2, 2, 1, 1})) {
    case 0: return std::to_string(anyint<T>(g));
    case 1: return g.str(g.range(0, 3), " \t+-") + std::to_string(anyint<T>(g)) ;
    case 2: return std::to_string(anyint<T>(g)) + g.str(g.range(0, 3), " x.0-");
    case 3: return g.str(g.range(0, 12), "0123456789+- xabf");
    case 4: return "";
    default: return "0x" + g.str(g.range(0, 6), "0123456789abcdefg");
  }
}

// lexical_cast of any text: a value iff the whole text is a decimal number.
template <class T>
static void textcast(Gen &g, const char *name)
{
  std::string s = numtext<T>(g);
  if (g.chance(1, 12)) s += std::string(g.range(40, 80), g.boolean() ? '0' : ' ');
  NOTE("lexical_cast<%s>(%s)", name, pbt::quote(s).c_str());
  // oracle
  size_t i = 0;
  while (i < s.size() && isspace((uint8_t)s[i])) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  size_t digits = 0;
  __int128 v = 0;
  bool huge = false;
  while (i < s.size() && isdigit((uint8_t)s[i])) {
    v = v * 10 + (s[i] - '0');
    if (v > ((__int128)1 << 70)) huge = true, v = (__int128)1 << 70;
    ++digits;
    ++i;
  }
  if (neg) v = -v;
  bool numeric = digits && i == s.size();
  bool inrange = !huge && v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max();
  Heap h(s);
  for (int k = 0; k < 2; ++k) {
    optional<T> r = k ? lexical_cast<T>(s) : lexical_cast<T>(h.v());
    if (!numeric)
      PBT_CHECK(!r.has_value(), "lexical_cast<%s>(%s) gives a value", name, pbt::quote(s).c_str());
    else if (s.size() > 63)
      ;  // longer than the conversion buffer: rejecting is allowed
    else if (inrange)
      PBT_CHECK(r.has_value() && (__int128)*r == v, "lexical_cast<%s>(%s) is wrong", name, pbt::quote(s).c_str());
    if (r.has_value() && s.size() > 63 && numeric && inrange) PBT_CHECK((__int128)*r == v, "wrong value of a long text");
  }
  pbt::label(!numeric ? "not a number" : inrange ? "number in range" : "number out of range");
  if (numeric && inrange) pbt::nontrivial();
}

static void ints(Gen &g)
{
  bool rt = g.boolean();
#define ONE(T)                                                                                    \
  rt ? roundtrip<T>(g, #T) : textcast<T>(g, #T);                                                  \
  break;
  switch (g.range(0, 9)) {
    case 0: textcast<i8>(g, "i8"); break;
    case 1: ONE(i16)
    case 2: ONE(int)
    case 3: ONE(long)
    case 4: ONE(long long)
    case 5: ONE(u8)
    case 6: ONE(u16)
    case 7: ONE(unsigned)
    case 8: ONE(unsigned long)
    default: ONE(unsigned long long)
  }
}

static void floats(Gen &g)
{
  if (g.chance(1, 8)) {  // one character, also zero; truth values
    char c = (char)g.range(0, 255);
    bool b = g.boolean();
    NOTE("character %d", c);
    auto cs = lexical_cast<std::string>(c);
    PBT_CHECK(cs == std::string(1, c), "lexical_cast<std::string> of character %d is %s", c, pbt::quote(cs).c_str());
    auto cv = lexical_cast<StringView>(c);
    PBT_CHECK(std::string(cv.data(), cv.size()) == std::string(1, c), "lexical_cast<StringView> of character %d is %s", c, pbt::quote(cv.data(), cv.size()).c_str());
    auto bs = lexical_cast<std::string>(b);
    PBT_CHECK(bs == (b ? "True" : "False"), "lexical_cast<std::string>(%d) is %s", b, pbt::quote(bs).c_str());
    pbt::label("character");
    pbt::nontrivial();
    return;
  }
  double d = g.real();
  char want[64];
  bool f = g.chance(1, 3);
  std::string s;
  if (f) d = (double)(float)d;
  snprintf(want, sizeof want, "%.12g", d);
  s = f ? lexical_cast<std::string>((float)d) : lexical_cast<std::string>(d);
  NOTE("%s", want);
  PBT_CHECK(s == std::string(want), "lexical_cast<std::string>(%s) is %s", want, pbt::quote(s).c_str());
  auto v = lexical_cast<StringView>(d);
  PBT_CHECK(std::string(v.data(), v.size()) == std::string(want), "lexical_cast<StringView>(%s) is %s", want, pbt::quote(v.data(), v.size()).c_str());
  double back = strtod(s.c_str(), nullptr);
  PBT_CHECK(back == d || fabs(back - d) <= fabs(d) * 1e-11 || fabs(d) < 1e-300 || isinf(back), "%s reads back as %.17g", s.c_str(), back);
  if (d != 0) pbt::nontrivial();
}

static void views(Gen &g)
{
  int base = (int)g.pick<int>({10, 10, 10, 16, 8, 2, 0, 36});
  std::string s;
  if (g.boolean())
    s = numtext<long long>(g);
  else
    s = g.str(g.range(0, 10), "01789abfxzZ+- ");
  unsigned k = (unsigned)g.range(0, 7);
  size_t lim = k == 0 || k == 1 ? 63 : 31;
  if (g.chance(1, 10)) s = std::string(lim, '0') + s;
  if (s.size() > lim) s = s.substr(s.size() - lim);
  Heap h(s);
  NOTE("base %d form %u text %s", base, k, pbt::quote(s).c_str());
  char *end;
#define V(fn, T, cfn)                                                                             \
  {                                                                                               \
    auto w = cfn(s.c_str(), &end, base);                                                          \
    bool none = end == s.c_str();                                                                 \
    optional<T> r = base == 10 && g.boolean() ? fn(h.v()) : fn(h.v(), base);                      \
    PBT_CHECK(r.has_value() == !none, #fn "(%s, %d) has a value: %d", pbt::quote(s).c_str(), base, r.has_value()); \
    if (!none) PBT_CHECK(*r == (T)w, #fn "(%s, %d) is wrong", pbt::quote(s).c_str(), base);       \
    if (!none) pbt::nontrivial();                                                                 \
    pbt::label(none ? "no conversion" : "converted");                                             \
    break;                                                                                        \
  }
  switch (k) {
    case 0: V(StringViewToU64, uint64_t, strtoull)
    case 1: V(StringViewTo64, int64_t, strtoll)
    case 2: V(StringViewToU32, uint32_t, strtoul)
    case 3: V(StringViewTo32, int32_t, strtol)
    case 4: V(StringViewToU16, uint16_t, strtoul)
    case 5: V(StringViewTo16, int16_t, strtol)
    case 6: V(StringViewToU8, uint8_t, strtoul)
    default: V(StringViewTo8, int8_t, strtol)
  }
}

// Conversions in several threads do not disturb each other.
static void threads(Gen &g)
{
  unsigned nt = (unsigned)g.range(2, 4), rounds = 300;
  uint64_t seed = g.u64();
  NOTE("%u threads", nt);
  std::atomic<int> bad(0), ready(0);
  std::string first[8];
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready < (int)nt) {
      }
      uint64_t x = seed + t;
      for (unsigned i = 0; i < rounds; ++i) {
        x = pbt::mix(x);
        long long v = (long long)x >> (x % 60);
        std::string want = std::to_string(v);
        auto view = lexical_cast<StringView>(v);
        auto r0 = StringViewTo64(want);
        auto r1 = lexical_cast<long long>(want);
        auto r2 = StringViewToU32(std::to_string((uint32_t)v));
        auto r3 = lexical_cast<long long>(StringView(want));
        auto s = lexical_cast<std::string>(v);
        // the view stays valid until the thread's next number-to-text cast;
        // compare the copy made by the next one
        if (s != want || !r0 || *r0 != v || !r1 || *r1 != v || !r2 || *r2 != (uint32_t)v || !r3 || *r3 != v || view.size() != want.size()) {
          if (!bad++) first[t] = want;
        }
      }
    });
  for (auto &t : ts) t.join();
  for (auto &f : first)
    if (bad) PBT_CHECK(f.empty(), "a conversion of %s is wrong while other threads convert", f.c_str());
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 2000000;
  o.thorough = 20000000;
  pbt::suite("ints", "integer <-> text by lexical_cast, any text", o, ints);
  o.quick = 600000;
  o.thorough = 8000000;
  pbt::suite("floats", "floating point to text", o, floats);
  o.quick = 1500000;
  o.thorough = 15000000;
  pbt::suite("views", "StringViewToXX in any base against strtoXX", o, views);
  o.quick = 1500;
  o.thorough = 8000;
  o.nondet = true;
  pbt::suite("threads", "the same conversions in 2-4 threads at once", o, threads);
  pbt::Config c;
  c.property = "S03";
  c.rule = "the text is converted to a value (or a non-zero number to text)";
  c.assumptions = {"numbers outside the target type's range are not specified", "StringViewToXX is given text that fits its buffer (asserted precondition)"};
  return pbt::run(argc, argv, c);
}
