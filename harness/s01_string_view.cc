// S01: kanon::StringView against std::string_view over exact-size heap copies.
#include "pbt.h"
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>
#include <ctype.h>
#include "kanon/string/string_view.h"
#include "kanon/string/strcasecmp.h"
using namespace kanon;
using pbt::Gen;
typedef std::string_view SV;

// The bytes live in a heap block that ends exactly with the view (so an
// overread is seen) or, for non-empty views, is exactly the view.
struct Heap {
  char *block;
  char *p;
  size_t n;
  Heap(std::string const &s, bool exact) : n(s.size())
  {
    size_t lead = exact && n ? 0 : 16;
    block = (char *)malloc(lead + n);
    p = block + lead;
    memset(block, 'a', lead);
    memcpy(p, s.data(), n);
  }
  Heap(Heap const &) = delete;
  ~Heap() { free(block); }
  StringView k() const { return StringView(p, n); }
  SV s() const { return SV(p, n); }
};

static const char kAlpha[] = {'a', 'b', 'A', '\0', '\xff', 'B', '\x80', ' '};

static std::string text(Gen &g, size_t maxn)
{
  size_t n = g.small(maxn);
  unsigned asz = (unsigned)g.range(1, sizeof kAlpha);
  return g.str(n, kAlpha, asz);
}
static std::string needle(Gen &g, std::string const &h)
{
  switch (g.weighted({5, 3, 2, 1})) {
    case 0: {
      size_t a = g.range(0, h.size()), b = g.range(0, h.size() - a);
      return h.substr(a, b);
    }
    case 1: return text(g, 4);
    case 2: {
      size_t a = g.range(0, h.size()), b = g.range(0, h.size() - a);
      std::string r = h.substr(a, b);
      if (!r.empty()) r[g.range(0, r.size() - 1)] = kAlpha[g.range(0, sizeof kAlpha - 1)];
      return r;
    }
    default: return h + text(g, 2);
  }
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static size_t pos(Gen &g, size_t n)
{
  switch (g.weighted({5, 1, 1, 1, 1})) {
    case 0: return g.range(0, n);
    case 1: return n;
    case 2: return n + 1 + g.range(0, 3);
    case 3: return (size_t)-1;
    default: return n ? n - 1 : 0;
  }
}

#define EQ(what, got, want)                                                                       \
  do {                                                                                            \
    auto g_ = (got);                                                                              \
    auto w_ = (want);                                                                             \
    PBT_CHECK((long long)g_ == (long long)w_, "%s is %lld, std::string_view says %lld", what,     \
              (long long)g_, (long long)w_);                                                      \
  } while (0)

static void search(Gen &g)
{
  std::string hs = text(g, g.chance(1, 1000) ? 70000 : g.chance(1, 10) ? 300 : 14);
  std::string ns = needle(g, hs);
  if (hs.size() > 1000 && ns.size() > 300) ns.resize(300);
  Heap h(hs, g.boolean()), n(ns, g.boolean());
  StringView k = h.k(), kn = n.k();
  SV s = h.s(), sn = n.s();
  size_t p = pos(g, hs.size());
  char c = hs.empty() || g.chance(1, 3) ? kAlpha[g.range(0, sizeof kAlpha - 1)] : hs[g.range(0, hs.size() - 1)];
  NOTE("view %s, needle %s, pos %zd, char %02x", pbt::quote(hs).c_str(), pbt::quote(ns).c_str(), (ssize_t)p, (uint8_t)c);
  if (p <= hs.size()) EQ("find(view,pos)", k.find(kn, p), s.find(sn, p));
  EQ("find(view)", k.find(kn), s.find(sn));
  EQ("find(char,pos)", k.find(c, p), s.find(c, p));
  EQ("find(char)", k.find(c), s.find(c));
  EQ("rfind(view,pos)", k.rfind(kn, p), s.rfind(sn, p));
  EQ("rfind(view)", k.rfind(kn), s.rfind(sn));
  EQ("rfind(char,pos)", k.rfind(c, p), s.rfind(c, p));
  EQ("rfind(char)", k.rfind(c), s.rfind(c));
  EQ("find_first_of", k.find_first_of(kn, p), s.find_first_of(sn, p));
  EQ("find_first_of(char)", k.find_first_of(c, p), s.find_first_of(c, p));
  EQ("find_last_of", k.find_last_of(kn, p), s.find_last_of(sn, p));
  EQ("find_last_of(char)", k.find_last_of(c, p), s.find_last_of(c, p));
  EQ("find_first_not_of", k.find_first_not_of(kn, p), s.find_first_not_of(sn, p));
  EQ("find_first_not_of(char)", k.find_first_not_of(c, p), s.find_first_not_of(c, p));
  EQ("find_last_not_of", k.find_last_not_of(kn, p), s.find_last_not_of(sn, p));
  EQ("find_last_not_of(char)", k.find_last_not_of(c, p), s.find_last_not_of(c, p));
  EQ("find_last_of()", k.find_last_of(kn), s.find_last_of(sn));
  EQ("find_last_not_of()", k.find_last_not_of(kn), s.find_last_not_of(sn));
  EQ("contains(view)", k.contains(kn), s.find(sn) != SV::npos);
  EQ("contains(char)", k.contains(c), s.find(c) != SV::npos);
  EQ("starts_with", k.starts_with(kn), s.substr(0, sn.size()) == sn);
  EQ("starts_with(char)", k.starts_with(c), !s.empty() && s[0] == c);
  EQ("ends_with", k.ends_with(kn), s.size() >= sn.size() && s.substr(s.size() - sn.size()) == sn);
  EQ("ends_with(char)", k.ends_with(c), !s.empty() && s.back() == c);
  if (hs.find(ns) != std::string::npos && !ns.empty()) {
    pbt::label("needle found");
    pbt::nontrivial();
  }
  pbt::label_if(ns.empty(), "empty needle");
  pbt::label_if(hs.empty(), "empty view");
  pbt::label_if(hs.find('\0') != std::string::npos, "embedded zero byte");
}

static int casecmp(SV a, SV b)
{
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
    int r = tolower((uint8_t)a[i]) - tolower((uint8_t)b[i]);
    if (r) return sgn(r);
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}

static void compare(Gen &g)
{
  std::string as = text(g, g.chance(1, 10) ? 200 : 10);
  std::string bs;
  switch (g.weighted({3, 3, 3, 1})) {
    case 0: bs = needle(g, as); break;
    case 1:
      bs = as;
      for (auto &c : bs)
        if (g.chance(1, 3)) c = isupper((uint8_t)c) ? tolower(c) : toupper(c);
      break;
    case 2: bs = text(g, 10); break;
    default: bs = as; break;
  }
  Heap a(as, g.boolean()), b(bs, g.boolean());
  StringView ka = a.k(), kb = b.k();
  SV sa = a.s(), sb = b.s();
  char c = bs.empty() ? 'q' : bs[0];
  SV sc(&c, 1);
  NOTE("a %s b %s", pbt::quote(as).c_str(), pbt::quote(bs).c_str());
  EQ("compare", sgn(ka.compare(kb)), sgn(sa.compare(sb)));
  EQ("compare(char)", sgn(ka.compare(c)), sgn(sa.compare(sc)));
  EQ("==", ka == kb, sa == sb);
  EQ("!=", ka != kb, sa != sb);
  EQ("<", ka < kb, sa < sb);
  EQ(">", ka > kb, sa > sb);
  EQ("<=", ka <= kb, sa <= sb);
  EQ(">=", ka >= kb, sa >= sb);
  EQ("caseCompare", sgn(ka.caseCompare(kb)), casecmp(sa, sb));
  EQ("caseCompare(char)", sgn(ka.caseCompare(c)), casecmp(sa, sc));
#define LIT(l)                                                                                    \
  {                                                                                               \
    SV sl(l, sizeof(l) - 1);                                                                      \
    EQ("== " #l, ka == l, sa == sl);                                                              \
    EQ("!= " #l, ka != l, sa != sl);                                                              \
    EQ("< " #l, ka < l, sa < sl);                                                                 \
    EQ("> " #l, ka > l, sa > sl);                                                                 \
    EQ("<= " #l, ka <= l, sa <= sl);                                                              \
    EQ(">= " #l, ka >= l, sa >= sl);                                                              \
    EQ("MakeStringView " #l, MakeStringView(l).size(), sl.size());                                \
  }
  LIT("");
  LIT("a");
  LIT("ab");
  LIT("a\0b");
  LIT("\xff");
  LIT("Aa");
  pbt::label_if(sa == sb, "equal");
  pbt::label_if(sa != sb && casecmp(sa, sb) == 0, "equal but for case");
  if (!as.empty() && !bs.empty()) pbt::nontrivial();
}

static void slices(Gen &g)
{
  std::string hs = text(g, g.chance(1, 10) ? 300 : 14);
  Heap h(hs, g.boolean());
  StringView k = h.k();
  SV s = h.s();
  NOTE("view %s", pbt::quote(hs).c_str());
  unsigned steps = (unsigned)g.range(1, 6);
  for (unsigned i = 0; i < steps; ++i) {
    PBT_CHECK(k.size() == s.size() && k.data() == s.data() && k.empty() == s.empty(), "view is %zu bytes at +%zd, expected %zu at +%zd",
              k.size(), k.data() - h.p, s.size(), s.data() - h.p);
    PBT_CHECK(k.begin() == s.data() && k.end() == s.data() + s.size(), "begin/end");
    PBT_CHECK(k.ToString() == s, "ToString is %s", pbt::quote(k.ToString()).c_str());
    if (!s.empty()) {
      size_t x = g.range(0, s.size() - 1);
      PBT_CHECK(k[x] == s[x] && k.at(x) == s[x] && k.front() == s.front() && k.back() == s.back(), "element access");
    }
    size_t over = s.size() + g.range(0, 2);
    bool threw = false;
    try {
      k.at(over);
    } catch (std::exception &) {
      threw = true;
    }
    PBT_CHECK(threw, "at(%zu) of a view of %zu bytes does not throw", over, s.size());
    std::string up(s), low(s);
    for (auto &c : up) c = (char)toupper(c);
    for (auto &c : low) c = (char)tolower(c);
    PBT_CHECK(k.ToUpperString() == up, "ToUpperString");
    PBT_CHECK(k.ToLowerString() == low, "ToLowerString");
    // copy
    {
      size_t p = pos(g, s.size()), cnt = pos(g, s.size());
      size_t want = p > s.size() ? 0 : std::min(cnt, s.size() - p);
      NOTE("copy(%zd,%zd)", (ssize_t)cnt, (ssize_t)p);
      Heap dst(std::string(want, '?'), true);
      bool threw = false;
      size_t got = 0;
      try {
        got = k.copy(dst.p, cnt, p);
      } catch (std::out_of_range &) {
        threw = true;
      }
      PBT_CHECK(threw == (p > s.size()), "copy at %zu of %zu bytes: thrown %d", p, s.size(), threw);
      if (!threw) {
        PBT_CHECK(got == want, "copy returns %zu, expected %zu", got, want);
        PBT_CHECK(SV(dst.p, want) == s.substr(p, cnt), "copy copied other bytes");
      }
    }
    switch (g.range(0, 4)) {
      case 0: {
        size_t p = g.range(0, s.size()), cnt = pos(g, s.size());
        NOTE("substr(%zu,%zd)", p, (ssize_t)cnt);
        k = k.substr(p, cnt);
        s = s.substr(p, cnt);
        break;
      }
      case 1: {
        size_t a = g.range(0, s.size()), b = g.chance(1, 4) ? SV::npos : a + g.range(0, s.size() - a + 2);
        NOTE("substr_range(%zu,%zd)", a, (ssize_t)b);
        k = k.substr_range(a, b);
        s = s.substr(a, b - a);
        break;
      }
      case 2: {
        size_t n = g.range(0, s.size());
        NOTE("remove_prefix %zu", n);
        k.remove_prefix(n);
        s.remove_prefix(n);
        break;
      }
      case 3: {
        size_t n = g.range(0, s.size());
        NOTE("remove_suffix %zu", n);
        k.remove_suffix(n);
        s.remove_suffix(n);
        break;
      }
      default: {
        StringView o(h.p, h.n / 2);
        k.swap(o);
        PBT_CHECK(k.size() == h.n / 2 && k.data() == h.p, "swap");
        PBT_CHECK(o.size() == s.size() && o.data() == s.data(), "swap");
        swap(k, o);
        PBT_CHECK(k.size() == s.size() && k.data() == s.data(), "swap(a,b)");
        break;
      }
    }
    if (!s.empty()) pbt::nontrivial();
  }
  StringView r = k;
  r.reset();
  PBT_CHECK(r.empty() && r.size() == 0 && r.data(), "reset");
  StringView fromstr(hs);
  PBT_CHECK(fromstr.size() == hs.size() && fromstr.data() == hs.data(), "from std::string");
  StringView fromc(hs.c_str()), fromu((unsigned char const *)hs.c_str()), fromun((unsigned char const *)h.p, h.n);
  PBT_CHECK(fromc.size() == strlen(hs.c_str()) && fromu.size() == fromc.size() && fromun.size() == h.n, "from C string");
}

static void split(Gen &g)
{
  std::string hs = text(g, g.chance(1, 10) ? 200 : 16);
  std::string ns = needle(g, hs);
  if (ns.size() > 3) ns.resize(g.range(0, 3));
  Heap h(hs, g.boolean()), n(ns, g.boolean());
  NOTE("split %s by %s", pbt::quote(hs).c_str(), pbt::quote(ns).c_str());
  std::vector<std::string> want;
  if (ns.empty())
    want.push_back(hs);
  else {
    size_t b = 0, e;
    while ((e = hs.find(ns, b)) != std::string::npos) {
      want.push_back(hs.substr(b, e - b));
      b = e + ns.size();
    }
    want.push_back(hs.substr(b));
  }
  auto got = h.k().split(n.k());
  PBT_CHECK(got == want, "split gives %zu parts, expected %zu (or other parts)", got.size(), want.size());
  if (want.size() > 1) pbt::nontrivial();
  pbt::label_if(want.size() > 3, "more than 3 parts");
  pbt::label_if(!hs.empty() && want.back().empty(), "ends with the separator");
}

// The comparisons of C strings, and of the first n characters of them, which
// need not be terminated within n
static int lower(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : (unsigned char)c; }
static int refcase(std::string const &a, std::string const &b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    int x = i < a.size() ? lower(a[i]) : 0, y = i < b.size() ? lower(b[i]) : 0;
    if (x != y) return x - y;
    if (!x) break;
  }
  return 0;
}
static void nocase(Gen &g)
{
  static const char al[] = "abABzZ@[`{0 _~\x01\x7f\xc1\xe1";
  std::string a = g.str(g.small(g.chance(1, 10) ? 100 : 8), al, sizeof al - 1), b;
  switch (g.weighted({4, 2, 1})) {
    case 0:
      b = a;
      for (auto &c : b)
        if (isalpha((unsigned char)c) && (unsigned char)c < 128 && g.boolean()) c ^= 0x20;
      if (g.boolean() && !b.empty()) b[g.range(0, b.size() - 1)] = al[g.range(0, sizeof al - 2)];
      break;
    case 1: b = a.substr(0, g.range(0, a.size())) + g.str(g.small(2), al, sizeof al - 1); break;
    default: b = g.str(g.small(8), al, sizeof al - 1);
  }
  std::string ta = a + '\0', tb = b + '\0';
  Heap ha(ta, true), hb(tb, true);
  NOTE("%s with %s", pbt::quote(a).c_str(), pbt::quote(b).c_str());
  int want = refcase(a, b, (size_t)-1), got = StrCaseCompare(ha.p, hb.p);
  PBT_CHECK(sgn(got) == sgn(want), "StrCaseCompare gives %d, expected sign %d", got, sgn(want));
  size_t n = g.range(0, std::max(a.size(), b.size()) + 2);
  want = refcase(a, b, n), got = StrNCaseCompare(ha.p, hb.p, n);
  PBT_CHECK(sgn(got) == sgn(want), "StrNCaseCompare of %zu gives %d, expected sign %d", n, got, sgn(want));
  size_t m = std::min(n, std::min(a.size(), b.size()));
  Heap ca(a.substr(0, m), true), cb(b.substr(0, m), true);
  want = refcase(a, b, m), got = StrNCaseCompare(ca.p, cb.p, m);
  PBT_CHECK(sgn(got) == sgn(want), "StrNCaseCompare of %zu unterminated characters gives %d, expected sign %d", m, got, sgn(want));
  if (!a.empty() && !b.empty() && a != b) pbt::nontrivial();
  pbt::label_if(a != b && refcase(a, b, (size_t)-1) == 0, "equal but for the case");
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 1000000;
  o.thorough = 30000000;
  pbt::suite("search", "all search operations of a view and a needle that is often a (nearly) part of it", o, search);
  o.quick = 700000;
  o.thorough = 20000000;
  pbt::suite("compare", "orderings and equality with views, characters and literals", o, compare);
  pbt::suite("slices", "slicing, copying and element access sequences", o, slices);
  pbt::suite("split", "splitting by a separator", o, split);
  pbt::suite("nocase", "comparison of C strings and prefixes without the case", o, nocase);
  pbt::Config c;
  c.property = "S01";
  c.rule = "the needle is non-empty and occurs / both operands are non-empty / a slice is non-empty / the separator occurs / the C strings differ";
  c.assumptions = {"positions passed to find(view), substr() and element access lie inside the view (asserted preconditions)",
                   "an empty separator splits nothing (documented in the fix)"};
  return pbt::run(argc, argv, c);
}
