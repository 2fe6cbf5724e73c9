// S02: FixedBuffer / LexicalStream / FmtStream / StrCat against a text model.
#include "pbt.h"
#include <string>
#include <string_view>
#include <vector>
#include <memory>
#include <limits>
#include <algorithm>
#include "kanon/string/fixed_buffer.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/fmt_stream.h"
#include "kanon/string/string_util.h"
using namespace kanon;
using pbt::Gen;

// The text of one argument and whether it may be left out (near the end of
// the buffer numbers need slack): it must be there if `need` bytes are free.
struct Arg {
  std::string text;
  size_t need;
  bool may_fit;  // may also be printed with less slack if it fits
};
static Arg whole(std::string const &s) { return {s, s.size() + 1, false}; }

template <unsigned SZ>
struct Model {
  std::string s;
  std::string alt;  // unused
  // returns 0: must be appended, 1: must be dropped, 2: either
  int rule(Arg const &a) const
  {
    size_t avail = SZ - s.size();
    if (a.text.size() + 1 > avail) return 1;
    if (avail >= a.need) return 0;
    return a.may_fit ? 2 : 1;
  }
};

static std::string dbl(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.12g", d);
  return b;
}
static std::string ptr(const void *p)
{
  if (!p) return "(null)";
  char b[64];
  snprintf(b, sizeof b, "0x%016lX", (unsigned long)p);
  return b;
}

template <class B, unsigned SZ>
static void after(B &b, StringView view, Model<SZ> &m, Arg const &a, const char *what)
{
  int r = m.rule(a);
  std::string got(view.data(), view.size());
  NOTE("%s %s -> %zu bytes", what, pbt::quote(a.text, 30).c_str(), got.size());
  PBT_CHECK(got.size() < SZ, "%s: %zu bytes in a buffer of %u", what, got.size(), SZ);
  PBT_CHECK(view.data()[view.size()] == 0, "%s: text is not terminated", what);
  std::string with = m.s + a.text;
  if (r == 0)
    PBT_CHECK(got == with, "%s %s with %zu bytes free gives %s, expected %s", what, pbt::quote(a.text).c_str(), SZ - m.s.size(),
              pbt::quote(got).c_str(), pbt::quote(with).c_str());
  else if (r == 1)
    PBT_CHECK(got == m.s, "%s %s with %zu bytes free changes the text to %s", what, pbt::quote(a.text).c_str(), SZ - m.s.size(),
              pbt::quote(got).c_str());
  else
    PBT_CHECK(got == with || got == m.s, "%s %s gives %s", what, pbt::quote(a.text).c_str(), pbt::quote(got).c_str());
  if (r != 0 && !a.text.empty()) pbt::label("piece does not fit");
  m.s = got;
}

template <class T>
static T anyint(Gen &g)
{
  switch (g.weighted({2, 1, 1, 1})) {
    case 0: return (T)g.u64();
    case 1: return std::numeric_limits<T>::max();
    case 2: return std::numeric_limits<T>::min();
    default: return (T)g.irange(-12, 12);
  }
}
static std::string piece(Gen &g, size_t avail)
{
  size_t n = g.chance(1, 2) ? g.small(24) : g.size(avail + 3, {avail, avail - 1, avail + 1, avail / 2});
  if (n > avail + 3) n = avail + 3;
  return g.blob(n);
}
static std::string nozero(std::string s)
{
  for (auto &c : s)
    if (!c) c = '0';
  return s;
}

template <unsigned SZ>
static void lexical(Gen &g)
{
  auto lsp = std::make_unique<LexicalStream<SZ>>();
  auto &ls = *lsp;
  Model<SZ> m;
  unsigned steps = (unsigned)g.range(1, 24);
  int kinds = 0;
#define INT(T)                                                                                    \
  {                                                                                               \
    T v = anyint<T>(g);                                                                           \
    ls << v;                                                                                      \
    after(ls, ls.buffer().ToStringView(), m, Arg{std::to_string(v), 33, true}, #T);               \
    break;                                                                                        \
  }
  for (unsigned i = 0; i < steps; ++i) {
    PBT_CHECK(ls.data()[ls.size()] == 0, "text is not terminated");
    unsigned k = (unsigned)g.range(0, 18);
    kinds |= 1 << k;
    switch (k) {
      case 0: INT(short)
      case 1: INT(unsigned short)
      case 2: INT(int)
      case 3: INT(unsigned)
      case 4: INT(long)
      case 5: INT(unsigned long)
      case 6: INT(long long)
      case 7: INT(unsigned long long)
      case 8: INT(unsigned char)
      case 9: {
        bool b = g.boolean();
        ls << b;
        after(ls, ls.buffer().ToStringView(), m, whole(b ? "True" : "False"), "bool");
        break;
      }
      case 10: {
        char c = (char)g.range(0, 255);
        ls << c;
        after(ls, ls.buffer().ToStringView(), m, whole(std::string(1, c)), "char");
        break;
      }
      case 11: {
        double d = g.real();
        if (g.chance(1, 4)) {
          float f = (float)d;
          ls << f;
          after(ls, ls.buffer().ToStringView(), m, Arg{dbl(f), 33, true}, "float");
        } else {
          ls << d;
          after(ls, ls.buffer().ToStringView(), m, Arg{dbl(d), 33, true}, "double");
        }
        break;
      }
      case 12: {
        void *p = (void *)(g.chance(1, 4) ? 0 : g.u64());
        ls << (void const *)p;
        after(ls, ls.buffer().ToStringView(), m, Arg{ptr(p), p ? 19ul : 7ul, true}, "pointer");
        break;
      }
      case 13: {
        std::string s = nozero(piece(g, SZ - m.s.size()));
        ls << s.c_str();
        after(ls, ls.buffer().ToStringView(), m, whole(s), "C string");
        break;
      }
      case 14: {
        std::string s = piece(g, SZ - m.s.size());
        ls << s;
        after(ls, ls.buffer().ToStringView(), m, whole(s), "std::string");
        break;
      }
      case 15: {
        std::string s = piece(g, SZ - m.s.size());
        ls << StringView(s);
        after(ls, ls.buffer().ToStringView(), m, whole(s), "view");
        break;
      }
      case 16: {
        std::string s = piece(g, SZ - m.s.size());
        ls.Append(s.data(), (unsigned)s.size());
        after(ls, ls.buffer().ToStringView(), m, whole(s), "Append");
        break;
      }
      case 17: {
        if (!g.chance(1, 3)) break;
        ls.reset();
        m.s.clear();
        after(ls, ls.buffer().ToStringView(), m, whole(""), "reset");
        break;
      }
      default: {
        FmtStream<48> f("<%|%>", 42, g.range(0, 1) ? "xy" : "");
        std::string t(f.ToStringView().data(), f.ToStringView().size());
        ls << f;
        after(ls, ls.buffer().ToStringView(), m, whole(t), "FmtStream");
        break;
      }
    }
    auto &b = ls.buffer();
    PBT_CHECK(ls.size() == m.s.size() && b.len() == m.s.size() && b.avali() == SZ - m.s.size() && b.empty() == m.s.empty() &&
                  ls.maxsize() == SZ && b.data() == ls.data(),
              "sizes disagree");
  }
  if (g.chance(1, 4)) {
    LexicalStream<SZ> o(std::move(ls));
    PBT_CHECK(std::string(o.data(), o.size()) == m.s && o.data()[o.size()] == 0, "moved stream differs");
    LexicalStream<SZ> p;
    p << "zz";
    p = std::move(o);
    PBT_CHECK(std::string(p.data(), p.size()) == m.s && p.data()[p.size()] == 0, "move assigned stream differs");
  }
  if (__builtin_popcount(kinds) >= 3) pbt::nontrivial();
}

static void big(Gen &g)
{
  unsigned w = g.weighted({4, 3, 3, 2, 2, 1});
  switch (w) {
    case 0: lexical<64>(g); break;
    case 1: lexical<40>(g); break;
    case 2: lexical<100>(g); break;
    case 3: lexical<33>(g); break;
    case 4: lexical<16>(g); break;
    default: lexical<4096>(g); break;
  }
}

// ---- FmtStream -------------------------------------------------------------
enum Kind { I32, U64, I8, CH, BO, DB, PT, NL, CS, SS, VW, kKinds };
struct Val {
  Kind k;
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  std::string s;
  Arg arg() const
  {
    switch (k) {
      case I32: return {std::to_string((int)i), 33, true};
      case U64: return {std::to_string(u), 33, true};
      case I8: return {std::to_string((int)(short)i), 33, true};
      case CH: return whole(std::string(1, (char)i));
      case BO: return whole(i & 1 ? "True" : "False");
      case DB: return {dbl(d), 33, true};
      case PT: return {ptr((void *)u), u ? 19ul : 7ul, true};
      case NL: return {"(null)", 7, true};
      default: return whole(s);
    }
  }
};
static Val val(Gen &g)
{
  Val v;
  v.k = (Kind)g.range(0, kKinds - 1);
  v.i = anyint<long long>(g);
  v.u = g.u64();
  v.d = g.real();
  v.s = nozero(g.blob(g.small(20)));
  return v;
}
// Calls f with the i-th and following values as statically typed arguments.
template <class F, class... A>
static void with(std::vector<Val> const &v, size_t i, F f, A... a)
{
  if (i == v.size()) {
    f(a...);
    return;
  }
  if constexpr (sizeof...(A) == 2) {
    f(a..., v[2].s);  // the third argument is always a string
  } else {
    Val const &x = v[i];
    if constexpr (sizeof...(A) == 0) switch (x.k) {
      case I32: return with(v, i + 1, f, a..., (int)x.i);
      case I8: return with(v, i + 1, f, a..., (short)x.i);
      case BO: return with(v, i + 1, f, a..., (bool)(x.i & 1));
      case PT: return with(v, i + 1, f, a..., (void const *)x.u);
      case SS: return with(v, i + 1, f, a..., x.s);
      default: break;
    }
    switch (x.k) {
      case U64: with(v, i + 1, f, a..., (uint64_t)x.u); break;
      case CH: with(v, i + 1, f, a..., (char)x.i); break;
      case DB: with(v, i + 1, f, a..., x.d); break;
      case NL: with(v, i + 1, f, a..., nullptr); break;
      case CS: with(v, i + 1, f, a..., x.s.c_str()); break;
      default: with(v, i + 1, f, a..., StringView(x.s)); break;
    }
  }
}

template <unsigned SZ>
static void fmt(Gen &g)
{
  size_t n = g.range(0, 3);
  std::vector<Val> vals;
  std::vector<std::pair<bool, std::string>> parts;  // argument?, text in the format
  for (size_t i = 0; i < n; ++i) vals.push_back(val(g));
  if (n == 3) vals[2].k = SS;
  // keeps the number of template instances down
  if (n > 1) vals[1].k = g.pick<Kind>({U64, CH, DB, NL, CS, VW});
  std::string f;
  auto lit = [&] {
    std::string t = nozero(g.chance(1, 8) ? g.blob(g.size(SZ + 2, {SZ - 1, SZ, SZ / 2})) : g.str(g.small(12), "ab :%"));
    std::string esc;
    for (char c : t) {
      esc += c;
      if (c == '%') esc += c;
    }
    f += esc;
    return t;
  };
  // With "%%" written out the format is unambiguous unless a placeholder
  // directly precedes an escaped percent sign: separate those.
  std::vector<std::string> lits;
  for (size_t i = 0; i <= n; ++i) {
    size_t at = f.size();
    std::string t = lit();
    if (i > 0 && (at < f.size() ? f[at] == '%' : i < n)) {
      f.insert(at, " ");
      t = " " + t;
    }
    lits.push_back(t);
    if (i < n) f += "%";
  }
  NOTE("format %s with %zu arguments", pbt::quote(f, 80).c_str(), n);
  // Literal text is appended piecewise: up to and including each '%'.
  auto pieces = [](std::string const &t, std::vector<Arg> &out, bool joined) {
    size_t b = 0;
    for (size_t i = 0; i < t.size(); ++i)
      if (t[i] == '%') {
        if (joined)
          out.push_back(whole(t.substr(b, i + 1 - b)));
        else {
          out.push_back(whole(t.substr(b, i - b)));
          out.push_back(whole("%"));
        }
        b = i + 1;
      }
    out.push_back(whole(t.substr(b)));
  };
  auto fs = std::make_unique<FmtStream<SZ>>();
  bool again = g.chance(1, 3);
  bool ctor = g.boolean();
  with(vals, 0, [&](auto... a) {
    if (ctor) {
      *fs = FmtStream<SZ>(StringView(f), a...);
      return;
    }
    fs->Serialize(StringView(f), a...);
    if (again) {
      fs->Reset();
      PBT_CHECK(fs->ToStringView().empty(), "Reset leaves text");
      fs->Serialize(StringView(f), a...);
    }
  });
  std::string got(fs->ToStringView().data(), fs->ToStringView().size());
  PBT_CHECK(got.size() < SZ, "%zu bytes in a buffer of %u", got.size(), SZ);
  PBT_CHECK(fs->GetData()[got.size()] == 0, "text is not terminated");
  // Expected text when everything fits with slack for numbers.
  std::string want;
  size_t need = 0;
  for (size_t i = 0; i <= n; ++i) {
    want += lits[i];
    need = std::max(need, want.size() + 1);
    if (i < n) {
      need = std::max(need, want.size() + vals[i].arg().need);
      want += vals[i].arg().text;
    }
  }
  if (need <= SZ) {
    PBT_CHECK(got == want, "format %s gives %s, expected %s", pbt::quote(f).c_str(), pbt::quote(got, 200).c_str(),
              pbt::quote(want, 200).c_str());
    if (n) pbt::nontrivial();
    pbt::label_if(n > 1, "several arguments");
    pbt::label_if(want.find('%') != std::string::npos && n, "escaped percent and arguments");
  } else {
    pbt::label("does not fit");
    // Whatever is dropped, the rest keeps its order: the text is a
    // subsequence of the full text.
    size_t j = 0;
    for (char c : want)
      if (j < got.size() && got[j] == c) ++j;
    PBT_CHECK(j == got.size(), "text that does not fit is garbled: %s", pbt::quote(got, 200).c_str());
  }
}

static void fmts(Gen &g)
{
  switch (g.weighted({3, 2})) {
    case 0: fmt<100>(g); break;
    default: fmt<4096>(g); break;
  }
}

// ---- FixedBuffer swap/zero and StrCat ---------------------------------------
static void cat(Gen &g)
{
  std::string base = g.blob(g.small(60)), a = g.blob(g.small(40)), b = nozero(g.blob(g.small(40))), c = g.blob(g.small(40)), d = g.blob(g.small(20));
  char ch = (char)g.range(0, 255);
  StringView v(c.data(), c.size());
  std::string got, want;
  unsigned k = (unsigned)g.range(0, 9);
  NOTE("StrCat/StrAppend form %u", k);
  std::string app = base;
  switch (k) {
    case 0: got = StrCat(a, b.c_str(), v, ch, d); want = a + b + c + ch + d; StrAppend(app, a, b.c_str(), v, ch, d); break;
    case 1: got = StrCat(v, a); want = c + a; StrAppend(app, v, a); break;
    case 2: got = StrCat(ch, v); want = std::string(1, ch) + c; StrAppend(app, ch, v); break;
    case 3: got = StrCat(a, ch); want = a + ch; StrAppend(app, a, ch); break;
    case 4: got = StrCat(b.c_str(), b.c_str()); want = b + b; StrAppend(app, b.c_str(), b.c_str()); break;
    case 5: got = StrCat(a); want = a; StrAppend(app, a); break;
    case 6: got = StrCat(b.c_str()); want = b; StrAppend(app, b.c_str()); break;
    case 7: got = StrCat(ch); want = std::string(1, ch); StrAppend(app, ch); break;
    case 8: got = StrCat(v); want = c; StrAppend(app, v); break;
    default: got = StrCat(a, v, a, v, b.c_str()); want = a + c + a + c + b; StrAppend(app, a, v, a, v, b.c_str()); break;
  }
  PBT_CHECK(got == want, "StrCat gives %s, expected %s", pbt::quote(got).c_str(), pbt::quote(want).c_str());
  PBT_CHECK(app == base + want, "StrAppend gives %s, expected %s", pbt::quote(app).c_str(), pbt::quote(base + want).c_str());
  detail::FixedBuffer<128> x, y;
  x.Append(a);
  y.Append(StringView(d));
  x.swap(y);
  PBT_CHECK(std::string(x.data(), x.len()) == d && std::string(y.data(), y.len()) == a && !x.data()[x.len()] && !y.data()[y.len()], "swap");
  swap(x, y);
  PBT_CHECK(std::string(x.data(), x.len()) == a && std::string(y.data(), y.len()) == d, "swap(a,b)");
  if (!want.empty()) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 600000;
  o.thorough = 15000000;
  pbt::suite("lexical", "sequences of << into streams of 16..4096 bytes", o, big);
  pbt::suite("fmt", "formats with literal text, %% and up to three typed arguments", o, fmts);
  o.quick = 300000;
  o.thorough = 2000000;
  pbt::suite("cat", "StrCat/StrAppend and FixedBuffer swap", o, cat);
  pbt::Config c;
  c.property = "S02";
  c.rule = "three or more kinds of value in one stream / a format with arguments that fits / non-empty concatenation";
  c.assumptions = {"the number of placeholders and arguments agree (asserted precondition)",
                   "near the end of the buffer a number may be left out although it would fit exactly (documented slack of 32 bytes)"};
  return pbt::run(argc, argv, c);
}
