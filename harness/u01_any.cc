// U01: Any, UniqueAny, optional, RawAny, WeakCallback, pointer helpers.
#include "pbt.h"
#include "counted.h"
#include <memory>
#include <string>
#include <vector>
#include <optional>
#include <stdexcept>
#include <typeinfo>
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/raw_any.h"
#include "kanon/util/optional.h"
#include "kanon/util/ptr.h"
#include "kanon/thread/weak_callback.h"
using namespace kanon;
using pbt::Gen;

struct Big {
  Counted a;
  char pad[200];
  Counted b;
  Big(int x = 0) : a(x), b(x + 1) { memset(pad, x, sizeof pad); }
  int get() const
  {
    for (char c : pad)
      if (c != (char)a.get()) pbt::fail("a large object is damaged");
    if (b.get() != a.get() + 1) pbt::fail("a large object is damaged");
    return a.get();
  }
};
struct Mv {  // move-only
  Counted c;
  Mv(int x = 0) : c(x) {}
  Mv(Mv &&) = default;
  Mv &operator=(Mv &&) = default;
};

enum K { NONE, INT, STR, CNT, BIG, VEC, MVO, NK };  // (scalars below)
static const char *kn[] = {"empty", "int", "string", "Counted", "Big", "vector", "move-only"};
struct M {
  K k = NONE;
  int v = 0;
};
static std::string str(int v) { return std::string(v % 50, 'x') + std::to_string(v); }
static std::vector<Counted> vec(int v)
{
  std::vector<Counted> r;
  for (int i = 0; i < v % 5; ++i) r.emplace_back(v + i);
  return r;
}

template <class A> struct Api;
template <> struct Api<Any> {
  template <class T> static T *safe(Any const &a) { return SafeAnyCast<T>(a); }
  template <class T> static T *unsafe(Any const &a) { return UnsafeAnyCast<T>(a); }
  template <class T> static T *cast(Any const &a) { return AnyCast<T>(a); }
};
template <> struct Api<UniqueAny> {
  template <class T> static T *safe(UniqueAny const &a) { return SafeUniqueAnyCast<T>(a); }
  template <class T> static T *unsafe(UniqueAny const &a) { return UnsafeUniqueAnyCast<T>(a); }
  template <class T> static T *cast(UniqueAny const &a) { return UniqueAnyCast<T>(a); }
};

template <class A> static void check(A const &a, M const &m, const char *what)
{
  PBT_CHECK(a.empty() == (m.k == NONE), "%s: empty() is %d, holder should hold %s", what, a.empty(), kn[m.k]);
  typedef Api<A> P;
  const std::type_info *want[] = {&typeid(void), &typeid(int), &typeid(std::string), &typeid(Counted), &typeid(Big), &typeid(std::vector<Counted>), &typeid(Mv)};
  PBT_CHECK(a.type() == *want[m.k], "%s: type() is %s, expected %s", what, a.type().name(), want[m.k]->name());
#define ONE(kind, T, eq)                                                                           \
  {                                                                                                \
    T *p = P::template safe<T>(a);                                                                 \
    PBT_CHECK((p != nullptr) == (m.k == kind), "%s: cast of a holder of %s to %s gives %p", what, kn[m.k], kn[kind], (void *)p); \
    PBT_CHECK(P::template cast<T>(a) == p, "casts disagree");                                      \
    if (p) {                                                                                       \
      PBT_CHECK(P::template unsafe<T>(a) == p, "casts disagree");                                  \
      PBT_CHECK(eq, "%s: the stored %s is not %d", what, kn[m.k], m.v);                            \
    }                                                                                              \
  }
  ONE(INT, int, *p == m.v)
  ONE(STR, std::string, *p == str(m.v))
  ONE(CNT, Counted, p->get() == m.v)
  ONE(BIG, Big, p->get() == m.v)
  ONE(VEC, std::vector<Counted>, *p == vec(m.v))
  ONE(MVO, Mv, p->c.get() == m.v)
#undef ONE
  // types of the same size or layout are different types
#define NOT(T) PBT_CHECK(P::template safe<T>(a) == nullptr && P::template cast<T>(a) == nullptr, "%s: a holder of %s is cast to " #T, what, kn[m.k]);
  NOT(unsigned) NOT(float) NOT(long) NOT(double) NOT(char) NOT(bool) NOT(void *) NOT(char const *) NOT(std::vector<int>)
#undef NOT
}
template <class A> static M state(A const &a, M x, M y)  // whichever of the two it holds, or nothing
{
  if (a.empty()) return M();
  typedef Api<A> P;
  for (M m : {x, y}) {
    int *i = P::template safe<int>(a);
    std::string *s = P::template safe<std::string>(a);
    Counted *c = P::template safe<Counted>(a);
    Big *b = P::template safe<Big>(a);
    auto *v = P::template safe<std::vector<Counted>>(a);
    Mv *mv = P::template safe<Mv>(a);
    switch (m.k) {
      case INT: if (i && *i == m.v) return m; break;
      case STR: if (s && *s == str(m.v)) return m; break;
      case CNT: if (c && c->get() == m.v) return m; break;
      case BIG: if (b && b->get() == m.v) return m; break;
      case VEC: if (v && *v == vec(m.v)) return m; break;
      case MVO: if (mv && mv->c.get() == m.v) return m; break;
      default: break;
    }
  }
  pbt::fail("a moved-from holder holds neither its old value, the other value nor nothing");
}

template <class A> static void put(Gen &g, A &a, M m, bool lvalue)
{
  (void)lvalue;
  if constexpr (std::is_same<A, Any>::value) {
    switch (m.k) {
      case INT: if (lvalue) { int x = m.v; a = x; } else a = m.v + 0; break;
      case STR: { std::string s = str(m.v); if (lvalue) a = s; else a = std::move(s); break; }
      case CNT: { Counted c(m.v); if (lvalue) { a = c; PBT_CHECK(c.get() == m.v, "assignment from an lvalue changes it"); } else a = std::move(c); break; }
      case BIG: { const Big b(m.v); if (lvalue) a = b; else a = Big(m.v); break; }
      case VEC: { auto v = vec(m.v); if (lvalue) { a = v; PBT_CHECK(v == vec(m.v), "assignment from an lvalue changes it"); } else a = std::move(v); break; }
      default: a.clear(); break;
    }
  } else {
    switch (m.k) {
      case INT: a = m.v + 0; break;
      case STR: a = str(m.v); break;
      case CNT: a = Counted(m.v); break;
      case BIG: a = Big(m.v); break;
      case VEC: a = vec(m.v); break;
      case MVO: a = Mv(m.v); break;
      default: a.clear(); break;
    }
  }
}
template <class A> static A make(M m, bool lvalue)
{
  switch (m.k) {
    case INT: return A(m.v + 0);
    case STR: return A(str(m.v));
    case CNT: {
      if constexpr (std::is_same<A, Any>::value)
        if (lvalue) {
          Counted c(m.v);
          return A(c);
        }
      return A(Counted(m.v));
    }
    case BIG: return A(Big(m.v));
    case VEC: return A(vec(m.v));
    case MVO:
      if constexpr (std::is_same<A, UniqueAny>::value) return A(Mv(m.v));
      break;
    default: break;
  }
  return A();
}

template <class A> static void run(Gen &g)
{
  constexpr bool any = std::is_same<A, Any>::value;
  Counted::reset();
  {
    std::vector<std::unique_ptr<A>> h;
    std::vector<M> m;
    unsigned steps = (unsigned)g.range(1, 30), kinds = 0;
    auto rnd = [&] {
      M x;
      x.k = (K)g.range(0, any ? VEC : MVO);
      x.v = (int)g.range(0, 120);
      return x;
    };
    for (unsigned s = 0; s < steps; ++s) {
      if (h.empty()) {
        h.push_back(std::make_unique<A>());
        m.push_back(M());
      }
      unsigned op = (unsigned)g.range(0, 9);
      size_t i = g.range(0, h.size() - 1), j = g.range(0, h.size() - 1);
      kinds |= 1u << op;
      switch (op) {
        case 0: {
          if (h.size() >= 4) break;
          M x = rnd();
          bool lv = g.boolean();
          NOTE("construct %s %d", kn[x.k], x.v);
          h.push_back(std::make_unique<A>(make<A>(x, lv)));
          m.push_back(x);
          break;
        }
        case 1: {
          M x = rnd();
          NOTE("[%zu] = %s %d", i, kn[x.k], x.v);
          put(g, *h[i], x, g.boolean());
          m[i] = x;
          break;
        }
        case 2:
          if constexpr (any) {
            if (h.size() >= 4) break;
            NOTE("copy construct from [%zu]", i);
            if (g.boolean())
              h.push_back(std::make_unique<A>(*h[i]));
            else
              h.push_back(std::make_unique<A>((A const &)*h[i]));
            m.push_back(m[i]);
          }
          break;
        case 3:
          if constexpr (any) {
            NOTE("[%zu] = [%zu]", i, j);
            if (g.boolean())
              *h[i] = *h[j];
            else
              *h[i] = (A const &)*h[j];
            m[i] = m[j];
            if (i == j) pbt::label("self assignment");
          }
          break;
        case 4: {
          if (h.size() >= 4) break;
          NOTE("move construct from [%zu]", i);
          h.push_back(std::make_unique<A>(std::move(*h[i])));
          m.push_back(m[i]);
          m[i] = state(*h[i], m[i], M());
          break;
        }
        case 5: {
          NOTE("[%zu] = move [%zu]", i, j);
          if (i == j) break;
          *h[i] = std::move(*h[j]);
          M old = m[i];
          m[i] = m[j];
          m[j] = state(*h[j], old, m[j]);
          break;
        }
        case 6:
          NOTE("swap [%zu] [%zu]", i, j);
          h[i]->swap(*h[j]);
          std::swap(m[i], m[j]);
          break;
        case 7:
          NOTE("clear [%zu]", i);
          h[i]->clear();
          m[i] = M();
          break;
        case 8: {
          NOTE("destroy [%zu]", i);
          h.erase(h.begin() + i);
          m.erase(m.begin() + i);
          break;
        }
        default: {
          // change through the pointer
          int v = (int)g.range(0, 120);
          NOTE("modify [%zu] to %d", i, v);
          typedef Api<A> P;
          if (auto p = P::template safe<int>(*h[i])) *p = v, m[i].v = v;
          if (auto p = P::template safe<Counted>(*h[i])) *p = Counted(v), m[i].v = v;
          if (auto p = P::template safe<std::string>(*h[i])) *p = str(v), m[i].v = v;
          break;
        }
      }
      long live = 0;
      for (size_t k = 0; k < h.size(); ++k) {
        char w[32];
        snprintf(w, sizeof w, "holder %zu", k);
        check(*h[k], m[k], w);
        live += m[k].k == CNT || m[k].k == MVO ? 1 : m[k].k == BIG ? 2 : m[k].k == VEC ? m[k].v % 5 : 0;
      }
      PBT_CHECK(Counted::live == live, "%ld objects alive, the holders hold %ld", Counted::live, live);
    }
    if (__builtin_popcount(kinds) >= 4) pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0, "%ld objects alive after all holders are gone", Counted::live);
}

// ---- optional --------------------------------------------------------------
template <class T, class MT, class F> static void opt(Gen &g, F mk)
{
  Counted::reset();
  {
    std::vector<kanon::optional<T>> o(3);
    std::optional<MT> m[3];
    unsigned steps = (unsigned)g.range(1, 24), kinds = 0;
    for (unsigned s = 0; s < steps; ++s) {
      size_t i = g.range(0, 2), j = g.range(0, 2);
      int v = (int)g.range(0, 100);
      unsigned op = (unsigned)g.range(0, 9);
      kinds |= 1u << op;
      switch (op) {
        case 0: NOTE("[%zu] = value %d", i, v); o[i] = mk(v); m[i] = v; break;
        case 1: NOTE("[%zu] = optional(%d)", i, v); o[i] = kanon::optional<T>(mk(v)); m[i] = v; break;
        case 2: NOTE("[%zu] = null", i); o[i] = make_null_optional<T>(); m[i].reset(); break;
        case 3: NOTE("[%zu] = [%zu]", i, j); o[i] = (kanon::optional<T> const &)o[j]; m[i] = m[j]; break;
        case 4: {
          NOTE("[%zu] copy constructed from [%zu]", i, j);
          kanon::optional<T> c((kanon::optional<T> const &)o[j]);
          PBT_CHECK(c.has_value() == m[j].has_value(), "copy differs");
          o[i] = std::move(c);
          m[i] = m[j];
          break;
        }
        case 5: {
          NOTE("SetInvalid [%zu]", i);
          o[i].SetInvalid();
          m[i].reset();
          break;
        }
        case 6: {
          NOTE("[%zu] = make_optional(%d)", i, v);
          o[i] = kanon::make_optional(mk(v));
          m[i] = v;
          break;
        }
        case 7:
          if (m[i]) {
            NOTE("modify [%zu] to %d", i, v);
            *o[i] = mk(v);
            m[i] = v;
          }
          break;
        case 8:
          if (m[i]) {
            NOTE("move the value out of [%zu]", i);
            T x = std::move(o[i]).value();
            PBT_CHECK(x == mk(*m[i]), "moved out value differs");
            o[i] = std::move(x);
          }
          break;
        default: {
          auto &&c = (kanon::optional<T> const &)o[i];
          if (m[i]) PBT_CHECK(*c == mk(*m[i]) && std::addressof(*c) == c.operator->(), "const access");
          break;
        }
      }
      for (int k = 0; k < 3; ++k) {
        PBT_CHECK(o[k].has_value() == m[k].has_value() && (bool)o[k] == m[k].has_value(), "optional %d: has_value() %d, expected %d", k, o[k].has_value(),
                  m[k].has_value());
        if (m[k]) PBT_CHECK(o[k].value() == mk(*m[k]) && *o[k] == mk(*m[k]) && *o[k].operator->() == mk(*m[k]), "optional %d holds another value than %d", k, *m[k]);
      }
    }
    if (__builtin_popcount(kinds) >= 4) pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0, "%ld objects alive after all optionals are gone", Counted::live);
}
static void optconv(Gen &g)
{
  // conversions between value types
  int64_t v = (int64_t)g.irange(-30000, 30000);
  bool full = g.boolean(), mv = g.boolean(), prev = g.boolean();
  NOTE("convert optional<int32_t>(%s %ld) to int16_t, double, int64_t", full ? "value" : "null", (long)v);
  kanon::optional<int32_t> a;
  if (full) a = (int32_t)v;
  kanon::optional<int16_t> b = mv ? kanon::optional<int16_t>(std::move(a)) : kanon::optional<int16_t>(a);
  PBT_CHECK(b.has_value() == full && (!full || *b == v), "converted optional differs");
  kanon::optional<int64_t> c;
  if (prev) c = (int64_t)77;
  kanon::optional<int32_t> a2;
  if (full) a2 = (int32_t)v;
  if (mv)
    c = std::move(a2);
  else
    c = a2;
  PBT_CHECK(c.has_value() == full && (!full || *c == v), "assigned optional differs");
  kanon::optional<char const *> cs;
  std::string text = g.blob(g.range(0, 20));
  for (auto &ch : text)
    if (!ch) ch = '.';
  if (full) cs = text.c_str();
  kanon::optional<std::string> s(cs);
  PBT_CHECK(s.has_value() == full && (!full || *s == text), "optional<std::string> from optional<char const*> differs");
  PBT_CHECK(cs.has_value() == full, "source changed");
  if (full) pbt::nontrivial();
}
static void opts(Gen &g)
{
  switch (g.range(0, 3)) {
    case 0: opt<Counted, int>(g, [](int v) { return Counted(v); }); break;
    case 1: opt<std::string, int>(g, [](int v) { return str(v); }); break;
    case 2: opt<int, int>(g, [](int v) { return v; }); break;
    default: optconv(g); break;
  }
}

// ---- RawAny, WeakCallback, pointers -----------------------------------------
struct Target {
  int base = 0, sum = 0, calls = 0;
  Counted life;
  int add(int x, std::string const &s)
  {
    ++calls;
    sum += x;
    return base + x + (int)s.size();
  }
  int cadd(int x) const { return base * 2 + x; }
  void note(int x) { sum += x; ++calls; }
  // Runs the caller's code (which may drop the last owner), then uses the object
  int during(std::function<void()> const &f)
  {
    f();
    return life.get() * 3 + base;
  }
};
struct B1 { virtual ~B1() {} int x = 1; };
struct B2 { virtual ~B2() {} int y = 2; };
struct D : B1, B2 { int z; Counted c; D(int v) : z(v), c(v) {} };
class Prot {
 public:
  int v;
  Counted c;
 protected:
  Prot(int a, std::unique_ptr<int> b) : v(a + *b), c(a) {}
};
struct Moved { Counted c; };

// ---- holders of holders ----------------------------------------------------
// A container of Any can itself be stored in an Any; it must come out as it went
// in.  (Built with gcc too: the compilers disagree on what T{T} is for containers.)
struct Tree {
  int leaf = 0;
  bool node = false;
  std::vector<Tree> kids;
};
static Tree tree(Gen &g, unsigned depth)
{
  Tree t;
  t.node = depth && g.chance(3, 4);
  if (t.node) {
    for (unsigned n = (unsigned)g.range(0, 4); n; --n) t.kids.push_back(tree(g, depth - 1));
  } else
    t.leaf = (int)g.range(0, 100);
  return t;
}
template <class A> static A grow(Gen &g, Tree const &t)
{
  constexpr bool any = std::is_same<A, Any>::value;
  if (!t.node) return A(t.leaf + 0);
  std::vector<A> v;
  for (auto &k : t.kids) v.push_back(grow<A>(g, k));
  if constexpr (any) {
    switch (g.range(0, 3)) {
      case 0: return A(v);
      case 1: { A a; a = v; return a; }
      case 2: { std::vector<A> const &c = v; return A(c); }
      default: break;
    }
  }
  if (g.boolean()) {
    A a;
    a = std::move(v);
    return a;
  }
  return A(std::move(v));
}
template <class A> static void same(A const &a, Tree const &t);
template <class A> static void sameVec(std::vector<A> const &v, Tree const &t)
{
  PBT_CHECK(v.size() == t.kids.size(), "a stored vector of %zu holders came out with %zu", t.kids.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) same(v[i], t.kids[i]);
}
template <class A> static void same(A const &a, Tree const &t)
{
  typedef Api<A> P;
  if (!t.node) {
    int *p = P::template safe<int>(a);
    PBT_CHECK(p && *p == t.leaf, "a nested int is lost");
    PBT_CHECK(P::template safe<std::vector<A>>(a) == nullptr, "a nested int is cast to a vector");
    return;
  }
  auto *p = P::template safe<std::vector<A>>(a);
  PBT_CHECK(p, "a stored vector of holders is lost");
  PBT_CHECK(a.type() == typeid(std::vector<A>), "type() of a stored vector of holders");
  sameVec(*p, t);
}
static void nested(Gen &g)
{
  Tree t = tree(g, 3);
  size_t n = t.kids.size();
  NOTE("%s of %zu", t.node ? "node" : "leaf", n);
  if (t.node && n) pbt::nontrivial();
  {
    Any a = grow<Any>(g, t);
    same(a, t);
    Any b(a), c;
    c = a;
    a.clear();
    same(b, t);
    same(c, t);
    Any d(std::move(c));
    same(d, t);
    if (t.node) {  // copies are deep
      SafeAnyCast<std::vector<Any>>(b)->clear();
      same(d, t);
    }
  }
  {
    UniqueAny a = grow<UniqueAny>(g, t);
    same(a, t);
    UniqueAny b(std::move(a)), c;
    c = std::move(b);
    same(c, t);
  }
  if (t.node) {
    std::vector<Any> v;
    for (auto &k : t.kids) v.push_back(grow<Any>(g, k));
    typedef kanon::optional<std::vector<Any>> O;
    O o(v);
    sameVec(*o, t);
    sameVec(v, t);
    O p;
    p = v;
    sameVec(*p, t);
    O q(std::move(p)), r(o), s;
    sameVec(*q, t);
    sameVec(*r, t);
    s = r;
    sameVec(*s, t);
    s = std::move(v);
    sameVec(*s, t);
    O u(std::move(s).value());
    sameVec(*u, t);
    auto w = kanon::make_optional(*o);
    sameVec(*w, t);
    Any x(o);  // an optional in a holder, a holder in an optional
    O *px = SafeAnyCast<O>(x);
    PBT_CHECK(px && px->has_value(), "an optional stored in a holder is lost");
    sameVec(**px, t);
    kanon::optional<Any> y(x);
    px = SafeAnyCast<O>(*y);
    PBT_CHECK(px && px->has_value(), "a holder stored in an optional is lost");
    sameVec(**px, t);
  }
  // the value constructor means what T(value) means
  int k = (int)g.range(0, 6);
  kanon::optional<std::vector<int>> a(k);
  std::optional<std::vector<int>> b(k);
  PBT_CHECK(a.has_value() && *a == *b, "optional<vector>(%d) holds %zu elements", k, a->size());
  kanon::optional<std::string> e(std::string(k, 'x'));
  PBT_CHECK(*e == std::string(k, 'x'), "optional<string>(%d)", k);
  struct Agg { int x, y; };  // aggregates have no constructor
  Agg ag{k, k + 1};
  kanon::optional<Agg> f(ag);
  PBT_CHECK(f->x == k && f->y == k + 1, "optional<aggregate>");
  kanon::optional<std::vector<int>> nul;
  nul = make_null_optional<std::vector<int>>();
  PBT_CHECK(!nul.has_value(), "make_null_optional() has a value");
}

// ---- copies that fail -------------------------------------------------------
// An element whose copy throws: the target keeps what it had, nothing leaks.
struct Frail {
  static long fuse;  // copies until the next one throws; < 0: never
  Counted c;
  Frail(int x = 0) : c(x) {}
  static void burn()
  {
    if (fuse >= 0 && fuse-- == 0) throw std::runtime_error("frail");
  }
  Frail(Frail const &o) : c((burn(), o.c)) {}
  Frail(Frail &&o) noexcept : c(std::move(o.c)) {}
  Frail &operator=(Frail const &o)
  {
    burn();
    c = o.c;
    return *this;
  }
  Frail &operator=(Frail &&o) noexcept
  {
    c = std::move(o.c);
    return *this;
  }
};
long Frail::fuse = -1;
static void frail(Gen &g)
{
  Counted::reset();
  bool thrown = false;
  auto attempt = [&](auto f) {
    Frail::fuse = (long)g.range(0, 1);
    bool t = false;
    try {
      f();
    } catch (std::runtime_error &) {
      t = true;
    }
    Frail::fuse = -1;
    thrown |= t;
    return t;
  };
  {
    Any a[3];
    int ma[3] = {-1, -1, -1};
    kanon::optional<Frail> o[3];
    int mo[3] = {-1, -1, -1};
    for (unsigned s = (unsigned)g.range(1, 20); s; --s) {
      size_t i = g.range(0, 2), j = g.range(0, 2);
      int v = (int)g.range(0, 100);
      Frail x(v);
      switch (g.range(0, 7)) {
        case 0: NOTE("any %zu = %d", i, v); if (!attempt([&] { a[i] = x; })) ma[i] = v; break;
        case 1: NOTE("any %zu = any %zu", i, j); if (!attempt([&] { a[i] = (Any const &)a[j]; })) ma[i] = ma[j]; break;
        case 2: NOTE("any copy of %zu", j); attempt([&] { Any c(a[j]); }); break;
        case 3: NOTE("any %zu clear", i); a[i].clear(); ma[i] = -1; break;
        case 4: NOTE("optional %zu = %d", i, v); if (!attempt([&] { o[i] = x; })) mo[i] = v; break;
        case 5: NOTE("optional %zu = optional %zu", i, j);
          if (!attempt([&] { o[i] = (kanon::optional<Frail> const &)o[j]; })) mo[i] = mo[j];
          break;
        case 6: NOTE("optional copy of %zu", j); attempt([&] { kanon::optional<Frail> c((kanon::optional<Frail> const &)o[j]); }); break;
        default: NOTE("optional %zu SetInvalid", i); o[i].SetInvalid(); mo[i] = -1; break;
      }
      for (size_t k = 0; k < 3; ++k) {
        Frail *p = SafeAnyCast<Frail>(a[k]);
        PBT_CHECK((p != nullptr) == (ma[k] >= 0), "any %zu: %s after a failed copy", k, p ? "holds a value" : "is empty");
        if (p) PBT_CHECK(p->c.get() == ma[k], "any %zu holds %d, not %d, after a failed copy", k, p->c.get(), ma[k]);
        PBT_CHECK(o[k].has_value() == (mo[k] >= 0), "optional %zu: has_value() is %d after a failed copy", k, o[k].has_value());
        if (mo[k] >= 0) PBT_CHECK(o[k]->c.get() == mo[k], "optional %zu holds %d, not %d, after a failed copy", k, o[k]->c.get(), mo[k]);
      }
      long live = 4;  // x and the optionals
      for (int v : ma) live += v >= 0;
      PBT_CHECK(Counted::live == live, "%ld objects alive after a failed copy, expected %ld", Counted::live, live);
    }
  }
  PBT_CHECK(Counted::live == 0, "%ld objects left", Counted::live);
  if (thrown) pbt::nontrivial();
}

namespace cxx11 { char const *check(unsigned n, int v); }
static void misc(Gen &g)
{
  Counted::reset();
  {
    unsigned k = (unsigned)g.range(0, 3);
    int v = (int)g.range(0, 1000);
    if (k == 0) {
      NOTE("RawAny");
      std::string a = str(v), b = "other";
      RawAny r, e;
      PBT_CHECK(r.empty(), "a default RawAny is not empty");
      r = a;
      PBT_CHECK(!r.empty() && AnyCast<std::string>(r) == &a && AnyCast2<std::string *>(r) == &a, "RawAny points elsewhere");
      RawAny q(b), c(r);
      c.swap(q);
      PBT_CHECK(UnsafeAnyCast<std::string>(c) == &b && SafeAnyCast<std::string>(q) == &a, "swap");
      RawAny mm(std::move(c));
      PBT_CHECK(AnyCast<std::string>(mm) == &b && c.empty(), "move");
      mm = r;
      PBT_CHECK(AnyCast<std::string>(mm) == &a && !r.empty(), "copy assignment");
      e = std::move(mm);
      PBT_CHECK(AnyCast<std::string>(e) == &a, "move assignment");
      e.clear();
      PBT_CHECK(e.empty(), "clear");
      RawAny vp((void *)&b);
      PBT_CHECK(AnyCast2<std::string *>(vp) == &b, "void*");
      vp = (void *)&a;
      PBT_CHECK(AnyCast2<std::string *>(vp) == &a, "assigned void*");
      vp = b;
      PBT_CHECK(AnyCast<std::string>(vp) == &b, "assigned object");
    } else if (k == 1) {
      NOTE("WeakCallback");
      auto t = std::make_shared<Target>();
      t->base = v;
      auto cb = makeWeakCallback(t, &Target::add);
      auto cc = makeWeakCallback(t, &Target::cadd);
      auto cn = makeWeakCallback(t, &Target::note);
      auto copy = cb;
      unsigned steps = (unsigned)g.range(1, 10);
      bool alive = true;
      int sum = 0, calls = 0;
      auto cd = makeWeakCallback(t, &Target::during);
      t->life = Counted(v + 1);
      PBT_CHECK(t.use_count() == 1, "a weak callback keeps its target alive");
      for (unsigned i = 0; i < steps; ++i) {
        if (alive && g.chance(1, 5)) {
          NOTE("the target dies");
          PBT_CHECK(t->sum == sum && t->calls == calls, "%d calls with sum %d reached the target, expected %d and %d", t->calls, t->sum, calls, sum);
          t.reset();
          PBT_CHECK(Counted::live == 0, "the target outlives its owner");
          alive = false;
        }
        int x = (int)g.range(0, 50);
        std::string s = str(x);
        int want = alive ? v + x + (int)s.size() : 0;
        int got = g.boolean() ? cb(x, s) : copy(x, s);
        PBT_CHECK(got == want, "the callback returns %d, expected %d", got, want);
        PBT_CHECK(cc(x) == (alive ? v * 2 + x : 0), "the const callback returns something else");
        cn(x);
        if (alive) sum += 2 * x, calls += 2;
        if (alive && g.chance(1, 6)) {
          NOTE("the owner lets go during a call");
          pbt::label("owner lets go during a call");
          PBT_CHECK(t->sum == sum && t->calls == calls, "%d calls with sum %d reached the target, expected %d and %d", t->calls, t->sum, calls, sum);
          bool live_during = false;
          int r = cd([&] {
            t.reset();
            live_during = Counted::live == 1;
          });
          PBT_CHECK(live_during, "the target is destroyed while the callback runs in it");
          PBT_CHECK(r == (v + 1) * 3 + v, "the callback returns %d", r);
          PBT_CHECK(Counted::live == 0, "the target outlives the call");
          alive = false;
        }
      }
      if (alive) PBT_CHECK(t->sum == sum && t->calls == calls, "%d calls with sum %d reached the target, expected %d and %d", t->calls, t->sum, calls, sum);
      if (!alive) pbt::label("target died");
    } else if (k == 2) {
      NOTE("down_pointer_cast");
      D d(v);
      B2 *b2 = &d;
      B1 *b1 = &d;
      PBT_CHECK(down_pointer_cast<D>(b2) == &d && down_pointer_cast<D>(b1) == &d, "a down-cast of a raw pointer gives another address");
      std::unique_ptr<B2> u(new D(v));
      B2 *raw = u.get();
      auto du = down_pointer_cast<D>(u);
      PBT_CHECK(du.get() == raw && !u && du->z == v, "a down-cast of a unique pointer does not move its object");
      std::shared_ptr<B2> s(new D(v));
      auto ds = down_pointer_cast<D>(s);
      PBT_CHECK(ds->z == v && ds.get() == s.get() && s.use_count() == 2, "a down-cast of a shared pointer gives another object");
      PBT_CHECK(GetPointer(s) == s.get() && GetPointer(du) == du.get() && GetPointer(&d) == &d, "GetPointer");
    } else {
      NOTE("MakeSharedFromProtected, KeyUniquePtr");
      auto p = MakeSharedFromProtected<Prot>((int)v, std::unique_ptr<int>(new int(5)));
      PBT_CHECK(p->v == v + 5 && p->c.get() == v, "arguments are not forwarded");
      {
        Moved local;
        auto key = MakeUniquePtrAsKey(&local);
        PBT_CHECK(key.get() == &local, "key pointer");
      }
      long before = Counted::live;
      {
        KeyUniquePtr<Moved> owner(new Moved);
        PBT_CHECK(Counted::live == before + 1, "no object");
      }
      PBT_CHECK(Counted::live == before, "the owning key pointer does not delete its object");
      const char *bad = cxx11::check((unsigned)g.range(0, 40), v);
      PBT_CHECK(!bad, "built as C++11: not so: %s", bad);
    }
    pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0, "%ld objects left alive", Counted::live);
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 500000;
  o.thorough = 12000000;
  pbt::suite("any", "operation sequences over up to four Any objects", o, run<Any>);
  pbt::suite("unique_any", "operation sequences over up to four UniqueAny objects", o, run<UniqueAny>);
  pbt::suite("optional", "operation sequences over three optionals, and conversions", o, opts);
  o.quick = 60000;
  o.thorough = 1000000;
  pbt::suite("frail", "holders and optionals of a type whose copies fail", o, frail);
  pbt::suite("nested", "trees of holders of vectors of holders, and optionals of containers (built with gcc as well)", o, nested);
  pbt::suite("misc", "RawAny, WeakCallback, pointer casts and helpers", o, misc);
  pbt::Config c;
  c.property = "U01";
  c.rule = "at least four different kinds of operation in the sequence / a full optional converted / every helper case";
  c.assumptions = {"value() of an empty optional and unchecked casts to another type are not called (asserted / documented preconditions)",
                   "a moved-from holder may hold nothing, its old value or the target's old value"};
  return pbt::run(argc, argv, c);
}
