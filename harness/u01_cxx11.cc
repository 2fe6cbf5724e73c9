// flags: -std=c++11
// The same checks in the language version of the repository's build, where
// kanon brings its own make_unique.
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/optional.h"
#include "kanon/util/ptr.h"

namespace cxx11 {
static long alive = 0;
struct Obj {
  int v;
  std::string s;
  std::unique_ptr<int> p;
  Obj() : v(7) { ++alive; }
  Obj(int x, std::string t, std::unique_ptr<int> q) : v(x), s(std::move(t)), p(std::move(q)) { ++alive; }
  Obj(int &x) : v(x) { ++x, ++alive; }
  ~Obj() { --alive; }
};
struct Pod {
  int a;
  double b;
  void *c;
};
#define REQUIRE(c) \
  if (!(c)) return #c
char const *check(unsigned n, int v)
{
  alive = 0;
  {
    // like std::make_unique: the elements of arrays and the members of plain types are zero
    auto i = kanon::make_unique<int[]>(n);
    for (unsigned k = 0; k < n; ++k) REQUIRE(i[k] == 0);
    auto q = kanon::make_unique<Pod[]>(n);
    for (unsigned k = 0; k < n; ++k) REQUIRE(q[k].a == 0 && q[k].b == 0 && q[k].c == nullptr);
    auto p = kanon::make_unique<Pod>();
    REQUIRE(p->a == 0 && p->b == 0 && p->c == nullptr);
    auto d = kanon::make_unique<int>();
    REQUIRE(*d == 0);
    auto o = kanon::make_unique<Obj[]>(n);
    REQUIRE(alive == (long)n);
    for (unsigned k = 0; k < n; ++k) REQUIRE(o[k].v == 7);
    auto f = kanon::make_unique<Obj>(v, std::string(n, 'x'), std::unique_ptr<int>(new int(v)));
    REQUIRE(f->v == v && f->s == std::string(n, 'x') && *f->p == v && alive == (long)n + 1);
    int x = v;
    auto g = kanon::make_unique<Obj>(x);
    REQUIRE(g->v == v && x == v + 1);
    std::string t(n, 'y');
    auto c = kanon::make_unique<std::string>(t);
    auto m = kanon::make_unique<std::string>(std::move(t));
    REQUIRE(*c == std::string(n, 'y') && *m == *c);
  }
  REQUIRE(alive == 0);
  {
    std::vector<int> w(n, v);
    kanon::Any a(w), b;
    b = a;
    REQUIRE(*kanon::AnyCast<std::vector<int>>(b) == w && kanon::SafeAnyCast<int>(b) == nullptr);
    kanon::UniqueAny u(std::unique_ptr<int>(new int(v)));
    REQUIRE(**kanon::SafeUniqueAnyCast<std::unique_ptr<int>>(u) == v);
    kanon::optional<std::vector<int>> o(w), e = kanon::make_null_optional<std::vector<int>>();
    REQUIRE(o.has_value() && *o == w && !e.has_value());
    e = o;
    REQUIRE(e && *e == w);
    e = kanon::make_optional(w);
    REQUIRE(e && *e == w);
  }
  return nullptr;
}
} // namespace cxx11
