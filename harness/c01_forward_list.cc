// C01: zstl::ForwardList against a vector model with node identity.
#include "pbt.h"
#include "counted.h"
#include <memory>
#include <vector>
#include <algorithm>
#include "kanon/algo/forward_list.h"
using pbt::Gen;
typedef zstl::ForwardList<Counted, CountAlloc<Counted>> FL;
struct El {
  int v;
  const void *addr;  // nullptr: not yet known
};
typedef std::vector<El> Model;

static std::string show(Model const &m)
{
  std::string s = "[";
  for (auto &e : m) s += std::to_string(e.v) + " ";
  return s + "]";
}
static std::string showl(FL &l)
{
  std::string s = "[";
  int n = 0;
  for (auto it = l.begin(); it != l.end() && n < 200; ++it, ++n) s += std::to_string((*it).v) + " ";
  return s + "]";
}
static FL::iterator nth(FL &l, size_t k)  // k-th element; 0 = before_begin
{
  auto it = l.before_begin();
  while (k--) ++it;
  return it;
}

static void compare(FL &l, Model &m, const char *op)
{
  const FL &c = l;
  PBT_CHECK(l.size() == m.size(), "after %s: size() %zu, expected %zu; list %s", op, (size_t)l.size(), m.size(), showl(l).c_str());
  PBT_CHECK(l.empty() == m.empty(), "after %s: empty() wrong", op);
  size_t i = 0;
  auto ci = c.begin();
  for (auto it = l.begin(); it != l.end(); ++it, ++ci, ++i) {
    PBT_CHECK(i < m.size(), "after %s: more elements than expected: %s, model %s", op, showl(l).c_str(), show(m).c_str());
    PBT_CHECK((*it).get() == m[i].v, "after %s: element %zu is %d, expected %d: %s, model %s", op, i, (*it).v, m[i].v, showl(l).c_str(), show(m).c_str());
    PBT_CHECK(&*ci == &*it, "after %s: const and non-const iteration differ", op);
    if (m[i].addr)
      PBT_CHECK(m[i].addr == &*it, "after %s: element %zu was copied to another node instead of being kept", op, i);
    else
      m[i].addr = &*it;
  }
  PBT_CHECK(i == m.size(), "after %s: fewer elements than expected: %s, model %s", op, showl(l).c_str(), show(m).c_str());
  PBT_CHECK(ci == c.end(), "after %s: const iteration does not end", op);
  if (!m.empty()) {
    PBT_CHECK(l.front().get() == m.front().v && c.front().get() == m.front().v, "after %s: front() wrong", op);
    PBT_CHECK(l.back().get() == m.back().v && c.back().get() == m.back().v, "after %s: back() is %d, expected %d", op, l.back().v, m.back().v);
    PBT_CHECK(&*l.before_end() == &l.back(), "after %s: before_end() wrong", op);
  } else
    PBT_CHECK(l.before_end() == l.before_begin(), "after %s: before_end() of an empty list", op);
}
static Model fresh(std::vector<int> const &v)
{
  Model m;
  for (int x : v) m.push_back({x, nullptr});
  return m;
}
static std::vector<int> rnd(Gen &g, size_t maxn)
{
  std::vector<int> r(g.small(maxn));
  for (auto &x : r) x = (int)g.range(0, 9);
  return r;
}
static void forget(Model &m)
{
  for (auto &e : m) e.addr = nullptr;
}

static void ops(Gen &g)
{
  Counted::reset();
  AllocStats::reset();
  bool big = false, relink = false;
  {
    size_t nl = g.range(1, 3);
    std::vector<std::unique_ptr<FL>> ls;
    std::vector<Model> ms(nl);
    for (size_t i = 0; i < nl; ++i) {
      auto v = rnd(g, 12);
      switch (g.range(0, 3)) {
        case 0: ls.emplace_back(new FL); v.clear(); break;
        case 1: ls.emplace_back(new FL(v.begin(), v.end())); break;
        case 2: {
          int x = v.empty() ? 3 : v[0];
          ls.emplace_back(new FL((FL::SizeType)v.size(), Counted(x)));
          std::fill(v.begin(), v.end(), x);
          break;
        }
        default: ls.emplace_back(new FL({1, 2, 3})); v = {1, 2, 3};
      }
      NOTE("list%zu has %zu elements", i, v.size());
      ms[i] = fresh(v);
      compare(*ls[i], ms[i], "construction");
    }
    size_t steps = g.range(1, 40);
    const char *op = "";
    for (size_t s = 0; s < steps; ++s) {
      size_t i = g.range(0, nl - 1), j = g.range(0, nl - 1);
      FL &l = *ls[i];
      Model &m = ms[i];
      FL &o = *ls[j];
      Model &om = ms[j];
      size_t pos = g.range(0, m.size());  // insert after the pos-th element (0: before_begin)
      int x = (int)g.range(0, 9);
      long built0 = Counted::built;
      bool pure = false;  // must not build any element
      switch (g.range(0, 29)) {
        case 0: op = "push_front"; NOTE("list%zu.push_front(%d)", i, x); l.push_front(Counted(x)); m.insert(m.begin(), {x, nullptr}); break;
        case 1: {
          op = "push_back";
          NOTE("list%zu.push_back(%d)", i, x);
          Counted c(x);
          l.push_back(c);
          m.push_back({x, nullptr});
          break;
        }
        case 2: op = "emplace_front"; l.emplace_front(x); m.insert(m.begin(), {x, nullptr}); NOTE("list%zu.emplace_front(%d)", i, x); break;
        case 3: op = "emplace_back"; l.emplace_back(x); m.push_back({x, nullptr}); NOTE("list%zu.emplace_back(%d)", i, x); break;
        case 4: op = "insert_after"; NOTE("list%zu.insert_after(%zu, %d)", i, pos, x); if (g.boolean()) l.insert_after(nth(l, pos), Counted(x)); else l.emplace_after(nth(l, pos), x); m.insert(m.begin() + pos, {x, nullptr}); break;
        case 5: {
          op = "insert_after(count)";
          size_t n = g.range(0, 4);
          NOTE("list%zu.insert_after(%zu, %zu x %d)", i, pos, n, x);
          Counted c(x);
          l.insert_after(nth(l, pos), (FL::SizeType)n, c);
          m.insert(m.begin() + pos, n, El{x, nullptr});
          break;
        }
        case 6: {
          op = "insert_after(range)";
          auto v = rnd(g, 6);
          NOTE("list%zu.insert_after(%zu, range of %zu)", i, pos, v.size());
          l.insert_after(nth(l, pos), v.begin(), v.end());
          auto f = fresh(v);
          m.insert(m.begin() + pos, f.begin(), f.end());
          break;
        }
        case 7:
          op = "pop_front";
          if (m.empty()) break;
          NOTE("list%zu.pop_front", i);
          l.pop_front();
          m.erase(m.begin());
          pure = true;
          break;
        case 8: {
          op = "erase_after";
          if (pos >= m.size()) break;
          NOTE("list%zu.erase_after(%zu)", i, pos);
          auto r = l.erase_after(nth(l, pos));
          m.erase(m.begin() + pos);
          PBT_CHECK(r == nth(l, pos).next(), "erase_after returns a wrong iterator");
          pure = true;
          break;
        }
        case 9: {
          op = "erase_after(range)";
          size_t b = g.range(pos, m.size()) + 1;  // (pos, b): b-th element, size+1 = end
          NOTE("list%zu.erase_after(%zu, %zu)", i, pos, b);
          auto last = b == m.size() + 1 ? l.end() : nth(l, b);
          auto r = l.erase_after(nth(l, pos), last);
          m.erase(m.begin() + pos, m.begin() + (b - 1));
          PBT_CHECK(r == last, "range erase_after returns a wrong iterator");
          pure = true;
          break;
        }
        case 10: op = "clear"; if (!g.chance(1, 3)) break; NOTE("list%zu.clear", i); l.clear(); m.clear(); pure = true; break;
        case 11: {
          op = "extract";
          if (m.empty()) break;
          size_t from = g.range(0, m.size() - 1);
          NOTE("list%zu: extract element %zu, push to list%zu", i, from, j);
          auto it = from == 0 ? l.extract_front() : l.extract_after(nth(l, from));
          El e = m[from];
          m.erase(m.begin() + from);
          compare(l, m, "extract");
          switch (g.range(0, 2)) {
            case 0: o.push_front(it); om.insert(om.begin(), e); break;
            case 1: o.push_back(it); om.push_back(e); break;
            default: {
              size_t p = g.range(0, om.size());
              o.insert_after(nth(o, p), it);
              om.insert(om.begin() + p, e);
            }
          }
          pure = relink = true;
          break;
        }
        case 12: {
          op = "splice_after(list)";
          if (i == j) break;
          NOTE("list%zu.splice_after(%zu, list%zu)", i, pos, j);
          if (g.boolean()) l.splice_after(nth(l, pos), o); else l.splice_after(nth(l, pos), std::move(o));
          m.insert(m.begin() + pos, om.begin(), om.end());
          om.clear();
          pure = relink = true;
          break;
        }
        case 13: {
          op = "splice_after(one)";
          if (om.empty()) break;
          size_t from = g.range(0, om.size() - 1);
          NOTE("list%zu.splice_after(%zu, list%zu, %zu)", i, pos, j, from);
          l.splice_after(nth(l, pos), o, nth(o, from));
          if (i == j) {
            // moving the element after `from` behind `pos`
            if (pos != from && pos != from + 1) {
              El e = m[from];
              m.erase(m.begin() + from);
              m.insert(m.begin() + (pos > from ? pos - 1 : pos), e);
            }
          } else {
            El e = om[from];
            om.erase(om.begin() + from);
            m.insert(m.begin() + pos, e);
          }
          pure = relink = true;
          break;
        }
        case 14: {
          op = "splice_after(range)";
          if (i == j) break;
          size_t a = g.range(0, om.size());
          size_t b = g.range(a, om.size()) + 1;
          NOTE("list%zu.splice_after(%zu, list%zu, %zu, %zu)", i, pos, j, a, b);
          auto last = b == om.size() + 1 ? o.end() : nth(o, b);
          l.splice_after(nth(l, pos), o, nth(o, a), last);
          m.insert(m.begin() + pos, om.begin() + a, om.begin() + (b - 1));
          om.erase(om.begin() + a, om.begin() + (b - 1));
          pure = relink = true;
          break;
        }
        case 15: {
          op = "merge";
          if (i == j) break;
          bool cmp = g.boolean();
          auto less = [](El const &a, El const &b) { return a.v < b.v; };
          auto gr = [](El const &a, El const &b) { return a.v > b.v; };
          NOTE("sort and merge list%zu into list%zu%s", j, i, cmp ? " (descending)" : "");
          Model out;
          if (cmp) {
            l.sort([](Counted const &a, Counted const &b) { return a.get() > b.get(); });
            o.sort([](Counted const &a, Counted const &b) { return a.get() > b.get(); });
          } else {
            l.sort();
            o.sort();
          }
          for (Model *q : {&m, &om}) {
            FL &ql = q == &m ? l : o;
            if (cmp) std::stable_sort(q->begin(), q->end(), gr); else std::stable_sort(q->begin(), q->end(), less);
            forget(*q);
            compare(ql, *q, "sort");
          }
          if (cmp) l.merge(o, [](Counted const &a, Counted const &b) { return a.get() > b.get(); });
          else l.merge(o);
          if (cmp) std::merge(m.begin(), m.end(), om.begin(), om.end(), std::back_inserter(out), gr);
          else std::merge(m.begin(), m.end(), om.begin(), om.end(), std::back_inserter(out), less);
          m = out;
          om.clear();
          pure = relink = true;
          break;
        }
        case 16: {
          op = "sort";
          std::vector<const void *> before, after;
          for (auto &e : m) before.push_back(e.addr);
          bool two = g.chance(1, 3);
          NOTE("list%zu.sort%s", i, two ? "2" : "");
          if (two) l.sort2(); else l.sort();
          std::stable_sort(m.begin(), m.end(), [](El const &a, El const &b) { return a.v < b.v; });
          forget(m);
          for (auto it = l.begin(); it != l.end(); ++it) after.push_back(&*it);
          std::sort(before.begin(), before.end());
          std::sort(after.begin(), after.end());
          PBT_CHECK(before == after, "sort does not keep the nodes");
          pure = !two;
          relink = true;
          break;
        }
        case 17: op = "reverse"; NOTE("list%zu.reverse", i); l.reverse(); std::reverse(m.begin(), m.end()); pure = relink = true; break;
        case 18: {
          op = "unique";
          NOTE("list%zu.unique", i);
          size_t before = m.size(), r = l.unique();
          m.erase(std::unique(m.begin(), m.end(), [](El const &a, El const &b) { return a.v == b.v; }), m.end());
          PBT_CHECK(r == before - m.size(), "unique returns %zu, removed %zu", r, before - m.size());
          pure = true;
          break;
        }
        case 19: {
          op = "remove";
          NOTE("list%zu.remove(%d)", i, x);
          size_t before = m.size(), r;
          bool pred = g.boolean();
          if (pred) r = l.remove_if([x](Counted const &c) { return c.get() < x; });
          else { Counted c(x); r = l.remove(c); }
          m.erase(std::remove_if(m.begin(), m.end(), [&](El const &e) { return pred ? e.v < x : e.v == x; }), m.end());
          PBT_CHECK(r == before - m.size(), "remove returns %zu, removed %zu", r, before - m.size());
          break;
        }
        case 20: {
          op = "resize";
          size_t n = g.range(0, m.size() + 4);
          NOTE("list%zu.resize(%zu)", i, n);
          if (g.boolean()) { Counted c(x); l.resize(n, c); } else { l.resize(n); x = 0; }
          if (n < m.size()) m.resize(n);
          while (m.size() < n) m.push_back({x, nullptr});
          break;
        }
        case 21: {
          op = "assign(count)";
          size_t n = g.range(0, m.size() + 4);
          NOTE("list%zu.assign(%zu, %d)", i, n, x);
          Counted c(x);
          l.assign((FL::SizeType)n, c);
          m.assign(n, El{x, nullptr});
          break;
        }
        case 22: {
          op = "assign(range)";
          auto v = rnd(g, m.size() + 4);
          NOTE("list%zu.assign(range of %zu)", i, v.size());
          if (v.size() == 3 && g.boolean()) { v = {4, 5, 6}; l.assign({4, 5, 6}); } else l.assign(v.begin(), v.end());
          m = fresh(v);
          break;
        }
        case 23: {
          op = "copy";
          NOTE("list%zu = copy of list%zu", i, j);
          if (g.boolean()) l = o;
          else if (i != j) { ls[i].reset(new FL(o)); }
          if (i != j) { m = om; forget(m); }
          break;
        }
        case 24: {
          op = "move";
          if (i == j) break;
          NOTE("list%zu = move(list%zu)", i, j);
          if (g.boolean()) l = std::move(o); else ls[i].reset(new FL(std::move(o)));
          m = om;
          if (ls[j].get()) { ls[j]->clear(); }
          om.clear();
          pure = relink = true;
          break;
        }
        case 25: {
          op = "swap";
          NOTE("list%zu.swap(list%zu)", i, j);
          if (i == j) { l.swap(l); } else if (g.boolean()) l.swap(o); else { using std::swap; swap(l, o); }
          std::swap(m, om);
          pure = relink = true;
          break;
        }
        case 26: {
          op = "search_before";
          size_t from = pos;
          Counted c(x);
          FL::iterator r = from == 0 && g.boolean() ? l.search_before(c) : l.search_before([x](Counted const &e) { return e.get() == x; }, nth(l, from));
          size_t k = from;
          while (k < m.size() && m[k].v != x) ++k;
          PBT_CHECK(r == (k < m.size() ? nth(l, k) : l.end()), "search_before(%d from %zu) does not return the position before element %zu of %zu", x, from, k, m.size());
          break;
        }
        case 27: {
          op = "compare";
          std::vector<int> a, b;
          for (auto &e : m) a.push_back(e.v);
          for (auto &e : om) b.push_back(e.v);
          const FL &cl = l, &co = o;
          NOTE("compare list%zu, list%zu", i, j);
          PBT_CHECK((cl == co) == (a == b), "operator== gives %d for %s and %s", cl == co, showl(l).c_str(), showl(o).c_str());
          PBT_CHECK((cl != co) == (a != b), "operator!= gives %d for %s and %s", cl != co, showl(l).c_str(), showl(o).c_str());
          PBT_CHECK((cl < co) == (a < b), "operator< wrong for %s and %s", showl(l).c_str(), showl(o).c_str());
          PBT_CHECK((cl > co) == (a > b), "operator> wrong");
          PBT_CHECK((cl <= co) == (a <= b), "operator<= wrong");
          PBT_CHECK((cl >= co) == (a >= b), "operator>= wrong");
          break;
        }
        case 28: {
          op = "truncated copy";
          // makes lists that are prefixes of one another
          if (i == j) break;
          size_t n = g.range(0, om.size());
          l = o;
          l.resize(n, Counted(1));
          m = om;
          forget(m);
          m.resize(n);
          break;
        }
        case 29: {
          op = "many";
          if (!g.chance(1, 6)) break;
          size_t n = g.size(g.chance(1, 80) ? 20000 : 300, {1, 2, 63, 64, 65, 255, 256});
          NOTE("list%zu gets %zu elements", i, n);
          uint64_t sd = g.range(0, 1000);
          for (size_t k = 0; k < n; ++k) {
            int y = (int)(pbt::mix(sd + k) % 1000);
            l.push_back(Counted(y));
            m.push_back({y, nullptr});
          }
          big = true;
          break;
        }
      }
      if (pure) PBT_CHECK(Counted::built == built0, "%s constructed %ld elements", op, Counted::built - built0);
      compare(*ls[i], ms[i], op);
      if (j != i) compare(*ls[j], ms[j], op);
    }
    size_t total = 0;
    for (auto &q : ms) total += q.size();
    PBT_CHECK(Counted::live == (long)total, "%ld live elements, %zu in the lists", Counted::live, total);
    PBT_CHECK(AllocStats::blocks == (long)total, "%ld allocated nodes, %zu elements", AllocStats::blocks, total);
    pbt::label_if(big, "list over 100 elements");
    pbt::label_if(relink, "with splice/merge/sort/reverse/extract");
    pbt::label_if(nl > 1, "several lists");
    if (steps >= 4 && relink) pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0, "%ld elements never destroyed", Counted::live);
  PBT_CHECK(AllocStats::blocks == 0, "%ld nodes never freed", AllocStats::blocks);
}

// Nodes with trailing storage (as used for buffer chunks).
static void sized(Gen &g)
{
  Counted::reset();
  AllocStats::reset();
  {
    FL l;
    std::vector<int> m;
    size_t sz = g.pick<size_t>({0, 1, 64, 4096});
    size_t steps = g.range(1, 20);
    for (size_t s = 0; s < steps; ++s) {
      switch (g.range(0, 5)) {
        case 0: case 1: {
          int x = (int)g.range(0, 9);
          auto *n = l.create_node_size(sz, x);
          memset((char *)n + sizeof(*n), 0x5a, sz);
          if (g.boolean()) { l.push_back(n); m.push_back(x); } else { l.push_front(n); m.insert(m.begin(), x); }
          break;
        }
        case 2: if (!m.empty()) { l.pop_front_size(sz); m.erase(m.begin()); } break;
        case 3: {
          if (m.empty()) break;
          size_t p = g.range(0, m.size() - 1);
          l.erase_after_size(nth(l, p), sz);
          m.erase(m.begin() + p);
          break;
        }
        case 4: {
          size_t p = g.range(0, m.size()), b = g.range(p, m.size()) + 1;
          l.erase_after_size(nth(l, p), b == m.size() + 1 ? l.end() : nth(l, b), sz);
          m.erase(m.begin() + p, m.begin() + (b - 1));
          break;
        }
        case 5: if (g.chance(1, 4)) { l.clear_size(sz); m.clear(); } break;
      }
      auto mm = fresh(m);
      compare(l, mm, "sized op");
      PBT_CHECK(AllocStats::blocks == (long)m.size(), "%ld nodes allocated for %zu elements", AllocStats::blocks, m.size());
    }
    l.clear_size(sz);
    if (steps > 4) pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0 && AllocStats::blocks == 0, "%ld elements, %ld nodes leaked", Counted::live, AllocStats::blocks);
}

// Elements whose copies and comparisons fail, and allocations that fail.
struct Thrown {};
struct Frail : Counted {
  static long fuse, calls;  // the fuse-th construction fails
  static long pfuse;        // the pfuse-th call of a predicate fails
  static void burn(long &f)
  {
    if (f > 0 && --f == 0) throw Thrown();
  }
  Frail(int x = 0) : Counted((burn(fuse), x)) {}
  Frail(Frail const &o) : Counted((burn(fuse), o)) {}
};
long Frail::fuse, Frail::calls, Frail::pfuse;
typedef zstl::ForwardList<Frail, CountAlloc<Frail>> FR;

static FR::iterator nth(FR &l, size_t k)
{
  auto it = l.before_begin();
  while (k--) ++it;
  return it;
}
static std::vector<int> content(FR &l, const char *op)
{
  std::vector<int> r;
  const void *last = nullptr;
  for (auto it = l.begin(); it != l.end(); ++it) {
    PBT_CHECK(r.size() < l.size(), "after %s: more elements than size() %zu", op, (size_t)l.size());
    r.push_back((*it).get());
    last = &*it;
  }
  PBT_CHECK(r.size() == l.size() && l.empty() == r.empty(), "after %s: %zu elements, size() %zu", op, r.size(), (size_t)l.size());
  if (r.empty()) PBT_CHECK(l.before_end() == l.before_begin(), "after %s: before_end() of an empty list", op);
  else PBT_CHECK(&l.back() == last && &*l.before_end() == last && l.front().get() == r[0], "after %s: back() is not the last element", op);
  return r;
}

static void frail(Gen &g)
{
  Counted::reset();
  AllocStats::reset();
  AllocStats::throws = true;
  AllocStats::fuse = Frail::fuse = Frail::pfuse = 0;
  unsigned failed = 0;
  bool alias = false;
  typedef std::vector<int> V;
  {
    size_t nl = g.range(1, 2);
    std::vector<std::unique_ptr<FR>> ls;
    std::vector<V> ms(nl);
    for (size_t i = 0; i < nl; ++i) {
      ms[i] = rnd(g, 10);
      ls.emplace_back(new FR(ms[i].begin(), ms[i].end()));
    }
    size_t steps = g.range(1, 20);
    for (size_t s = 0; s < steps; ++s) {
      size_t i = g.range(0, nl - 1), j = g.range(0, nl - 1);
      FR &l = *ls[i];
      V m = ms[i], om = ms[j], was = m;
      size_t pos = g.range(0, m.size()), n = g.range(0, 5);
      int x = (int)g.range(0, 9);
      auto v = rnd(g, 6);
      // a value that is (possibly) an element of the list
      Frail own(x);
      Frail *val = &own;
      if (!m.empty() && g.chance(1, 3)) {
        size_t k = g.range(1, m.size());
        val = &*nth(l, k);
        x = m[k - 1];
        alias = true;
      }
      auto less = [](Frail const &a, Frail const &b) { Frail::burn(Frail::pfuse); return a.get() < b.get(); };
      auto isx = [x](Frail const &a) { Frail::burn(Frail::pfuse); return a.get() == x; };
      auto eq = [](Frail const &a, Frail const &b) { Frail::burn(Frail::pfuse); return a.get() == b.get(); };
      // after a failure: a list of an insertion holds its elements and the first of the new ones
      V ins;
      size_t at = 0;
      bool strong = false, grows = false, sub = false;
      const char *op = "";
      switch (g.range(0, 4)) {
        case 0: Frail::fuse = g.range(1, 6); break;
        case 1: AllocStats::fuse = g.range(1, 6); break;
        case 2: Frail::pfuse = g.range(1, 8); break;
        default: break;
      }
      int k = (int)g.range(0, 15);
      NOTE("list%zu of %zu: %d (pos %zu, %zu x %d%s), failures %ld %ld %ld", i, m.size(), k, pos, n, x, val != &own ? " of the list" : "", Frail::fuse, AllocStats::fuse, Frail::pfuse);
      try {
        switch (k) {
          case 0: op = "push_front"; strong = true; l.push_front(*val); m.insert(m.begin(), x); break;
          case 1: op = "push_back"; strong = true; l.push_back(*val); m.push_back(x); break;
          case 2: op = "emplace_back"; strong = true; if (n > 2) { l.emplace_front(x); m.insert(m.begin(), x); } else { l.emplace_back(x); m.push_back(x); } break;
          case 3: op = "insert_after"; strong = true; if (n > 2) l.insert_after(nth(l, pos), *val); else l.emplace_after(nth(l, pos), *val); m.insert(m.begin() + pos, x); break;
          case 4: op = "insert_after(count)"; grows = true; at = pos; ins.assign(n, x); l.insert_after(nth(l, pos), (FR::SizeType)n, *val); m.insert(m.begin() + pos, n, x); break;
          case 5: op = "insert_after(range)"; grows = true; at = pos; ins = v; l.insert_after(nth(l, pos), v.begin(), v.end()); m.insert(m.begin() + pos, v.begin(), v.end()); break;
          case 6: {
            op = "resize";
            size_t to = n < 3 ? m.size() + n : g.range(0, m.size());
            grows = to > m.size();
            at = m.size();
            if (grows) ins.assign(to - m.size(), x);
            if (!grows || g.boolean()) l.resize(to, *val); else { x = 0; ins.assign(to - m.size(), 0); l.resize(to); }
            m.resize(to, x);
            break;
          }
          case 7: op = "assign(count)"; l.assign((FR::SizeType)n, *val); m.assign(n, x); break;
          case 8: {
            op = "assign(range)";
            if (g.boolean()) {
              size_t a = g.range(0, m.size()), b = g.range(a, m.size());
              NOTE("elements %zu to %zu of itself", a, b);
              auto first = nth(l, a + 1 > m.size() ? a : a + 1), last = b == m.size() ? l.end() : nth(l, b + 1);
              if (a == m.size()) first = last = l.end();
              l.assign(first, last);
              m = V(was.begin() + a, was.begin() + b);
              alias = true;
            } else {
              l.assign(v.begin(), v.end());
              m = v;
            }
            break;
          }
          case 9: op = "copy assignment"; l = *ls[j]; m = om; break;
          case 10: {
            op = "construction";
            strong = true;
            std::unique_ptr<FR> c;
            switch (g.range(0, 2)) {
              case 0: c.reset(new FR(*ls[j])); m = om; break;
              case 1: c.reset(new FR(v.begin(), v.end())); m = v; break;
              default: c.reset(new FR((FR::SizeType)n, *val)); m.assign(n, x); break;
            }
            ls[i] = std::move(c);
            break;
          }
          case 11: {
            op = "remove";
            sub = true;
            size_t r = n > 2 ? l.remove(*val) : l.remove_if(isx);
            m.erase(std::remove(m.begin(), m.end(), x), m.end());
            PBT_CHECK(r == was.size() - m.size(), "remove returns %zu, removed %zu", r, was.size() - m.size());
            break;
          }
          case 12: op = "unique"; sub = true; l.unique(eq); m.erase(std::unique(m.begin(), m.end()), m.end()); break;
          case 13: {
            op = "merge";
            V a = was, b = om;
            std::stable_sort(a.begin(), a.end());
            l.sort();
            ms[i] = a;
            if (i == j) {
              l.merge(l, less);
              m = a;
            } else {
              std::stable_sort(b.begin(), b.end());
              ls[j]->sort();
              ms[j] = b;
              l.merge(*ls[j], less);
              m.clear();
              std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(m));
              ms[j].clear();
            }
            break;
          }
          case 14: {
            op = "search_before";
            strong = true;
            auto it = l.search_before(isx, nth(l, pos));
            size_t q = pos;
            while (q < m.size() && m[q] != x) ++q;
            PBT_CHECK(it == (q < m.size() ? nth(l, q) : l.end()), "search_before returns another position");
            break;
          }
          default: op = "pop_front"; if (!m.empty()) { l.pop_front(); m.erase(m.begin()); } break;
        }
        ms[i] = m;
      } catch (Thrown &) {
        ++failed;
        goto threw;
      } catch (std::bad_alloc &) {
        ++failed;
        goto threw;
      }
      if (0) {
      threw:
        NOTE("%s fails", op);
        Frail::fuse = AllocStats::fuse = Frail::pfuse = 0;
        V now = content(*ls[i], op);
        if (strong) PBT_CHECK(now == was, "%s that failed has changed the list", op);
        if (grows) {
          PBT_CHECK(now.size() >= was.size() && now.size() < was.size() + ins.size(), "%zu elements after inserting %zu into %zu failed", now.size(), ins.size(), was.size());
          V want = was;
          want.insert(want.begin() + at, ins.begin(), ins.begin() + (now.size() - was.size()));
          PBT_CHECK(now == want, "after %s that failed the elements are not those before and the first of the new ones", op);
        }
        if (sub) {
          size_t q = 0;
          for (int y : now) {
            while (q < was.size() && was[q] != y) ++q;
            PBT_CHECK(q < was.size(), "after %s that failed there is an element more", op);
            ++q;
          }
        }
        if (k == 13) {
          V all = ms[i], is = now;
          if (i != j) {
            ms[j] = content(*ls[j], op);
            is.insert(is.end(), ms[j].begin(), ms[j].end());
            V b = om;
            all.insert(all.end(), b.begin(), b.end());
          }
          std::sort(all.begin(), all.end());
          std::sort(is.begin(), is.end());
          PBT_CHECK(all == is, "a merge that failed lost or made elements");
        }
        ms[i] = now;
      }
      Frail::fuse = AllocStats::fuse = Frail::pfuse = 0;
      size_t total = 0;
      for (size_t q = 0; q < nl; ++q) {
        V now = content(*ls[q], op);
        PBT_CHECK(now == ms[q], "after %s list%zu holds other elements", op, q);
        total += now.size();
      }
      PBT_CHECK(Counted::live == (long)total + 1, "after %s: %ld live elements, %zu in the lists", op, Counted::live - 1, total);
      PBT_CHECK(AllocStats::blocks == (long)total, "after %s: %ld allocated nodes, %zu elements", op, AllocStats::blocks, total);
    }
  }
  AllocStats::throws = false;
  PBT_CHECK(Counted::live == 0 && AllocStats::blocks == 0, "%ld elements, %ld nodes leaked", Counted::live, AllocStats::blocks);
  if (failed) pbt::nontrivial();
  pbt::label_if(failed > 2, "more than 2 operations fail");
  pbt::label_if(alias, "values and ranges of the list itself");
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 800000;
  o.thorough = 16000000;
  pbt::suite("ops", "operation sequences over 1-3 lists against vectors with node identity", o, ops);
  o.quick = 40000;
  o.thorough = 800000;
  pbt::suite("sized", "nodes with trailing storage", o, sized);
  pbt::suite("frail", "operations with failing copies, allocations and predicates, and values of the list itself", o, frail);
  pbt::Config c;
  c.property = "C01";
  c.rule = "a case is a sequence of 1-40 operations on 1-3 lists of counting elements; non-trivial: at least 4 operations including one that relinks nodes (splice, merge, sort, reverse, extract, swap, move), or one that fails";
  c.assumptions = {"iterators passed are valid for the list, as the standard forward list requires", "ranges spliced come from another list"};
  return pbt::run(argc, argv, c);
}
