// C02: ReservedArray and FixedVector against vectors, with lifetime tracking.
#include "pbt.h"
#include "counted.h"
#include <memory>
#include <string>
#include <vector>
#include <new>
#include <stdio.h>
#include <exception>
#include <stdexcept>
#include "kanon/algo/reserved_array.h"
#include "kanon/algo/fixed_vector.h"
using pbt::Gen;
using kanon::algo::ReservedArray;

// Relocatable: non-trivial, owns heap memory, may be moved bitwise.
struct Reloc {
  static constexpr bool can_reallocate = true;
  static long live;
  int *p;
  Reloc() noexcept : p(new int(0)) { ++live; }
  Reloc(int x) noexcept : p(new int(x)) { ++live; }
  Reloc(Reloc const &o) noexcept : p(new int(*o.p)) { ++live; }
  Reloc &operator=(Reloc const &o) noexcept
  {
    *p = *o.p;
    return *this;
  }
  ~Reloc()
  {
    delete p;
    p = nullptr;
    --live;
  }
  int get() const { return *p; }
};
long Reloc::live;

// Every copy/default construction may throw.
struct Boom {};
struct Throwing : Counted {
  static int fuse;
  static void tick()
  {
    if (fuse > 0 && --fuse == 0) throw Boom();
  }
  Throwing() : Counted((tick(), 0)) {}
  Throwing(int x) : Counted(x) {}
  Throwing(Throwing const &o) : Counted((tick(), o)) {}
  Throwing &operator=(Throwing const &o)
  {
    tick();
    Counted::operator=(o);
    return *this;
  }
};
int Throwing::fuse;

// The allocation that fails: malloc() and realloc() of the code under test.
static long g_oom;
static bool no_memory(size_t n) { return n > size_t(1) << 36 || (g_oom > 0 && --g_oom == 0); }
extern "C" {
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return no_memory(n) ? nullptr : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return no_memory(n) ? nullptr : __real_realloc(p, n); }
}
template <class T> static size_t too_many(Gen &g)
{
  return g.pick<size_t>({SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / sizeof(T), SIZE_MAX / sizeof(T) + 1, SIZE_MAX / sizeof(T) + 2, SIZE_MAX / sizeof(T) + 1 + 100 / sizeof(T)});
}

static int val(int x) { return x; }
static int val(Counted const &x) { return x.get(); }
static int val(Reloc const &x) { return x.get(); }
template <class T> struct Can { static constexpr bool throws = false, trivial = false; };
template <> struct Can<Throwing> { static constexpr bool throws = true, trivial = false; };
template <> struct Can<int> { static constexpr bool throws = false, trivial = true; };

template <class A>
static void same(A const &a, std::vector<int> const &m, const char *op)
{
  PBT_CHECK(a.size() == m.size() && a.GetSize() == m.size(), "after %s: size %zu, model %zu", op, (size_t)a.size(), m.size());
  PBT_CHECK(a.empty() == m.empty(), "after %s: empty() is %d", op, (int)a.empty());
  PBT_CHECK((size_t)(a.end() - a.begin()) == m.size() && (size_t)(a.cend() - a.cbegin()) == m.size(), "after %s: iterator distance", op);
  PBT_CHECK(a.begin() == a.data(), "after %s: begin() is not data()", op);
  size_t i = 0;
  for (auto const &x : a) {
    PBT_CHECK(val(x) == m[i], "after %s: element %zu is %d, model %d", op, i, val(x), m[i]);
    PBT_CHECK(&a[i] == &x, "after %s: a[%zu] is another object", op, i);
    ++i;
  }
}

template <class T, class Al>
static void run_case(Gen &g)
{
  typedef ReservedArray<T, Al> A;
  Counted::reset();
  AllocStats::reset();
  Reloc::live = 0;
  Throwing::fuse = 0;
  AllocStats::throws = g.boolean();
  bool grown = false, shrunk = false, threw = false, zero = false, starved = false;
  int next = 1;
  {
    size_t na = g.range(1, 3);
    std::vector<std::unique_ptr<A>> as;
    std::vector<std::vector<int>> ms(na);
    // give the elements that the array leaves unspecified a value
    auto fill = [&](size_t i, size_t from) {
      for (size_t k = from; k < ms[i].size(); ++k) {
        if (!Can<T>::trivial) PBT_CHECK(val((*as[i])[k]) == 0, "new element %zu is not default constructed", k);
        (*as[i])[k] = T(next);
        ms[i][k] = next++;
      }
    };
    bool big = g.chance(1, 500);
    auto some = [&] { return g.chance(1, 5) ? (size_t)0 : big ? g.size(70000, {255, 256, 4096, 65535, 65536}) : (size_t)g.range(0, 40); };
    for (size_t i = 0; i < na; ++i) {
      if (g.boolean()) as.emplace_back(new A);
      else {
        size_t n = some();
        NOTE("a%zu(%zu)", i, n);
        as.emplace_back(new A(n));
        PBT_CHECK(as[i]->size() == n, "constructed with %zu, size %zu", n, (size_t)as[i]->size());
        ms[i].resize(n);
        fill(i, 0);
      }
    }
    size_t steps = g.range(1, 30);
    for (size_t s = 0; s < steps; ++s) {
      size_t i = g.range(0, na - 1), j = g.range(0, na - 1);
      const char *op = "";
      A &a = *as[i];
      std::vector<int> &m = ms[i];
      unsigned k = g.weighted({6, 6, 6, 3, 4, 4, 4, 2, 1});
      int fuse = 0;
      if (Can<T>::throws && g.chance(1, 3)) fuse = (int)g.small(big ? 70000 : 29) + 1;
      Throwing::fuse = fuse;
      g_oom = k < 4 && g.chance(1, 10) ? 1 : 0;
      if (g_oom) NOTE("no memory");
      try {
        switch (k) {
          case 0: {
            op = "Grow";
            size_t n = some(), old = m.size();
            NOTE("a%zu.Grow(%zu) from %zu fuse %d", i, n, old, fuse);
            a.Grow(n);
            Throwing::fuse = 0;
            g_oom = 0;
            if (n > old) {
              grown = true;
              PBT_CHECK(a.size() == n, "Grow(%zu): size %zu", n, (size_t)a.size());
              m.resize(n);
              fill(i, old);
            }
            break;
          }
          case 1: {
            op = "Shrink";
            size_t n = some();
            NOTE("a%zu.Shrink(%zu) from %zu fuse %d", i, n, m.size(), fuse);
            a.Shrink(n);
            if (n < m.size()) {
              shrunk = true;
              m.resize(n);
              if (!n) zero = true;
            }
            break;
          }
          case 2: {
            op = "copy assignment";
            NOTE("a%zu = a%zu (%zu = %zu) fuse %d", i, j, m.size(), ms[j].size(), fuse);
            if (ms[j].empty() && !m.empty()) zero = true;
            a = *as[j];
            m = std::vector<int>(ms[j]);
            break;
          }
          case 3: {
            op = "copy construction";
            NOTE("a%zu(copy of a%zu) fuse %d", i, j, fuse);
            std::unique_ptr<A> n(new A(*as[j]));
            Throwing::fuse = 0;
            g_oom = 0;
            as[i] = std::move(n);
            m = std::vector<int>(ms[j]);
            break;
          }
          case 4: {
            op = "move assignment";
            if (i == j) break;
            NOTE("a%zu = move(a%zu)", i, j);
            a = std::move(*as[j]);
            m = ms[j];
            // the source is valid but unspecified
            as[j].reset(new A);
            ms[j].clear();
            break;
          }
          case 5: {
            op = "move construction";
            if (i == j) break;
            NOTE("a%zu(move(a%zu))", i, j);
            as[i].reset(new A(std::move(*as[j])));
            m = ms[j];
            as[j].reset(new A);
            ms[j].clear();
            break;
          }
          case 6: {
            op = "swap";
            NOTE("swap(a%zu, a%zu)", i, j);
            a.swap(*as[j]);
            std::swap(ms[i], ms[j]);
            break;
          }
          case 7: {
            op = "write";
            if (m.empty()) break;
            size_t x = g.range(0, m.size() - 1);
            NOTE("a%zu[%zu] = %d", i, x, next);
            Throwing::fuse = 0;
            a[x] = T(next);
            m[x] = next++;
            break;
          }
          case 8: {
            op = "a request for too many elements";
            size_t n = too_many<T>(g);
            NOTE("a%zu, %zu elements", i, n);
            Throwing::fuse = 0;
            if (g.boolean())
              a.Grow(n);
            else
              A b(n);
            pbt::fail("%zu elements of %zu bytes are accepted", n, sizeof(T));
          }
        }
      } catch (Boom &) {
        threw = true;
        NOTE("   threw");
      } catch (std::bad_alloc &) {
        starved = true;
        NOTE("   no memory");
        PBT_CHECK(k == 8 || k < 4, "%s is out of memory", op);
      }
      Throwing::fuse = 0;
      g_oom = 0;
      for (size_t q = 0; q < na; ++q) same(*as[q], ms[q], op);
      size_t total = 0;
      for (auto &x : ms) total += x.size();
      if (std::is_base_of<Counted, T>::value) PBT_CHECK((size_t)Counted::live == total, "after %s: %ld live elements, expected %zu", op, Counted::live, total);
      if (std::is_same<T, Reloc>::value) PBT_CHECK((size_t)Reloc::live == total, "after %s: %ld live elements, expected %zu", op, Reloc::live, total);
    }
  }
  PBT_CHECK(Counted::live == 0 && Reloc::live == 0, "%ld elements leaked", Counted::live + Reloc::live);
  PBT_CHECK(AllocStats::blocks == 0, "%ld memory blocks leaked", AllocStats::blocks);
  pbt::label_if(grown, "grew");
  pbt::label_if(shrunk, "shrank");
  pbt::label_if(threw, "element constructor threw");
  pbt::label_if(starved, "out of memory");
  pbt::label_if(zero, "became empty");
  if (grown || shrunk || threw) pbt::nontrivial();
}

static void arrays(Gen &g)
{
  typedef kanon::algo::LibcAllocatorWithRealloc<int> L;
  switch (g.range(0, 6)) {
    case 0: NOTE("int, libc"); run_case<int, L>(g); break;
    case 1: NOTE("int, counting"); run_case<int, CountAlloc<int>>(g); break;
    case 2: NOTE("Counted, libc"); run_case<Counted, kanon::algo::LibcAllocatorWithRealloc<Counted>>(g); break;
    case 3: NOTE("Counted, counting"); run_case<Counted, CountAlloc<Counted>>(g); break;
    case 4: NOTE("Reloc, counting"); run_case<Reloc, CountAlloc<Reloc>>(g); break;
    case 5: NOTE("Reloc, libc"); run_case<Reloc, kanon::algo::LibcAllocatorWithRealloc<Reloc>>(g); break;
    default: NOTE("Throwing, counting"); run_case<Throwing, CountAlloc<Throwing>>(g); break;
  }
}

template <class T>
static void fixed_case(Gen &g)
{
  if (g.chance(1, 20)) {
    size_t n = g.boolean() ? too_many<T>(g) : (size_t)g.range(1, 60);
    bool huge = n > 60;
    g_oom = !huge;
    NOTE("FixedVector(%zu) without memory", n);
    try {
      kanon::FixedVector<T> v(n);
    } catch (std::bad_alloc &) {
      n = 0;
    }
    g_oom = 0;
    PBT_CHECK(!n, "%zu slots of %zu bytes are accepted", n, sizeof(T));
    pbt::label("out of memory");
    return;
  }
  size_t n = g.chance(1, 300) ? g.size(70000, {255, 256, 65535, 65536}) : g.range(0, 60);
  NOTE("FixedVector(%zu)", n);
  {
    kanon::FixedVector<T> v(n);
    const kanon::FixedVector<T> &c = v;
    PBT_CHECK(v.size() == n && (size_t)(v.end() - v.begin()) == n && (size_t)(c.end() - c.begin()) == n && v.data() == v.begin() && c.data() == c.begin(), "size or range of FixedVector(%zu)", n);
    std::vector<int> m(n), order(n);
    for (size_t i = 0; i < n; ++i) order[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g.range(0, i - 1)]);
    for (int i : order) {
      m[i] = g.range(0, 1000);
      if (Can<T>::throws) {
        T src(m[i]);
        for (unsigned k = g.chance(1, 8) ? (unsigned)g.range(1, 3) : 0; k; --k) {
          // the constructor throws: the slot stays free, and may be tried again
          static FILE *nowhere = fopen("/dev/null", "w");
          FILE *err = stderr;
          bool thrown = false;
          long live = Counted::live;
          stderr = nowhere;
          Throwing::fuse = 1;
          try {
            if (k & 1)
              v.Construct(i, src);
            else
              v.Construct(i);
          } catch (Boom const &) {
            thrown = true;
          }
          Throwing::fuse = 0;
          stderr = err;
          PBT_CHECK(thrown, "the exception of the constructor is lost");
          PBT_CHECK(Counted::live == live, "%ld elements are left by a constructor that throws", Counted::live - live);
          pbt::label("construction tried again");
        }
        if (g.boolean()) {
          v.Construct(i, src);
          continue;
        }
      }
      v.Construct(i, m[i]);
    }
    for (size_t k = g.range(0, 8); n && k; --k) {
      size_t i = g.range(0, n - 1);
      m[i] = g.range(0, 1000);
      v[i] = T(m[i]);
    }
    size_t i = 0;
    for (auto const &x : c) {
      PBT_CHECK(val(x) == m[i] && &c[i] == &x, "slot %zu holds %d, expected %d", i, val(x), m[i]);
      ++i;
    }
    if (n > 1) pbt::nontrivial();
  }
}

static void fixed(Gen &g)
{
  Counted::reset();
  Reloc::live = 0;
  Throwing::fuse = 0;
  switch (g.range(0, 3)) {
    case 0: fixed_case<int>(g); break;
    case 1: fixed_case<Counted>(g); break;
    case 2: fixed_case<Throwing>(g); break;
    default: fixed_case<Reloc>(g); break;
  }
  PBT_CHECK(Counted::live == 0 && Reloc::live == 0, "%ld elements leaked", Counted::live + Reloc::live);
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 700000;
  o.thorough = 15000000;
  pbt::suite("array", "operation sequences on 1-3 ReservedArrays of int, self-referential, relocatable and throwing elements, two allocators", o, arrays);
  o.quick = 100000;
  o.thorough = 2000000;
  pbt::suite("fixed", "FixedVector filled in random order", o, fixed);
  pbt::Config c;
  c.property = "C02";
  c.rule = "the array grew, shrank to another size or met a throwing constructor; the fixed vector has at least two slots";
  c.assumptions = {"every slot of a FixedVector is constructed before it is destroyed (documented use)", "element destructors, moves and (for relocatable types) copies do not throw"};
  return pbt::run(argc, argv, c);
}
