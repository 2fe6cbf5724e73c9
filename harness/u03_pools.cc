// U03: memory pools.
#include "pbt.h"
#include "counted.h"
#include <list>
#include <map>
#include <memory>
#include <vector>
#include "kanon/mem/fixed_chunk_memory_pool.h"
#include "kanon/mem/linear_fixed_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
using namespace kanon;
using pbt::Gen;

extern "C" size_t __sanitizer_get_current_allocated_bytes();
// The allocation of the code under test that fails.
static long g_oom;
static bool g_new;  // operator new fails, too
static bool no_memory(size_t n) { return n > size_t(1) << 36 || (g_oom > 0 && --g_oom == 0); }
extern "C" {
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { return no_memory(n) ? nullptr : __real_malloc(n); }
void *__real__Znwm(size_t);
void *__wrap__Znwm(size_t n)
{
  if (g_new && no_memory(n)) throw std::bad_alloc();
  return __real__Znwm(n);
}
}
static size_t too_many(Gen &g, size_t unit)
{
  size_t u = unit ? unit : 1;
  size_t r = g.pick<size_t>({SIZE_MAX, SIZE_MAX - 8, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / u, SIZE_MAX / u + 1, SIZE_MAX / u + 2, SIZE_MAX / u + 1 + 100 / u, SIZE_MAX / (u + 8) + 1});
  return r < size_t(1) << 40 ? SIZE_MAX : r;
}
#define BALANCED(before)                                                                          \
  if (!pbt::noting()) PBT_CHECK(__sanitizer_get_current_allocated_bytes() <= before, "%zu bytes are not returned after the pool is gone", __sanitizer_get_current_allocated_bytes() - before);

// Live blocks with a pattern; every block is checked against all others.
struct Blocks {
  struct B {
    uint8_t seed;
    size_t n;
  };
  std::map<char *, B> live;
  uint8_t next = 1;
  void add(void *v, size_t n, size_t align)
  {
    char *p = (char *)v;
    PBT_CHECK(p, "allocation of %zu bytes fails", n);
    PBT_CHECK((uintptr_t)p % align == 0, "a block of %zu bytes at %p is not aligned to %zu", n, (void *)p, align);
    auto it = live.upper_bound(p);
    if (it != live.end()) PBT_CHECK(p + n <= it->first, "blocks overlap: %p+%zu and %p", (void *)p, n, (void *)it->first);
    if (it != live.begin()) {
      --it;
      PBT_CHECK(it->first + it->second.n <= p, "blocks overlap: %p+%zu and %p", (void *)it->first, it->second.n, (void *)p);
    }
    fill(p, n, next);
    live[p] = {next, n};
    next = next * 5 + 1;
  }
  static void fill(char *p, size_t n, uint8_t s)
  {
    for (size_t i = 0; i < n; ++i) p[i] = (char)(s + i * 7);
  }
  void check() const
  {
    for (auto &b : live)
      for (size_t i = 0; i < b.second.n; ++i)
        PBT_CHECK(b.first[i] == (char)(b.second.seed + i * 7), "byte %zu of a live block of %zu bytes has changed", i, b.second.n);
  }
  char *any(Gen &g)
  {
    auto it = live.begin();
    std::advance(it, g.range(0, live.size() - 1));
    return it->first;
  }
};

static void fixed(Gen &g)
{
  g_new = false;
  bool big = g.chance(1, 300);
  size_t per = g.size(big ? 1000 : 20, {1, 2, 3});
  if (!per) per = 1;
  size_t sz = g.chance(1, 2) ? g.range(1, 40) : g.size(big ? 9000 : 300, {1, 7, 8, 9, 12, 16, 24, 32, 64});
  if (!sz) sz = 1;
  // objects of this size can need at most this alignment
  size_t align = sz % 16 == 0 ? 16 : sz % 8 == 0 ? 8 : sz % 4 == 0 ? 4 : sz % 2 == 0 ? 2 : 1;
  bool obj = sz == 24 && g.boolean();
  NOTE("%zu bytes, %zu per block", sz, per);
  size_t before = __sanitizer_get_current_allocated_bytes();
  struct O24 { char x[24]; };
  std::unique_ptr<ObjectMemoryPool<O24>> op;
  auto pool = std::make_unique<FixedChunkMemoryPool>(per);
  if (obj) op = std::make_unique<ObjectMemoryPool<O24>>(per);
  Blocks b;
  size_t total = 0;  // chunks of all blocks (tracked through GetBlockNum)
  unsigned steps = (unsigned)g.range(1, big ? 300 : 80), shrinks = 0, frees = 0, oom = 0;
  for (unsigned s = 0; s < steps; ++s) {
    switch (g.weighted({12, 8, 2, 1, 1})) {
      case 0: {
        size_t bn = pool->GetBlockNum(), fc = obj ? 0 : pool->GetFreeChunkNum(sz);
        g_oom = g.chance(1, 8);
        bool none = g_oom;
        NOTE("allocate%s", none ? " without memory" : "");
        void *p = obj ? op->Malloc() : pool->Malloc(sz);
        if (!p && none && !g_oom) {
          ++oom;
          if (!obj) PBT_CHECK(fc == 0 && pool->GetBlockNum() == bn, "an allocation fails with %zu free chunks, %zu blocks before, %zu now", fc, bn, pool->GetBlockNum());
          break;
        }
        g_oom = 0;
        b.add(p, sz, align);
        if (!obj) {
          PBT_CHECK(pool->GetBlockNum() == bn + (fc == 0), "%zu blocks after an allocation with %zu free chunks in %zu blocks", pool->GetBlockNum(), fc, bn);
          if (fc == 0) total += per;
        }
        break;
      }
      case 1: {
        if (b.live.empty()) break;
        char *p = b.any(g);
        NOTE("free");
        b.live.erase(p);
        memset(p, 0xEE, sz);
        if (obj) op->Free(p); else pool->Free(p);
        ++frees;
        break;
      }
      case 2: {
        NOTE("shrink (%zu live)", b.live.size());
        if (obj) {
          op->Shrink();
          break;
        }
        size_t bn = pool->GetBlockNum(), fc = pool->GetFreeChunkNum(sz), us = pool->GetUsage(sz);
        pool->Shrink(sz);
        PBT_CHECK(pool->GetBlockNum() <= bn && pool->GetFreeChunkNum(sz) <= fc && pool->GetUsage(sz) <= us, "shrinking grows the pool");
        size_t now = pool->GetFreeChunkNum(sz) + b.live.size();
        if (b.live.empty()) PBT_CHECK(pool->GetBlockNum() == 0 && pool->GetUsage(sz) == 0, "an unused pool keeps %zu blocks after shrinking", pool->GetBlockNum());
        PBT_CHECK(pool->GetBlockNum() <= b.live.size(), "%zu blocks for %zu live chunks after shrinking", pool->GetBlockNum(), b.live.size());
        total = now;
        if (pool->GetBlockNum() < bn) ++shrinks;
        break;
      }
      case 3:
        if (obj) break;
        if (g.chance(1, 4)) {
          // too large for any memory: nothing is allocated, nothing changes
          size_t n = pool->GetFreeChunkNum(sz) ? 0 : too_many(g, sz), bn = pool->GetBlockNum();
          size_t huge = SIZE_MAX - g.range(0, 40);
          NOTE("a chunk of %zu bytes, or a block of %zu chunks", huge, n);
          FixedChunkMemoryPool other(per);
          PBT_CHECK(!other.Malloc(huge) && other.GetBlockNum() == 0, "a chunk of %zu bytes is allocated", huge);
          if (n) {
            pool->SetChunkPerBlock(n);
            PBT_CHECK(!pool->Malloc(sz), "a block of %zu chunks of %zu bytes is allocated", n, sz);
            pool->SetChunkPerBlock(per);
          }
          PBT_CHECK(pool->GetBlockNum() == bn, "a failed allocation leaves %zu blocks of %zu", pool->GetBlockNum(), bn);
          ++oom;
          break;
        }
        if (g.chance(1, 2)) {
          per = g.range(1, 12);
          NOTE("SetChunkPerBlock %zu", per);
          pool->SetChunkPerBlock(per);
          PBT_CHECK(pool->GetChunkPerBlock() == per, "GetChunkPerBlock");
        }
        break;
      default:
        NOTE("free nothing, allocate nothing");
        if (obj) op->Free(nullptr); else {
          pool->Free(nullptr);
          PBT_CHECK(pool->Malloc(0) == nullptr, "allocating 0 bytes");
        }
        break;
    }
    b.check();
    if (!obj) {
      size_t f = pool->GetFreeChunkNum(sz);
      PBT_CHECK(f + b.live.size() == total, "%zu free and %zu live chunks, the blocks hold %zu", f, b.live.size(), total);
      PBT_CHECK(pool->GetUsage(sz) >= total * sz, "usage %zu is less than %zu chunks of %zu", pool->GetUsage(sz), total, sz);
      PBT_CHECK((pool->GetUsage(sz) == 0) == (pool->GetBlockNum() == 0), "usage %zu with %zu blocks", pool->GetUsage(sz), pool->GetBlockNum());
    } else
      PBT_CHECK(op->GetUsage() >= b.live.size() * 24, "usage");
  }
  bool nt = frees && b.next > 8;
  op.reset();
  pool.reset();
  b.live.clear();
  BALANCED(before);
  if (nt) pbt::nontrivial();
  pbt::label_if(oom > 0, "out of memory");
  pbt::label_if(shrinks > 0, "shrinking released blocks");
  pbt::label_if(frees > 3, "more than 3 releases");
}

template <size_t N> struct alignas(N % 16 == 0 ? 16 : N % 8 == 0 ? 8 : 1) Sz { char x[N]; };

template <class T> static void linear(Gen &g)
{
  bool big = g.chance(1, 300);
  size_t n = g.size(big ? 1000 : 20, {0, 1});
  NOTE("LinearFixedMemoryPool of %zu objects of %zu bytes", n, sizeof(T));
  size_t before = __sanitizer_get_current_allocated_bytes();
  if (g.chance(1, 12)) {
    size_t m = g.boolean() ? too_many(g, sizeof(T)) : n;
    g_oom = m == n ? (long)g.range(1, n + 2) : 0;
    NOTE("construction for %zu without memory (%ld)", m, g_oom);
    long armed = g_oom;
    g_oom = 0;
    before = __sanitizer_get_current_allocated_bytes();
    g_oom = armed;
    bool failed = false;
    try {
      LinearFixedMemoryPool<T> p(m);
      PBT_CHECK(g_oom || m == 0, "a pool of %zu objects of %zu bytes is constructed", m, sizeof(T));
      g_oom = 0;
    } catch (std::bad_alloc &) {
      failed = true;
    }
    g_oom = 0;
    BALANCED(before);
    pbt::label_if(failed, "out of memory");
    before = __sanitizer_get_current_allocated_bytes();
  }
  auto poolp = std::make_unique<LinearFixedMemoryPool<T>>(n);
  auto &pool = *poolp;
  Blocks b;
  unsigned steps = (unsigned)g.range(1, big ? 1500 : 60);
  size_t extern_live = 0, free_ = n, cap = n;
  std::map<char *, bool> ext;
  bool grown = false, oom = false;
  for (unsigned s = 0; s < steps; ++s) {
    switch (g.weighted({10, 8, 2})) {
      case 0: {
        bool inside = free_ > 0;
        g_oom = g.chance(1, 10);
        NOTE("allocate%s", g_oom ? " without memory" : "");
        bool none = g_oom;
        T *p = pool.Malloc();
        if (!p && none && !g_oom && !inside) break;
        g_oom = 0;
        b.add(p, sizeof(T), alignof(T));
        ext[(char *)p] = !inside;
        if (inside) --free_; else ++extern_live;
        break;
      }
      case 1: {
        if (b.live.empty()) break;
        char *p = b.any(g);
        NOTE("free");
        b.live.erase(p);
        memset(p, 0xEE, sizeof(T));
        bool e = ext[p];
        ext.erase(p);
        pool.Free((T *)p);
        if (e) --extern_live; else ++free_;
        break;
      }
      default: {
        size_t want = g.range(0, big ? 2000 : 40);
        if (g.chance(1, 10)) want = too_many(g, sizeof(T));
        else if (g.chance(1, 5)) g_oom = (long)g.range(1, 8);
        bool tried = g_oom;
        NOTE("reserve %zu, failure %ld", want, g_oom);
        try {
          pool.Reserve(want);
          PBT_CHECK(want < size_t(1) << 32, "reserving %zu objects of %zu bytes succeeds", want, sizeof(T));
        } catch (std::bad_alloc &) {
          PBT_CHECK((tried && !g_oom) || want > size_t(1) << 32, "reserving %zu objects fails", want);
          g_oom = 0;
          oom = true;
          break;
        }
        g_oom = 0;
        if (want > cap) {
          free_ += want - cap;
          cap = want;
          if (!b.live.empty()) grown = true;
        }
        break;
      }
    }
    b.check();
    PBT_CHECK(pool.size() == cap && pool.freesize() == free_, "size %zu free %zu, expected %zu and %zu", pool.size(), pool.freesize(), cap, free_);
  }
  // objects from outside the pool must be given back
  for (auto &l : b.live) pool.Free((T *)l.first);
  b.live.clear();
  ext.clear();
  poolp.reset();
  BALANCED(before);
  pbt::label_if(oom, "out of memory");
  pbt::label_if(grown, "reserve with live objects");
  if (b.next != 1 && steps > 5) pbt::nontrivial();
}
static void linears(Gen &g)
{
  g_new = true;
  switch (g.range(0, 3)) {
    case 0: linear<Sz<1>>(g); break;
    case 1: linear<Sz<24>>(g); break;
    case 2: linear<Sz<48>>(g); break;
    default: linear<Sz<13>>(g); break;
  }
}

// std::list over the pool allocator and shared objects.
static void alloc(Gen &g)
{
  g_new = false;
  Counted::reset();
  {
    FixedChunkMemoryPool pool(g.range(1, 8)), pool2(g.range(1, 3));
    typedef ObjectPoolAllocator<Counted> A;
    typedef std::list<Counted, A> L;
    A a(pool);
    PBT_CHECK(a == A(pool) && a != A(pool2) && A(pool2) == ObjectPoolAllocator<int>(pool2) && !(a == A(pool2)) && !(a != A(pool)), "allocator comparison");
    L l(a), l2(a), l3((A(pool2)));  // l3: over another pool
    std::list<int> m, m2, m3;
    size_t node = 0, cross = 0, oom = 0;
    unsigned steps = (unsigned)g.range(1, 40);
    for (unsigned s = 0; s < steps; ++s) {
      int v = (int)g.range(0, 99);
      g_oom = g.chance(1, 6);
      bool none = g_oom;
      if (none) NOTE("without memory");
      try {
        switch (g.range(0, 9)) {
          case 0: NOTE("push_back"); l.emplace_back(v); m.push_back(v); break;
          case 1: NOTE("push_front"); l.emplace_front(v); m.push_front(v); break;
          case 2: if (!m.empty()) { NOTE("pop_front"); l.pop_front(); m.pop_front(); } break;
          case 3: NOTE("remove %d", v % 5); l.remove_if([&](Counted const &c) { return c.get() % 5 == v % 5; }); m.remove_if([&](int c) { return c % 5 == v % 5; }); break;
          case 4: NOTE("splice"); l2.splice(l2.begin(), l); m2.splice(m2.begin(), m); l.swap(l2); m.swap(m2); break;
          case 5: NOTE("clear"); if (g.chance(1, 3)) { l.clear(); m.clear(); } break;
          case 6: NOTE("push to the other pool"); l3.emplace_back(v); m3.push_back(v); break;
          case 7: {
            NOTE("move from the other pool, copy to it");
            L moved(std::move(l3), a);
            g_oom = 0;
            PBT_CHECK(moved.size() == m3.size() && std::equal(moved.begin(), moved.end(), m3.begin(), [](Counted const &x, int y) { return x.get() == y; }), "the list moved to another pool differs");
            l3.clear();
            m3 = m;
            L copy(l, A(pool2));
            l3.swap(copy);
            l.splice(l.end(), moved, moved.begin(), moved.end());
            m.clear();
            for (auto &c : l) m.push_back(c.get());
            ++cross;
            break;
          }
          case 8: {
            // a pool is asked for one object at a time
            NOTE("two objects at once");
            g_oom = 0;
            A b(a);
            try {
              b.allocate(2);
              PBT_CHECK(false, "two objects are allocated at once");
            } catch (...) {
            }
            break;
          }
          default: {
            NOTE("sort");
            l.sort();
            m.sort();
            break;
          }
        }
      } catch (std::bad_alloc &) {
        PBT_CHECK(none && !g_oom, "an allocation fails");
        ++oom;
        if (l3.size() != m3.size() || !std::equal(l3.begin(), l3.end(), m3.begin(), [](Counted const &x, int y) { return x.get() == y; })) {
          // the elements were being moved away
          PBT_CHECK(l3.size() == m3.size(), "a failing allocation changes the size of a list from %zu to %zu", m3.size(), l3.size());
          l3.clear();
          m3.clear();
        }
      }
      g_oom = 0;
      PBT_CHECK(l.size() == m.size() && std::equal(l.begin(), l.end(), m.begin(), [](Counted const &x, int y) { return x.get() == y; }), "the list over the pool differs");
      PBT_CHECK(l3.size() == m3.size() && std::equal(l3.begin(), l3.end(), m3.begin(), [](Counted const &x, int y) { return x.get() == y; }), "the list over the other pool differs");
      PBT_CHECK(Counted::live == (long)(m.size() + m2.size() + m3.size()), "%ld objects live, %zu expected", Counted::live, m.size() + m2.size() + m3.size());
      // each pool holds the nodes of its own lists
      struct N { void *a, *b; Counted c; };
      node = sizeof(N);
      PBT_CHECK((pool.GetBlockNum() ? pool.GetUsage(node) / pool.GetBlockNum() : 0) * pool.GetBlockNum() == pool.GetUsage(node), "usage");
      PBT_CHECK(pool.GetFreeChunkNum(node) + m.size() + m2.size() == pool.GetBlockNum() * pool.GetChunkPerBlock(), "%zu free chunks and %zu elements in %zu blocks of %zu", pool.GetFreeChunkNum(node), m.size() + m2.size(), pool.GetBlockNum(), pool.GetChunkPerBlock());
      PBT_CHECK(pool2.GetFreeChunkNum(node) + m3.size() == pool2.GetBlockNum() * pool2.GetChunkPerBlock(), "other pool: %zu free chunks and %zu elements in %zu blocks of %zu", pool2.GetFreeChunkNum(node), m3.size(), pool2.GetBlockNum(), pool2.GetChunkPerBlock());
    }
    pbt::label_if(cross, "lists over different pools exchange elements");
    pbt::label_if(oom, "out of memory");
    FixedChunkMemoryPool sp(g.range(1, 4));
    std::vector<std::shared_ptr<Counted>> ps;
    unsigned k = (unsigned)g.range(0, 10);
    long base = Counted::live;
    for (unsigned i = 0; i < k; ++i) {
      if (!ps.empty() && g.chance(1, 3)) ps.erase(ps.begin() + g.range(0, ps.size() - 1));
      ps.push_back(std::allocate_shared<Counted>(A(sp), (int)i));
    }
    PBT_CHECK(Counted::live == base + (long)ps.size(), "shared objects");
    ps.clear();
    if (steps > 5) pbt::nontrivial();
  }
  PBT_CHECK(Counted::live == 0, "%ld objects alive at the end", Counted::live);
}

int main(int argc, char **argv)
{
  // the first exception allocates what stays
  try {
    throw std::bad_alloc();
  } catch (std::bad_alloc &) {
  }
  pbt::SuiteOpt o;
  o.quick = 500000;
  o.thorough = 12000000;
  pbt::suite("fixed", "allocate/free/shrink sequences on fixed-chunk and object pools", o, fixed);
  o.quick = 80000;
  o.thorough = 2000000;
  pbt::suite("linear", "allocate/free/reserve sequences on linear pools", o, linears);
  pbt::suite("allocator", "std::list and shared_ptr over the pool allocator", o, alloc);
  pbt::Config c;
  c.property = "U03";
  c.rule = "the sequence allocates and releases blocks (longer than 5 steps)";
  c.assumptions = {"a pool is used with one object size (documented)", "at least one chunk per block"};
  return pbt::run(argc, argv, c);
}
