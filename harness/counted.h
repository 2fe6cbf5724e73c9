// Element type that tracks construction/destruction and a counting allocator.
#pragma once
#include "pbt.h"
#include <stdlib.h>
#include <new>
#include <unordered_map>
#include <unordered_set>

struct Counted {
  static long live, built, copies, moves;
  static std::unordered_set<const void *> &where()
  {
    static std::unordered_set<const void *> s;
    return s;
  }
  static void reset()
  {
    live = built = copies = moves = 0;
    where().clear();
  }
  int v;
  const Counted *self;  // self-referential: breaks if relocated bitwise
  uint32_t canary;
  Counted(int x = 0) : v(x) { born(); }
  Counted(Counted const &o) : v(o.get()) { born(); ++copies; }
  Counted(Counted &&o) noexcept : v(o.get()) { o.v = -77; born(); ++moves; }
  Counted &operator=(Counted const &o)
  {
    alive();
    v = o.get();
    ++copies;
    return *this;
  }
  Counted &operator=(Counted &&o) noexcept
  {
    alive();
    int x = o.get();
    if (&o != this) o.v = -77;
    v = x;
    ++moves;
    return *this;
  }
  ~Counted()
  {
    alive();
    where().erase(this);
    canary = 0xdeadbeef;
    self = nullptr;
    --live;
  }
  int get() const
  {
    alive();
    return v;
  }
  void born()
  {
    if (!where().insert(this).second) pbt::fail("object constructed over a live object");
    self = this;
    canary = 0xC0FFEE11;
    ++live;
    ++built;
  }
  void alive() const
  {
    if (canary != 0xC0FFEE11 || self != this || !where().count(this)) pbt::fail("use or destruction of an object that is not alive (double destroy, missing construction or bitwise move)");
  }
  bool operator==(Counted const &o) const { return get() == o.get(); }
  bool operator!=(Counted const &o) const { return get() != o.get(); }
  bool operator<(Counted const &o) const { return get() < o.get(); }
};
inline long Counted::live, Counted::built, Counted::copies, Counted::moves;

struct AllocStats {
  static long blocks;
  static bool throws;   // allocate() throws without memory
  static long fuse;     // the allocation that fails
  static std::unordered_map<void *, size_t> &map()
  {
    static std::unordered_map<void *, size_t> m;
    return m;
  }
  static std::unordered_map<void *, size_t> &fewer()
  {
    static std::unordered_map<void *, size_t> m;
    return m;
  }
  static void reset() { blocks = 0; fuse = 0; map().clear(); fewer().clear(); }
};
inline long AllocStats::blocks;
inline bool AllocStats::throws;
inline long AllocStats::fuse;

template <class T>
struct CountAlloc {
  using value_type = T;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using pointer = T *;
  using const_pointer = T const *;
  using reference = T &;
  using const_reference = T const &;
  template <class U> struct rebind { using other = CountAlloc<U>; };
  CountAlloc() = default;
  template <class U> CountAlloc(CountAlloc<U> const &) {}
  T *allocate(size_t n)
  {
    void *p = n > size_t(1) << 32 || (AllocStats::fuse > 0 && !--AllocStats::fuse) ? nullptr : ::malloc(n * sizeof(T));
    if (!p) {
      if (AllocStats::throws) throw std::bad_alloc();
      return nullptr;
    }
    ++AllocStats::blocks;
    AllocStats::map()[p] = n;
    return (T *)p;
  }
  T *reallocate(T *p, size_t n)
  {
    if (p && !AllocStats::map().count(p)) pbt::fail("reallocation of memory that is not allocated");
    if (p && !n) {
      AllocStats::map().erase(p);
      --AllocStats::blocks;
      ::free((void *)p);
      return nullptr;
    }
    void *q = n > size_t(1) << 32 ? nullptr : ::realloc((void *)p, n * sizeof(T));
    if (!q) {
      // the old block stays; it may also be given back as the smaller one
      if (p && n < AllocStats::map()[p] && !(AllocStats::fewer().count(p) && AllocStats::fewer()[p] < n)) AllocStats::fewer()[p] = n;
      return nullptr;
    }
    AllocStats::fewer().erase(p);
    if (p) AllocStats::map().erase(p), --AllocStats::blocks;
    AllocStats::map()[q] = n;
    ++AllocStats::blocks;
    return (T *)q;
  }
  void deallocate(T *p, size_t n)
  {
    if (!p) return;
    auto it = AllocStats::map().find(p);
    if (it == AllocStats::map().end()) pbt::fail("deallocation of memory that is not allocated (double free?)");
    if (it->second != n && !(AllocStats::fewer().count(p) && AllocStats::fewer()[p] <= n && n <= it->second)) pbt::fail("deallocation with count %zu of a block allocated with count %zu", n, it->second);
    AllocStats::map().erase(it);
    AllocStats::fewer().erase(p);
    --AllocStats::blocks;
    ::free((void *)p);
  }
};
template <class T, class U> bool operator==(CountAlloc<T> const &, CountAlloc<U> const &) { return true; }
template <class T, class U> bool operator!=(CountAlloc<T> const &, CountAlloc<U> const &) { return false; }
