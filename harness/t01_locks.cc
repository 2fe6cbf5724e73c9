// T01: mutexes and read/write locks (ThreadSanitizer build: data guarded by a
// lock is plain memory, so a missing exclusion or visibility edge is a race).
#include "pbt.h"
#include "schedfuzz.h"
#include <assert.h>
#include <atomic>
#include <thread>
#include <vector>
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/dummy_mutex_lock.h"
#include "kanon/thread/condition.h"
#include "kanon/thread/rw_lock.h"
using namespace kanon;
using pbt::Gen;

static constexpr auto RX = std::memory_order_relaxed;

struct Cell {
  MutexLock mu;
  Condition cond{mu};
  std::atomic<int> in{0};   // monitor, relaxed: adds no ordering of its own
  long plain = 0;           // guarded by mu
  char pad[64];

  void enter(const char *how)
  {
    PBT_CHECK(in.fetch_add(1, RX) == 0, "two threads are inside the region of one mutex (%s)", how);
    PBT_CHECK(mu.IsLockedInThisThread(), "the holder of the mutex is told it does not hold it (%s)", how);
  }
  void body(unsigned work, const char *how)
  {
    enter(how);
    long v = plain;
    for (unsigned i = 0; i < work; ++i) schedfuzz::point();
    plain = v + 1;
    PBT_CHECK(mu.IsLockedInThisThread(), "the holder of the mutex is told it does not hold it after a while (%s)", how);
    mu.AssertLocked();
    leave(how);
  }
  void leave(const char *how) { PBT_CHECK(in.fetch_sub(1, RX) == 1, "two threads were inside the region of one mutex (%s)", how); }
  void outside(const char *when) { PBT_CHECK(!mu.IsLockedInThisThread(), "a thread that does not hold the mutex is told it does (%s)", when); }
};

struct Op {
  unsigned kind, cell, work;
};

static void run_op(std::vector<Cell> &cs, Op const &o, std::vector<long> &mine)
{
  Cell &c = cs[o.cell];
  switch (o.kind) {
    case 0: {
      c.outside("before lock");
      c.mu.Lock();
      c.body(o.work, "Lock");
      ++mine[o.cell];
      c.mu.Unlock();
      c.outside("after unlock");
      break;
    }
    case 1: {
      {
        MutexGuard guard(c.mu);
        c.body(o.work, "MutexGuard");
        ++mine[o.cell];
      }
      c.outside("after the guard's scope");
      break;
    }
    case 2: {
      {
        auto &mu = c.mu;
        KANON_MUTEX_GUARD(mu);
        c.body(o.work, "KANON_MUTEX_GUARD");
        ++mine[o.cell];
      }
      c.outside("after the macro guard's scope");
      break;
    }
    case 3: {
      if (c.mu.TryLock()) {
        c.body(o.work, "TryLock");
        ++mine[o.cell];
        c.mu.Unlock();
        c.outside("after try-lock and unlock");
      } else
        c.outside("after a failed try-lock");
      break;
    }
    case 4: {
      if (o.cell + 1 < cs.size()) {
        Cell &d = cs[o.cell + 1];
        MutexGuard g1(c.mu);
        c.enter("outer guard");
        d.outside("before the inner guard");
        {
          MutexGuard g2(d.mu);
          d.body(o.work, "inner guard");
          ++mine[o.cell + 1];
          PBT_CHECK(c.mu.IsLockedInThisThread(), "the outer mutex is not held inside the inner guard");
        }
        d.outside("after the inner guard");
        c.leave("outer guard");
        c.body(o.work, "outer guard");
        ++mine[o.cell];
      }
      break;
    }
    case 5: {
      MutexGuardT<MutexLock> g(c.mu);
      c.body(o.work, "MutexGuardT");
      ++mine[o.cell];
      break;
    }
    case 6: {
      auto &mu = c.mu;
      {
        KANON_MUTEX_LOCKTYPE_GUARD(MutexLock, mu);
        c.body(o.work, "KANON_MUTEX_LOCKTYPE_GUARD");
        ++mine[o.cell];
      }
      c.outside("after the lock-type guard's scope");
      break;
    }
    case 7: {
      MutexGuard guard(c.mu);
      c.body(o.work, "before a timed wait");
      c.cond.WaitForSeconds(0.00002 * o.work);
      c.body(o.work, "after a timed wait");
      mine[o.cell] += 2;
      break;
    }
    case 8: {
      // wake whoever waits
      MutexGuard guard(c.mu);
      c.body(0, "Notify");
      ++mine[o.cell];
      c.cond.NotifyAll();
      break;
    }
    default: c.outside("at no point of locking"); schedfuzz::point();
  }
}

static void mutex_suite(Gen &g)
{
  size_t nc = g.range(1, 2), nt = g.range(2, 4);
  unsigned noise = g.range(0, 3), spur = g.chance(1, 3) ? 30 : 0;
  std::vector<std::vector<Op>> ops(nt);
  for (auto &v : ops) {
    size_t n = g.range(1, 14);
    for (size_t i = 0; i < n; ++i) {
      Op o{g.weighted({3, 3, 2, 4, 3, 2, 1, 1, 1, 2}), (unsigned)g.range(0, nc - 1), (unsigned)g.range(0, 4)};
      v.push_back(o);
      NOTE("thread %zu: op %u on mutex %u, work %u", &v - &ops[0], o.kind, o.cell, o.work);
    }
  }
  NOTE("noise %u spurious %u", noise, spur);
  uint64_t seed = g.u64();
  std::vector<Cell> cs(nc);
  std::vector<std::vector<long>> mine(nt, std::vector<long>(nc, 0));
  schedfuzz::setup(seed, noise, spur);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      ready.fetch_add(1, RX);
      while (ready.load(RX) < (int)nt) sched_yield();
      for (auto &o : ops[t]) run_op(cs, o, mine[t]);
    });
  for (auto &t : ts) t.join();
  schedfuzz::off();
  long total = 0;
  for (size_t c = 0; c < nc; ++c) {
    long want = 0;
    for (auto &m : mine) want += m[c];
    total += want;
    PBT_CHECK(cs[c].plain == want, "%ld increments under the mutex left the counter at %ld", want, cs[c].plain);
    cs[c].outside("at the end");
    PBT_CHECK(cs[c].mu.TryLock(), "the mutex is still held after every guard is gone");
    PBT_CHECK(cs[c].mu.IsLockedInThisThread(), "a successful try-lock does not make this thread the holder");
    cs[c].mu.Unlock();
  }
  if (total >= 4 && noise) pbt::nontrivial();
  pbt::label_if(spur, "spurious");
}

// The state between two threads, step by step: who is told to hold it.
static void holder_suite(Gen &g)
{
  MutexLock mu;
  Condition cond(mu);
  std::atomic<int> step{0};
  bool tr = g.boolean(), wait = g.boolean();
  unsigned n = g.range(1, 3);
  schedfuzz::setup(g.u64(), g.range(0, 3), 0);
  NOTE("%s, %s, %u contenders", tr ? "TryLock" : "Lock", wait ? "condition wait" : "no wait", n);
  PBT_CHECK(!mu.IsLockedInThisThread(), "a new mutex is reported held");
  if (tr)
    PBT_CHECK(mu.TryLock(), "TryLock of a free mutex fails");
  else
    mu.Lock();
  PBT_CHECK(mu.IsLockedInThisThread(), "holder is told it does not hold the mutex");
  std::vector<std::thread> ts;
  std::atomic<int> blocked{0}, got{0};
  bool go = false;
  for (unsigned i = 0; i < n; ++i)
    ts.emplace_back([&] {
      PBT_CHECK(!mu.IsLockedInThisThread(), "a thread is told it holds the mutex another one holds");
      bool ok = mu.TryLock();
      if (ok) {
        // only possible while the main thread waits on the condition or has finished
        PBT_CHECK(step.load(RX) > 0, "TryLock succeeds while another thread holds the mutex");
        PBT_CHECK(mu.IsLockedInThisThread(), "successful TryLock, not the holder");
      } else {
        PBT_CHECK(!mu.IsLockedInThisThread(), "failed TryLock makes the caller the holder");
        blocked.fetch_add(1, RX);
        mu.Lock();
      }
      PBT_CHECK(mu.IsLockedInThisThread(), "holder is told it does not hold the mutex");
      got.fetch_add(1, RX);
      go = true;
      cond.NotifyAll();
      schedfuzz::point();
      PBT_CHECK(mu.IsLockedInThisThread(), "holder is told it does not hold the mutex after a notification");
      mu.Unlock();
      PBT_CHECK(!mu.IsLockedInThisThread(), "still the holder after Unlock");
    });
  // several looks while the others contend
  for (int i = 0; i < 20; ++i) {
    schedfuzz::point();
    PBT_CHECK(mu.IsLockedInThisThread(), "the holder is told it does not hold the mutex while others contend");
  }
  if (wait) {
    step.store(1, RX);
    while (!go) cond.Wait();
    PBT_CHECK(mu.IsLockedInThisThread(), "the waiter does not hold the mutex after the wait");
    mu.AssertLocked();
  } else
    step.store(1, RX);
  mu.Unlock();
  PBT_CHECK(!mu.IsLockedInThisThread(), "still the holder after Unlock");
  for (auto &t : ts) t.join();
  schedfuzz::off();
  PBT_CHECK(got.load(RX) == (int)n, "not every contender got the mutex");
  PBT_CHECK(!mu.IsLockedInThisThread(), "held at the end");
  pbt::nontrivial();
  pbt::label_if(blocked.load(RX) > 0, "contended");
}

struct RwCell {
  RWLock rw;
  std::atomic<int> r{0}, w{0};
  long data[4] = {0, 0, 0, 0};
  void reader(unsigned work)
  {
    r.fetch_add(1, RX);
    PBT_CHECK(w.load(RX) == 0, "a reader is inside together with a writer");
    long a = data[0];
    for (unsigned i = 0; i < work; ++i) schedfuzz::point();
    for (long x : data) PBT_CHECK(x == a, "a reader sees a half-done write");
    PBT_CHECK(w.load(RX) == 0, "a writer entered while a reader is inside");
    r.fetch_sub(1, RX);
  }
  void writer(unsigned work)
  {
    PBT_CHECK(w.fetch_add(1, RX) == 0, "two writers are inside");
    PBT_CHECK(r.load(RX) == 0, "a writer is inside together with a reader");
    for (long &x : data) {
      ++x;
      for (unsigned i = 0; i < work; ++i) schedfuzz::point();
    }
    PBT_CHECK(r.load(RX) == 0, "a reader entered while a writer is inside");
    PBT_CHECK(w.fetch_sub(1, RX) == 1, "two writers were inside");
  }
};

static void rw_suite(Gen &g)
{
  size_t nt = g.range(2, 5);
  unsigned noise = g.range(0, 3), spur = g.chance(1, 3) ? 30 : 0;
  struct RO {
    unsigned kind, work;
  };
  unsigned wr = g.range(0, 3);
  std::vector<std::vector<RO>> ops(nt);
  for (auto &v : ops) {
    size_t n = g.range(1, 12);
    for (size_t i = 0; i < n; ++i) {
      RO o{g.weighted({3, 3, 1 + wr, 1 + wr}), (unsigned)g.range(0, 3)};
      v.push_back(o);
      NOTE("thread %zu: %s, work %u", &v - &ops[0], o.kind == 0 ? "RLock" : o.kind == 1 ? "RLockGuard" : o.kind == 2 ? "WLock" : "WLockGuard", o.work);
    }
  }
  RwCell c;
  std::atomic<int> ready{0};
  std::atomic<long> writes{0}, reads{0};
  schedfuzz::setup(g.u64(), noise, spur);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      ready.fetch_add(1, RX);
      while (ready.load(RX) < (int)nt) sched_yield();
      for (auto &o : ops[t]) {
        switch (o.kind) {
          case 0:
            c.rw.RLock();
            c.reader(o.work);
            c.rw.RUnlock();
            break;
          case 1: {
            RLockGuard guard(c.rw);
            c.reader(o.work);
            break;
          }
          case 2:
            c.rw.WLock();
            c.writer(o.work);
            c.rw.WUnlock();
            break;
          default: {
            WLockGuard guard(c.rw);
            c.writer(o.work);
          }
        }
        (o.kind < 2 ? reads : writes).fetch_add(1, RX);
      }
    });
  for (auto &t : ts) t.join();
  schedfuzz::off();
  PBT_CHECK(c.data[0] == writes.load(RX), "%ld writes left the value at %ld", writes.load(RX), c.data[0]);
  c.rw.WLock();
  c.rw.WUnlock();
  c.rw.RLock();
  c.rw.RUnlock();
  if (writes.load(RX) && reads.load(RX) && noise) pbt::nontrivial();
}

// All readers can be inside together.
static void rw_share(Gen &g)
{
  unsigned n = g.range(2, 5), before = g.range(0, 2), rounds = g.range(1, 3);
  RWLock rw;
  schedfuzz::setup(g.u64(), g.range(0, 3), g.chance(1, 4) ? 20 : 0);
  NOTE("%u readers, %u writes before, %u rounds", n, before, rounds);
  for (unsigned k = 0; k < rounds; ++k) {
    for (unsigned i = 0; i < before; ++i) {
      WLockGuard guard(rw);
    }
    bool held = g.boolean();   // readers arrive while a writer is inside
    if (held) rw.WLock();
    std::atomic<unsigned> in{0}, arrived{0};
    std::atomic<bool> open{!held};
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < n; ++i)
      ts.emplace_back([&] {
        arrived.fetch_add(1, RX);
        RLockGuard guard(rw);
        PBT_CHECK(open.load(RX), "a reader enters while a writer is inside");
        in.fetch_add(1, RX);
        while (in.load(RX) < n) sched_yield();
      });
    if (held) {
      while (arrived.load(RX) < n) sched_yield();
      for (int i = 0; i < 10; ++i) schedfuzz::point();
      PBT_CHECK(in.load(RX) == 0, "a reader is inside together with a writer");
      open.store(true, RX);
      rw.WUnlock();
    }
    for (auto &t : ts) t.join();
  }
  schedfuzz::off();
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.nondet = o.sound = true;
  o.hang_s = 15;
  o.quick = 24000; o.thorough = 500000;
  pbt::suite("mutex", "threads run random lock/guard/try-lock/nested/wait scripts over one or two mutexes", o, mutex_suite);
  o.quick = 10000; o.thorough = 200000;
  pbt::suite("holder", "who is told to hold the mutex while others contend or the holder waits", o, holder_suite);
  o.quick = 20000; o.thorough = 400000;
  pbt::suite("rwlock", "threads run random reader/writer scripts over one read/write lock", o, rw_suite);
  o.quick = 6000; o.thorough = 100000;
  pbt::suite("rw_share", "several readers are inside together, also after a writer leaves", o, rw_share);
  return pbt::run(argc, argv, {"T01", "at least 4 critical sections by 2+ threads with schedule noise (mutex), reads and writes both present (rwlock), every holder/share case",
    {"schedules are sampled with injected noise at every pthread call, not enumerated", "std::thread, pthread and ThreadSanitizer are trusted"}});
}
