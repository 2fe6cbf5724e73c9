// T02: count-down latches and condition variables.
#include "pbt.h"
#include "schedfuzz.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <vector>
#include "kanon/thread/condition.h"
#include "kanon/thread/count_down_latch.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

static double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Rounds over one latch.  In each round the waiters may only return after all
// count-downs of the round have begun, and all of them return.
static void latch_suite(Gen &g)
{
  unsigned rounds = g.range(1, 3), spur = g.chance(1, 2) ? (unsigned)g.range(10, 70) : 0, noise = g.range(0, 3);
  int n0 = (int)g.range(0, 5);
  CountDownLatch latch(n0);
  schedfuzz::setup(g.u64(), noise, spur);
  bool nt = false;
  for (unsigned r = 0; r < rounds; ++r) {
    int n = r == 0 ? n0 : (int)g.range(0, 5);
    unsigned how = r == 0 ? 0 : g.range(0, 2);   // how the count gets to n
    int inc = g.chance(1, 3) ? (int)g.range(1, 3) : 0;   // increase while waiters wait
    unsigned incHow = g.range(0, 2);
    unsigned w = g.range(0, 4), c = g.range(1, 3);
    unsigned early = g.range(0, (unsigned)n);   // count-downs before anybody waits
    unsigned fin = g.weighted({4, 1, 1, 2});    // last step: Countdown, Decr, Reset(0), Minus(the rest and perhaps more)
    int rest = fin == 3 ? (int)g.range(1, 3) : 1, over = fin == 3 ? (int)g.weighted({2, 1, 1}) : 0;
    NOTE("round %u: n=%d (%s) waiters=%u counters=%u early=%u increase=%d finish=%u (%d, %d more) noise=%u spurious=%u", r, n, how == 0 ? "ctor/Reset" : how == 1 ? "Add" : "Incr", w, c, early, inc, fin, rest, over, noise, spur);
    if (r) {
      PBT_CHECK(latch.GetCount() == 0, "count is %d after all count-downs", latch.GetCount());
      if (how == 0)
        latch.Reset(n);
      else if (how == 1)
        latch.Add(n);
      else
        for (int i = 0; i < n; ++i) latch.Incr();
    }
    PBT_CHECK(latch.GetCount() == n, "count is %d, want %d", latch.GetCount(), n);
    std::atomic<int> begun{0};
    for (unsigned i = 0; i < early; ++i) {
      begun.fetch_add(1, RX);
      latch.Countdown();
    }
    PBT_CHECK(latch.GetCount() == n - (int)early, "count is %d after %u count-downs from %d", latch.GetCount(), early, n);
    int total = n;
    bool can_inc = inc && n - (int)early > 0;
    if (can_inc) total += inc;
    if (!can_inc) inc = 0;
    std::atomic<unsigned> returned{0}, entered{0};
    std::vector<std::thread> ts;
    std::vector<long> data(total + 1, 0);   // written before each count-down, read after the wait
    for (unsigned i = 0; i < w; ++i)
      ts.emplace_back([&] {
        entered.fetch_add(1, RX);
        latch.Wait();
        PBT_CHECK(begun.load(RX) == total, "Wait() returns after %d of %d count-downs", begun.load(RX), total);
        for (int k = (int)early; k < total; ++k) PBT_CHECK(data[k] == k + 1, "what a counting thread wrote is not visible after Wait()");
        returned.fetch_add(1, RX);
      });
    // increase while somebody may be waiting, before the count can reach 0
    if (inc) {
      for (int i = 0; i < 3; ++i) schedfuzz::point();
      if (incHow == 0)
        latch.Add(inc);
      else if (incHow == 1)
        for (int i = 0; i < inc; ++i) latch.Incr();
      else
        ts.emplace_back([&] {   // the one who increases waits as well
          entered.fetch_add(1, RX);
          if (inc == 1)
            latch.IncrAndWait();
          else
            latch.AddAndWait(inc);
          PBT_CHECK(begun.load(RX) == total, "AddAndWait() returns after %d of %d count-downs", begun.load(RX), total);
          returned.fetch_add(1, RX);
        });
      if (incHow == 2)
        while (latch.GetCount() != total - (int)early) sched_yield();
      PBT_CHECK(latch.GetCount() == total - (int)early, "count is %d after an increase, want %d", latch.GetCount(), total - (int)early);
    }
    std::atomic<int> next{(int)early};
    std::vector<std::thread> cs;
    int last = fin ? total - rest : total;   // the last one is done by this thread in another way
    if (last < (int)early && fin != 3) last = (int)early, fin = 0;
    if (last < (int)early) last = (int)early;
    for (unsigned i = 0; i < c; ++i)
      cs.emplace_back([&] {
        for (int k; (k = next.fetch_add(1, RX)) < last;) {
          data[k] = k + 1;
          begun.fetch_add(1, RX);
          latch.Countdown();
          PBT_CHECK(latch.GetCount() >= 0, "count below zero");
        }
      });
    for (auto &t : cs) t.join();
    const bool finished = fin && last < total;
    if (finished) {
      for (int i = 0; i < 3; ++i) schedfuzz::point();
      PBT_CHECK(returned.load(RX) == 0, "a waiter returned with one count-down missing");
      rest = total - last;
      for (int k = last; k < total; ++k) data[k] = k + 1, begun.fetch_add(1, RX);
      if (fin == 1)
        latch.Decr();
      else if (fin == 3)
        latch.Minus(rest + over);
      else
        latch.Reset(0);
    }
    for (auto &t : ts) t.join();   // a waiter that is not released is a hang
    const int left = finished && fin == 3 ? -over : 0;
    PBT_CHECK(latch.GetCount() == left, "count is %d at the end of a round, want %d", latch.GetCount(), left);
    latch.Wait();   // the event has happened: returns at once
    if (left < 0) latch.Reset(0);
    pbt::label_if(left < 0, "count passes zero");
    if (w && total > (int)early) nt = true;
    pbt::label_if(inc && incHow == 2, "increase-and-wait");
    pbt::label_if(fin == 2, "finished by Reset(0)");
  }
  schedfuzz::off();
  if (nt && (noise || spur)) pbt::nontrivial();
  pbt::label_if(schedfuzz::spurious_count() > 0, "spurious wakeups");
}

// A waiter released by the event returns even if the latch is used again at once.
static void latch_reuse(Gen &g)
{
  unsigned w = g.range(1, 4);
  int n = (int)g.range(1, 3);
  unsigned how = g.range(0, 2);
  NOTE("%u waiters, ResetAndWait(%d) in one, reused by %u", w, n, how);
  CountDownLatch latch(1);
  schedfuzz::setup(g.u64(), g.range(0, 3), g.chance(1, 2) ? 40 : 0);
  std::atomic<int> phase{0};
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < w; ++i)
    ts.emplace_back([&] {
      latch.Wait();
      PBT_CHECK(phase.load(RX) >= 1, "Wait() returns before the count-down");
    });
  std::vector<std::thread> fin;
  phase.store(1, RX);
  latch.Countdown();
  for (auto &t : ts) t.join();
  // ResetAndWait by several threads in turn
  std::atomic<int> begun{0};
  std::thread waiter([&] {
    latch.ResetAndWait(n);
    PBT_CHECK(begun.load(RX) == n, "ResetAndWait(%d) returns after %d count-downs", n, begun.load(RX));
  });
  while (latch.GetCount() != n) sched_yield();
  for (int i = 0; i < n; ++i) {
    begun.fetch_add(1, RX);
    latch.Countdown();
    schedfuzz::point();
  }
  waiter.join();
  schedfuzz::off();
  pbt::nontrivial();
}

// Condition: each notification wakes at least one, a broadcast all; the mutex
// is held when a wait returns.
static void cond_suite(Gen &g)
{
  MutexLock mu;
  Condition cond(mu);
  unsigned n = g.range(1, 5), noise = g.range(0, 3);
  schedfuzz::setup(g.u64(), noise, 0);
  unsigned waiting = 0, tickets = 0, woken = 0, gen = 0;   // guarded by mu
  bool all = false;
  bool timed = g.boolean();
  NOTE("%u waiters, %s waits, noise %u", n, timed ? "timed" : "plain", noise);
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; ++i)
    ts.emplace_back([&] {
      mu.Lock();
      ++waiting;
      while (tickets == 0 && !all) {
        unsigned before = gen;
        bool to = false;
        double t0 = now();
        if (timed)
          to = cond.WaitForSeconds(60.0);
        else
          cond.Wait();
        PBT_CHECK(mu.IsLockedInThisThread(), "a wait returns without the mutex");
        PBT_CHECK(!to || now() - t0 >= 59.9, "a wait of 60 s reports a timeout after %.3f s", now() - t0);
        (void)before;
      }
      if (!all) --tickets;
      ++woken;
      --waiting;
      mu.Unlock();
    });
  // wait until all wait
  auto lock_when = [&](auto pred) {
    for (;;) {
      mu.Lock();
      if (pred()) return;
      mu.Unlock();
      sched_yield();
    }
  };
  lock_when([&] { return waiting == n; });
  unsigned left = n;
  mu.Unlock();
  unsigned steps = g.range(1, 3);
  for (unsigned s = 0; s < steps && left; ++s) {
    bool bc = g.chance(1, 4);
    mu.Lock();
    ++gen;
    if (bc) {
      all = true;
      cond.NotifyAll();
      mu.Unlock();
      lock_when([&] { return woken == n; });
      left = 0;
      mu.Unlock();
      pbt::label("broadcast");
    } else {
      unsigned k = g.range(1, left);
      tickets += k;
      bool inside = g.boolean();
      if (inside)
        for (unsigned i = 0; i < k; ++i) cond.Notify();
      mu.Unlock();
      if (!inside)
        for (unsigned i = 0; i < k; ++i) cond.Notify();
      left -= k;
      lock_when([&] { return woken == n - left; });   // each notification wakes at least one
      PBT_CHECK(waiting == left && tickets == 0, "waiters wake without a ticket");
      mu.Unlock();
    }
  }
  if (left) {
    mu.Lock();
    all = true;
    cond.NotifyAll();
    mu.Unlock();
  }
  for (auto &t : ts) t.join();
  schedfuzz::off();
  PBT_CHECK(!mu.IsLockedInThisThread(), "held at the end");
  if (noise) pbt::nontrivial();
}

static void timed_suite(Gen &g)
{
  MutexLock mu;
  Condition cond(mu);
  // 0: nothing notifies; 1: notified long before the time is over
  bool notified = g.boolean();
  unsigned kind = g.weighted({6, 2, 1, 1, 1});
  double secs = kind == 0 ? g.range(0, 4000) * 1e-6 : kind == 1 ? -(double)g.range(0, 1000) : kind == 2 ? 0.0 : kind == 3 ? 0.000999999999 : -1e300;
  schedfuzz::setup(g.u64(), g.range(0, 2), 0);
  if (!notified) {
    NOTE("WaitForSeconds(%g), nobody notifies", secs);
    mu.Lock();
    bool to = false;
    double t0 = now(), el = 0;
    int early = 0;
    for (; early < 30; ++early) {   // a return that is no timeout would be a spurious wakeup
      if (g.boolean() && kind == 2)
        to = cond.WaitForSeconds(0);   // integral overload
      else
        to = cond.WaitForSeconds(secs);
      el = now() - t0;
      PBT_CHECK(mu.IsLockedInThisThread(), "a timed wait returns without the mutex");
      if (to) break;
    }
    mu.Unlock();
    PBT_CHECK(to, "no timeout reported by 30 waits of %g s that nobody notifies", secs);
    PBT_CHECK(el >= secs - 2e-4, "WaitForSeconds(%g) reports a timeout after %.6f s", secs, el);
    pbt::label_if(secs < 0, "negative time");
    pbt::nontrivial();
  } else {
    double big = g.pick({5.0, 3600.0, 1e5, 1e9, 2e10, 1e12, 1e30});
    bool integral = big < 1e6 && g.boolean();
    NOTE("WaitForSeconds(%g%s), notified", big, integral ? ", integral" : "");
    bool flag = false, in = false;
    std::thread t([&] {
      mu.Lock();
      in = true;
      double t0 = now();
      while (!flag) {
        bool to = integral ? cond.WaitForSeconds((int)big) : cond.WaitForSeconds(big);
        PBT_CHECK(mu.IsLockedInThisThread(), "a timed wait returns without the mutex");
        PBT_CHECK(!to || now() - t0 >= std::min(big, 1e8) - 0.01, "WaitForSeconds(%g) reports a timeout after %.3f s", big, now() - t0);
      }
      mu.Unlock();
    });
    for (;;) {
      mu.Lock();
      if (in) break;
      mu.Unlock();
      sched_yield();
    }
    flag = true;
    if (g.boolean())
      cond.Notify();
    else
      cond.NotifyAll();
    mu.Unlock();
    t.join();
    pbt::nontrivial();
  }
  schedfuzz::off();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.nondet = o.sound = true;
  o.hang_s = 15;
  o.quick = 20000; o.thorough = 400000;
  pbt::suite("latch", "rounds of waiters and counting threads over one latch, with spurious wakeups", o, latch_suite);
  o.quick = 8000; o.thorough = 150000;
  pbt::suite("latch_reuse", "waits, then ResetAndWait on the same latch", o, latch_reuse);
  o.quick = 10000; o.thorough = 200000;
  pbt::suite("condition", "notify k times / broadcast with all waiters blocked", o, cond_suite);
  o.quick = 12000; o.thorough = 200000;
  pbt::suite("timed", "timed waits, notified or not, including negative and huge times", o, timed_suite);
  return pbt::run(argc, argv, {"T02", "waiters present while counting with schedule noise or spurious wakeups; every reuse and timed case",
    {"schedules are sampled with injected noise and spurious wakeups, not enumerated", "timed waits are measured against CLOCK_MONOTONIC with 0.2 ms tolerance for early return (the code waits on CLOCK_REALTIME)"}});
}
