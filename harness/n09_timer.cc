// N09: timers of an event loop.
// The first suite runs the loop on a virtual clock: the time calls, the
// timerfd and the blocking of the poll calls are replaced at link time, so
// that the whole history is deterministic and "fires when due" is decidable.
#include "pbt.h"
#include "loud.h"
#include "schedfuzz.h"
#include "vclock.h"
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <sanitizer/asan_interface.h>
#include "kanon/thread/current_thread.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/timer/timer.h"
#include "kanon/log/logger.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

// ---- a small block pool that reuses the storage of dead timers at once --------
// (ASan's quarantine would hide what happens when a new timer gets the address
// of a dead one; freed blocks are poisoned until they are reused)
static std::atomic<bool> g_reuse{false};
static std::vector<void *> *g_free;
static std::set<void *> *g_mine;
static std::mutex *g_pm;
static void *pool_get(size_t n)
{
  if (!g_reuse.load(RX) || n != sizeof(Timer)) return nullptr;
  std::lock_guard<std::mutex> l(*g_pm);
  if (g_free->empty()) {
    void *p = malloc(n);
    g_reuse.store(false, RX);
    g_mine->insert(p);
    g_reuse.store(true, RX);
    return p;
  }
  void *p = g_free->back();
  g_free->pop_back();
  __asan_unpoison_memory_region(p, n);
  return p;
}
static bool pool_put(void *p)
{
  if (!g_mine || g_mine->empty()) return false;
  std::lock_guard<std::mutex> l(*g_pm);
  if (!g_mine->count(p)) return false;
  __asan_poison_memory_region(p, sizeof(Timer));
  g_free->push_back(p);
  return true;
}
void *operator new(size_t n)
{
  void *p = pool_get(n);
  if (!p) p = malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept
{
  if (p && !pool_put(p)) free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
static void pool_begin(bool on)
{
  if (!g_pm) {
    g_pm = new std::mutex;
    g_free = new std::vector<void *>;
    g_free->reserve(1 << 16);
    g_mine = new std::set<void *>;
  }
  g_reuse = on;
}
static void pool_end() { g_reuse = false; }

static void begin_case(Gen &g)
{
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  logging(g);
}

static std::atomic<int> g_tokens;
struct Token {
  Token() { g_tokens.fetch_add(1, RX); }
  Token(Token const &) { g_tokens.fetch_add(1, RX); }
  Token(Token &&) { g_tokens.fetch_add(1, RX); }
  ~Token() { g_tokens.fetch_sub(1, RX); }
};

// ---------------------------------------------------------------------------
struct VTimer {
  int64_t lo, hi;            // the next due time lies in [lo, hi]
  int64_t interval = 0;      // 0: one-shot
  bool live = true;          // will fire (again)
  int fires = 0;
  unsigned long added = 0;   // number of polls when it was added
  TimerId id;
};

static void virtual_case(Gen &g)
{
  begin_case(g);
  g_now = 1500000000000000 + (int64_t)g.range(0, 2000000);
  g_deadline = 0;
  g_polls = 0;
  g_tick = g.pick<unsigned>({0, 0, 1, 3});
  g_tokens = 0;
  unsigned kind = g.range(0, 2);
  bool reuse = g.boolean();
  bool big = g.chance(1, 100);   // hundreds of timers at once
  unsigned budget_fires = big ? 1500 : 120, budget_timers = (unsigned)g.range(1, big ? 600 : 40);
  NOTE("%s loop, clock moves %u us per look%s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", g_tick, reuse ? ", storage reused at once" : "");
  g_virtual = true;
  pool_begin(reuse);
  unsigned fires = 0, cancels = 0, batch2 = 0, incb = 0, othercancel = 0;
  bool early_cancel_fired = false;
  {
    std::unique_ptr<EventLoop> loop(new EventLoop(kind == 0));
    if (kind == 2) loop->SetEdgeTriggerMode();
    std::vector<std::unique_ptr<VTimer>> ts;
    bool in_cb = false, dtor_ops = true;
    size_t current = 0;
    unsigned long last_batch = 0;
    std::function<void(bool)> op;

    auto live_count = [&] {
      int n = 0;
      for (auto &t : ts) n += t->live;
      return n;
    };
    auto cb = [&](size_t i) {
      VTimer &t = *ts[i];
      int64_t now = g_now;
      PBT_CHECK(t.live, "timer %zu fires although it was %s", i, t.interval || !t.fires ? "cancelled" : "fired already");
      PBT_CHECK(now >= t.lo, "timer %zu fires %lld us before it is due", i, (long long)(t.lo - now));
      PBT_CHECK(!in_cb, "timer %zu fires inside another timer's callback", i);
      for (size_t j = 0; j < ts.size(); ++j) {
        VTimer &o = *ts[j];
        PBT_CHECK(j == i || !o.live || o.added >= g_polls || o.hi >= t.lo, "timer %zu fires before timer %zu, which was due at least %lld us earlier", i, j, (long long)(t.lo - o.hi));
      }
      ++t.fires;
      ++fires;
      if (last_batch == g_polls) ++batch2;
      last_batch = g_polls;
      if (t.interval) {
        t.lo += t.interval;
        t.hi = now + t.interval;
        t.added = g_polls;
      } else
        t.live = false;
      NOTE("timer %zu fires at +%lld", i, (long long)(now - 1500000000000000));
      in_cb = true;
      current = i;
      if (g.chance(1, 4)) {
        int64_t slow = g.pick<int64_t>({50, 900, 1000, 5000, 20000});
        NOTE("  the callback takes %lld us", (long long)slow);
        g_now += slow;
      }
      if (t.interval) t.hi = std::max(t.hi, g_now + t.interval);
      unsigned n = g.weighted({4, 4, 2, 1});
      while (n--) op(true);
      if (fires > budget_fires) {
        NOTE("  cancels all");
        for (auto &o : ts) {
          loop->CancelTimer(o->id);
          o->live = false;
        }
        budget_timers = 0;
      }
      in_cb = false;
    };
    auto add = [&] {
      if (!budget_timers) return;
      --budget_timers;
      ts.emplace_back(new VTimer);
      size_t i = ts.size() - 1;
      VTimer &t = *ts[i];
      int64_t d = g.weighted({8, 1, 1}) == 0 ? g.pick<int64_t>({0, 0, 99, 100, 101, 1000, 1000, 2000, 5000, 10000, 999999, 1000000, 1000001}) : g.chance(1, 2) ? (int64_t)g.range(0, 30000) : (int64_t)g.range(0, 400) * 86400000000;
      unsigned how = g.range(0, 6);
      Token tok;
      std::shared_ptr<void> last;
      if (g.chance(1, 6)) last = std::shared_ptr<void>((void *)1, [&, i](void *) {
        if (!dtor_ops) return;
        NOTE("%sthe callback of timer %zu is released:", in_cb ? "  " : "", i);
        op(true);
      });
      auto f = [tok, last, &cb, i] { cb(i); };
      last.reset();
      t.added = g_polls;
      int64_t b = g_now;
      int64_t slack = 0;
      switch (how) {
        case 0: t.id = loop->RunAt(f, TimeStamp(b + d)), t.lo = t.hi = b + d; break;
        case 1: {
          int64_t past = b - (int64_t)g.range(0, 5000);
          t.id = loop->RunAt(f, TimeStamp(past)), t.lo = t.hi = past;
          d = past - b;
          break;
        }
        case 2: t.id = loop->RunAfter(f, d / 1e6), slack = 1; break;
        case 3: d -= d % 1000, t.id = loop->RunAfterMs(f, d / 1000); break;
        case 4: t.id = loop->RunAfterUs(f, d); break;
        case 5:
          t.interval = g.pick<int64_t>({1000, 1000, 2000, 7000, 1000000});
          d = t.interval;
          t.id = loop->RunEvery(f, t.interval / 1e6), slack = 1;
          break;
        default:
          t.interval = g.pick<int64_t>({1000, 1000, 2000, 7000, 1000000});
          t.id = loop->RunEvery(f, TimeStamp(b + d), t.interval / 1e6), t.lo = t.hi = b + d;
      }
      if (how >= 2 && how <= 5) t.lo = b + d - slack, t.hi = g_now + d + slack;
      NOTE("%sadd timer %zu: due in %lld us%s", in_cb ? "  " : "", i, (long long)d, t.interval ? (", every " + std::to_string(t.interval) + " us").c_str() : "");
      if (in_cb) ++incb;
    };
    op = [&](bool) {
      switch (g.weighted({5, 3, 1, 1})) {
        case 0: add(); break;
        case 1:
        case 2: {
          if (ts.empty()) return;
          size_t i = in_cb && g.chance(1, 3) ? current : g.range(0, ts.size() - 1);
          NOTE("%scancel timer %zu%s", in_cb ? "  " : "", i, ts[i]->live ? "" : " (over)");
          loop->CancelTimer(ts[i]->id);
          if (ts[i]->live) {
            ++cancels;
            if (in_cb && i != current) ++othercancel;
          } else
            early_cancel_fired = true;
          ts[i]->live = false;
          break;
        }
        default:
          NOTE("%squeue a function", in_cb ? "  " : "");
          loop->QueueToLoop([&] { op(false); });
      }
    };
    g_idle = [&]() -> bool {
      // the loop is about to block
      int live = live_count();
      PBT_CHECK(g_tokens.load() == live, "%d timers are pending, but %d callbacks are still held", live, g_tokens.load());
      if (!live) {
        if (budget_timers) {
          loop->QueueToLoop([&] { op(false); });
          add();
          return true;   // the wake-up is ready now
        }
        loop->Quit();
        return false;
      }
      int64_t first = INT64_MAX;
      size_t fi = 0;
      for (size_t i = 0; i < ts.size(); ++i)
        if (ts[i]->live && ts[i]->hi < first) first = ts[i]->hi, fi = i;
      PBT_CHECK(g_deadline, "the loop blocks with timer %zu pending, but the timer descriptor is not armed", fi);
      PBT_CHECK(g_deadline <= std::max(first, g_now) + 1000, "the loop blocks until %lld us after timer %zu is due", (long long)(g_deadline - std::max(first, g_now)), fi);
      int64_t to = std::max(g_deadline, g_now);
      switch (g.weighted({5, 2, 1})) {
        case 1: to += (int64_t)g.range(0, 3000); break;
        case 2: to += (int64_t)g.range(0, 100000); break;
        default:;
      }
      g_now = to;
      return true;
    };
    size_t initial = big ? g.range(0, 600) : g.range(0, 6);
    while (initial--) op(false);
    loop->QueueToLoop([&] { op(false); });
    loop->StartLoop();
    dtor_ops = false;
    // what is left is released with the loop
    while (g.chance(1, 3)) {
      ++budget_timers;
      add();
    }
    loop.reset();
  }
  g_virtual = false;
  pool_end();
  PBT_CHECK(g_tokens.load() == 0, "%d timer callbacks outlive the loop", g_tokens.load());
  if (fires >= 2 && (cancels || incb)) pbt::nontrivial();
  pbt::label_if(batch2, "several timers in one batch");
  pbt::label_if(othercancel, "cancelled from another timer's callback");
  pbt::label_if(early_cancel_fired, "cancelled when over");
  pbt::label_if(incb, "added from a callback");
}

// ---------------------------------------------------------------------------
// Real time, timers added and cancelled by other threads.
static int64_t real_us()
{
  timeval tv;
  __real_gettimeofday(&tv, nullptr);
  return tv.tv_sec * 1000000LL + tv.tv_usec;
}

struct RTimer {
  int64_t lo = 0;
  int64_t interval = 0, delay = 0;
  unsigned owner = 0;
  bool cancel = false;        // by whom: the adding thread, after a pause
  unsigned pause = 0;
  bool twice = false;
  unsigned api = 0;
  std::atomic<int> fires{0};
  std::atomic<bool> cancelled{false};   // set in the loop, after the cancel took effect
  std::atomic<bool> wanted{true};
  TimerId id;
};

static void threads_case(Gen &g)
{
  begin_case(g);
  g_tokens = 0;
  unsigned nthr = g.range(1, 3), kind = g.range(0, 2), noise = g.range(0, 3);
  unsigned n = g.range(1, 12);
  std::vector<std::unique_ptr<RTimer>> ts;
  unsigned required = 0;
  for (unsigned i = 0; i < n; ++i) {
    ts.emplace_back(new RTimer);
    RTimer &t = *ts[i];
    t.owner = g.range(1, nthr);
    t.api = g.range(0, 2);
    t.delay = g.pick<int64_t>({0, 0, 100, 300, 1000, 2000});
    t.interval = g.chance(1, 3) ? g.pick<int64_t>({200, 500, 1000}) : 0;
    t.cancel = t.interval || g.chance(1, 3);
    t.pause = g.pick<unsigned>({0, 0, 50, 200, 1000, 2500});
    t.twice = g.chance(1, 4);
    if (!t.cancel) ++required;
    NOTE("timer %u: thread %u, due in %lld us%s%s", i, t.owner, (long long)t.delay, t.interval ? (", every " + std::to_string(t.interval) + " us").c_str() : "", t.cancel ? (", cancelled " + std::to_string(t.pause) + " us later").c_str() : "");
  }
  NOTE("%u threads, %s loop, noise %u", nthr, kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", noise);
  schedfuzz::setup(g.u64(), noise, 0);
  pool_begin(g.boolean());
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<long> tid{0};
  std::atomic<bool> over{false};
  std::thread lt([&] {
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    tid = syscall(SYS_gettid);
    lp = &loop;
    loop.StartLoop();
    while (!over) usleep(50);
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;
  std::atomic<unsigned> done{0};
  std::vector<std::thread> th;
  for (unsigned k = 1; k <= nthr; ++k)
    th.emplace_back([&, k] {
      for (auto &tp : ts) {
        RTimer &t = *tp;
        if (t.owner != k) continue;
        Token tok;
        RTimer *p = &t;
        auto f = [p, tok, &tid, &done] {
          PBT_CHECK(syscall(SYS_gettid) == tid, "a timer fires in another thread than the loop's");
          PBT_CHECK(!p->cancelled, "a timer fires after its cancellation took effect");
          int64_t now = real_us();
          int k = p->fires++;
          PBT_CHECK(k == 0 || p->interval, "a one-shot timer fires twice");
          PBT_CHECK(now >= p->lo + k * p->interval, "a timer fires %lld us early", (long long)(p->lo + k * p->interval - now));
          if (!p->cancel) done++;
        };
        t.lo = real_us() + t.delay - (t.delay || t.interval ? 1 : 0);
        if (t.interval)
          t.id = loop->RunEvery(f, TimeStamp(t.lo), t.interval / 1e6);
        else if (t.api == 0)
          t.id = loop->RunAfterUs(f, t.delay);
        else if (t.api == 1)
          t.id = loop->RunAt(f, TimeStamp(t.lo));
        else
          t.id = loop->RunAfter(f, t.delay / 1e6);
        if (t.cancel) {
          if (t.pause) usleep(t.pause);
          loop->CancelTimer(t.id);
          loop->QueueToLoop([p] { p->cancelled = true; });
          if (t.twice) loop->CancelTimer(t.id);
        }
      }
    });
  for (auto &t : th) t.join();
  // every timer that is not cancelled fires: a hang otherwise
  while (done < required) usleep(100);
  if (g.boolean()) usleep(500);
  loop->Quit();
  over = true;
  lt.join();
  schedfuzz::off();
  pool_end();
  int fired = 0;
  for (auto &t : ts) {
    fired += t->fires;
    if (!t->cancel) PBT_CHECK(t->fires == 1, "a one-shot timer fired %d times", t->fires.load());
  }
  PBT_CHECK(g_tokens.load() == 0, "%d timer callbacks outlive the loop", g_tokens.load());
  if (fired) pbt::nontrivial();
  pbt::label_if(required < n, "cancelled from another thread");
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N09";
  cfg.rule = "at least two timers fired and timers were cancelled or added from callbacks (threads: a timer added by another thread fired)";
  cfg.assumptions = {"virtual clock: gettimeofday/clock_gettime, timerfd and the blocking of epoll/poll are simulated; the wall clock does not step backwards",
                     "threads suite: schedules and delays are sampled in real time"};
  pbt::SuiteOpt o;
  o.quick = 60000;
  pbt::suite("virtual", "timer histories on a virtual clock", o, virtual_case);
  o.nondet = true;
  o.sound = true;
  o.hang_s = 15;
  o.quick = 4000;
  pbt::suite("threads", "timers added and cancelled from other threads", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
