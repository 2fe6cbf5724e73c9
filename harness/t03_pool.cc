// T03: thread pool.
#include "pbt.h"
#include "schedfuzz.h"
#include <dirent.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_pool.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

static int mytid() { return (int)syscall(SYS_gettid); }
static void nap(unsigned us)
{
  timespec t{0, (long)us * 1000};
  nanosleep(&t, nullptr);
}

// Every worker has been joined: only this thread is left (a joined thread may
// take a moment to disappear).
static void joined()
{
  int n = 0;
  for (int i = 0; i < 400; ++i) {
    n = 0;
    DIR *d = opendir("/proc/self/task");
    while (dirent *e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
    if (n == 1) return;
    nap(5000);
  }
  PBT_CHECK(n == 1, "%d threads are left after the pool was destroyed", n - 1);
}

struct World {
  struct T {
    std::atomic<int> runs{0};
    int tid = 0;
    unsigned submitter = 0, seq = 0;
  };
  std::vector<T> tasks;
  std::atomic<int> running{0}, peak{0}, done{0};
  int max_workers;
  std::string prefix;
  std::vector<unsigned> next;   // per submitter, used with one worker only
  World(size_t n, int w, std::string p) : tasks(n), max_workers(w), prefix(p) {}
  void begin(size_t i)
  {
    T &t = tasks[i];
    int r = running.fetch_add(1, RX) + 1;
    PBT_CHECK(r <= max_workers, "%d tasks run at once in a pool of %d workers", r, max_workers);
    int k = t.runs.fetch_add(1, RX) + 1;
    PBT_CHECK(k == 1, "task %zu runs %d times", i, k);
    t.tid = mytid();
    PBT_CHECK(t.tid != getpid(), "a task runs in the submitting thread");
    char const *nm = CurrentThread::tidName();
    PBT_CHECK(nm && strncmp(nm, prefix.c_str(), prefix.size()) == 0, "a task runs in thread '%s', not in a worker of '%s'", nm ? nm : "(none)", prefix.c_str());
    int idx = atoi(nm + prefix.size());
    PBT_CHECK(idx >= 0 && idx < max_workers, "a task runs in thread '%s' of a pool of %d", nm, max_workers);
  }
  void end()
  {
    running.fetch_sub(1, RX);
    done.fetch_add(1, RX);
  }
  void finished(size_t n)
  {
    for (size_t i = 0; i < n; ++i) PBT_CHECK(tasks[i].runs.load(RX) == 1, "task %zu of %zu ran %d times by the time the pool was destroyed", i, n, tasks[i].runs.load(RX));
    PBT_CHECK(running.load(RX) == 0, "tasks still run after the pool is destroyed");
    std::set<int> tids;
    for (size_t i = 0; i < n; ++i) tids.insert(tasks[i].tid);
    PBT_CHECK((int)tids.size() <= max_workers, "tasks ran in %zu threads of a pool of %d workers", tids.size(), max_workers);
  }
};

static void tasks_suite(Gen &g)
{
  int workers = (int)g.range(1, 4), maxq = (int)g.range(1, 6);
  unsigned subs = g.range(1, 3), noise = g.range(0, 3), spur = g.chance(1, 2) ? 30 : 0;
  bool big = g.chance(1, 150);
  std::vector<unsigned> per(subs);
  std::vector<std::vector<unsigned>> work(subs);
  size_t total = 0;
  for (unsigned s = 0; s < subs; ++s) {
    per[s] = (unsigned)g.size(big ? 2000 : 20);
    for (unsigned i = 0; i < per[s]; ++i) work[s].push_back(g.weighted({5, 3, 1, 1}));
    total += per[s];
  }
  // tasks that submit a further task: only where that cannot fill the queue for ever
  bool nested = g.chance(1, 4);
  if (nested) maxq = (int)total * 2 + 1;
  bool defname = g.chance(1, 4);
  bool idle = g.boolean(), before = maxq >= (int)total && g.chance(1, 3), restart = g.chance(1, 4);
  std::string name = defname ? "ThreadPool" : "pool";
  NOTE("workers %d queue %d submitters %u (%zu tasks) nested %d, %s before destruction, %s start%s, noise %u spurious %u", workers, maxq, subs, total, nested,
       idle ? "idle" : "busy", before ? "submit before" : "submit after", restart ? " in two steps" : "", noise, spur);
  World w(total * 2 + 1, workers, name);
  std::atomic<size_t> extra{total};
  schedfuzz::setup(g.u64(), noise, spur);
  std::vector<std::vector<unsigned>> order(subs);
  size_t all = total;
  {
    auto pool = defname ? std::make_unique<ThreadPool>(maxq) : std::make_unique<ThreadPool>(maxq, name);
    auto start = [&] {
      if (restart && workers >= 2) {
        // adding workers later is allowed; the names start from 0 again
        pool->StartRun(workers - 1);
        pool->StartRun(1);
      } else
        pool->StartRun(workers);
    };
    if (!before) start();
    std::vector<std::thread> ts;
    size_t base = 0;
    for (unsigned s = 0; s < subs; ++s) {
      ts.emplace_back([&, s, base] {
        for (unsigned i = 0; i < per[s]; ++i) {
          size_t id = base + i;
          unsigned wk = work[s][i];
          pool->Push([&, id, s, i, wk] {
            w.begin(id);
            if (workers == 1) order[s].push_back(i);
            if (wk == 1) schedfuzz::point();
            if (wk == 2) nap(50);
            if (wk == 3) sched_yield();
            if (nested && (id & 1)) {
              size_t e = extra.fetch_add(1, RX);
              pool->Push([&, e] {
                w.begin(e);
                schedfuzz::point();
                w.end();
              });
            }
            w.end();
          });
        }
      });
      base += per[s];
    }
    if (before) {
      for (auto &t : ts) t.join();
      ts.clear();
      PBT_CHECK(w.done.load(RX) == 0, "a task ran before the pool was started");
      start();
    }
    for (auto &t : ts) t.join();
    if (nested)
      for (size_t i = 0; i < total; ++i) all += i & 1;
    if (idle)
      while (w.done.load(RX) < (int)all) sched_yield();
  }
  schedfuzz::off();
  PBT_CHECK(!nested || extra.load(RX) == all, "%zu nested tasks were not submitted", all - extra.load(RX));
  w.finished(all);
  if (workers == 1)
    for (unsigned s = 0; s < subs; ++s) {
      PBT_CHECK(order[s].size() == per[s], "submitter %u: %zu tasks ran", s, order[s].size());
      for (unsigned i = 0; i < per[s]; ++i) PBT_CHECK(order[s][i] == i, "one worker ran the tasks of one submitter out of order");
    }
  if (total >= 2 && noise) pbt::nontrivial();
  pbt::label_if((int)total > maxq + workers, "queue fills");
  pbt::label_if(nested && all > total, "nested");
  pbt::label_if(spur, "spurious");
  pbt::label_if((int)total > workers, "more tasks than workers");
}

// Exactly max tasks are queued while all workers are busy, the next submitter
// waits and goes on when there is room.
static void bound_suite(Gen &g)
{
  int workers = (int)g.range(1, 3), maxq = (int)g.range(1, 5);
  int lower = g.chance(1, 3) ? (int)g.range(1, maxq) : 0;     // new limit while the queue is full
  int raise = !lower && g.chance(1, 3) ? (int)g.range(1, 3) : 0;
  bool set = g.chance(1, 3);
  unsigned blocked_subs = g.range(1, 3);
  NOTE("workers %d, queue %d%s, lowered to %d, raised by %d, %u submitters beyond", workers, maxq, set ? " (by SetMaxQueueSize)" : "", lower, raise, blocked_subs);
  schedfuzz::setup(g.u64(), g.range(0, 2), 0);
  std::atomic<bool> gate{false};
  std::atomic<int> busy{0}, pushed{0}, ran{0};
  World w(workers + maxq + raise + blocked_subs, workers, "b");
  size_t id = 0;
  {
    ThreadPool pool(set ? 1 : maxq, "b");
    if (set) pool.SetMaxQueueSize(maxq);
    pool.SetMaxQueueSize(0);      // ignored
    pool.SetMaxQueueSize(-3);     // ignored
    pool.StartRun(workers);
    for (int i = 0; i < workers; ++i, ++id) {
      size_t k = id;
      pool.Push([&, k] {
        w.begin(k);
        busy.fetch_add(1, RX);
        while (!gate.load(RX)) sched_yield();
        w.end();
      });
      while (busy.load(RX) < i + 1) sched_yield();
    }
    for (int i = 0; i < maxq; ++i, ++id) {   // must not block
      size_t k = id;
      pool.Push([&, k] {
        w.begin(k);
        w.end();
      });
    }
    std::vector<std::thread> ts;
    for (unsigned s = 0; s < blocked_subs; ++s, ++id) {
      size_t k = id;
      ts.emplace_back([&, k] {
        pool.Push([&, k] {
          w.begin(k);
          w.end();
        });
        pushed.fetch_add(1, RX);
      });
    }
    nap(300 + 100 * g.range(0, 10));
    PBT_CHECK(pushed.load(RX) == 0, "a submission to a full queue of %d returns while every worker is busy", maxq);
    if (lower) {
      pool.SetMaxQueueSize(lower);
      nap(500);
      PBT_CHECK(pushed.load(RX) == 0, "a submission returns after the limit was lowered from %d to %d with %d tasks queued", maxq, lower, maxq);
    }
    if (raise) {
      pool.SetMaxQueueSize(maxq + raise);
      int want = std::min<int>(raise, blocked_subs);
      while (pushed.load(RX) < want) sched_yield();   // a submitter that is not let in is a hang
      nap(300);
      PBT_CHECK(pushed.load(RX) == want, "%d submissions got into %d free places", pushed.load(RX), raise);
    }
    gate.store(true, RX);
    for (auto &t : ts) t.join();
  }
  schedfuzz::off();
  w.finished(id);
  pbt::nontrivial();
}

// Starting and destroying with nothing, or little, to do.
static void stop_suite(Gen &g)
{
  unsigned n = g.range(1, 4);
  schedfuzz::setup(g.u64(), g.range(0, 3), g.chance(1, 3) ? 30 : 0);
  for (unsigned k = 0; k < n; ++k) {
    int workers = (int)g.range(0, 5);
    unsigned tasks = workers ? (unsigned)g.range(0, 3) : 0;
    bool empty_task = g.chance(1, 5);
    bool wait = g.boolean();
    NOTE("pool of %d, %u tasks%s, %s", workers, tasks, empty_task ? " and an empty one" : "", wait ? "wait, destroy" : "destroy at once");
    World w(tasks, workers, "s");
    {
      ThreadPool pool(5, "s");
      if (workers) pool.StartRun(workers);
      for (unsigned i = 0; i < tasks; ++i)
        pool.Push([&, i] {
          w.begin(i);
          w.end();
        });
      if (empty_task && workers) pool.Push(ThreadPool::Task());
      if (wait) nap(g.range(0, 300));
    }
    w.finished(tasks);
    if (workers) pbt::nontrivial();
  }
  schedfuzz::off();
  joined();
}

// N idle workers run N tasks at once: tasks that wait for each other all get
// through, however they are submitted.
static void together_suite(Gen &g)
{
  int workers = (int)g.range(2, 5);
  unsigned rounds = g.range(1, 4), noise = g.range(0, 3), spur = g.chance(1, 3) ? 30 : 0;
  bool two = g.boolean(), pause = g.boolean();
  std::vector<unsigned> group;
  for (unsigned r = 0; r < rounds; ++r) group.push_back((unsigned)g.range(2, workers));
  size_t total = 0;
  for (unsigned x : group) total += x;
  NOTE("%d workers, %u groups of up to %d tasks that wait for each other, %s, noise %u spurious %u", workers, rounds, workers, pause ? "from an idle pool" : "at once", noise, spur);
  schedfuzz::setup(g.u64(), noise, spur);
  World w(total, workers, "t");
  {
    ThreadPool pool((int)total + 1, "t");
    pool.StartRun(workers);
    size_t base = 0;
    for (unsigned x : group) {
      if (pause) nap(200);
      std::atomic<unsigned> arrived{0}, left{0};
      auto submit = [&](unsigned from, unsigned to) {
        for (unsigned i = from; i < to; ++i)
          pool.Push([&, i, x, base] {
            w.begin(base + i);
            arrived.fetch_add(1, RX);
            while (arrived.load(RX) < x) nap(20);   // a hang if one of them is not run
            w.end();
            left.fetch_add(1, RX);
          });
      };
      if (two) {
        std::thread other([&] { submit(0, x / 2); });
        submit(x / 2, x);
        other.join();
      } else
        submit(0, x);
      while (left.load(RX) < x) nap(20);
      base += x;
    }
  }
  schedfuzz::off();
  w.finished(total);
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.nondet = o.sound = true;
  o.hang_s = 15;
  o.quick = 24000; o.thorough = 400000;
  pbt::suite("tasks", "several submitters, tasks that submit, idle or busy destruction", o, tasks_suite);
  o.quick = 6000; o.thorough = 100000;
  pbt::suite("bound", "full queue: submitters wait, limits changed meanwhile", o, bound_suite);
  o.quick = 8000; o.thorough = 150000;
  pbt::suite("stop", "pools started and destroyed with little or nothing to do", o, stop_suite);
  o.quick = 6000; o.thorough = 100000;
  pbt::suite("together", "tasks that wait for each other, as many as there are workers", o, together_suite);
  o.quick = 3000; o.thorough = 60000;
  pbt::suite("races", "the scripts of tasks under ThreadSanitizer", o, tasks_suite);
  o.quick = 1500; o.thorough = 30000;
  pbt::suite("bound_races", "the scripts of bound under ThreadSanitizer", o, bound_suite);
  return pbt::run(argc, argv, {"T03", "at least two tasks under schedule noise; every bounded-queue case; pools with workers that are stopped",
    {"schedules are sampled with injected noise and spurious wakeups, not enumerated", "a pool is destroyed only after the submitting threads are done; tasks submit further tasks only when the queue cannot be full"}});
}
