// T04: threads, thread identity, thread-local values, atomic counters.
#include "pbt.h"
#include "kanon/util/init.h"
#include "schedfuzz.h"
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "kanon/thread/atomic.h"
#include "kanon/thread/atomic_counter.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_local.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

static int mytid() { return (int)syscall(SYS_gettid); }

// Every thread the library creates is joined or detached exactly once.
#include <mutex>
static std::mutex g_hm;
static std::map<pthread_t, int> g_handles;   // created, neither joined nor detached
static int g_fail_create = 0;
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
  if (g_fail_create) return g_fail_create;
  std::lock_guard<std::mutex> l(g_hm);
  int r = __real_pthread_create(t, a, f, x);
  if (!r) ++g_handles[*t];
  return r;
}
static void gone(pthread_t t, const char *what)
{
  std::lock_guard<std::mutex> l(g_hm);
  auto it = g_handles.find(t);
  PBT_CHECK(it != g_handles.end(), "pthread_%s() of a thread that does not exist or was already joined or detached", what);
  g_handles.erase(it);
}
int __wrap_pthread_join(pthread_t t, void **v)
{
  gone(t, "join");
  return __real_pthread_join(t, v);
}
int __wrap_pthread_detach(pthread_t t)
{
  gone(t, "detach");
  return __real_pthread_detach(t);
}
}

struct Seen {
  std::atomic<int> runs{0}, finished{0};
  int tid = 0;
  pthread_t self = 0;
  std::string name, comm;
  int main_tid = 0;
  void inside()
  {
    runs.fetch_add(1, RX);
    tid = mytid();
    self = pthread_self();
    PBT_CHECK(tid != main_tid, "the function runs in the starting thread");
    PBT_CHECK(CurrentThread::tid() == tid, "tid() is %d in thread %d", CurrentThread::tid(), tid);
    PBT_CHECK(CurrentThread::GetTid() == tid, "GetTid() is %d in thread %d", CurrentThread::GetTid(), tid);
    std::string s = std::to_string(tid);
    PBT_CHECK(s == CurrentThread::tidString() && CurrentThread::tidLength() == (int)s.size(), "tidString() is '%s' (%d) in thread %d", CurrentThread::tidString(), CurrentThread::tidLength(), tid);
    PBT_CHECK(!CurrentThread::isMainThread(), "a started thread is reported to be the main thread");
    name = CurrentThread::tidName();
    char b[17] = {};
    prctl(PR_GET_NAME, b);
    comm = b;
  }
};

static void thread_suite(Gen &g)
{
  // this process is a fork: what is cached belongs to the parent
  bool init = false;
  if (g.chance(1, 3))
    kanon::KanonCoreInitialize(), init = true;   // does that, too
  else
    CurrentThread::cacheTid();
  g_handles.clear();
  PBT_CHECK(CurrentThread::isMainThread(), "the main thread is not reported as such");
  PBT_CHECK(CurrentThread::tid() == mytid(), "tid() of the main thread");
  PBT_CHECK(std::string(CurrentThread::tidName()) == "main", "the main thread is called '%s'", CurrentThread::tidName());
  unsigned n = g.range(1, 4), noise = g.range(0, 3);
  schedfuzz::setup(g.u64(), noise, 0);
  std::vector<std::unique_ptr<Seen>> seen;
  std::vector<std::unique_ptr<Thread>> thr;
  std::vector<std::string> names;
  struct Plan {
    unsigned ctor, end, mv;
    unsigned work;
    bool keep;
  };
  std::vector<Plan> plan;
  std::set<std::string> defaults;
  for (unsigned i = 0; i < n; ++i) {
    Plan p{(unsigned)g.range(0, 2), g.weighted({4, 2}), g.weighted({4, 1, 2, 1, 1}), (unsigned)g.range(0, 3), false};
    std::string nm = g.boolean() ? "" : g.str(g.range(1, 30), "abcXYZ 019_-");
    plan.push_back(p);
    names.push_back(nm);
    NOTE("thread %u: '%s' ctor %u, %s, move %u", i, nm.c_str(), p.ctor, p.end == 0 ? "joined" : "detached", p.mv);
    seen.emplace_back(new Seen);
    Seen *s = seen.back().get();
    s->main_tid = mytid();
    auto token = std::make_shared<int>(7);
    auto fn = [s, p, token] {
      s->inside();
      for (unsigned k = 0; k < p.work; ++k) schedfuzz::point();
      if (p.work == 3) usleep(100);
      PBT_CHECK(*token == 7, "captured state is gone while the function runs");
      PBT_CHECK(s->name == CurrentThread::tidName(), "the thread name changes from '%s' to '%s' while the function runs", s->name.c_str(), CurrentThread::tidName());
      s->finished.fetch_add(1, std::memory_order_release);
    };
    std::unique_ptr<Thread> t(p.ctor == 0 ? (nm.empty() && g.boolean() ? new Thread(fn) : new Thread(fn, nm)) : new Thread(nm));
    std::string want = nm.empty() ? t->tidName() : nm;
    PBT_CHECK(!want.empty(), "a thread without a given name has no name");
    PBT_CHECK(t->tidName() == want, "tidName() is '%s', not '%s'", t->tidName().c_str(), want.c_str());
    if (nm.empty()) PBT_CHECK(defaults.insert(want).second, "two threads are called '%s' by default", want.c_str());
    names[i] = want;
    auto start = [&](Thread &x) {
      if (p.ctor == 1)
        x.StartRun(fn);
      else {
        if (p.ctor == 2) x = Thread(fn, want);
        x.StartRun();
      }
    };
    if (p.mv == 1) {   // moved before the start
      std::unique_ptr<Thread> u(new Thread(std::move(*t)));
      t = std::move(u);
      PBT_CHECK(t->tidName() == want, "the name is lost by moving");
      start(*t);
    } else {
      start(*t);
      if (p.mv == 2) {   // moved while running
        std::unique_ptr<Thread> u(new Thread(std::move(*t)));
        t = std::move(u);
      } else if (p.mv == 3) {
        Thread other([] {}, "other");
        other = std::move(*t);
        *t = std::move(other);
      } else if (p.mv == 4) {   // assigned over a thread that is still running (or not yet joined)
        Seen *s2 = nullptr;
        seen.emplace_back(new Seen);
        s2 = seen.back().get();
        s2->main_tid = mytid();
        std::unique_ptr<Thread> o(new Thread([s2] {
          s2->inside();
          schedfuzz::point();
          s2->finished.fetch_add(1, std::memory_order_release);
        }, "second"));
        o->StartRun();
        *o = std::move(*t);
        t = std::move(o);
        while (s2->finished.load(std::memory_order_acquire) == 0) sched_yield();
        PBT_CHECK(s2->runs.load(RX) == 1, "ran %d times", s2->runs.load(RX));
        std::swap(seen[seen.size() - 1], seen[seen.size() - 2]);   // keep seen.back() the thread of this plan
        s2 = nullptr;
        // account for it outside of the plan
        static std::vector<std::unique_ptr<Seen>> extra;
        extra.push_back(std::move(seen[seen.size() - 2]));
        seen.erase(seen.end() - 2);
        pbt::label("assigned over a running thread");
      }
    }
    PBT_CHECK(t->tidName() == want, "tidName() is '%s', not '%s' after the start", t->tidName().c_str(), want.c_str());
    if (p.end == 1) {
      // destroyed without join: detached, the function still runs once
      Thread::ThreadId id = t->GetPthreadId();
      t.reset();
      while (s->finished.load(std::memory_order_acquire) == 0) sched_yield();
      PBT_CHECK(s->runs.load(RX) == 1, "the function ran %d times", s->runs.load(RX));
      (void)id;
      thr.emplace_back(nullptr);
      pbt::label("detached");
    } else
      thr.push_back(std::move(t));
  }
  for (unsigned i = 0; i < n; ++i) {
    Seen &s = *seen[i];
    if (thr[i]) {
      Thread::ThreadId id = thr[i]->GetPthreadId();
      thr[i]->Join();
      PBT_CHECK(s.finished.load(std::memory_order_acquire) == 1 && s.runs.load(RX) == 1, "after Join(): begun %d times, finished %d times", s.runs.load(RX), s.finished.load(RX));
      PBT_CHECK(s.self == (pthread_t)id, "GetPthreadId() is not the thread that ran the function");
      if (g.boolean()) {
        thr[i].reset();   // after join: nothing happens
        pbt::label("destroyed after join");
      }
    }
    PBT_CHECK(s.name == names[i], "the thread calls itself '%s', its object '%s'", s.name.c_str(), names[i].c_str());
    PBT_CHECK(s.comm == names[i].substr(0, 15), "the system calls the thread '%s', its object '%s'", s.comm.c_str(), names[i].c_str());
  }
  schedfuzz::off();
  if (init) kanon::KanonCoreTeardown();
  thr.clear();
  PBT_CHECK(g_handles.empty(), "%zu threads are neither joined nor detached after their objects are gone", g_handles.size());
  PBT_CHECK(CurrentThread::isMainThread() && CurrentThread::tid() == mytid(), "the main thread's identity has changed");
  pbt::nontrivial();
}

// A thread that cannot be created: the process says why and ends.
static void fail_suite(Gen &g)
{
  int err = g.pick({EAGAIN, ENOMEM, EPERM, EINVAL});
  int noise = g.pick({0, ENOENT, EBADF, EINTR});
  NOTE("pthread_create() fails with %s, errno is %d", strerror(err), noise);
  int p[2];
  PBT_CHECK(pipe(p) == 0, "pipe");
  pid_t c = fork();
  if (c == 0) {
    dup2(p[1], 2);
    close(p[0]);
    g_fail_create = err;
    Thread t([] {});
    errno = noise;
    t.StartRun();
    _exit(55);
  }
  close(p[1]);
  std::string out;
  char b[512];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 55), "a failing pthread_create() goes unnoticed");
  PBT_CHECK(out.find(strerror(err)) != std::string::npos, "pthread_create() failed with '%s', the message is '%s'", strerror(err), out.c_str());
  pbt::nontrivial();
}

// Threads that were not created by Thread, and names given out concurrently.
static void foreign_suite(Gen &g)
{
  CurrentThread::cacheTid();
  unsigned n = g.range(2, 5), per = g.range(1, 6);
  NOTE("%u threads create %u Thread objects each", n, per);
  std::vector<std::vector<std::string>> names(n);
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> ts;
  schedfuzz::setup(g.u64(), g.range(0, 3), 0);
  for (unsigned i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      ready.fetch_add(1, RX);
      while (ready.load(RX) < n) sched_yield();
      int tid = mytid();
      if (i & 1) PBT_CHECK(!CurrentThread::isMainThread(), "a foreign thread is the main thread");
      PBT_CHECK(CurrentThread::tid() == tid, "tid() is %d in thread %d", CurrentThread::tid(), tid);
      PBT_CHECK(std::to_string(tid) == CurrentThread::tidString(), "tidString() '%s' in thread %d", CurrentThread::tidString(), tid);
      PBT_CHECK(!CurrentThread::isMainThread(), "a foreign thread is the main thread");
      for (unsigned k = 0; k < per; ++k) {
        Thread t([] {});
        names[i].push_back(t.tidName());
        if (k == 0) {
          std::atomic<int> ran{0};
          t.StartRun([&] { ran.fetch_add(1, RX); });
          t.Join();
          PBT_CHECK(ran.load(RX) == 1, "ran %d times", ran.load(RX));
        }
      }
    });
  for (auto &t : ts) t.join();
  schedfuzz::off();
  std::set<std::string> all;
  for (auto &v : names)
    for (auto &s : v) PBT_CHECK(all.insert(s).second, "two threads get the default name '%s'", s.c_str());
  pbt::nontrivial();
}

// ---- thread-local values
struct TV {
  static std::atomic<int> live, made;
  long v;
  int tid;
  explicit TV(long x = 0) : v(x), tid(mytid())
  {
    live.fetch_add(1, RX);
    made.fetch_add(1, RX);
  }
  ~TV()
  {
    // Runs when the thread ends; it still has a name (log records use it)
    char const *nm = CurrentThread::tidName();
    PBT_CHECK(nm && strlen(nm) < 1000, "a thread that ends has no name");
    PBT_CHECK(CurrentThread::tid() == tid, "a thread that ends has another id");
    live.fetch_sub(1, RX);
  }
};
std::atomic<int> TV::live{0}, TV::made{0};

static void local_suite(Gen &g)
{
  unsigned n = g.range(1, 5), vars = g.range(1, 3), ops = g.range(1, 8);
  TV::live = 0;
  TV::made = 0;
  NOTE("%u threads, %u variables, %u accesses", n, vars, ops);
  bool here = g.boolean();
  {
    std::vector<std::unique_ptr<ThreadLocal<TV>>> tl;
    for (unsigned i = 0; i < vars; ++i) tl.emplace_back(new ThreadLocal<TV>);
    std::vector<Thread> ts;
    std::vector<std::vector<unsigned>> script(n);
    for (auto &s : script)
      for (unsigned i = 0; i < ops; ++i) s.push_back((unsigned)g.range(0, vars - 1));
    schedfuzz::setup(g.u64(), g.range(0, 3), 0);
    std::atomic<int> expect{0};
    auto body = [&](unsigned t) {
      std::map<unsigned, long> model;
      for (unsigned i = 0; i < ops; ++i) {
        unsigned v = script[t][i];
        long init = 1000 * t + 10 * v + 5;
        bool first = !model.count(v);
        TV &x = tl[v]->value(init);
        if (first) {
          model[v] = init;
          expect.fetch_add(1, RX);
        }
        PBT_CHECK(x.v == model[v], "thread-local value is %ld, want %ld", x.v, model[v]);
        PBT_CHECK(x.tid == mytid(), "a thread sees another thread's value");
        x.v += i;
        model[v] += i;
        schedfuzz::point();
        ThreadLocal<TV> const &c = *tl[v];
        PBT_CHECK(&c.value() == &x, "the const access gives another object");
      }
    };
    for (unsigned t = 0; t < n; ++t) {
      ts.emplace_back(Thread([&, t] { body(t); }));
    }
    for (auto &t : ts) t.StartRun();
    for (auto &t : ts) t.Join();
    schedfuzz::off();
    PBT_CHECK(TV::made.load() == expect.load(), "%d values constructed for %d first uses", TV::made.load(), expect.load());
    PBT_CHECK(TV::live.load() == 0, "%d thread-local values outlive their threads", TV::live.load());
    (void)here;
  }
  if (n > 1) pbt::nontrivial();
}

// ---- counters: the results must come from one sequential order (an Eulerian
// trail from the first to the last value over the edges old -> new).
template <class T>
struct Edge {
  T from, to;
};
template <class T>
static void trail(std::vector<Edge<T>> const &e, T first, T last, char const *what)
{
  std::map<T, int> bal;
  std::map<T, std::vector<T>> adj;
  for (auto &x : e) {
    ++bal[x.from];
    --bal[x.to];
    adj[x.from].push_back(x.to);
    adj[x.to].push_back(x.from);
  }
  ++bal[last];
  --bal[first];
  for (auto &b : bal) PBT_CHECK(b.second == 0, "%s: the results fit no sequential order (value %lld is left %+d times too often)", what, (long long)b.first, b.second);
  if (e.empty()) return;
  std::set<T> vis;
  std::vector<T> st{first};
  while (!st.empty()) {
    T x = st.back();
    st.pop_back();
    if (!vis.insert(x).second) continue;
    for (T y : adj[x]) st.push_back(y);
  }
  for (auto &a : adj) PBT_CHECK(vis.count(a.first), "%s: the results fit no sequential order (value %lld cannot be reached)", what, (long long)a.first);
}

template <class T>
static void counter(Gen &g, char const *what)
{
  unsigned n = g.range(1, 4), ops = g.range(1, 30);
  constexpr bool sg = std::is_signed<T>::value;   // signed: stay away from overflow
  T init = sg ? (T)g.irange(-1000000, 1000000) : (T)g.u64();
  struct O {
    unsigned k;
    T d;
  };
  std::vector<std::vector<O>> script(n);
  bool ones = g.boolean();
  for (auto &s : script)
    for (unsigned i = 0; i < ops; ++i) s.push_back({(unsigned)g.range(ones ? 4 : 0, 7), (T)(g.boolean() ? g.range(0, 3) : sg ? (uint64_t)g.irange(-100000, 100000) : g.u64())});
  NOTE("%s from %lld: %u threads, %u operations each", what, (long long)init, n, ops);
  AtomicCounter<T> c(init);
  std::vector<std::vector<Edge<T>>> got(n);
  std::atomic<unsigned> ready{0};
  auto body = [&](unsigned t) {
    ready.fetch_add(1, RX);
    while (ready.load(RX) < n) sched_yield();
    for (auto &o : script[t]) {
      T r, d;
      bool old;
      switch (o.k) {
        case 0: r = c.Add(d = o.d); old = false; break;
        case 1: r = c.GetAndAdd(d = o.d); old = true; break;
        case 2: r = c.Sub(o.d), d = (T)(0 - o.d); old = false; break;
        case 3: r = c.GetAndSub(o.d), d = (T)(0 - o.d); old = true; break;
        case 4: r = ++c, d = 1; old = false; break;
        case 5: r = c++, d = 1; old = true; break;
        case 6: r = --c, d = (T)-1; old = false; break;
        default: r = c--, d = (T)-1; old = true;
      }
      if (old)
        got[t].push_back({r, (T)(r + d)});
      else
        got[t].push_back({(T)(r - d), r});
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 1; t < n; ++t) ts.emplace_back(body, t);
  body(0);
  for (auto &t : ts) t.join();
  std::vector<Edge<T>> all;
  for (auto &v : got) all.insert(all.end(), v.begin(), v.end());
  T last = c.GetValue();
  PBT_CHECK((T)c == last, "conversion and GetValue() differ");
  trail<T>(all, init, last, what);
  // single-threaded tail
  AtomicCounter<T> m(std::move(c));
  PBT_CHECK(m.GetValue() == last, "the value is lost by moving");
  AtomicCounter<T> a;
  PBT_CHECK(a.GetValue() == 0, "a new counter is not 0");
  T v = (T)g.u64();
  T back = a = v;
  PBT_CHECK(a.GetValue() == v && back == v, "assigning %lld gives %lld", (long long)v, (long long)a.GetValue());
  a = std::move(m);
  PBT_CHECK(a.GetValue() == last, "the value is lost by move assignment");
  a.SetValue(v);
  PBT_CHECK(a.GetValue() == v, "SetValue");
  a.Reset();
  PBT_CHECK(a.GetValue() == 0, "a counter holds %lld after Reset()", (long long)a.GetValue());
  if (n > 1) pbt::nontrivial();
}

template <class T>
static void old_atomic(Gen &g, char const *what)
{
  unsigned n = g.range(1, 4), ops = g.range(1, 20);
  Atomic<T> c;
  T init = 0;
  std::vector<std::vector<std::pair<unsigned, T>>> script(n);
  for (auto &s : script)
    for (unsigned i = 0; i < ops; ++i) s.push_back({(unsigned)g.range(0, 8), (T)g.irange(-3, 1000)});
  NOTE("%s: %u threads, %u operations each", what, n, ops);
  std::vector<std::vector<Edge<T>>> got(n);
  std::vector<long long> blind(n, 0);
  bool pure = g.boolean();   // only operations that report
  auto body = [&](unsigned t) {
    for (auto &o : script[t]) {
      unsigned k = pure ? o.first % 5 : o.first;
      T r;
      switch (k) {
        case 0: r = c.getAndAdd(o.second); got[t].push_back({r, (T)(r + o.second)}); blind[t] += o.second; break;
        case 1: r = c.addAndGet(o.second); got[t].push_back({(T)(r - o.second), r}); blind[t] += o.second; break;
        case 2: r = c.incrementAndGet(); got[t].push_back({(T)(r - 1), r}); blind[t] += 1; break;
        case 3: r = c.decrementAndGet(); got[t].push_back({(T)(r + 1), r}); blind[t] -= 1; break;
        case 4: if (pure) { r = c.getAndSet(o.second); got[t].push_back({r, o.second}); } break;
        case 5: c.add(o.second); blind[t] += o.second; break;
        case 6: c.increment(); blind[t] += 1; break;
        case 7: c.decrement(); blind[t] -= 1; break;
        default: (void)c.get();
      }
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 1; t < n; ++t) ts.emplace_back(body, t);
  body(0);
  for (auto &t : ts) t.join();
  if (pure) {
    std::vector<Edge<T>> all;
    for (auto &v : got) all.insert(all.end(), v.begin(), v.end());
    trail<T>(all, init, c.get(), what);
  } else {
    long long s = 0;
    for (auto b : blind) s += b;
    PBT_CHECK(c.get() == (T)s, "%s: %lld, want %lld", what, (long long)c.get(), s);
  }
  if (n > 1) pbt::nontrivial();
}

// Reset() takes what is there: nothing counted meanwhile is lost or taken twice.
template <class T>
static void resets(Gen &g, char const *what)
{
  unsigned n = g.range(1, 3), adds = g.range(1000, 20000);
  bool two = g.chance(1, 3);
  NOTE("%s: %u threads count to %u each, %d threads reset", what, n, adds, 1 + two);
  AtomicCounter<T> c;
  std::atomic<unsigned> ready{0}, busy{n};
  std::atomic<uint64_t> taken{0};
  std::vector<std::thread> ts;
  auto start = [&] {
    ready.fetch_add(1, RX);
    while (ready.load(RX) < n + 1 + two) sched_yield();
  };
  for (unsigned t = 0; t < n; ++t)
    ts.emplace_back([&] {
      start();
      for (unsigned i = 0; i < adds; ++i) ++c;
      busy.fetch_sub(1, RX);
    });
  auto take = [&] {
    start();
    uint64_t sum = 0;
    while (busy.load(RX)) sum += (uint64_t)c.Reset();
    taken.fetch_add(sum, RX);
  };
  if (two) ts.emplace_back(take);
  take();
  for (auto &t : ts) t.join();
  uint64_t sum = taken.load(RX) + (uint64_t)c.Reset();
  PBT_CHECK(sum == (uint64_t)n * adds, "%s: the values taken by Reset() sum up to %llu, %llu were counted", what, (unsigned long long)sum, (unsigned long long)n * adds);
  PBT_CHECK(c.GetValue() == 0, "a counter holds %lld after Reset()", (long long)c.GetValue());
  pbt::label("reset while counting");
  pbt::nontrivial();
}

static void counter_suite(Gen &g)
{
  if (g.chance(1, 20)) return g.boolean() ? resets<uint32_t>(g, "AtomicCounter<uint32_t>") : resets<uint64_t>(g, "AtomicCounter<uint64_t>");
  switch (g.range(0, 6)) {
    case 0: return counter<uint32_t>(g, "AtomicCounter<uint32_t>");
    case 1: return counter<uint64_t>(g, "AtomicCounter<uint64_t>");
    case 2: return counter<uint8_t>(g, "AtomicCounter<uint8_t>");
    case 3: return counter<int64_t>(g, "AtomicCounter<int64_t>");
    case 4: return counter<int32_t>(g, "AtomicCounter<int32_t>");
    case 5: return old_atomic<int32_t>(g, "AtomicInt32");
    default: return old_atomic<int64_t>(g, "AtomicInt64");
  }
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.nondet = o.sound = true;
  o.hang_s = 15;
  o.quick = 24000; o.thorough = 400000;
  pbt::suite("thread", "threads started, moved, joined or detached; identity and names", o, thread_suite);
  o.quick = 5000; o.thorough = 80000;
  pbt::suite("foreign", "threads not created by Thread, default names given out concurrently", o, foreign_suite);
  o.quick = 300; o.thorough = 3000;
  pbt::suite("create_fails", "the system refuses to create a thread", o, fail_suite);
  o.quick = 6000; o.thorough = 100000;
  pbt::suite("local", "thread-local values", o, local_suite);
  o.quick = 30000; o.thorough = 600000;
  pbt::suite("counter", "atomic counters: results must fit one sequential order", o, counter_suite);
  o.quick = 30000; o.thorough = 600000;
  pbt::suite("races", "the scripts of thread under ThreadSanitizer", o, thread_suite);
  o.quick = 10000; o.thorough = 200000;
  pbt::suite("local_races", "the scripts of local under ThreadSanitizer", o, local_suite);
  return pbt::run(argc, argv, {"T04", "every thread case; locals and counters with two or more threads",
    {"schedules are sampled, not enumerated", "a Thread object is used by one thread at a time"}});
}
