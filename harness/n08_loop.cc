// N08: functions submitted to event loops, wake-ups and quitting.
#include "pbt.h"
#include "loud.h"
#include "schedfuzz.h"
#include <dirent.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/log/logger.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

static long os_tid() { return syscall(SYS_gettid); }

static int count_fds()
{
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

static std::atomic<int> g_tokens;
struct Token {
  Token() { g_tokens.fetch_add(1, RX); }
  Token(Token const &) { g_tokens.fetch_add(1, RX); }
  ~Token() { g_tokens.fetch_sub(1, RX); }
};

// One submitted function, with the functions it submits itself.
struct Fn {
  unsigned id = 0;
  bool run_in_loop = false;    // RunInLoop or QueueToLoop
  unsigned act = 0;            // 0 nothing, 1 quit before the children, 2 quit after them, 3 submit from the destructor
  bool sync = false;           // the submitting thread waits until it ran
  std::vector<Fn *> kids;
  std::atomic<int> runs{0};
  bool required = false;       // submitted before the quit request: has to run
  bool submitted = false;
};

struct World {
  EventLoop *loop = nullptr;
  std::vector<std::unique_ptr<Fn>> fns;
  std::atomic<bool> quit_called{false};
  std::atomic<long> loop_tid{0};
  std::atomic<bool> running{true};
  std::vector<long> next_seq, last_seq;   // by submitting thread; the loop's thread is number 0
  std::mutex mu;
  std::condition_variable cv;
  Fn *make(Gen &g, unsigned depth, bool in_loop)
  {
    fns.emplace_back(new Fn);
    Fn *f = fns.back().get();
    f->id = fns.size() - 1;
    f->run_in_loop = g.chance(1, 3);
    f->sync = !in_loop && g.chance(1, 5);
    if (depth < 3 && g.chance(1, 3)) {
      size_t k = g.range(1, 3);
      while (k--) f->kids.push_back(make(g, depth + 1, true));
    }
    if (g.chance(1, 25)) f->act = 3;
    return f;
  }
  void quit()
  {
    quit_called.store(true);
    loop->Quit();
  }
  // A function object that submits another one when it is destroyed.
  struct AtDeath {
    World *w;
    Fn *f;
    ~AtDeath() { if (w->running.load(RX) && !w->quit_called.load() && os_tid() == w->loop_tid.load(RX)) w->submit(0, f); }
  };
  void body(unsigned who, Fn *f, long seq)
  {
    PBT_CHECK(os_tid() == loop_tid.load(RX), "function %u runs in another thread than the loop's", f->id);
    PBT_CHECK(f->runs.fetch_add(1) == 0, "function %u runs twice", f->id);
    if (seq >= 0) {
      PBT_CHECK(seq > last_seq[who], "function %u, submission %ld of thread %u, runs after submission %ld of that thread", f->id, seq, who, last_seq[who]);
      last_seq[who] = seq;
    }
    if (f->act == 1) quit();
    for (auto *k : f->kids) submit(0, k);
    if (f->act == 2) quit();
    if (f->sync) {
      std::lock_guard<std::mutex> l(mu);
      cv.notify_all();
    }
  }
  void submit(unsigned who, Fn *f)
  {
    bool in_loop = who == 0;
    bool now = f->run_in_loop && in_loop;
    long seq = now ? -1 : next_seq[who]++;
    Token tok;
    auto self = this;
    std::shared_ptr<AtDeath> death;
    if (f->act == 3 && !f->kids.empty()) {
      death.reset(new AtDeath{this, f->kids.back()});
      f->kids.pop_back();
    }
    EventLoop::FunctorCallback cb = [self, who, f, seq, tok, death] { self->body(who, f, seq); };
    death.reset();
    f->submitted = true;
    if (f->run_in_loop)
      loop->RunInLoop(std::move(cb));
    else
      loop->QueueToLoop(std::move(cb));
    if (now) PBT_CHECK(f->runs.load() == 1, "RunInLoop() in the loop's thread returns before function %u ran", f->id);
    if (!quit_called.load()) f->required = true;
    if (f->sync && !in_loop && f->required) {
      std::unique_lock<std::mutex> l(mu);
      cv.wait(l, [&] { return f->runs.load() != 0; });
    }
  }
  std::string show(Fn *f)
  {
    std::string r = std::to_string(f->id) + (f->run_in_loop ? "r" : "q") + (f->sync ? "!" : "") + (f->act == 1 ? "Q" : f->act == 2 ? "q" : f->act == 3 ? "~" : "");
    if (!f->kids.empty()) {
      r += "(";
      for (auto *k : f->kids) r += (k == f->kids[0] ? "" : " ") + show(k);
      r += ")";
    }
    return r;
  }
};

static void begin_case(Gen &g)
{
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  logging(g);
}

static void script(Gen &g)
{
  begin_case(g);
  int fds = count_fds();
  g_tokens = 0;
  unsigned noise = g.range(0, 3), kind = g.range(0, 2);
  bool foreign = g.boolean();    // the loop lives in a std::thread / in a kanon Thread
  unsigned nthr = g.range(0, 3);
  bool big = g.chance(1, 150);   // hundreds of functions per thread
  World w;
  w.next_seq.assign(nthr + 1, 0);
  w.last_seq.assign(nthr + 1, -1);
  std::vector<std::vector<Fn *>> lists(nthr + 1);   // [0]: submitted in the loop's thread before it starts
  for (unsigned t = 0; t <= nthr; ++t) {
    size_t n = big ? g.small(600) + 1 : t ? g.range(1, 8) : g.range(0, 4);
    while (n--) lists[t].push_back(w.make(g, 0, t == 0));
  }
  // who quits: a thread at the end, a thread in the middle, a function, the owner before the start
  unsigned quitter = nthr ? g.weighted({4, 2, 3, 1}) : g.weighted({0, 0, 3, 1});
  unsigned qthread = nthr ? g.range(1, nthr) : 0, qpos = 0, extra_quits = g.chance(1, 4) ? (unsigned)g.range(1, 3) : 0;
  if (quitter == 2) {
    Fn *f = nullptr;
    for (auto &l : lists)
      if (!l.empty() && (f == nullptr || g.boolean())) f = l[g.range(0, l.size() - 1)];
    if (f)
    {
      while (f->act == 0 && !f->kids.empty() && g.boolean()) f = f->kids[g.range(0, f->kids.size() - 1)];
      f->act = g.boolean() ? 1 : 2;
    } else
      quitter = 3;
  }
  // the last thread quits only once every function has run: the loop may not wait for the quit request to run them
  bool settle = quitter == 0 && g.chance(2, 3);
  if (quitter == 1) qpos = g.range(0, lists[qthread].size());
  schedfuzz::setup(g.u64(), noise, 0);
  if (pbt::noting()) {
    pbt::note("loop: %s, in a %s thread; %u submitting threads, noise %u", kind == 0 ? "poll" : kind == 1 ? "epoll" : "epoll edge-triggered", foreign ? "std" : "kanon", nthr, noise);
    for (unsigned t = 0; t <= nthr; ++t) {
      std::string s;
      for (auto *f : lists[t]) s += " " + w.show(f);
      pbt::note("%s %u:%s", t ? "thread" : "before the start,", t, s.c_str());
    }
    pbt::note("quit: %s", quitter == 0 ? settle ? "by the last thread, when every function has run" : "by the last thread" : quitter == 1 ? ("by thread " + std::to_string(qthread) + " before its submission " + std::to_string(qpos)).c_str() : quitter == 2 ? "by a function" : "before the start");
  }
  std::mutex m;
  std::condition_variable cv;
  bool have = false, done = false, joined = false;
  auto loop_main = [&] {
    {
      EventLoop loop(kind == 0);
      if (kind == 2) loop.SetEdgeTriggerMode();
      w.loop = &loop;
      w.loop_tid = os_tid();
      PBT_CHECK(loop.IsLoopInThread(), "IsLoopInThread() is false in the loop's thread");
      {
        std::lock_guard<std::mutex> l(m);
        have = true;
        cv.notify_all();
      }
      for (auto *f : lists[0]) w.submit(0, f);
      if (quitter == 3) w.quit();
      loop.StartLoop();
      PBT_CHECK(w.quit_called.load(), "StartLoop() returns although nobody called Quit()");
      w.running.store(false, RX);
      // the loop object outlives the threads that use it
      std::unique_lock<std::mutex> l(m);
      done = true;
      cv.notify_all();
      cv.wait(l, [&] { return joined; });
    }
  };
  std::unique_ptr<std::thread> st;
  std::unique_ptr<Thread> kt;
  if (foreign)
    st.reset(new std::thread(loop_main));
  else {
    kt.reset(new Thread(loop_main, "loop"));
    kt->StartRun();
  }
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return have; });
  }
  PBT_CHECK(!w.loop->IsLoopInThread(), "IsLoopInThread() is true in another thread");
  std::atomic<unsigned> finished{0};
  std::vector<std::thread> ts;
  for (unsigned t = 1; t <= nthr; ++t)
    ts.emplace_back([&, t] {
      PBT_CHECK(!w.loop->IsLoopInThread(), "IsLoopInThread() is true in a thread that isn't the loop's");
      for (size_t i = 0; i < lists[t].size(); ++i) {
        if (quitter == 1 && t == qthread && i == qpos) w.quit();
        w.submit(t, lists[t][i]);
        schedfuzz::point();
      }
      if (quitter == 1 && t == qthread && qpos >= lists[t].size()) w.quit();
      if (finished.fetch_add(1) + 1 == nthr) {
        if (settle) {
          for (auto &f : w.fns)
            while (f->runs.load() == 0) usleep(20);
          PBT_CHECK(!w.quit_called.load(), "somebody quit");
        }
        if (quitter == 0) w.quit();
      }
      if (extra_quits && w.quit_called.load())
        for (unsigned k = 0; k < extra_quits; ++k) w.loop->Quit();
    });
  for (auto &t : ts) t.join();
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return done; });
    joined = true;
    cv.notify_all();
  }
  if (st)
    st->join();
  else
    kt->Join();
  schedfuzz::off();
  unsigned ran = 0, late = 0;
  for (auto &f : w.fns) {
    if (!f->submitted) {
      PBT_CHECK(f->runs == 0, "a function that was never submitted ran");
      continue;
    }
    if (f->required) PBT_CHECK(f->runs == 1, "function %u was submitted before the quit request and ran %d times", f->id, f->runs.load());
    ran += f->runs == 1;
    late += !f->required;
  }
  PBT_CHECK(g_tokens.load() == 0, "%d submitted function objects are not destroyed with the loop", g_tokens.load());
  int fds2 = count_fds();
  PBT_CHECK(fds2 == fds, "%d descriptors before, %d after the loop was destroyed", fds, fds2);
  if (nthr && ran > 2) pbt::nontrivial();
  pbt::label_if(settle, "quit when every function has run");
  pbt::label_if(late, "submissions racing with or after the quit request");
  pbt::label_if(quitter == 3, "quit before the start");
  pbt::label_if(quitter == 2, "quit by a function");
  pbt::label_if(foreign, "loop in a std::thread");
}

// EventLoopThread and EventLoopPool: life cycles.
static void threads(Gen &g)
{
  begin_case(g);
  int fds = count_fds();
  g_tokens = 0;
  unsigned n = g.range(1, 4), noise = g.range(0, 3);
  schedfuzz::setup(g.u64(), noise, g.chance(1, 3) ? 40 : 0);
  bool pool = g.chance(1, 3);
  struct One {
    std::unique_ptr<EventLoopThread> th;
    EventLoop *loop = nullptr;
    std::atomic<long> tid{0};
    std::atomic<int> inits{0}, runs{0};
    std::atomic<bool> go{false};
    int sent = 0, want = 0;
  };
  std::vector<std::unique_ptr<One>> v;
  for (unsigned i = 0; i < n; ++i) v.emplace_back(new One);
  if (pool) {
    unsigned k = g.range(0, 6);
    NOTE("pool of %u loops", k);
    bool start = !g.chance(1, 6), use = g.boolean();
    std::mutex mu;
    std::vector<std::pair<EventLoop *, long>> inits;
    {
      EventLoop base;
      std::unique_ptr<EventLoopPool> pp(new EventLoopPool(&base, "pool"));
      EventLoopPool &p = *pp;
      p.SetLoopNum(k);
      std::atomic<int> runs{0};
      int sent = 0;
      if (start) {
        Token tok;
        p.StartRun([&, tok](EventLoop *l) {
          std::lock_guard<std::mutex> g(mu);
          inits.push_back({l, os_tid()});
        });
        std::lock_guard<std::mutex> lk(mu);
        PBT_CHECK(inits.size() == k, "%zu init callbacks for %u loops when StartRun() returns", inits.size(), k);
        for (size_t i = 0; i < k; ++i)
          for (size_t j = 0; j < i; ++j) PBT_CHECK(inits[i].first != inits[j].first && inits[i].second != inits[j].second, "an init callback ran twice for one loop");
      }
      if (start && use) {
        std::vector<EventLoop *> order;
        for (unsigned i = 0; i < 2 * k + 1; ++i) {
          EventLoop *l = p.GetNextLoop();
          order.push_back(l);
          PBT_CHECK(k == 0 ? l == &base : order[i % k] == l, "loop %u of the rotation is not loop %u", i, k ? i % k : 0);
          if (k) {
            long tid = 0;
            for (auto &x : inits)
              if (x.first == l) tid = x.second;
            PBT_CHECK(tid, "the init callback never saw loop %u", i);
            ++sent;
            l->QueueToLoop([&runs, tid] {
              PBT_CHECK(os_tid() == tid, "a function runs in another thread than its loop's init callback");
              ++runs;
            });
          }
        }
        for (unsigned i = 0; i < k; ++i)
          for (unsigned j = 0; j < i; ++j) PBT_CHECK(order[i] != order[j], "the rotation visits a loop twice");
      }
      if (g.boolean()) schedfuzz::point();
      pp.reset();
      PBT_CHECK(runs.load() == sent, "%d functions submitted to the pool's loops, %d ran before the pool was destroyed", sent, runs.load());
    }
    pbt::label("pool");
    pbt::nontrivial();
    schedfuzz::off();
  } else {
    bool any = false;
    for (unsigned i = 0; i < n; ++i) {
      One &o = *v[i];
      o.th.reset(new EventLoopThread("t" + std::to_string(i)));
      unsigned how = g.weighted({1, 3, 3, 1});
      NOTE("loop thread %u: %s", i, how == 0 ? "never started" : how == 1 ? "started" : how == 2 ? "started with an init callback" : "started with an init callback that quits the loop");
      if (how == 0) continue;
      any = true;
      if (how == 3) {
        Token tok;
        o.th->StartRun([&o, tok](EventLoop *l) {
          ++o.inits;
          l->Quit();
        });
        PBT_CHECK(o.inits == 1, "the init callback ran %d times when StartRun() returns", o.inits.load());
        continue;
      }
      if (how == 2) {
        Token tok;
        o.loop = o.th->StartRun([&o, tok](EventLoop *l) {
          o.tid = os_tid();
          ++o.inits;
          PBT_CHECK(l->IsLoopInThread(), "the init callback runs in another thread");
        });
        PBT_CHECK(o.inits == 1, "the init callback ran %d times when StartRun() returns", o.inits.load());
      } else
        o.loop = o.th->StartRun();
      PBT_CHECK(o.loop, "StartRun() returns no loop");
      PBT_CHECK(o.loop == o.th->GetLoop() , "GetLoop() is not the loop StartRun() returned");
      PBT_CHECK(!o.loop->IsLoopInThread(), "the loop thinks the starting thread is its own");
      int k = g.range(0, 5);
      int quit_at = g.chance(1, 3) ? (int)g.range(0, 5) : 100;
      for (int j = 0; j < k; ++j) {
        Token tok;
        if (j == quit_at) {
          NOTE("  quits itself after %d functions", j);
          // the loop object dies with the thread: quit when this call is over, no use of it after that
          o.loop->QueueToLoop([l = o.loop, &o] {
            while (!o.go.load()) sched_yield();
            l->Quit();
          });
          o.go = true;
          break;
        }
        ++o.sent;
        o.loop->QueueToLoop([&o, tok] {
          if (!o.tid) o.tid = os_tid();
          PBT_CHECK(o.tid == os_tid(), "functions of one loop run in different threads");
          ++o.runs;
        });
      }
      if (g.boolean()) schedfuzz::point();
    }
    // destroy in some order
    while (!v.empty()) {
      size_t i = g.range(0, v.size() - 1);
      v[i]->th.reset();
      PBT_CHECK(v[i]->runs == v[i]->sent, "%d functions submitted, %d ran before the loop thread was destroyed", v[i]->sent, v[i]->runs.load());
      if (v[i]->inits && v[i]->runs) pbt::label("init callback, then functions");
      v.erase(v.begin() + i);
    }
    schedfuzz::off();
    if (any) pbt::nontrivial();
  }
  PBT_CHECK(g_tokens.load() == 0, "%d callback objects outlive their loop", g_tokens.load());
  int fds2 = count_fds();
  PBT_CHECK(fds2 == fds, "%d descriptors before, %d after the loops were destroyed", fds, fds2);
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N08";
  cfg.rule = "several threads were involved and functions ran in a loop";
  cfg.assumptions = {"schedules are sampled: noise at pthread calls, operating-system scheduling elsewhere"};
  pbt::SuiteOpt o;
  o.nondet = true;
  o.sound = true;
  o.hang_s = 12;
  o.quick = 80000;
  pbt::suite("script", "every submitted function runs once, in order, in the loop's thread; quitting works", o, script);
  o.quick = 40000;
  pbt::suite("threads", "loop threads and pools start, run and stop", o, threads);
  return pbt::run(argc, argv, cfg);
}
