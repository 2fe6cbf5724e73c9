// N07: a client connects, retries with growing delay, reconnects and stops as asked.
// The first suite runs the loop on a virtual clock with a server made of plain
// sockets in the same thread; every connect() of the library is observed.
#include "pbt.h"
#include "schedfuzz.h"
#include "vclock.h"
#include "loud.h"
#include "mynet.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/tcp_client.h"
#include "kanon/thread/current_thread.h"
using namespace kanon;
using pbt::Gen;

extern "C" {
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_close(int);
}
static std::function<int(int, const sockaddr *, socklen_t)> g_connect;   // observes the library
static std::function<void(int)> g_close;
extern "C" int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
  if (g_connect) return g_connect(fd, a, l);
  return __real_connect(fd, a, l);
}
extern "C" int __wrap_close(int fd)
{
  if (g_close) g_close(fd);
  return __real_close(fd);
}

static int64_t real_ms()
{
  timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static unsigned open_fds()
{
  unsigned n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static std::string text(sockaddr_in const &a)
{
  char b[64];
  inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
  return std::string(b) + ":" + std::to_string(ntohs(a.sin_port));
}

static void begin_case(Gen &g)
{
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  logging(g);
}

struct Place {
  sockaddr_in a{};
  std::string ip;
  uint16_t port;
  void choose(Gen &g)
  {
    static unsigned n = 0;
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(my_address(1 + g.range(0, 3)));
    char b[32];
    inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
    ip = b;
    int s;
    do {
      port = 3000 + n++ % 1000;
      a.sin_port = htons(port);
      s = listener(1);
    } while (s < 0);
    __real_close(s);
  }
  int listener(int backlog) const
  {
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (!bind(s, (const sockaddr *)&a, sizeof a) && !listen(s, backlog)) return s;
    __real_close(s);
    return -1;
  }
};

// ---- one thread on a virtual clock ----
struct Virtual {
  Gen &g;
  Place w;
  unsigned kind, steps;
  std::unique_ptr<EventLoop> loop;
  TcpClientPtr client;
  int lst = -1;                  // the listening socket
  // what the client was asked for
  int64_t due = 0;               // when the next attempt is expected; 0: none
  unsigned failures = 0;         // in this sequence
  bool stopped = false, retry = false, destroyed = false, released = false;
  bool wait_idle = false;
  // the attempt in progress
  int att = -1;
  std::vector<int> plan;         // errors of the next connect() calls
  bool self_next = false;
  unsigned long attempts = 0;
  // the connection
  struct C {
    int ups = 0, downs = 0;
    std::weak_ptr<TcpConnection> w;
    int peer = -1;               // the server's descriptor
    std::string local;
    int fd = -1;                 // the client's descriptor
    bool peer_ended = false, forced = false, shut = false, orphan = false, kept = false;
    uint64_t out = 0, in = 0, got = 0, wrote = 0;
    bool eof = false;
    unsigned completes = 0;
  };
  bool completes;   // the client has a write-complete callback
  std::vector<std::unique_ptr<C>> conns;
  C *cur = nullptr;              // the client's connection
  std::vector<TcpConnectionPtr> kept;
  bool ending = false;
  int64_t idle_since = 0;
  unsigned depth = 0;
  unsigned long events = 0;

  Virtual(Gen &gg) : g(gg) {}
  ~Virtual()
  {
    g_connect = nullptr;
    g_close = nullptr;
  }
  const char *state() const { return destroyed ? "destroyed" : cur ? "connected" : att >= 0 ? "connecting" : due ? "waiting for the retry" : stopped ? "stopped" : "idle"; }

  int on_connect(int fd, const sockaddr *a, socklen_t l)
  {
    ++events;
    ++attempts;
    PBT_CHECK(!memcmp(a, &w.a, 8), "a connection attempt to another address");
    NOTE("  [attempt at %.3f s]", (g_now - start) / 1e6);
    PBT_CHECK(!destroyed, "a connection attempt after the client was destroyed");
    PBT_CHECK(!stopped, "a connection attempt after the client was stopped");
    PBT_CHECK(!cur, "a connection attempt of a connected client");
    PBT_CHECK(att < 0, "a connection attempt while another one is in progress");
    PBT_CHECK(due, "a connection attempt nobody asked for");
    PBT_CHECK(g_now >= due, "a connection attempt %lld us before the retry delay is over", (long long)(due - g_now));
    PBT_CHECK(g_now <= due + 3000, "a connection attempt %lld us after the retry delay is over", (long long)(g_now - due));
    due = 0;
    if (!plan.empty()) {
      int e = plan.back();
      plan.pop_back();
      NOTE("  [connect(): %s]", strerror(e));
      pbt::label_if(e != 0, "injected connect error");
      if (e == 0) {
        // succeeds at once, as far as the system can
        int r = __real_connect(fd, a, l);
        att = fd;
        if (r && errno == EINPROGRESS) {
          pollfd p{fd, POLLOUT, 0};
          int err = 0;
          socklen_t n = sizeof err;
          if (::poll(&p, 1, 20) == 1 && !(p.revents & (POLLERR | POLLHUP)) && !getsockopt(fd, SOL_SOCKET, SO_ERROR, &err, &n) && !err) {
            pbt::label("connected at once");
            return 0;
          }
          errno = EINPROGRESS;
        }
        return r;
      }
      if (e == EINTR) {
        // the attempt goes on
        int r = __real_connect(fd, a, l);
        if (r && errno != EINPROGRESS) abort();
        att = fd;
        errno = EINTR;
        return -1;
      }
      att = fd;
      errno = e;
      return -1;
    }
    if (self_next && lst < 0) {
      self_next = false;
      int one = 1;
      setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
      if (!bind(fd, a, l)) {
        NOTE("  [connects to itself]");
        pbt::label("self connection");
      }
    }
    int r = __real_connect(fd, a, l);
    att = fd;
    return r;
  }
  void on_close(int fd)
  {
    if (fd != att || att < 0) return;
    // the attempt has failed or is stopped
    ++events;
    att = -1;
    if (!stopped && !destroyed) {
      int64_t d = 500000;
      for (unsigned i = 0; i < failures && d < 30000000; ++i) d *= 2;
      due = g_now + std::min<int64_t>(d, 30000000);
      ++failures;
      NOTE("  [attempt %lu has failed, next after %.3f s]", attempts, (due - g_now) / 1e6);
      if (failures > 3) pbt::label("more than three failures in a row");
      if (failures > 7) pbt::label("maximal retry delay");
    }
  }
  void on_connection(TcpConnectionPtr const &c)
  {
    ++events;
    PBT_CHECK(loop->IsLoopInThread(), "the connection callback runs outside the loop's thread");
    if (c->IsConnected()) {
      NOTE("  [up]");
      PBT_CHECK(!released, "a connection is reported up after the client was destroyed");
      PBT_CHECK(!stopped, "a connection is reported up after the client was stopped");
      PBT_CHECK(att >= 0, "a connection is reported up without an attempt");
      PBT_CHECK(!cur, "a second connection is reported up");
      std::unique_ptr<C> k(new C);
      k->ups = 1;
      k->w = c;
      sockaddr_in l{};
      socklen_t n = sizeof l;
      getsockname(att, (sockaddr *)&l, &n);
      k->local = text(l);
      k->fd = att;
      PBT_CHECK(k->local != text(w.a), "a connection of the client to itself is reported up");
      PBT_CHECK(k->local == c->GetLocalAddr().ToIpPort(), "the connection's local address is %s, it is %s", c->GetLocalAddr().ToIpPort().c_str(), k->local.c_str());
      PBT_CHECK(c->GetPeerAddr().ToIpPort() == text(w.a), "the connection's peer address is %s, not the server's", c->GetPeerAddr().ToIpPort().c_str());
      PBT_CHECK(client && client->GetConnection() == c, "GetConnection() does not return the connection that is reported up");
      cur = k.get();
      conns.push_back(std::move(k));
      att = -1;
      due = 0;
      failures = 0;
      if (g.chance(1, 5)) {
        kept.push_back(c);
        cur->kept = true;
        NOTE("  the user keeps the connection");
      }
      if (conns.size() > 1) pbt::label("connected again");
      in_callback();
    } else {
      NOTE("  [down]");
      C *k = find(c);
      PBT_CHECK(k && !k->downs, "a connection is reported down %s", k ? "twice" : "that was not up");
      PBT_CHECK(k->peer_ended || k->forced || k->orphan, "the connection is reported down, nobody closed it");
      ++k->downs;
      bool mine = cur == k;
      if (mine) cur = nullptr;
      lost = mine;
      in_callback();
      lost = false;
      if (mine && retry && !released) {
        due = g_now;
        stopped = false;
        NOTE("  [lost, reconnects]");
        pbt::label("lost with retry enabled");
      }
    }
  }
  C *find(TcpConnectionPtr const &c)
  {
    for (auto &k : conns)
      if (k->w.lock() == c) return k.get();
    return nullptr;
  }
  void on_message(TcpConnectionPtr const &c, Buffer &b)
  {
    ++events;
    C *k = find(c);
    PBT_CHECK(k && !k->downs, "a message of a connection that is not up");
    for (size_t i = 0; i < b.GetReadableSize(); ++i) PBT_CHECK((unsigned char)b.GetReadBegin()[i] == (unsigned char)((k->in + i) * 7), "received byte %llu is wrong", (unsigned long long)(k->in + i));
    // an unfinished message may stay in the buffer
    size_t n = b.GetReadableSize();
    if (!ending && g.chance(1, 4)) n = g.range(0, n);
    k->in += n;
    b.AdvanceRead(n);
    in_callback();
  }
  bool lost = false;   // in the down callback of the client's connection
  void in_callback()
  {
    if (depth || ending || !g.chance(1, 3)) return;
    ++depth;
    pbt::label("operation in a callback");
    op();
    --depth;
  }
  int64_t start = 0;

  void destroy()
  {
    if (!client) return;
    NOTE("%sthe client is destroyed%s (%s)", depth ? "  " : "", depth ? " in a callback" : "", state());
    pbt::label_if(att >= 0, "destroyed while connecting");
    pbt::label_if(due != 0, "destroyed while waiting for the retry");
    pbt::label_if(cur != nullptr, "destroyed with a connection");
    pbt::nontrivial();
    released = true;
    retry = false;
    if (cur) cur->orphan = true;
    cur = nullptr;
    effect(g.chance(1, 3), [this] {
      destroyed = true;
      due = 0;
    }, [this] { client.reset(); });
  }
  // An operation of the client: at once, or queued to the loop by another thread.
  void effect(bool other, std::function<void()> model, std::function<void()> real)
  {
    if (!other) {
      model();
      return real();
    }
    loop->QueueToLoop(model);
    std::thread t([&] {
      CurrentThread::cacheTid();
      real();
    });
    t.join();
  }
  void op()
  {
    bool other = g.chance(1, 4);
    const char *in = depth ? "  " : "", *from = other ? " from another thread" : "";
    switch (g.weighted({5, 4, 3, 3, 2, 3, 2, 3, 1, 2})) {
      case 0: case_connect(other, in, from); break;
      case 1:
        // the listener changes only while no attempt is in progress
        if (att >= 0 || depth) break;
        if (lst < 0) {
          NOTE("the server is up");
          lst = w.listener(16);
          PBT_CHECK(lst >= 0, "harness: the server's port is in use");
        } else {
          accept_all();
          NOTE("the server is down");
          __real_close(lst);
          lst = -1;
        }
        break;
      case 2: {
        if (!client || g.chance(1, 2)) break;
        NOTE("%sDisconnect()%s (%s)", in, from, state());
        if (cur) {
          cur->shut = true;
          pbt::label("graceful disconnect");
        }
        retry = false;
        effect(other, [] {}, [&] { client->Disconnect(); });
        break;
      }
      case 3:
        if (!client || g.chance(1, 2)) break;
        NOTE("%sStop()%s (%s)", in, from, state());
        pbt::label_if(att >= 0, "stopped while connecting");
        pbt::label_if(due != 0, "stopped while waiting for the retry");
        pbt::nontrivial();
        retry = false;
        effect(other, [this] {
          stopped = true;
          due = 0;
        }, [this] { client->Stop(); });
        PBT_CHECK(other || att < 0, "Stop() leaves the attempt in progress");
        break;
      case 4:
        if (!client) break;
        NOTE("%sEnableRetry()", in);
        client->EnableRetry();
        retry = true;
        break;
      case 5:
        if (cur && cur->peer >= 0 && !cur->peer_ended) {
          unsigned how = g.range(0, 2);
          NOTE("%sthe server %s", in, how == 0 ? "closes" : how == 1 ? "shuts down" : "resets");
          read_peer(cur);
          cur->peer_ended = true;
          if (how == 1)
            ::shutdown(cur->peer, SHUT_WR);
          else {
            if (how == 2) {
              linger l{1, 0};
              setsockopt(cur->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            }
            __real_close(cur->peer);
            cur->peer = -1;
          }
        }
        break;
      case 6:
        if (!cur) break;
        if (auto c = cur->w.lock()) {
          NOTE("%sForceClose()%s", in, from);
          cur->forced = true;
          effect(other, [] {}, [&] { c->ForceClose(); });
        }
        break;
      case 7:
        if (cur && !cur->shut && !cur->forced) {
          auto c = client->GetConnection();
          PBT_CHECK(c && c == cur->w.lock(), "GetConnection() does not return the connection that is up");
          size_t n = 1 + g.small(5000);
          NOTE("%ssends %zu bytes", in, n);
          std::string d(n, 0);
          for (size_t i = 0; i < n; ++i) d[i] = (char)((cur->out + i) * 3);
          cur->out += n;
          c->Send(d.data(), n);
        }
        if (cur && cur->peer >= 0 && !cur->peer_ended && g.boolean()) {
          std::string d(1 + g.small(3000), 0);
          for (size_t i = 0; i < d.size(); ++i) d[i] = (char)((cur->wrote + i) * 7);
          ssize_t r = ::write(cur->peer, d.data(), d.size());
          if (r > 0) cur->wrote += r;
        }
        break;
      case 8: {
        size_t n = g.range(1, 4);
        plan.clear();
        std::string t;
        while (n--) {
          int e = g.pick<int>({ECONNREFUSED, EAGAIN, EADDRNOTAVAIL, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, EINTR, 0, 0});
          if ((e == EINTR || e == 0) && lst < 0) e = ECONNREFUSED;   // the connect() that goes on must not fail at once
          plan.push_back(e);
        }
        self_next = g.chance(1, 3);
        NOTE("%sthe next connect() calls fail or succeed as planned%s", in, self_next ? ", then the client connects to itself" : "");
        break;
      }
      default:
        if (!g.chance(1, 4)) break;
        if (!kept.empty() && g.boolean()) {
          NOTE("%sthe user releases the kept connections", in);
          kept.clear();
        } else
          destroy();
    }
  }
  void case_connect(bool other, const char *in, const char *from)
  {
    // in the down callback the client still has the connection: the effect is unspecified
    if (!client || lost) return;
    NOTE("%sConnect()%s (%s)", in, from, state());
    effect(other, [this] {
      if (stopped || cur || att >= 0 || destroyed) return;
      pbt::label_if(due != 0, "Connect() while waiting for the retry");
      due = g_now;
    }, [this] { client->Connect(); });
    pbt::nontrivial();
  }
  void read_peer(C *k)
  {
    if (k->peer < 0) return;
    char b[4096];
    for (;;) {
      ssize_t r = ::read(k->peer, b, sizeof b);
      if (r > 0) {
        ++events;
        for (ssize_t i = 0; i < r; ++i) PBT_CHECK((unsigned char)b[i] == (unsigned char)((k->got + i) * 3), "byte %llu at the server is wrong", (unsigned long long)(k->got + i));
        k->got += r;
        continue;
      }
      if (r < 0 && (errno == EAGAIN || errno == EINTR)) return;
      if (!k->eof) {
        ++events;
        k->eof = true;
        NOTE("the server sees the end of the connection");
        PBT_CHECK(k->shut || k->forced || k->orphan || k->downs || k->peer_ended, "the server sees the end of the connection although the client did not end it");
        if (k->shut && !k->forced && !k->orphan && !k->peer_ended) PBT_CHECK(k->got == k->out, "the connection ends gracefully after %llu of %llu bytes", (unsigned long long)k->got, (unsigned long long)k->out);
      }
      return;
    }
  }
  void accept_all()
  {
    if (lst < 0) return;
    for (;;) {
      sockaddr_in a{};
      socklen_t n = sizeof a;
      int s = accept4(lst, (sockaddr *)&a, &n, SOCK_NONBLOCK | SOCK_CLOEXEC);
      if (s < 0) break;
      ++events;
      int one = 1;
      setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      std::string addr = text(a);
      C *k = nullptr;
      for (auto &c : conns)
        if (c->local == addr && c->peer < 0 && !c->peer_ended) k = c.get();
      if (k)
        k->peer = s;
      else
        orphans.push_back({s, addr});
    }
    // accepted before the client saw it
    for (auto it = orphans.begin(); it != orphans.end();) {
      C *k = nullptr;
      for (auto &c : conns)
        if (c->local == it->second && c->peer < 0 && !c->peer_ended) k = c.get();
      if (k) {
        k->peer = it->first;
        it = orphans.erase(it);
      } else
        ++it;
    }
  }
  std::vector<std::pair<int, std::string>> orphans;   // accepted, never reported at the client
  void serve()
  {
    accept_all();
    for (auto &k : conns) read_peer(k.get());
  }
  unsigned ticks_left = 0;
  void tick()
  {
    serve();
    if (client && !cur) PBT_CHECK(!client->GetConnection(), "GetConnection() returns a connection when none is up");
    if (ending || !steps) {
      if (!end_phase()) return;
    } else {
      --steps;
      if (g.chance(1, 3)) {
        // lets the time pass
        NOTE("(waits)");
        waited = g.range(0, 9);
        return;   // idle() goes on
      }
      for (unsigned n = g.pick<unsigned>({1, 1, 2, 3}); n; --n) op();
    }
    again();
  }
  void again() { loop->QueueToLoop([this] { tick(); }); }
  // The loop waits and nothing is ready.
  bool idle()
  {
    serve();
    bool expect = att >= 0;
    for (auto &k : conns) expect |= !k->downs && (k->peer_ended || k->forced);
    if (expect) {
      // the kernel still has something to do
      if (!idle_since) idle_since = real_ms();
      PBT_CHECK(real_ms() - idle_since < 5000, "nothing happens although %s", att >= 0 ? "an attempt is in progress" : "a connection was ended");
      usleep(20);
      return true;
    }
    idle_since = 0;
    if (completes && cur && cur->out && !cur->peer_ended && !cur->forced && !cur->shut) PBT_CHECK(cur->completes, "everything is sent, the client's write-complete callback does not run");
    PBT_CHECK(!due || g_deadline, "an attempt is due, no timer is running");
    if (g_deadline && waited) {
      --waited;
      g_now = std::max(g_now, g_deadline);
      return true;
    }
    if (g_deadline && g_now < g_deadline) {
      if (g.boolean()) g_now += (int64_t)g.range(0, (uint64_t)(g_deadline - g_now));
    } else
      g_now += (int64_t)g.range(0, 1000000);
    again();
    return false;
  }
  unsigned waited = 0;
  unsigned closing = 0;
  bool end_phase()
  {
    ending = true;
    switch (closing++) {
      case 0:
        if (g.boolean())
          destroy();
        else if (client) {
          NOTE("Stop() at the end");
          stopped = true;
          due = 0;
          retry = false;
          client->Stop();
          if (cur) {
            auto c = cur->w.lock();
            cur->forced = true;
            c->ForceClose();
          }
        }
        break;
      case 3:
        if (client) destroy();
        break;
      case 8:
        // connections that outlive the client
        for (auto &k : conns) {
          if (k->downs) continue;
          auto c = k->w.lock();
          PBT_CHECK(k->orphan, "a connection that was closed is not reported down");
          PBT_CHECK(c, "a connection was released without being reported down");
          bool held = false;
          for (auto &h : kept) held |= h == c;
          PBT_CHECK(held || k->kept, "the connection of the destroyed client is not closed");
          PBT_CHECK(c->IsConnected() || (k->shut && c->IsDisconnecting()), "the connection kept by the user does not work any more");
          if (k->peer >= 0 && g.boolean()) {
            NOTE("the server closes the kept connection");
            k->peer_ended = true;
            __real_close(k->peer);
            k->peer = -1;
          } else {
            NOTE("the user closes the kept connection");
            k->forced = true;
            c->ForceClose();
          }
          pbt::label("connection kept beyond the client");
        }
        break;
      case 40:
        for (auto &k : conns) PBT_CHECK(k->downs == 1, "a connection is reported down %d times", k->downs);
        kept.clear();
        break;
      case 44:
        for (auto &k : conns) PBT_CHECK(k->w.expired(), "a connection is still referenced after it is down");
        if (g_deadline) {
          // a cancelled timer may still wake the loop
          g_now = g_deadline;
          closing = 44;
          return true;
        }
        loop->Quit();
        return false;
    }
    if (closing > 10 && closing < 38) {
      bool all = true;
      for (auto &k : conns) all &= k->downs > 0;
      if (all)
        closing = 40;
      else {
        if (!idle_since) idle_since = real_ms();
        PBT_CHECK(real_ms() - idle_since < 5000, "a connection that was closed is not reported down");
        if (closing == 37) closing = 11;
      }
    }
    return true;
  }
  void run()
  {
    begin_case(g);
    g_now = start = 1500000000000000 + (int64_t)g.range(0, 2000000);
    g_deadline = 0;
    g_tick = 0;
    w.choose(g);
    unsigned fds = open_fds();
    kind = g.range(0, 2);
    steps = g.range(2, 30);
    bool compact = g.boolean();
    NOTE("%s loop, server %s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered epoll", text(w.a).c_str());
    g_virtual = true;
    loop.reset(new EventLoop(kind == 0));
    if (kind == 2) loop->SetEdgeTriggerMode();
    client = NewTcpClient(loop.get(), InetAddr(w.ip, w.port), "client", compact);
    client->SetConnectionCallback([this](TcpConnectionPtr const &c) { on_connection(c); });
    client->SetMessageCallback([this](TcpConnectionPtr const &c, Buffer &b, TimeStamp) { on_message(c, b); });
    completes = g.boolean();
    if (completes)
      client->SetWriteCompleteCallback([this](TcpConnectionPtr const &c) {
        ++events;
        C *k = find(c);
        PBT_CHECK(k && !k->downs, "a write-complete callback of a connection that is not up");
        PBT_CHECK(k->out, "a write-complete callback of a connection on which nothing was sent");
        ++k->completes;
        return true;
      });
    PBT_CHECK(client->GetServerAddr().ToIpPort() == text(w.a), "GetServerAddr() is wrong");
    if (g.chance(2, 3)) {
      lst = w.listener(16);
      NOTE("the server is up");
    }
    if (g.chance(1, 2)) {
      client->EnableRetry();
      retry = true;
      NOTE("EnableRetry()");
    }
    g_connect = [this](int f, const sockaddr *a, socklen_t l) { return on_connect(f, a, l); };
    g_close = [this](int f) { on_close(f); };
    g_idle = [this]() -> bool { return idle(); };
    again();
    loop->StartLoop();
    g_connect = nullptr;
    g_close = nullptr;
    loop.reset();
    g_virtual = false;
    for (auto &k : conns)
      if (k->peer >= 0) {
        auto t0 = real_ms();
        while (!k->eof) {
          read_peer(k.get());
          PBT_CHECK(real_ms() - t0 < 4000, "the server does not see the end of a connection");
        }
        __real_close(k->peer);
      }
    for (auto &o : orphans) __real_close(o.first);
    if (lst >= 0) __real_close(lst);
    unsigned now = open_fds();
    PBT_CHECK(now == fds, "%u descriptors are open after the case, %u were before", now, fds);
  }
};

static void virtual_case(Gen &g)
{
  Virtual v(g);
  v.run();
}

// ---- several threads ----
struct Conn {
  int ups = 0, downs = 0;
  std::weak_ptr<TcpConnection> w;
};
static void threads_case(Gen &g)
{
  begin_case(g);
  Place w;
  w.choose(g);
  unsigned fds = open_fds();
  unsigned kind = g.range(0, 2), nthr = g.range(1, 3), noise = g.range(0, 2), ncli = g.range(1, 2);
  bool up = g.chance(4, 5), compact = g.boolean();
  schedfuzz::setup(g.u64(), noise, 0);
  NOTE("%s loop, %u threads, %u clients, server %s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", nthr, ncli, up ? "up" : "down");
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};
  std::thread lt([&] {
    CurrentThread::cacheTid();
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    loop.QueueToLoop([&] { lp = &loop; });
    loop.StartLoop();
    while (!unused) usleep(20);
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;

  std::mutex mu;
  std::map<TcpConnection *, Conn> live;   // while up
  unsigned long ups[2] = {}, downs[2] = {};
  std::vector<std::weak_ptr<TcpConnection>> all;
  std::string bad;
  auto wrong = [&](const char *t) {
    if (bad.empty()) bad = t;
  };
  int lst = up ? w.listener(64) : -1;
  PBT_CHECK(!up || lst >= 0, "harness: the server's port is in use");

  // the server: accepts, checks the frames, sometimes ends a connection
  std::atomic<bool> server_stop{false}, gone{false};
  uint64_t sseed = g.u64();
  std::atomic<unsigned> end_rate{g.pick<unsigned>({0, 8, 30})};
  bool talk = g.boolean();
  std::atomic<unsigned> accepted{0}, open_at_server{0}, frames{0};
  std::thread st([&] {
    struct S {
      int fd;
      std::string in;
      std::map<unsigned, unsigned> seq;
    };
    std::vector<S> ss;
    uint64_t r = sseed;
    while (!server_stop || !ss.empty()) {
      if (lst >= 0)
        for (;;) {
          int s = accept4(lst, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
          if (s < 0) break;
          ss.push_back({s, {}, {}});
          ++open_at_server;
          ++accepted;
          if (talk) (void)!::write(s, "hello", 5);
        }
      for (size_t i = 0; i < ss.size(); ++i) {
        S &s = ss[i];
        bool end = false;
        char b[4096];
        ssize_t n;
        while ((n = ::read(s.fd, b, sizeof b)) > 0) s.in.append(b, n);
        if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) end = true;
        size_t at = 0;
        while (s.in.size() - at >= 8) {
          auto *p = (unsigned char *)&s.in[at];
          unsigned tid = p[0], len = p[1] | p[2] << 8, seq = p[4] | p[5] << 8 | p[6] << 16;
          if (p[3] != 0xa5 || tid >= 4) {
            std::lock_guard<std::mutex> l(mu);
            wrong("the stream at the server is damaged");
            break;
          }
          if (s.in.size() - at < 8 + len) break;
          for (unsigned j = 0; j < len; ++j)
            if (p[8 + j] != (unsigned char)(seq + j)) {
              std::lock_guard<std::mutex> l(mu);
              wrong("a message at the server is damaged");
            }
          if (s.seq.count(tid) && s.seq[tid] >= seq) {
            std::lock_guard<std::mutex> l(mu);
            wrong("messages of one thread arrive out of order or twice");
          }
          s.seq[tid] = seq;
          ++frames;
          at += 8 + len;
        }
        s.in.erase(0, at);
        r = pbt::mix(r);
        if (!end && end_rate && (gone || r % 100 < end_rate)) {
          if (r >> 20 & 1) {
            linger l{1, 0};
            setsockopt(s.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
          }
          end = true;
        }
        if (end) {
          __real_close(s.fd);
          ss.erase(ss.begin() + i--);
          --open_at_server;
        }
      }
      usleep(100);
    }
  });

  std::vector<TcpClientPtr> cl(ncli);
  std::vector<std::weak_ptr<TcpClient>> weak;
  for (unsigned c = 0; c < ncli; ++c) {
    cl[c] = NewTcpClient(loop, InetAddr(w.ip, w.port), "c" + std::to_string(c), compact);
    cl[c]->SetConnectionCallback([&, c](TcpConnectionPtr const &k) {
      std::lock_guard<std::mutex> l(mu);
      if (!loop->IsLoopInThread()) wrong("the connection callback runs outside the loop's thread");
      if (k->IsConnected()) {
        if (++ups[c] != downs[c] + 1) wrong("a second connection is reported up");
        if (live.count(k.get())) wrong("a connection is reported up twice");
        live[k.get()].w = k;
        all.push_back(k);
      } else {
        ++downs[c];
        if (!live.erase(k.get())) wrong("a connection that was not up is reported down");
      }
    });
    cl[c]->SetMessageCallback([&](TcpConnectionPtr const &k, Buffer &b, TimeStamp) {
      std::lock_guard<std::mutex> l(mu);
      if (!loop->IsLoopInThread()) wrong("the message callback runs outside the loop's thread");
      if (!live.count(k.get())) wrong("a message of a connection that is not up");
      b.AdvanceAll();
    });
    if (g.boolean()) cl[c]->EnableRetry();
    weak.push_back(cl[c]);
  }
  struct Op {
    unsigned op, cli, pause, n;
  };
  static const char *names[] = {"Connect()", "Disconnect()", "Stop()", "EnableRetry()", "Send()", "ForceClose()", "keep the connection", "waits for the connection", "releases the client"};
  std::vector<std::vector<Op>> ops(nthr);
  for (unsigned t = 0; t < nthr; ++t) {
    size_t n = g.range(1, 12);
    while (n--) {
      ops[t].push_back({(unsigned)g.weighted({6, 3, 1, 1, 6, 2, 2, 4, 2}), (unsigned)g.range(0, ncli - 1), g.pick<unsigned>({0, 0, 0, 50, 200}), (unsigned)g.small(3000)});
      NOTE("thread %u: client %u: %s", t, ops[t].back().cli, names[ops[t].back().op]);
    }
  }
  bool late = g.chance(1, 3);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nthr; ++t)
    th.emplace_back([&, t, cl]() mutable {
      CurrentThread::cacheTid();
      std::vector<TcpConnectionPtr> kept;
      unsigned seq = 0;
      for (auto &o : ops[t]) {
        if (o.pause) usleep(o.pause);
        schedfuzz::point();
        auto &c = cl[o.cli];
        if (!c) continue;
        switch (o.op) {
          case 0: c->Connect(); break;
          case 1: c->Disconnect(); break;
          case 2: c->Stop(); break;
          case 3: c->EnableRetry(); break;
          case 4:
            if (auto k = c->GetConnection()) {
              std::string d(8 + o.n, 0);
              ++seq;
              d[0] = (char)t;
              d[1] = (char)(o.n & 255);
              d[2] = (char)(o.n >> 8);
              d[3] = (char)0xa5;
              d[4] = (char)(seq & 255);
              d[5] = (char)(seq >> 8);
              for (unsigned j = 0; j < o.n; ++j) d[8 + j] = (char)(seq + j);
              if (o.n & 1)
                k->Send(StringView(d.data(), d.size()));
              else
                k->Send(d.data(), d.size());
            }
            break;
          case 5:
            if (auto k = c->GetConnection()) k->ForceClose();
            break;
          case 6:
            if (auto k = c->GetConnection()) kept.push_back(k);
            break;
          case 7:
            for (unsigned i = 0; i < 40 && !c->GetConnection(); ++i) usleep(25);
            break;
          default: c.reset();
        }
      }
      if (late)
        for (auto &k : kept) k->ForceClose();
      kept.clear();
      cl.clear();
    });
  if (!late) cl.clear();
  for (auto &t : th) t.join();
  cl.clear();
  schedfuzz::point();
  {
    std::lock_guard<std::mutex> l(mu);
    pbt::label_if(ups[0] + ups[1] > 2, "more than two connections");
    if (ups[0] + ups[1]) pbt::nontrivial();
  }
  // the clients are gone: so are their connections, except those that were kept
  // and are not closed, which the server ends
  end_rate = 100;
  gone = true;
  auto t0 = real_ms();
  auto settled = [&] {
    for (auto &k : weak)
      if (!k.expired()) return false;   // the loop establishes a connection just now
    std::lock_guard<std::mutex> l(mu);
    if (!live.empty()) return false;
    for (auto &k : all)
      if (!k.expired()) return false;
    return open_at_server == 0;
  };
  while (!settled()) {
    if (real_ms() - t0 > 10000) {
      std::lock_guard<std::mutex> l(mu);
      for (auto &k : weak) PBT_CHECK(k.expired(), "the client is not destroyed after it was released");
      PBT_CHECK(live.empty(), "a connection of a destroyed client is never reported down");
      for (auto &k : all) PBT_CHECK(k.expired(), "a connection is still referenced after its client is destroyed");
      pbt::fail("the server does not see the end of every connection after the clients are destroyed");
    }
    usleep(50);
  }
  server_stop = true;
  st.join();
  loop->Quit();
  unused = true;
  lt.join();
  schedfuzz::off();
  if (lst >= 0) __real_close(lst);
  PBT_CHECK(bad.empty(), "%s", bad.c_str());
  for (unsigned c = 0; c < ncli; ++c) PBT_CHECK(ups[c] == downs[c], "client %u has %lu connections reported up and %lu down", c, ups[c], downs[c]);
  pbt::label_if(frames > 0, "messages received");
  unsigned now = open_fds();
  PBT_CHECK(now == fds, "%u descriptors are open after the case, %u were before", now, fds);
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N07";
  cfg.rule = "virtual clock: the client is told to connect, stop or is destroyed; threads: at least one connection is established";
  cfg.assumptions = {"Connect() after Stop() is a no-op as documented; within the down callback of the connection its effect is unspecified", "errors of connect() other than those the code lists as temporary give up by design and are not injected"};
  pbt::SuiteOpt o;
  o.quick = 150000;
  pbt::suite("virtual", "one client on a virtual clock, deterministic", o, virtual_case);
  o.quick = 10000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "clients used and released by several threads", o, threads_case);
  o.quick = 12000;
  pbt::suite("races", "clients used and released by several threads", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
