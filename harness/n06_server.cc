// N06: a server accepts every client and spreads them over its loops.
#include "pbt.h"
#include "schedfuzz.h"
#include "loud.h"
#include "mynet.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include "kanon/log/logger.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/channel.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/tcp_server.h"
#include "kanon/thread/current_thread.h"
using namespace kanon;
using pbt::Gen;

// ---- injected accept errors ----
static std::atomic<int> accept_plan_n{0};
static int accept_plan[8];
extern "C" int __real_accept4(int, struct sockaddr *, socklen_t *, int);
extern "C" int __real_accept(int, struct sockaddr *, socklen_t *);
static std::atomic<unsigned long> accept_calls{0};
static bool planned_error()
{
  ++accept_calls;
  int n = accept_plan_n;
  if (n <= 0) return false;
  errno = accept_plan[--n];
  accept_plan_n = n;
  return true;
}
extern "C" int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f)
{
  if (planned_error()) return -1;
  return __real_accept4(fd, a, l, f);
}
extern "C" int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
  if (planned_error()) return -1;
  return __real_accept(fd, a, l);
}

static int64_t ms()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static unsigned open_fds()
{
  unsigned n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

// An address of this worker process that nobody listens at.
struct Where {
  bool v6 = false;
  unsigned host = 1, port = 0;
  bool wildcard = false;
  sockaddr_storage sa{};
  socklen_t len = 0;
  std::string ip;
  void choose(Gen &g)
  {
    static unsigned n = 0;
    v6 = g.chance(1, 4);
    wildcard = !v6 && g.chance(1, 8);
    host = 1 + g.range(0, 3);
    // the wildcard address and ::1 are shared by all workers; other programs may listen somewhere
    do
      set((v6 || wildcard ? 4000 + pbt::worker_index() % 200 * 100 : 3000) + n++ % 100);
    while (!is_free());
  }
  void set(unsigned p)
  {
    port = p;
    char b[64];
    if (v6) {
      sockaddr_in6 a{};
      a.sin6_family = AF_INET6;
      a.sin6_addr = in6addr_loopback;
      a.sin6_port = htons(port);
      memcpy(&sa, &a, len = sizeof a);
      ip = "::1";
    } else {
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(my_address(host));
      a.sin_port = htons(port);
      memcpy(&sa, &a, len = sizeof a);
      inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
      ip = b;
    }
  }
  InetAddr addr() const { return v6 ? InetAddr((uint16_t)port, true, true) : wildcard ? InetAddr((uint16_t)port) : InetAddr(ip, (uint16_t)port); }
  int sock() const { return socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); }
  // Nobody listens here any more
  bool is_free() const
  {
    int s = sock(), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_storage a = sa;
    if (wildcard) ((sockaddr_in *)&a)->sin_addr.s_addr = 0;
    bool r = !bind(s, (const sockaddr *)&a, len) && !listen(s, 1);
    close(s);
    return r;
  }
};

static std::string text(sockaddr_storage const &s)
{
  char b[64];
  if (s.ss_family == AF_INET6) {
    auto a = (sockaddr_in6 const *)&s;
    inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b);
    return std::string("[") + b + "]:" + std::to_string(ntohs(a->sin6_port));
  }
  auto a = (sockaddr_in const *)&s;
  inet_ntop(AF_INET, &a->sin_addr, b, sizeof b);
  return std::string(b) + ":" + std::to_string(ntohs(a->sin_port));
}

struct Client {
  unsigned no = 0;
  int fd = -1;
  std::string local, remote;   // as the client sees them
  uint64_t sent = 0;           // bytes written
  bool ended = false;          // closed or shut down by the client
  bool reset = false;
  bool dropped_ok = false;     // the server had no descriptor for it
  // the server's side
  std::atomic<int> ups{0}, downs{0};
  std::atomic<EventLoop *> loop{nullptr};
  uint64_t received = 0;
  bool forced = false;
  unsigned sends = 0, completes = 0;   // Send() calls of the server and write-complete callbacks
  int no_delay = -1, keep_alive = -1;  // options set on the connection
  int tag = 0;                         // its context
  std::weak_ptr<TcpConnection> conn;
  unsigned server = 0;
  unsigned char byte(uint64_t i) const { return (unsigned char)(pbt::mix(no * 7919 + (i >> 3)) >> ((i & 7) * 8)); }
  ~Client()
  {
    if (fd >= 0) close(fd);
  }
  bool connect(Where const &w)
  {
    fd = w.sock();
    if (::connect(fd, (const sockaddr *)&w.sa, w.len)) {
      close(fd);
      fd = -1;
      return false;
    }
    know();
    return true;
  }
  void know()
  {
    sockaddr_storage s;
    socklen_t n = sizeof s;
    getsockname(fd, (sockaddr *)&s, &n);
    local = text(s);
    n = sizeof s;
    getpeername(fd, (sockaddr *)&s, &n);
    remote = text(s);
    fcntl(fd, F_SETFL, O_NONBLOCK);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  }
  void write(size_t n)
  {
    std::string d(n, 0);
    for (size_t i = 0; i < n; ++i) d[i] = (char)byte(sent + i);
    ssize_t r = ::write(fd, d.data(), n);
    if (r > 0) sent += r;
  }
  void end(unsigned how)   // 0 close, 1 shut down, 2 reset
  {
    ended = true;
    if (how == 1) {
      ::shutdown(fd, SHUT_WR);
      return;
    }
    if (how == 2) {
      linger l{1, 0};
      setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
      reset = true;
    }
    close(fd);
    fd = -1;
  }
  // 1 the connection has ended, 0 not yet
  bool at_end()
  {
    char b[4096];
    for (;;) {
      ssize_t r = ::read(fd, b, sizeof b);
      if (r == 0) return true;
      if (r < 0) return errno != EAGAIN && errno != EINTR;
    }
  }
};

static void begin_case(Gen &g)
{
  logging(g);
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  accept_plan_n = 0;
}

// ---- one thread, no worker loops ----
struct Single {
  Gen &g;
  Where w;
  unsigned kind;
  bool twin;   // two servers share the port
  std::unique_ptr<EventLoop> loop;
  struct Server {
    std::unique_ptr<TcpServer> s;
    std::set<std::string> names;
    std::string name;
    unsigned inits = 0;
    bool started = false;
  } sv[2];
  std::deque<std::unique_ptr<Client>> clients;
  std::map<std::string, Client *> by_addr;
  std::vector<TcpConnectionPtr> kept;
  std::vector<int> filler;
  unsigned steps, next_no = 0;
  bool gone = false;   // the servers are destroyed
  bool late;           // destroyed after the loop
  bool completes;      // the servers have a write-complete callback
  int64_t idle_since = 0;
  unsigned depth = 0;
  std::shared_ptr<int> alive{std::make_shared<int>(0)};

  Single(Gen &gg) : g(gg) {}
  ~Single() { restore(); }

  void make(unsigned i)
  {
    Server &v = sv[i];
    v.name = i ? "twin" : std::string(g.small(60), 's');
    v.s.reset(new TcpServer(loop.get(), w.addr(), v.name, twin));
    v.s->SetConnectionCallback([this, i](TcpConnectionPtr const &c) { on_connection(i, c); });
    v.s->SetMessageCallback([this](TcpConnectionPtr const &c, Buffer &b, TimeStamp) { on_message(c, b); });
    if (completes)
      v.s->SetWriteCompleteCallback([this](TcpConnectionPtr const &c) {
        Client *k = by_addr[c->GetPeerAddr().ToIpPort()];
        PBT_CHECK(k && k->conn.lock() == c && k->ups == 1 && k->downs == 0, "a write-complete callback of a connection that is not up");
        PBT_CHECK(k->sends, "a write-complete callback of a connection on which nothing was sent");
        ++k->completes;
        return true;
      });
    v.s->SetThreadInitCallback([this, i](EventLoop *l) {
      PBT_CHECK(l == loop.get(), "the thread-init callback gets another loop");
      ++sv[i].inits;
    });
    if (g.chance(1, 3)) {
      v.s->EnablePool(true);
      if (g.boolean()) v.s->SetChunkPerBlock(1 + g.range(0, 5));
    }
  }
  void on_connection(unsigned i, TcpConnectionPtr const &c)
  {
    PBT_CHECK(loop->IsLoopInThread() && c->GetLoop() == loop.get(), "a connection of a server without worker loops does not run in the listening loop");
    std::string peer = c->GetPeerAddr().ToIpPort(), local = c->GetLocalAddr().ToIpPort();
    if (c->IsConnected()) {
      NOTE("  [up: %s from %s]", c->GetName().c_str(), peer.c_str());
      auto it = by_addr.find(peer);
      PBT_CHECK(it != by_addr.end(), "a connection from %s is reported, no client has this address", peer.c_str());
      Client *k = it->second;
      PBT_CHECK(k->ups == 0, "a second connection for the client %u is reported", k->no);
      PBT_CHECK(local == k->remote, "the connection's local address is %s, its client is connected to %s", local.c_str(), k->remote.c_str());
      PBT_CHECK(sv[i].names.insert(c->GetName()).second, "the connection name %s is used twice", c->GetName().c_str());
      ++k->ups;
      k->conn = c;
      k->server = i;
      options(c, k);
      if (g.chance(1, 6)) {
        kept.push_back(c);
        NOTE("  the user keeps the connection");
      }
      if (g.chance(1, 10)) force(k);
      in_callback();
    } else {
      auto it = by_addr.find(peer);
      PBT_CHECK(it != by_addr.end() && it->second->conn.lock() == c, "a connection that was not up is reported down");
      Client *k = it->second;
      NOTE("  [down: client %u]", k->no);
      PBT_CHECK(k->downs == 0, "the connection of client %u is reported down twice", k->no);
      PBT_CHECK(k->ended || k->forced || gone, "the connection of client %u is reported down, nobody closed it", k->no);
      if (!gone && !k->forced && !k->reset) PBT_CHECK(k->received == k->sent, "the connection of client %u is down after %llu of %llu bytes", k->no, (unsigned long long)k->received, (unsigned long long)k->sent);
      ++k->downs;
      in_callback();
    }
  }
  // Options and the context belong to one connection, also in recycled memory.
  void options(TcpConnectionPtr const &c, Client *k)
  {
    if (!g.chance(1, 3)) return;
    auto get = [&](int level, int opt) {
      int v = -1;
      socklen_t n = sizeof v;
      getsockopt(c->channel()->GetFd(), level, opt, &v, &n);
      return v != 0;
    };
    PBT_CHECK(get(IPPROTO_TCP, TCP_NODELAY) == (k->no_delay == 1) && get(SOL_SOCKET, SO_KEEPALIVE) == (k->keep_alive == 1), "a connection has options nobody set");
    PBT_CHECK(AnyCast<int>(c->GetContext()) == (k->tag ? &k->tag : nullptr), "a connection has a context of another one");
    unsigned what = g.range(1, 7);
    if (what & 1) c->SetNoDelay(k->no_delay = g.boolean());
    if (what & 2) c->SetKeepAlive(k->keep_alive = g.boolean());
    if (what & 4) {
      k->tag = 1;
      c->SetContext(k->tag);
    }
    NOTE("  options of client %u: no delay %d, keep alive %d, context %d", k->no, k->no_delay, k->keep_alive, k->tag);
    PBT_CHECK(get(IPPROTO_TCP, TCP_NODELAY) == (k->no_delay == 1), "SetNoDelay() has no effect");
    PBT_CHECK(get(SOL_SOCKET, SO_KEEPALIVE) == (k->keep_alive == 1), "SetKeepAlive() has no effect");
    pbt::label("options of connections");
  }
  void on_message(TcpConnectionPtr const &c, Buffer &b)
  {
    Client *k = by_addr[c->GetPeerAddr().ToIpPort()];
    PBT_CHECK(k && k->conn.lock() == c && k->ups == 1 && k->downs == 0, "a message of a connection that is not up");
    size_t n = b.GetReadableSize();
    for (size_t j = 0; j < n; ++j) PBT_CHECK((unsigned char)b.GetReadBegin()[j] == k->byte(k->received + j), "byte %llu received from client %u is wrong", (unsigned long long)(k->received + j), k->no);
    k->received += n;
    b.AdvanceAll();
    options(c, k);
    if (g.chance(1, 8)) {
      ++k->sends;
      c->Send("hello");
      // the client may answer what it gets after its close with a reset
      if (k->fd < 0) k->reset = true;
    }
    if (g.chance(1, 10)) force(k);
    // another connection, which may have an event in the same round
    if (g.chance(1, 8) && !clients.empty()) force(clients[g.range(0, clients.size() - 1)].get());
    in_callback();
  }
  void force(Client *k)
  {
    auto c = k->conn.lock();
    if (!c || k->downs) return;
    NOTE("  ForceClose() of client %u", k->no);
    k->forced = true;
    c->ForceClose();
  }
  void in_callback()
  {
    if (depth || gone || !g.chance(1, 8)) return;
    ++depth;
    iterate();
    --depth;
  }
  unsigned live(unsigned i)
  {
    unsigned n = 0;
    for (auto &k : clients) n += k->ups && !k->downs && k->server == i;
    return n;
  }
  void iterate()
  {
    unsigned i = twin && g.boolean();
    if (!sv[i].s) return;
    // while a connection goes up or down it may be listed or not
    bool exact = depth == 0;
    unsigned n = live(i);
    std::set<TcpConnection *> seen;
    auto visit = [&](TcpConnectionPtr const &c) {
      PBT_CHECK(seen.insert(c.get()).second, "the iteration visits a connection twice");
      auto it = by_addr.find(c->GetPeerAddr().ToIpPort());
      PBT_CHECK(it != by_addr.end() && it->second->server == i, "the iteration visits a foreign connection");
      if (exact) PBT_CHECK(it->second->conn.lock() == c && it->second->ups && !it->second->downs, "the iteration visits a connection that is not up");
    };
    if (g.boolean()) {
      MutexGuard l(sv[i].s->ConnLock());
      for (auto it = sv[i].s->ConnBegin(); it != sv[i].s->ConnEnd(); ++it) {
        PBT_CHECK(it->first == it->second->GetName(), "a connection is listed under the name %s of another one", it->first.c_str());
        visit(it->second);
      }
      NOTE("%siterate: %zu", depth ? "  " : "", seen.size());
    } else {
      unsigned close = g.chance(1, 4) ? 1 + g.range(0, 2) : 0;
      NOTE("%sApplyAllPeers%s", depth ? "  " : "", close ? ", closing some" : "");
      unsigned at = 0;
      if (depth) close = 0;
      sv[i].s->ApplyAllPeers([&](TcpConnectionPtr const &c) {
        visit(c);
        if (close && ++at % close == 0) {
          auto it = by_addr.find(c->GetPeerAddr().ToIpPort());
          ++depth;
          force(it->second);
          --depth;
        }
      });
      if (close) pbt::label("closed while iterating");
    }
    if (exact) PBT_CHECK(seen.size() == n, "the iteration visits %zu connections, %u are up", seen.size(), n);
    if (n > 1) pbt::label("iteration over several connections");
  }
  bool any_started() const { return sv[0].started || sv[1].started; }
  void connect(unsigned n)
  {
    NOTE("%u clients connect", n);
    unsigned left = n;
    while (n--) {
      std::unique_ptr<Client> k(new Client);
      k->no = next_no++;
      bool ok = k->connect(w);
      PBT_CHECK(ok == (any_started() && !gone), "a client is %s a server that is %s", ok ? "connected to" : "refused by", any_started() ? gone ? "destroyed" : "running" : "not started");
      if (!ok) return;
      // an address may be used again
      by_addr[k->local] = k.get();
      if (g.chance(1, 4)) k->write(1 + g.small(3000));
      if (g.chance(1, 12)) {
        k->end(g.range(0, 2));
        NOTE("client %u ends at once", k->no);
      }
      clients.push_back(std::move(k));
    }
    if (left > 1) pbt::label("several clients at once");
    pbt::nontrivial();
  }
  Client *some(bool up)
  {
    if (clients.empty()) return nullptr;
    Client *k = clients[g.range(0, clients.size() - 1)].get();
    return k->fd >= 0 && (!up || (k->ups && !k->downs)) ? k : nullptr;
  }
  // The process has no descriptor left.
  void exhaust()
  {
    rlimit r;
    getrlimit(RLIMIT_NOFILE, &r);
    int top = dup(0);
    close(top);
    for (auto &k : clients) top = std::max(top, k->fd);
    r.rlim_cur = top + 1;
    setrlimit(RLIMIT_NOFILE, &r);
    int f;
    while ((f = dup(0)) >= 0) filler.push_back(f);
  }
  void restore()
  {
    if (filler.empty()) return;
    for (int f : filler) close(f);
    filler.clear();
    rlimit r;
    getrlimit(RLIMIT_NOFILE, &r);
    r.rlim_cur = r.rlim_max < 1024 ? r.rlim_max : 1024;
    setrlimit(RLIMIT_NOFILE, &r);
  }
  void again() { loop->QueueToLoop([this] { tick(); }); }
  void one_step()
  {
    if (!filler.empty()) {
      if (g.chance(1, 3)) return;
      restore();
      NOTE("descriptors are available again");
      return;
    }
    switch (g.weighted({6, 4, 3, 3, 2, 2, 1, 1, 1, 1})) {
      case 0:
        if (clients.size() < 40) connect(1 + g.small(9));
        break;
      case 1:
        if (Client *k = some(false))
          if (!k->ended) {
            size_t n = 1 + g.small(20000);
            NOTE("client %u writes %zu bytes", k->no, n);
            k->write(n);
          }
        break;
      case 2:
        if (Client *k = some(false))
          if (!k->ended) {
            unsigned how = g.range(0, 2);
            NOTE("client %u %s", k->no, how == 0 ? "closes" : how == 1 ? "shuts down" : "resets");
            // bytes not read by a client that closes make a reset
            char c;
            if (how == 0 && ::recv(k->fd, &c, 1, MSG_PEEK) > 0) k->reset = true;
            k->end(how);
          }
        break;
      case 3: iterate(); break;
      case 4:
        if (Client *k = some(true)) {
          if (g.boolean())
            force(k);
          else if (auto c = k->conn.lock()) {
            ++k->sends;
            c->Send(std::string(1 + g.small(2000), 'x'));
          }
        }
        break;
      case 5: {
        int n = 1 + g.range(0, 2);
        NOTE("the next %d accept calls are interrupted or fail", n);
        for (int i = 0; i < n; ++i) accept_plan[i] = g.boolean() ? EINTR : ECONNABORTED;
        accept_plan_n = n;
        pbt::label("injected accept errors");
        break;
      }
      case 6: {
        unsigned i = twin && g.boolean();
        NOTE("StartRun() of server %u%s", i, sv[i].started ? " again" : "");
        if (g.boolean())
          sv[i].s->StartRun();
        else {
          std::thread t([&] { sv[i].s->StartRun(); });
          t.join();
        }
        sv[i].started = true;   // in the next functor phase at the latest, before the next step
        break;
      }
      case 7:
        if (any_started() && clients.size() < 40) {
          size_t first = clients.size();
          connect(1 + g.small(3));
          (void)first;
          for (auto &k : clients)
            if (!k->ups) k->dropped_ok = true;
          exhaust();
          NOTE("no descriptor is available");
          pbt::label("descriptors exhausted");
        }
        break;
      case 8:
        if (!kept.empty()) {
          size_t i = g.range(0, kept.size() - 1);
          kept.erase(kept.begin() + i);
        }
        break;
      default: sv[0].s->EnablePool(g.boolean());
    }
  }
  void tick()
  {
    if (steps) {
      --steps;
      one_step();
      again();
      return;
    }
    if (!filler.empty()) {
      restore();
      // two rounds later the clients the server could not accept are gone
      steps = 2;
    }
    // every client has got its connection, everything sent is received
    const char *missing = nullptr;
    unsigned who = 0;
    for (auto &k : clients) {
      const char *m = nullptr;
      if (!k->ups) {
        if (k->dropped_ok && (k->fd < 0 || k->at_end())) continue;
        m = "is not reported up";
      } else if (!k->downs && k->ended)
        m = "is not reported down although its client ended it";
      else if (!k->downs && !k->forced && k->received != k->sent)
        m = "has not delivered everything";
      else if (completes && !k->downs && !k->forced && !k->ended && k->sends && !k->completes)
        m = "has sent everything, the server's write-complete callback does not run";
      if (m) missing = m, who = k->no;
    }
    if (missing) {
      if (!idle_since) idle_since = ms();
      PBT_CHECK(ms() - idle_since < 4000, "the connection of client %u %s", who, missing);
      usleep(200);
      again();
      return;
    }
    depth = 0;
    iterate();
    for (unsigned i = 0; i <= twin; ++i) {
      PBT_CHECK(sv[i].inits == (sv[i].started ? 1u : 0u), "the thread-init callback of a %sstarted server ran %u times", sv[i].started ? "" : "never ", sv[i].inits);
      PBT_CHECK(sv[i].s->IsRunning() == sv[i].started, "IsRunning() of a %sstarted server is %d", sv[i].started ? "" : "never ", sv[i].s->IsRunning());
    }
    if (g.boolean() && any_started()) {
      // clients that are not accepted yet
      unsigned n = g.range(1, 3);
      NOTE("%u clients that are not accepted any more", n);
      while (n--) {
        std::unique_ptr<Client> k(new Client);
        k->no = next_no++;
        k->connect(w);
        k->dropped_ok = true;
        by_addr[k->local] = k.get();
        clients.push_back(std::move(k));
      }
    }
    if (!late) destroy();
    // the loop goes on without the servers
    loop->QueueToLoop([this] { loop->QueueToLoop([this] { loop->Quit(); }); });
  }
  void destroy()
  {
    NOTE("the servers are destroyed %s", late ? "after the loop" : "in the loop");
    gone = true;
    for (unsigned i = 0; i <= twin; ++i) sv[i].s.reset();
    for (auto &k : clients) PBT_CHECK(k->ups == k->downs, "the connection of client %u is not reported down when its server is destroyed", k->no);
  }
  void run()
  {
    begin_case(g);
    w.choose(g);
    unsigned fds = open_fds();
    kind = g.range(0, 2);
    twin = g.chance(1, 8);
    late = g.chance(1, 4);
    completes = g.boolean();
    steps = g.range(1, 24);
    NOTE("%s loop, listening at %s port %u%s%s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered epoll", w.wildcard ? "*" : w.ip.c_str(), w.port, twin ? ", two servers" : "", late ? ", destroyed after the loop" : "");
    loop.reset(new EventLoop(kind == 0));
    if (kind == 2) loop->SetEdgeTriggerMode();
    for (unsigned i = 0; i <= twin; ++i) {
      make(i);
      if (!g.chance(1, 6)) {
        sv[i].s->StartRun();
        sv[i].started = true;
      }
    }
    again();
    loop->StartLoop();
    if (late) destroy();
    PBT_CHECK(gone, "the loop returned early");
    PBT_CHECK(w.is_free(), "the port is still in use after the server is destroyed");
    for (auto &c : kept) PBT_CHECK(c->IsDisconnected(), "a connection of a destroyed server is not disconnected");
    bool loop_first = g.boolean();
    if (loop_first) loop.reset();
    kept.clear();
    for (auto &k : clients) {
      PBT_CHECK(k->conn.expired(), "the connection of client %u is still referenced after its server is destroyed", k->no);
      if (k->fd < 0) continue;
      auto t0 = ms();
      while (!k->at_end()) {
        PBT_CHECK(ms() - t0 < 4000, "client %u does not see the end of its connection after the server is destroyed", k->no);
        usleep(100);
      }
    }
    by_addr.clear();
    clients.clear();
    loop.reset();
    unsigned now = open_fds();
    PBT_CHECK(now == fds, "%u descriptors are open after the case, %u were before", now, fds);
  }
};
static void single_case(Gen &g)
{
  Single s(g);
  s.run();
}

// ---- worker loops ----
static void loops_case(Gen &g)
{
  begin_case(g);
  Where w;
  w.choose(g);
  unsigned nloop = g.range(0, 3), kind = g.range(0, 2), nthr = g.range(1, 3), noise = g.range(0, 2);
  unsigned starters = g.range(1, 3);
  bool ordered = nthr == 1, pool = g.chance(1, 3), late = g.chance(1, 4), echo = g.boolean(), self_close = g.chance(1, 4);
  unsigned keep = g.chance(1, 3) ? 2 : 0;
  schedfuzz::setup(g.u64(), noise, 0);
  NOTE("%u worker loops, %s listening loop, %u threads with clients, StartRun() by %u threads%s%s%s%s", nloop, kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", nthr, starters, pool ? ", pool" : "", echo ? ", echo" : "", self_close ? ", closed by the server" : "", late ? ", destroyed after the loop" : "");
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};
  std::unique_ptr<TcpServer> server;

  std::mutex mu;   // the record of the callbacks
  std::vector<EventLoop *> inits;
  std::vector<std::unique_ptr<Client>> clients;
  struct Rec {
    int ups = 0, downs = 0, sends = 0, completes = 0;
    EventLoop *loop = nullptr;
    std::string local, name, got;
    std::weak_ptr<TcpConnection> conn;
  };
  std::map<std::string, Rec> recs;   // by the client's address
  std::vector<TcpConnectionPtr> kept;
  std::set<std::string> names, forced;
  std::string bad;
  unsigned nmsg = 0;
  auto wrong = [&](const char *w) {
    if (bad.empty()) bad = w;
  };

  std::thread lt([&] {
    CurrentThread::cacheTid();
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    server.reset(new TcpServer(&loop, w.addr(), "srv"));
    server->SetLoopNum((int)nloop);
    server->EnablePool(pool);
    server->SetThreadInitCallback([&](EventLoop *l) {
      std::lock_guard<std::mutex> k(mu);
      if (!l->IsLoopInThread()) wrong("the thread-init callback runs outside its loop's thread");
      inits.push_back(l);
    });
    server->SetConnectionCallback([&](TcpConnectionPtr const &c) {
      std::lock_guard<std::mutex> k(mu);
      if (!c->GetLoop()->IsLoopInThread()) wrong("the connection callback runs outside the connection's loop");
      Rec &r = recs[c->GetPeerAddr().ToIpPort()];
      if (c->IsConnected()) {
        if (++r.ups > 1) wrong("a client is reported up twice");
        if (!names.insert(c->GetName()).second) wrong("a connection name is used twice");
        r.conn = c;
        r.loop = c->GetLoop();
        r.local = c->GetLocalAddr().ToIpPort();
        r.name = c->GetName();
        if (keep && names.size() % keep == 0) kept.push_back(c);
      } else {
        if (++r.downs > 1) wrong("a client is reported down twice");
        if (r.conn.lock() != c) wrong("a connection that was not up is reported down");
      }
    });
    server->SetMessageCallback([&](TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
      bool close = false;
      {
        std::lock_guard<std::mutex> k(mu);
        Rec &r = recs[c->GetPeerAddr().ToIpPort()];
        if (!c->GetLoop()->IsLoopInThread()) wrong("the message callback runs outside the connection's loop");
        if (r.ups != 1 || r.downs || r.conn.lock() != c) wrong("a message of a connection that is not up");
        r.got.append(b.GetReadBegin(), b.GetReadableSize());
        ++nmsg;
        r.sends += echo;
        close = self_close && nmsg % 3 == 0;
      }
      if (echo) {
        StringView v(b.GetReadBegin(), b.GetReadableSize());
        c->Send(v);
      }
      b.AdvanceAll();
      if (close) c->ForceClose();
    });
    if (echo)
      server->SetWriteCompleteCallback([&](TcpConnectionPtr const &c) {
        std::lock_guard<std::mutex> k(mu);
        Rec &r = recs[c->GetPeerAddr().ToIpPort()];
        if (!c->GetLoop()->IsLoopInThread()) wrong("the write-complete callback runs outside the connection's loop");
        if (r.ups != 1 || r.downs || r.conn.lock() != c) wrong("a write-complete callback of a connection that is not up");
        if (!r.sends) wrong("a write-complete callback of a connection on which nothing was sent");
        ++r.completes;
        return true;
      });
    loop.QueueToLoop([&] { lp = &loop; });
    loop.StartLoop();
    while (!unused) usleep(20);
    if (late) server.reset();
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;
  auto wait_ms = [&](std::function<bool()> f, const char *what) {
    auto t0 = ms();
    while (!f()) {
      PBT_CHECK(ms() - t0 < 10000, "%s", what);
      usleep(20);
    }
  };

  if (g.chance(1, 12)) {
    NOTE("never started");
    starters = 0;
  }
  std::vector<std::thread> th;
  for (unsigned i = 0; i < starters; ++i)
    th.emplace_back([&] {
      CurrentThread::cacheTid();
      schedfuzz::point();
      server->StartRun();
    });
  for (auto &t : th) t.join();
  th.clear();
  if (starters) {
    wait_ms([&] { return server->IsRunning(); }, "the server does not run after StartRun()");
    struct Op {
      unsigned op, pause;
      size_t n;
    };
    std::vector<std::vector<Op>> ops(nthr);
    static const char *names_[] = {"connect", "write", "close", "shut down", "reset", "iterate", "close by ApplyAllPeers"};
    for (unsigned t = 0; t < nthr; ++t) {
      size_t n = g.range(1, 12);
      while (n--) {
        ops[t].push_back({(unsigned)g.weighted({6, 4, 2, 1, 1, 2, 1}), g.pick<unsigned>({0, 0, 0, 30, 100}), 1 + (size_t)g.small(6000)});
        NOTE("thread %u: %s", t, names_[ops[t].back().op]);
      }
    }
    auto script = [&](unsigned t) {
      std::vector<Client *> mine;
      for (auto &o : ops[t]) {
        if (o.pause) usleep(o.pause);
        schedfuzz::point();
        Client *k = nullptr;
        if (!mine.empty()) k = mine[o.n % mine.size()];
        switch (o.op) {
          case 0: {
            std::unique_ptr<Client> n(new Client);
            bool ok = n->connect(w);
            PBT_CHECK(ok, "a client is refused by a running server: %s", strerror(errno));
            mine.push_back(n.get());
            std::lock_guard<std::mutex> l(mu);
            n->no = (unsigned)clients.size();
            clients.push_back(std::move(n));
            break;
          }
          case 5: {
            std::set<TcpConnection *> seen;
            server->ApplyAllPeers([&](TcpConnectionPtr const &c) {
              PBT_CHECK(seen.insert(c.get()).second, "the iteration visits a connection twice");
            });
            break;
          }
          case 6: {
            unsigned i = 0;
            server->ApplyAllPeers([&](TcpConnectionPtr const &c) {
              if (++i % 2) {
                {
                  std::lock_guard<std::mutex> l(mu);
                  forced.insert(c->GetPeerAddr().ToIpPort());
                }
                c->ForceClose();
              }
            });
            break;
          }
          default:
            if (!k || k->fd < 0 || k->ended) break;
            if (o.op == 1)
              k->write(o.n);
            else
              k->end(o.op - 2 == 0 ? 0 : o.op - 2 == 1 ? 1 : 2);
        }
      }
    };
    for (unsigned t = 0; t < nthr; ++t)
      th.emplace_back([&, t] {
        CurrentThread::cacheTid();
        script(t);
      });
    for (auto &t : th) t.join();
    bool settle = !g.chance(1, 4);
    if (settle) {
      wait_ms(
          [&] {
            std::lock_guard<std::mutex> l(mu);
            for (auto &k : clients) {
              auto it = recs.find(k->local);
              if (it == recs.end() || !it->second.ups) return false;
              if (k->ended && !it->second.downs) return false;
              if (!k->ended && !self_close && !forced.count(k->local) && it->second.got.size() != k->sent) return false;
              if (!k->ended && !self_close && !forced.count(k->local) && it->second.sends && !it->second.completes) return false;
            }
            return true;
          },
          "not every client gets a connection that delivers what it wrote, reports its writes complete and ends with it");
      std::lock_guard<std::mutex> l(mu);
      std::map<EventLoop *, unsigned> count;
      for (size_t i = 0; i < clients.size(); ++i) {
        Client *k = clients[i].get();
        Rec &r = recs[k->local];
        ++count[r.loop];
        PBT_CHECK(r.local == k->remote, "the connection's local address is %s, its client is connected to %s", r.local.c_str(), k->remote.c_str());
        PBT_CHECK(r.got.size() <= k->sent, "a connection delivered more than its client wrote");
        for (size_t j = 0; j < r.got.size(); ++j) PBT_CHECK((unsigned char)r.got[j] == k->byte(j), "byte %zu received from a client is wrong", j);
        if (nloop == 0)
          PBT_CHECK(r.loop == loop, "a connection of a server without worker loops does not run in the listening loop");
        else if (ordered) {
          PBT_CHECK(inits.size() == nloop, "the thread-init callback ran %zu times for %u loops", inits.size(), nloop);
          PBT_CHECK(r.loop == inits[i % nloop], "connection %zu does not run in loop %zu of %u", i, i % nloop, nloop);
        }
      }
      if (nloop && !clients.empty()) {
        unsigned lo = ~0u, hi = 0;
        for (auto *l : inits) {
          unsigned n = count.count(l) ? count[l] : 0;
          lo = std::min(lo, n);
          hi = std::max(hi, n);
        }
        PBT_CHECK(hi - lo <= 1, "the connections are not spread evenly: one loop has %u, another one %u", hi, lo);
        PBT_CHECK(!count.count(loop), "a connection of a server with worker loops runs in the listening loop");
      }
      if (nloop > 1 && clients.size() > nloop) pbt::label("more clients than loops");
    } else
      pbt::label("destroyed while busy");
    PBT_CHECK(inits.size() == std::max(1u, nloop), "the thread-init callback ran %zu times for %u loops", inits.size(), nloop);
    std::set<EventLoop *> distinct(inits.begin(), inits.end());
    PBT_CHECK(distinct.size() == inits.size() && (nloop == 0) == (distinct.count(loop) == 1), "the thread-init callback does not run once per loop");
    if (!clients.empty() && nloop) pbt::nontrivial();
  }
  // the end
  std::atomic<bool> done{false};
  if (!late) {
    loop->QueueToLoop([&] {
      server.reset();
      done = true;
    });
    wait_ms([&] { return done.load(); }, "the destruction of the server does not return");
    PBT_CHECK(w.is_free(), "the port is still in use after the server is destroyed");
  }
  loop->Quit();
  unused = true;
  lt.join();
  schedfuzz::off();
  PBT_CHECK(w.is_free(), "the port is still in use after the server is destroyed");
  PBT_CHECK(bad.empty(), "%s", bad.c_str());
  for (auto &kr : recs) {
    Rec &r = kr.second;
    PBT_CHECK(r.ups == 1 && r.downs == 1, "a connection is reported up %d times and down %d times", r.ups, r.downs);
  }
  for (auto &c : kept) PBT_CHECK(c->IsDisconnected(), "a connection of a destroyed server is not disconnected");
  if (!kept.empty()) pbt::label("kept connections");
  kept.clear();
  for (auto &kr : recs) PBT_CHECK(kr.second.conn.expired(), "a connection is still referenced after its server is destroyed");
  for (auto &k : clients) {
    if (recs.count(k->local)) {
      std::string &s = recs[k->local].got;
      PBT_CHECK(s.size() <= k->sent, "a connection delivered more than its client wrote");
      for (size_t j = 0; j < s.size(); ++j) PBT_CHECK((unsigned char)s[j] == k->byte(j), "byte %zu received from a client is wrong", j);
    }
    if (k->fd < 0) continue;
    auto t0 = ms();
    while (!k->at_end()) {
      PBT_CHECK(ms() - t0 < 4000, "a client does not see the end of its connection after the server is destroyed");
      usleep(100);
    }
  }
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N06";
  cfg.rule = "at least one client connected to a running server (worker loops: and the server has some)";
  cfg.assumptions = {"a server is destroyed in its loop's thread, in the functor phase or after the loop ended (Acceptor asserts the thread)", "a client the server has no descriptor for is dropped by design", "accept errors other than EINTR, ECONNABORTED and EMFILE abort the process by design"};
  pbt::SuiteOpt o;
  o.quick = 60000;
  pbt::suite("single", "servers without worker loops, deterministic", o, single_case);
  o.quick = 15000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("loops", "servers with worker loops, clients in several threads", o, loops_case);
  o.quick = 5000;
  pbt::suite("races", "servers with worker loops, clients in several threads", o, loops_case);
  return pbt::run(argc, argv, cfg);
}
