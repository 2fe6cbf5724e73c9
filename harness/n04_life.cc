// N04: a connection goes up once and down once, in its loop, leaking nothing.
#include "connkit.h"
#include "schedfuzz.h"
#include <atomic>
#include <dirent.h>
using namespace ck;

static void run_case(Gen &g, bool tcp)
{
  Conn c(g, W_LIFE);
  configure(c);
  c.tcp = tcp;
  c.faults = g.chance(1, 3);
  c.wcc_set = g.chance(1, 2);
  c.hwm_set = g.chance(1, 2);
  c.mark = g.size(30000);
  c.dtor_style = g.chance(1, 4);
  unsigned closes = g.range(0, 3);
  c.describe("life");
  auto close_op = [&](Conn &c) {
    switch (g.range(0, 6)) {
      case 0: c.force_close(false); break;
      case 1: c.force_close(true); break;
      case 2: c.shutdown(false); break;
      case 3: c.shutdown(true); break;
      case 4: c.peer_close(); break;
      case 5: c.peer_close(true); break;
      default: c.peer_shutdown();
    }
  };
  unsigned left = 40;
  c.in_callback = [&](Conn &c, unsigned what) {
    if (!left) return;
    --left;
    if (g.chance(1, 4)) c.send(g.chance(1, 4));
    if (closes && g.chance(1, what == 3 ? 12 : 6)) {
      close_op(c);
      if (g.boolean()) close_op(c);
      pbt::label("close action in a callback");
    }
    if (g.chance(1, 8)) {
      if (c.paused)
        c.resume();
      else
        c.pause();
    }
  };
  c.step = [&](Conn &c) {
    unsigned n = g.range(1, 4);
    while (n--) switch (g.weighted({4, 2, 2, 3, 1, 1, closes})) {
        case 0: c.send(false); break;
        case 1: c.send(true); break;
        case 2: c.peer_read(1 + g.small(200000)); break;
        case 3: c.peer_write(1 + g.small(20000)); break;
        case 4: c.plan_faults(); break;
        case 5:
          if (c.paused)
            c.resume();
          else
            c.pause();
          break;
        default:
          close_op(c);
          if (g.boolean()) {
            close_op(c);
            pbt::label("two close actions in one iteration");
          }
      }
  };
  unsigned rounds = 0;
  unsigned max_rounds = g.range(0, 4);
  c.settle_op = [&](Conn &c) {
    if (g.boolean()) c.peer_read(1 << 18);
  };
  // forced closes take effect at once; everything else is ended by the closing phase
  c.settled = [&](Conn &c) { return ++rounds > max_rounds && (!c.forced || c.downs); };
  c.stuck = [&](Conn &c) { pbt::fail("a forced close does not end the connection"); };
  c.after_down = [&](Conn &c) {
    // a user that kept the connection
    for (unsigned i = 0; i < 6; ++i) switch (g.range(0, 7)) {
        case 0: c.send(false); break;
        case 1: c.send(true); break;
        case 2: c.shutdown(g.boolean()); break;
        case 3: c.force_close(g.boolean()); break;
        case 4: c.pause(); break;
        case 5: c.resume(); break;
        case 6: (void)c.conn->GetInputBuffer()->GetReadableSize(); break;
        default: PBT_CHECK(!c.conn->IsConnected() && c.conn->IsDisconnected(), "the connection that is down reports another state");
      }
    PBT_CHECK(c.conn->IsDisconnected(), "an operation on the connection that is down changes its state");
  };
  c.run((unsigned)g.range(0, 12));
  PBT_CHECK(c.ups == 1 && c.downs == 1, "the connection is reported up %d times and down %d times", c.ups, c.downs);
  if (c.messages || c.wcc_calls || c.forced || c.peer_closed) pbt::nontrivial();
  pbt::label_if(c.peer_reset, "reset");
  c.finish();
}

// Connections in a loop of its own thread, closed from several sides at the same time.
static void threads_case(Gen &g)
{
  begin_case();
  logging(g);
  unsigned nconn = g.range(1, 3), nthr = g.range(1, 3), kind = g.range(0, 2), noise = g.range(0, 2);
  bool tcp = g.chance(1, 3);
  schedfuzz::setup(g.u64(), noise, 0);
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};   // no other thread is in a call of the loop
  std::thread lt([&] {
    CurrentThread::cacheTid();
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    loop.QueueToLoop([&] { lp = &loop; });
    loop.StartLoop();
    while (!unused) usleep(20);
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;
  struct C {
    int fd[2];
    TcpConnectionPtr conn;
    std::weak_ptr<TcpConnection> weak;
    std::atomic<int> ups{0}, downs{0}, closes{0};
    std::atomic<unsigned long> calls{0};
    const char *bad = nullptr;   // set in the loop thread
    void check(EventLoop *l, const char *w)
    {
      ++calls;
      if (!l->IsLoopInThread()) bad = "a callback runs outside the loop's thread";
      if (ups != 1) bad = "a callback runs before the connection is reported up";
      if (downs) bad = w;
    }
  };
  std::vector<std::unique_ptr<C>> cs;
  bool self_close = g.chance(1, 4), drop_in_cb = g.chance(1, 3), echo = g.boolean(), wcc = g.boolean();
  InetAddr a("127.0.0.1", 1), b("127.0.0.1", 2);
  NOTE("%u connections, %u threads, %s loop, %s, noise %u%s%s", nconn, nthr, kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", tcp ? "TCP" : "unix", noise, echo ? ", echo" : "", self_close ? ", closed in the message callback" : "");
  for (unsigned i = 0; i < nconn; ++i) {
    cs.emplace_back(new C);
    C *c = cs.back().get();
    if (!make_pair(tcp, g.pick<int>({0, 1, 30000}), c->fd)) abort();
    c->conn = TcpConnection::NewTcpConnection(loop, "conn", c->fd[0], a, b);
    c->weak = c->conn;
    c->conn->SetConnectionCallback([c, loop](TcpConnectionPtr const &k) {
      if (!loop->IsLoopInThread()) c->bad = "the connection callback runs outside the loop's thread";
      if (k->IsConnected())
        ++c->ups;
      else
        ++c->downs;
    });
    c->conn->SetMessageCallback([c, loop, echo, self_close](TcpConnectionPtr const &k, Buffer &buf, TimeStamp) {
      c->check(loop, "the message callback runs after the connection was reported down");
      if (echo)
        k->Send(buf);
      buf.AdvanceAll();
      if (self_close && c->calls > 2) k->ForceClose();
    });
    if (wcc)
      c->conn->SetWriteCompleteCallback([c, loop](TcpConnectionPtr const &) {
        c->check(loop, "the write-complete callback runs after the connection was reported down");
        return true;
      });
    c->conn->SetHighWaterMarkCallback([c, loop](TcpConnectionPtr const &, size_t) { c->check(loop, "the high-water callback runs after the connection was reported down"); }, 1000);
    c->conn->SetCloseCallback([c, loop](TcpConnectionPtr const &k) {
      ++c->closes;
      TcpConnectionPtr cc = k;
      loop->QueueToLoop([cc] { cc->ConnectionDestroyed(); });
    });
    TcpConnectionPtr k = c->conn;
    loop->RunInLoop([k] { k->ConnectionEstablished(); });
  }
  struct Op {
    unsigned conn, op, pause;
    size_t n;
  };
  std::vector<std::vector<Op>> ops(nthr);
  static const char *names[] = {"send string", "send buffer", "ShutdownWrite", "ForceClose", "wait", "send chunks"};
  for (unsigned t = 0; t < nthr; ++t) {
    size_t k = g.range(1, 8);
    while (k--) {
      ops[t].push_back({(unsigned)g.range(0, nconn - 1), (unsigned)g.weighted({4, 2, 2, 3, 1, 2}), g.pick<unsigned>({0, 0, 20, 60}), 1 + (size_t)g.small(60000)});
      NOTE("thread %u: %s on connection %u", t, names[ops[t].back().op], ops[t].back().conn);
    }
  }
  std::vector<Op> peer;
  static const char *pnames[] = {"writes", "reads", "closes", "shuts down", "resets"};
  for (size_t k = g.range(1, 10); k--;) {
    peer.push_back({(unsigned)g.range(0, nconn - 1), (unsigned)g.weighted({4, 3, 2, 1, 1}), g.pick<unsigned>({0, 0, 20, 60}), 1 + (size_t)g.small(30000)});
    NOTE("peer %u %s", peer.back().conn, pnames[peer.back().op]);
  }
  bool quit_early = g.chance(1, 5);
  std::vector<std::thread> th;
  std::vector<TcpConnectionPtr> held;
  for (auto &c : cs) held.push_back(c->conn);
  for (unsigned t = 0; t < nthr; ++t)
    th.emplace_back([&, t, held] {
      CurrentThread::cacheTid();
      std::string d(60001, 'x');
      for (auto &o : ops[t]) {
        if (o.pause) usleep(o.pause);
        schedfuzz::point();
        auto &k = held[o.conn];
        switch (o.op) {
          case 0: k->Send(StringView(d.data(), o.n)); break;
          case 1: {
            Buffer b;
            b.Append(d.data(), o.n);
            k->Send(b);
            break;
          }
          case 2: k->ShutdownWrite(); break;
          case 3: k->ForceClose(); break;
          case 5: {
            ChunkList l;
            l.Append(d.data(), o.n);
            k->Send(l);
            break;
          }
          default: usleep(30);
        }
      }
    });
  held.clear();
  std::vector<char> buf(65536);
  for (auto &o : peer) {
    if (o.pause) usleep(o.pause);
    int &fd = cs[o.conn]->fd[1];
    if (fd < 0) continue;
    switch (o.op) {
      case 0: (void)!::write(fd, buf.data(), o.n); break;
      case 1: (void)!::read(fd, buf.data(), buf.size()); break;
      case 4:
        if (tcp) {
          linger l{1, 0};
          setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        // fallthrough
      case 2:
        ::close(fd);
        fd = -1;
        break;
      default: ::shutdown(fd, SHUT_WR);
    }
  }
  if (!quit_early)
    for (auto &t : th) t.join();
  for (auto &c : cs) {
    auto t0 = Conn::ms();   // a forced close does nothing before the connection is up
    while (!c->ups) {
      PBT_CHECK(Conn::ms() - t0 < 10000, "a connection is not reported up");
      usleep(20);
    }
    c->conn->ForceClose();
  }
  if (quit_early)
    for (auto &t : th) t.join();
  auto t0 = Conn::ms();
  for (auto &c : cs)
    while (!c->downs) {
      PBT_CHECK(Conn::ms() - t0 < 10000, "a connection is not reported down after a forced close");
      usleep(20);
    }
  // what the library still has to do takes two functor phases
  std::atomic<bool> gone{false};
  loop->QueueToLoop([&] { loop->QueueToLoop([&] { gone = true; }); });
  while (!gone) usleep(20);
  std::atomic<bool> done{false};
  loop->QueueToLoop([&] {
    for (auto &c : cs) {
      PBT_CHECK(!c->bad, "%s", c->bad);
      PBT_CHECK(c->ups == 1, "a connection is reported up %d times", c->ups.load());
      PBT_CHECK(c->downs == 1, "a connection is reported down %d times", c->downs.load());
      PBT_CHECK(c->closes == 1, "a connection is removed from its owner %d times", c->closes.load());
    }
    done = true;
  });
  while (!done) usleep(20);
  for (auto &c : cs) {
    PBT_CHECK(c->conn.use_count() == 1, "%ld references to a connection are left after it is down", c->conn.use_count() - 1);
    if (drop_in_cb) {
      auto *p = &c->conn;
      done = false;
      loop->QueueToLoop([&, p] {
        p->reset();
        done = true;
      });
      while (!done) usleep(20);
    } else
      c->conn.reset();
    PBT_CHECK(c->weak.expired(), "a connection that is down is still referenced");
    PBT_CHECK(fcntl(c->fd[0], F_GETFD) < 0, "the descriptor of a connection is still open");
    if (c->calls) pbt::nontrivial();
    if (c->fd[1] >= 0) ::close(c->fd[1]);
  }
  loop->Quit();
  unused = true;
  lt.join();
  schedfuzz::off();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N04";
  cfg.rule = "a message or write-complete callback ran, or the connection was closed by the peer or by force (threads: a callback other than up/down ran)";
  cfg.assumptions = {"EAGAIN is injected on level-triggered descriptors only", "the owner (server/client) queues ConnectionDestroyed() in the loop when the connection is closed; the owners themselves are covered by N06 and N07"};
  pbt::SuiteOpt o;
  o.quick = 40000;
  pbt::suite("unix", "one connection over a socket pair, deterministic", o, [](Gen &g) { run_case(g, false); });
  o.quick = 20000;
  pbt::suite("tcp", "one connection over TCP, deterministic", o, [](Gen &g) { run_case(g, true); });
  o.quick = 8000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "connections closed from several sides at the same time", o, threads_case);
  o.quick = 12000;
  pbt::suite("races", "connections closed from several sides at the same time", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
