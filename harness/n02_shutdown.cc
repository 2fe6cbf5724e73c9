// N02: graceful shutdown flushes what was sent before, then ends the stream.
#include "connkit.h"
#include "schedfuzz.h"
#include <atomic>
using namespace ck;

static void run_case(Gen &g, bool tcp)
{
  Conn c(g, W_SHUT);
  configure(c);
  c.tcp = tcp;
  c.wcc_set = g.chance(1, 2);
  c.hwm_set = g.chance(1, 4);
  c.mark = g.size(60000);
  c.faults = g.chance(1, 2);
  unsigned slow = g.range(0, 2), where = g.range(0, 4), later = g.range(0, 3), at_end = g.range(0, 2);
  bool twice = g.chance(1, 3);
  size_t more = g.chance(1, 3) ? 0 : 1 + g.small(100000);
  c.describe("shutdown");
  auto down = [&](Conn &c) {
    c.shutdown(false);
    if (twice) c.shutdown(g.boolean());
  };
  bool asked = false;
  unsigned cb_skip = g.small(6);
  c.in_callback = [&](Conn &c, unsigned what) {
    if (!c.shut && what != 3 && g.chance(1, 4)) c.send(false);
    if (c.shut && g.chance(1, 6)) c.send(false);
    // 1: from the message callback, 2: from the write-complete callback, 3: when up
    if ((where == 1 && what == 0) || (where == 2 && what == 1)) {
      if (cb_skip)
        --cb_skip;
      else if (!asked) {
        asked = true;
        pbt::label(what ? "shutdown in the write-complete callback" : "shutdown in the message callback");
        down(c);
      }
    }
    if (where == 3 && what == 3 && g.chance(1, 3)) {
      c.send(false);
      asked = true;
      down(c);
    }
  };
  c.step = [&](Conn &c) {
    unsigned n = g.range(1, 3);
    while (n--) switch (g.weighted({6, 2, slow, 2, 2, 1, 1})) {
        case 0: c.send(false); break;
        case 1: c.send(true); break;
        case 2: c.peer_read(1 + g.small(100000)); break;
        case 3: c.peer_write(1 + g.small(20000)); break;
        case 4: c.plan_faults(); break;
        case 5:
          if (c.paused)
            c.resume();
          else
            c.pause();
          break;
        default:
          if (asked || c.remaining > later) break;
          asked = true;
          if (g.boolean()) {
            c.shutdown(true);   // from another thread
            if (twice) c.shutdown(g.boolean());
          } else
            down(c);
      }
  };
  bool wrote = false, ended = false;
  unsigned rounds = 0;
  c.settle_op = [&](Conn &c) {
    if (!c.shut && c.up()) {
      // sends of other threads are still under way, too
      if (g.boolean())
        c.shutdown(true);
      else
        down(c);
    }
    if (!wrote) c.peer_read(slow ? 1 + g.small(200000) : 1 << 20);
    // nothing need be noticed while reading is paused
    if (ended && ++rounds > 3 && c.paused && c.alive()) c.resume();
    if (!c.eof_seen || ended) return;
    if (!wrote) {
      wrote = true;
      if (more && !c.downs) {
        c.peer_write(more);
        pbt::label("the peer goes on after the end of the stream");
      }
      return;
    }
    if (c.paused && at_end && c.alive()) c.resume();
    if (!c.paused && c.consumed + c.unread != c.in_sent) return;
    ended = true;
    PBT_CHECK(c.up(), "the connection is down before the peer closed");
    if (at_end == 1)
      c.peer_shutdown();
    else
      c.peer_close();
  };
  c.settled = [&](Conn &c) { return c.downs > 0; };
  c.stuck = [&](Conn &c) {
    if (!c.eof_seen) pbt::fail("the peer does not see the end of the stream after the shutdown (%zu accepted bytes missing)", c.parser.missing());
    if (!ended) pbt::fail("%llu of %llu bytes that the peer sent after the shutdown are delivered", (unsigned long long)(c.consumed + c.unread), (unsigned long long)c.in_sent);
    pbt::fail("the connection is not torn down after both sides ended the stream");
  };
  c.run((unsigned)g.range(1, 14));
  PBT_CHECK(c.parser.total == c.accepted, "%llu bytes were accepted, the peer received %llu", (unsigned long long)c.accepted, (unsigned long long)c.parser.total);
  if (c.accepted > 0) pbt::nontrivial();
  c.finish();
}

// Several threads send, one of them shuts down; the loop runs in its own thread.
static void threads_case(Gen &g)
{
  begin_case();
  logging(g);
  unsigned nthr = g.range(1, 3), kind = g.range(0, 2), noise = g.range(0, 2);
  bool tcp = g.chance(1, 3), slow = g.boolean();
  bool both = nthr > 1 && g.chance(1, 3);   // two threads request it
  int fd[2];
  if (!make_pair(tcp, g.pick<int>({0, 1, 30000}), fd)) abort();
  struct Plan {
    std::string data;
    unsigned how, pause;
  };
  std::vector<std::vector<Plan>> plans(nthr);
  Parser ps;
  for (unsigned t = 0; t < nthr; ++t) {
    size_t k = g.range(1, 10);
    while (k--) {
      size_t n = 1 + g.small(g.chance(1, 6) ? 150000 : 3000);
      std::string d = make_data(t, n, (t * 1000 + plans[t].size()) * 7919);
      plans[t].push_back({d, (unsigned)g.range(0, 3), g.pick<unsigned>({0, 0, 0, 20, 100})});
      ps.pending[t].push_back(Msg{t, n, 0, d});
      NOTE("thread %u: send %zu bytes, kind %u", t, n, plans[t].back().how);
    }
  }
  size_t in_total = g.small(60000);
  NOTE("%s loop, %s, noise %u%s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", tcp ? "TCP" : "unix", noise, both ? ", two threads shut down" : ", thread A shuts down");
  schedfuzz::setup(g.u64(), noise, 0);
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};   // no other thread is in a call of the loop
  std::thread lt([&] {
    CurrentThread::cacheTid();
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    loop.QueueToLoop([&] { lp = &loop; });
    loop.StartLoop();
    while (!unused) usleep(20);
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;
  InetAddr a("127.0.0.1", 1), b("127.0.0.1", 2);
  auto conn = TcpConnection::NewTcpConnection(loop, "conn", fd[0], a, b);
  std::atomic<bool> up{false}, down{false};
  std::atomic<size_t> in_got{0};
  conn->SetConnectionCallback([&](TcpConnectionPtr const &c) { (c->IsConnected() ? up : down) = true; });
  conn->SetMessageCallback([&](TcpConnectionPtr const &, Buffer &buf, TimeStamp) {
    in_got += buf.GetReadableSize();
    buf.AdvanceAll();
  });
  if (g.boolean()) conn->SetWriteCompleteCallback([](TcpConnectionPtr const &) { return true; });
  conn->SetCloseCallback([loop](TcpConnectionPtr const &c) {
    TcpConnectionPtr cc = c;
    loop->QueueToLoop([cc] { cc->ConnectionDestroyed(); });
  });
  loop->RunInLoop([&] { conn->ConnectionEstablished(); });
  while (!up) usleep(20);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nthr; ++t)
    th.emplace_back([&, t] {
      CurrentThread::cacheTid();
      for (auto &p : plans[t]) {
        if (p.pause) usleep(p.pause);
        schedfuzz::point();
        std::string &d = p.data;
        switch (p.how) {
          case 0: conn->Send(d.data(), d.size()); break;
          case 1: conn->Send(StringView(d.data(), d.size())); break;
          case 2: {
            Buffer b;
            b.Append(d.data(), d.size());
            conn->Send(b);
            break;
          }
          default: {
            ChunkList l;
            l.Append(d.data(), d.size());
            conn->Send(l);
          }
        }
      }
      if (t == 0 || (both && t == 1)) conn->ShutdownWrite();
    });
  std::vector<char> buf(1 << 17);
  auto t0 = Conn::ms();
  bool eof = false;
  size_t in_sent = 0;
  while (!eof) {
    ssize_t r = ::read(fd[1], buf.data(), buf.size());
    if (r > 0) {
      std::string e = ps.feed(buf.data(), r);
      PBT_CHECK(e.empty(), "%s", e.c_str());
      t0 = Conn::ms();
      if (slow) usleep(50);
    } else if (r == 0) {
      eof = true;
    } else {
      PBT_CHECK(Conn::ms() - t0 < 10000, "the peer does not see the end of the stream (%zu bytes missing)", ps.missing());
      usleep(50);
    }
    if (in_sent < in_total / 2) {
      ssize_t w = ::write(fd[1], buf.data(), std::min<size_t>(in_total / 2 - in_sent, 4096));
      if (w > 0) in_sent += w;
    }
  }
  PBT_CHECK(ps.cur < 0, "the stream ends inside a message (%zu of %zu bytes) of thread %c", ps.off, ps.pending[ps.cur].front().len, 'A' + ps.cur);
  PBT_CHECK(ps.pending[0].empty() || both, "the stream ends before %zu messages that thread A sent before its shutdown", ps.pending[0].size());
  PBT_CHECK(!both || ps.pending[0].empty() || ps.pending[1].empty(), "the stream ends before the messages sent before any shutdown");
  for (auto &t : th) t.join();
  PBT_CHECK(!down, "the connection is down before the peer closed");
  t0 = Conn::ms();
  while (in_sent < in_total) {
    ssize_t w = ::write(fd[1], buf.data(), std::min<size_t>(in_total - in_sent, 4096));
    if (w > 0) in_sent += w, t0 = Conn::ms();
    PBT_CHECK(Conn::ms() - t0 < 10000, "the connection does not read after its shutdown");
  }
  ::close(fd[1]);
  t0 = Conn::ms();
  while (!down) {
    usleep(20);
    PBT_CHECK(Conn::ms() - t0 < 10000, "the connection is not torn down after both sides ended the stream");
  }
  PBT_CHECK(in_got == in_total, "%zu of %zu bytes that the peer sent were delivered", in_got.load(), in_total);
  std::atomic<bool> gone{false};
  loop->QueueToLoop([&] { loop->QueueToLoop([&] { gone = true; }); });
  while (!gone) usleep(20);
  conn.reset();
  loop->Quit();
  unused = true;
  lt.join();
  schedfuzz::off();
  pbt::nontrivial();
  pbt::label_if(nthr > 1, "several sending threads");
  pbt::label_if(both, "two threads shut down");
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N02";
  cfg.rule = "at least one byte was accepted before the shutdown";
  cfg.assumptions = {"EAGAIN is injected on level-triggered descriptors only", "the peer does not end its own direction before it saw the end of the stream (a half close by the peer is documented to close the connection)"};
  pbt::SuiteOpt o;
  o.quick = 30000;
  pbt::suite("unix", "shutdown over a socket pair, deterministic", o, [](Gen &g) { run_case(g, false); });
  o.quick = 10000;
  pbt::suite("tcp", "shutdown over TCP, deterministic", o, [](Gen &g) { run_case(g, true); });
  o.quick = 5000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "several threads send, one or two shut down", o, threads_case);
  o.quick = 12000;
  pbt::suite("races", "several threads send, one or two shut down", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
