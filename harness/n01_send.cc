// N01: delivery of everything sent over a connection.
#include "connkit.h"
#include "schedfuzz.h"
#include <atomic>
#include <mutex>
#include "kanon/net/event_loop_thread.h"
using namespace ck;

static void run_case(Gen &g, bool tcp)
{
  Conn c(g, W_SEND);
  configure(c);
  c.tcp = tcp;
  c.wcc_set = g.chance(1, 2);
  c.hwm_set = g.chance(1, 3);
  c.mark = g.size(60000);
  c.faults = g.chance(1, 2);
  unsigned slow = g.range(0, 3);   // how eagerly the peer reads
  c.describe("sends");
  c.in_callback = [&](Conn &c, unsigned what) {
    if (what == 1 && c.remaining && g.chance(1, 3)) c.send(false);
    if (what == 0 && c.remaining && g.chance(1, 4)) c.send(false);
    if (what == 2 && c.remaining && g.chance(1, 4)) c.send(false);
    if (what == 3 && g.chance(1, 3)) c.send(false);
  };
  c.step = [&](Conn &c) {
    unsigned n = g.range(1, 3);
    while (n--) switch (g.weighted({6, 2, slow, 1, 2, 1})) {
        case 0: c.send(false); break;
        case 1: c.send(true); break;
        case 2: c.peer_read(1 + g.small(200000)); break;
        case 3: c.peer_write(1 + g.small(20000)); break;
        case 4: c.plan_faults(); break;
        default:
          if (c.paused)
            c.resume();
          else
            c.pause();
      }
  };
  c.settle_op = [](Conn &c) { c.peer_read(1 << 20); };
  c.settled = [](Conn &c) { return c.parser.missing() == 0 && !c.queued; };
  c.stuck = [](Conn &c) { pbt::fail("%zu of the bytes sent never reach the peer", c.parser.missing()); };
  c.run((unsigned)g.range(1, 25));
  PBT_CHECK(c.parser.total == c.accepted, "%llu bytes were sent, the peer received %llu", (unsigned long long)c.accepted, (unsigned long long)c.parser.total);
  if (c.accepted > 20000) pbt::nontrivial();
  c.finish();
}

// Several threads send at the same time, the loop runs in its own thread.
static void threads_case(Gen &g)
{
  begin_case();
  logging(g);
  unsigned nthr = g.range(1, 3), kind = g.range(0, 2), noise = g.range(0, 2);
  bool tcp = g.chance(1, 3), graceful = g.boolean();
  int fd[2];
  if (!make_pair(tcp, g.pick<int>({0, 1, 30000}), fd)) abort();
  struct Plan {
    size_t n;
    unsigned how, pause;
  };
  std::vector<std::vector<Plan>> plans(nthr);
  Parser ps;
  uint64_t total = 0;
  for (unsigned t = 0; t < nthr; ++t) {
    size_t k = g.range(1, 12);
    while (k--) {
      size_t n = 1 + g.small(g.chance(1, 6) ? 150000 : 3000);
      plans[t].push_back({n, (unsigned)g.range(0, 3), g.pick<unsigned>({0, 0, 0, 20, 100})});
      ps.pending[t].push_back(Msg{t, n, 0, make_data(t, n, (t * 1000 + plans[t].size()) * 7919)});
      total += n;
      NOTE("thread %u: send %zu bytes, kind %u", t, n, plans[t].back().how);
    }
  }
  NOTE("%s loop, %s, noise %u%s", kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered", tcp ? "TCP" : "unix", noise, graceful ? ", each thread shuts down after a barrier" : "");
  schedfuzz::setup(g.u64(), noise, 0);
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};   // no other thread is in a call of the loop
  std::thread lt([&] {
    CurrentThread::cacheTid();
    EventLoop loop(kind == 0);
    if (kind == 2) loop.SetEdgeTriggerMode();
    loop.QueueToLoop([&] { lp = &loop; });
    loop.StartLoop();
    while (!unused) usleep(20);
  });
  while (!lp) usleep(20);
  EventLoop *loop = lp;
  InetAddr a("127.0.0.1", 1), b("127.0.0.1", 2);
  auto conn = TcpConnection::NewTcpConnection(loop, "conn", fd[0], a, b);
  std::atomic<bool> up{false}, down{false};
  conn->SetConnectionCallback([&](TcpConnectionPtr const &c) { (c->IsConnected() ? up : down) = true; });
  if (g.boolean()) conn->SetWriteCompleteCallback([](TcpConnectionPtr const &) { return true; });
  conn->SetCloseCallback([loop](TcpConnectionPtr const &c) {
    TcpConnectionPtr cc = c;
    loop->QueueToLoop([cc] { cc->ConnectionDestroyed(); });
  });
  loop->RunInLoop([&] { conn->ConnectionEstablished(); });
  while (!up) usleep(20);
  std::atomic<unsigned> finished{0};
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nthr; ++t)
    th.emplace_back([&, t] {
      CurrentThread::cacheTid();
      auto it = ps.pending[t].begin();
      std::vector<std::string> data;
      for (unsigned i = 0; i < plans[t].size(); ++i) data.push_back(make_data(t, plans[t][i].n, (t * 1000 + i + 1) * 7919));
      (void)it;
      for (unsigned i = 0; i < plans[t].size(); ++i) {
        if (plans[t][i].pause) usleep(plans[t][i].pause);
        schedfuzz::point();
        std::string &d = data[i];
        switch (plans[t][i].how) {
          case 0: conn->Send(d.data(), d.size()); break;
          case 1: conn->Send(StringView(d.data(), d.size())); break;
          case 2: {
            Buffer b;
            b.Append(d.data(), d.size());
            conn->Send(b);
            break;
          }
          default: {
            ChunkList l;
            l.Append(d.data(), d.size());
            conn->Send(l);
          }
        }
        memset(&d[0], '#', d.size());   // the caller may reuse its memory at once
      }
      finished++;
      if (graceful) {
        while (finished < nthr) usleep(10);
        conn->ShutdownWrite();
      }
    });
  // the peer
  std::vector<char> buf(1 << 17);
  auto t0 = Conn::ms();
  bool eof = false;
  while (ps.total < total || (graceful && !eof)) {
    ssize_t r = ::read(fd[1], buf.data(), buf.size());
    if (r > 0) {
      std::string e = ps.feed(buf.data(), r);
      PBT_CHECK(e.empty(), "%s", e.c_str());
      t0 = Conn::ms();
    } else if (r == 0) {
      eof = true;
      PBT_CHECK(ps.total == total && graceful, "the stream ends after %llu of %llu bytes", (unsigned long long)ps.total, (unsigned long long)total);
    } else {
      PBT_CHECK(Conn::ms() - t0 < 10000, "only %llu of %llu bytes reach the peer%s", (unsigned long long)ps.total, (unsigned long long)total, graceful && ps.total == total ? ", the stream is not ended" : "");
      usleep(50);
    }
  }
  for (auto &t : th) t.join();
  conn->ForceClose();
  while (!down) usleep(20);
  std::atomic<bool> gone{false};
  loop->QueueToLoop([&] { loop->QueueToLoop([&] { gone = true; }); });
  while (!gone) usleep(20);
  conn.reset();
  loop->Quit();
  unused = true;
  lt.join();
  schedfuzz::off();
  ::close(fd[1]);
  if (total > 5000) pbt::nontrivial();
  pbt::label_if(nthr > 1, "several sending threads");
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N01";
  cfg.rule = "more than 20000 bytes (threads: 5000) were sent in the case";
  cfg.assumptions = {"EAGAIN is injected on level-triggered descriptors only: an edge-triggered descriptor that is ready gives no further event after it",
                     "no close before everything was delivered (N02, N04 cover closing)"};
  pbt::SuiteOpt o;
  o.quick = 40000;
  pbt::suite("unix", "all kinds of sends over a socket pair, deterministic", o, [](Gen &g) { run_case(g, false); });
  o.quick = 12000;
  pbt::suite("tcp", "all kinds of sends over TCP, deterministic", o, [](Gen &g) { run_case(g, true); });
  o.quick = 5000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "several threads send at the same time", o, threads_case);
  o.quick = 12000;
  pbt::suite("races", "several threads send at the same time", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
