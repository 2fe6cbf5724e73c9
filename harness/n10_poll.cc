// N10: the readiness back ends (Poller, Epoller) and the dispatch of events by
// channels, against the operating system's own poll()/epoll.
#include "pbt.h"
#include "loud.h"
#include "mynet.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "kanon/thread/current_thread.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller.h"
#include "kanon/net/poll/epoller.h"
#include "kanon/log/logger.h"
using namespace kanon;
using pbt::Gen;

static constexpr int kR = POLLIN | POLLPRI, kW = POLLOUT;

static std::string evs(unsigned e)
{
  std::string r;
  auto add = [&](unsigned b, const char *n) {
    if (e & b) {
      if (!r.empty()) r += "|";
      r += n;
      e &= ~b;
    }
  };
  add(POLLIN, "IN"), add(POLLPRI, "PRI"), add(POLLOUT, "OUT"), add(POLLERR, "ERR"), add(POLLHUP, "HUP"), add(POLLNVAL, "NVAL"), add(POLLRDHUP, "RDHUP"), add(EPOLLET, "ET");
  if (e) r += "|" + std::to_string(e);
  return r.empty() ? "none" : r;
}

// A descriptor under observation and what stands on its other side.
struct Dev {
  int kind;   // 0 unix pair, 1 tcp pair, 2 pipe read end, 3 pipe write end, 4 eventfd, 5 listening tcp socket
  int fd = -1, peer = -1;
  sockaddr_in sa;
  std::vector<int> extra;

  explicit Dev(int k)
    : kind(k)
  {
    int p[2];
    switch (kind) {
      case 0:
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) abort();
        fd = p[0], peer = p[1];
        break;
      case 1:
      case 5: {
        int l = socket(AF_INET, SOCK_STREAM, 0);
        sa = {};
        sa.sin_family = AF_INET;
        sa.sin_addr.s_addr = htonl(my_address(1));
        socklen_t sl = sizeof sa;
        if (bind(l, (sockaddr *)&sa, sizeof sa) || listen(l, 64) || getsockname(l, (sockaddr *)&sa, &sl)) abort();
        if (kind == 5) {
          fd = l;
          fcntl(fd, F_SETFL, O_NONBLOCK);
          break;
        }
        peer = socket(AF_INET, SOCK_STREAM, 0);
        if (connect(peer, (sockaddr *)&sa, sizeof sa)) abort();
        fd = accept(l, nullptr, nullptr);
        if (fd < 0) abort();
        close(l);
        fcntl(fd, F_SETFL, O_NONBLOCK);
        fcntl(peer, F_SETFL, O_NONBLOCK);
        break;
      }
      case 2:
      case 3:
        if (pipe2(p, O_NONBLOCK)) abort();
        fd = p[kind - 2], peer = p[3 - kind];
        break;
      default: fd = eventfd(0, EFD_NONBLOCK);
    }
    if (fd < 0) abort();
  }
  ~Dev()
  {
    if (fd >= 0) close(fd);
    if (peer >= 0) close(peer);
    for (int e : extra) close(e);
  }
  Dev(Dev const &) = delete;

  const char *name() const
  {
    static const char *n[] = {"unix", "tcp", "pipe-r", "pipe-w", "eventfd", "listener"};
    return n[kind];
  }

  // Changes the readiness in some way.
  const char *act(unsigned a)
  {
    static char buf[1 << 18];
    switch (kind) {
      case 4: {
        uint64_t v = 1;
        if (a % 2) return ::read(fd, &v, 8), "read";
        return ::write(fd, &v, 8), "write";
      }
      case 5:
        if (a % 2) {
          int c;
          while ((c = accept(fd, nullptr, nullptr)) >= 0) close(c);
          return "accept all";
        } else {
          if (extra.size() > 20) return "-";
          int c = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
          connect(c, (sockaddr *)&sa, sizeof sa);
          extra.push_back(c);
          return "connect";
        }
      default:;
    }
    switch (a % 10) {
      case 0:
      case 1:
        if (peer >= 0 && kind != 3) return ::write(peer, buf, 7), "peer writes";
        return "-";
      case 2:
        if (kind != 3)
          while (::read(fd, buf, sizeof buf) > 0) {}
        return "drain";
      case 3:
      case 4:
        if (kind != 2)
          while (::write(fd, buf, sizeof buf) > 0) {}
        return "fill";
      case 5:
        if (peer >= 0 && kind != 2)
          while (::read(peer, buf, sizeof buf) > 0) {}
        return "peer drains";
      case 6:
        if (peer >= 0) {
          close(peer);
          peer = -1;
        }
        return "peer closes";
      case 7:
        if (peer >= 0 && kind < 2) return shutdown(peer, SHUT_WR), "peer shuts down";
        return "-";
      case 8:
        if (kind < 2) return shutdown(fd, SHUT_WR), "shut down";
        return "-";
      default:
        if (kind == 1 && peer >= 0) {
          if (a / 10 % 2) return send(peer, "!", 1, MSG_OOB), "peer sends urgent";
          linger lg{1, 0};
          setsockopt(peer, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
          close(peer);
          peer = -1;
          return "peer resets";
        }
        return "-";
    }
  }
  // what the system reports for this interest
  unsigned ready(int events) const
  {
    pollfd p{fd, (short)events, 0};
    ::poll(&p, 1, 0);
    return (unsigned short)p.revents;
  }
};

static void begin_case(Gen &g)
{
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  logging(g);
}

static std::vector<std::unique_ptr<Dev>> make_devs(Gen &g, size_t n)
{
  std::vector<std::unique_ptr<Dev>> v;
  for (size_t i = 0; i < n; ++i) {
    v.emplace_back(new Dev(g.weighted({4, 3, 2, 2, 2, 1})));
    NOTE("descriptor %zu: %s", i, v.back()->name());
  }
  return v;
}

// ---------------------------------------------------------------------------
// Both back ends directly, level-triggered, over the same descriptors.
static void backends(Gen &g)
{
  begin_case(g);
  EventLoop loop;
  Epoller ep(&loop);
  Poller po(&loop);
  bool many = g.chance(1, 12);
  auto devs = make_devs(g, many ? g.range(17, g.chance(1, 10) ? 300 : 40) : g.range(1, 8));
  struct Ch {
    std::unique_ptr<Channel> e, p;
    int want = 0;
    bool reg = false;
  };
  std::vector<Ch> ch(devs.size());
  for (size_t i = 0; i < devs.size(); ++i) ch[i].e.reset(new Channel(&loop, devs[i]->fd)), ch[i].p.reset(new Channel(&loop, devs[i]->fd));
  auto set = [&](size_t i, int want) {
    ch[i].want = want;
    ch[i].reg = true;
    ch[i].e->SetEvents(want);
    ep.UpdateChannel(ch[i].e.get());
    ch[i].p->SetEvents(want);
    po.UpdateChannel(ch[i].p.get());
  };
  if (many)
    for (size_t i = 0; i < ch.size(); ++i) set(i, g.pick<int>({kR, kW, kR | kW}));
  size_t steps = g.range(2, many ? 12 : 30);
  bool nt = false, none = false, readd = false;
  auto check = [&] {
    std::vector<unsigned> before, after;
    auto snap = [&](std::vector<unsigned> &v) {
      for (size_t i = 0; i < ch.size(); ++i) v.push_back(ch[i].reg && ch[i].want ? devs[i]->ready(ch[i].want) : 0);
    };
    for (int b = 0; b < 2; ++b) {
      PollerBase &pb = b ? (PollerBase &)po : (PollerBase &)ep;
      const char *nm = b ? "poll back end" : "epoll back end";
      before.clear(), after.clear();
      snap(before);
      std::map<Channel *, size_t> who;
      for (size_t i = 0; i < ch.size(); ++i) who[b ? ch[i].p.get() : ch[i].e.get()] = i;
      size_t nready = 0;
      for (auto r : before) nready += r != 0;
      std::vector<bool> seen(ch.size());
      for (int round = 0; round < 8; ++round) {
        PollerBase::ChannelVec act;
        TimeStamp t0 = TimeStamp::Now();
        TimeStamp t = pb.Poll(0, act);
        PBT_CHECK(!(t < t0), "%s: the poll time lies before the call", nm);
        std::vector<bool> once(ch.size());
        for (auto *c : act) {
          auto it = who.find(c);
          PBT_CHECK(it != who.end(), "%s reports a channel that is not its own", nm);
          size_t i = it->second;
          PBT_CHECK(!once[i], "%s reports descriptor %zu twice in one poll", nm, i);
          once[i] = true;
          seen[i] = true;
          PBT_CHECK(ch[i].reg && ch[i].want, "%s reports descriptor %zu, which is %s", nm, i, ch[i].reg ? "interested in nothing" : "not registered");
          unsigned now = devs[i]->ready(ch[i].want), rev = (unsigned)c->GetRevents();
          PBT_CHECK(rev == before[i] || rev == now, "%s reports {%s} for descriptor %zu (%s, interest %s); it is {%s}", nm, evs(rev).c_str(), i, devs[i]->name(), evs(ch[i].want).c_str(), evs(now).c_str());
        }
        if (nready <= 16 || (size_t)std::count(seen.begin(), seen.end(), true) >= nready) break;
        PBT_CHECK(act.size() >= std::min<size_t>(nready, 16) || b == 0, "%s reports %zu of %zu ready descriptors", nm, act.size(), nready);
      }
      snap(after);
      for (size_t i = 0; i < ch.size(); ++i)
        PBT_CHECK(seen[i] || !before[i] || !after[i], "%s doesn't report descriptor %zu (%s, interest %s), which is {%s}", nm, i, devs[i]->name(), evs(ch[i].want).c_str(), evs(before[i]).c_str());
      if (nready) nt = true;
      if (nready > 16) pbt::label("more than 16 ready at once");
    }
  };
  for (size_t s = 0; s < steps; ++s) {
    size_t i = g.range(0, ch.size() - 1);
    switch (g.weighted({6, 6, 2, 3})) {
      case 0: {
        const char *n = devs[i]->act(g.range(0, 19));
        NOTE("%zu: %s", i, n);
        break;
      }
      case 1: {
        int w = g.pick<int>({kR, kW, kR | kW, 0});
        NOTE("%zu: interest %s", i, evs(w).c_str());
        if (ch[i].reg && ch[i].want == 0 && w) pbt::label("enabled again after disabling all");
        set(i, w);
        none |= w == 0;
        break;
      }
      case 2:
        if (!ch[i].reg && g.chance(3, 4)) break;
        NOTE("%zu: remove%s", i, ch[i].reg ? "" : " (not registered)");
        // as Channel::Remove() does, whatever the interest
        ep.RemoveChannel(ch[i].e.get());
        po.RemoveChannel(ch[i].p.get());
        if (ch[i].reg && none) readd = true;
        ch[i].reg = false;
        break;
      default: check(); continue;
    }
    if (g.chance(1, 3)) check();
  }
  check();
  if (readd) pbt::label("removed among disabled channels");
  if (nt) pbt::nontrivial();
}

// ---------------------------------------------------------------------------
// Edge-triggered epoll back end against a plain epoll instance that is given
// the same registrations.
static void edges(Gen &g)
{
  begin_case(g);
  EventLoop loop;
  Epoller ep(&loop);
  ep.SetEdgeTriggertMode();
  auto devs = make_devs(g, g.range(1, 6));
  int ref = epoll_create1(EPOLL_CLOEXEC);
  struct Ch {
    std::unique_ptr<Channel> c;
    int want = 0;
    bool reg = false, refreg = false;
  };
  std::vector<Ch> ch(devs.size());
  for (size_t i = 0; i < devs.size(); ++i) ch[i].c.reset(new Channel(&loop, devs[i]->fd));
  auto ctl = [&](size_t i, int want) {
    epoll_event e{(uint32_t)want | EPOLLET, {}};
    e.data.u64 = i;
    if (want) {
      if (epoll_ctl(ref, ch[i].refreg ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, devs[i]->fd, &e)) abort();
      ch[i].refreg = true;
    } else if (ch[i].refreg) {
      epoll_ctl(ref, EPOLL_CTL_DEL, devs[i]->fd, &e);
      ch[i].refreg = false;
    }
  };
  bool nt = false;
  auto check = [&] {
    epoll_event ev[64];
    for (int round = 0;; ++round) {
      PollerBase::ChannelVec act;
      ep.Poll(0, act);
      int n = epoll_wait(ref, ev, 64, 0);
      std::map<size_t, unsigned> a, r;
      for (auto *c : act)
        for (size_t i = 0; i < ch.size(); ++i)
          if (ch[i].c.get() == c) a[i] = c->GetRevents();
      for (int k = 0; k < n; ++k) r[ev[k].data.u64] = ev[k].events;
      PBT_CHECK(a.size() == act.size(), "a channel is reported twice");
      if (n) nt = true;
      if (a == r) return;
      // an event may arrive between the two calls: look again
      if (round < 3) {
        auto a0 = a, r0 = r;
        usleep(200);
        PollerBase::ChannelVec act2;
        ep.Poll(0, act2);
        int n2 = epoll_wait(ref, ev, 64, 0);
        for (auto *c : act2)
          for (size_t i = 0; i < ch.size(); ++i)
            if (ch[i].c.get() == c) a0[i] |= c->GetRevents();
        for (int k = 0; k < n2; ++k) r0[ev[k].data.u64] |= ev[k].events;
        if (a0 == r0) return;
      }
      for (size_t i = 0; i < ch.size(); ++i)
        PBT_CHECK(a[i] == r[i], "edge-triggered back end reports {%s} for descriptor %zu (%s, interest %s), the system reports {%s}", evs(a[i]).c_str(), i, devs[i]->name(), evs(ch[i].want).c_str(), evs(r[i]).c_str());
      pbt::fail("edge-triggered reports differ");
    }
  };
  size_t steps = g.range(2, 30);
  for (size_t s = 0; s < steps; ++s) {
    size_t i = g.range(0, ch.size() - 1);
    switch (g.weighted({6, 5, 2, 3})) {
      case 0: {
        const char *n = devs[i]->act(g.range(0, 19));
        NOTE("%zu: %s", i, n);
        break;
      }
      case 1: {
        int w = g.pick<int>({kR, kW, kR | kW, 0});
        NOTE("%zu: interest %s", i, evs(w).c_str());
        ch[i].want = w;
        ch[i].reg = true;
        ch[i].c->SetEvents(w);
        ep.UpdateChannel(ch[i].c.get());
        ctl(i, w);
        break;
      }
      case 2:
        if (!ch[i].reg) break;
        NOTE("%zu: remove", i);
        ep.RemoveChannel(ch[i].c.get());
        ctl(i, 0);
        ch[i].reg = false;
        break;
      default: check(); continue;
    }
    if (g.chance(1, 2)) check();
  }
  check();
  close(ref);
  if (nt) pbt::nontrivial();
}

// ---------------------------------------------------------------------------
// Channels in a running loop: every iteration runs one step and then checks
// which callbacks the next iteration ran.
static void dispatch(Gen &g)
{
  begin_case(g);
  bool is_poll = g.boolean();
  std::unique_ptr<EventLoop> loop(new EventLoop(is_poll));
  auto devs = make_devs(g, g.range(1, 5));
  struct Ch {
    std::unique_ptr<Channel> c;
    int want = 0;
    bool reg = false;
    bool cbs[4] = {true, true, true, true};   // read, write, close, error callback set
    int got[4] = {0, 0, 0, 0};
    TimeStamp t;
  };
  std::vector<Ch> ch(devs.size());
  for (size_t i = 0; i < ch.size(); ++i) {
    auto &c = ch[i];
    c.c.reset(new Channel(loop.get(), devs[i]->fd));
    for (bool &b : c.cbs) b = !g.chance(1, 10);
    if (c.cbs[0]) c.c->SetReadCallback([&c](TimeStamp t) { ++c.got[0], c.t = t; });
    if (c.cbs[1]) c.c->SetWriteCallback([&c] { ++c.got[1]; });
    if (c.cbs[2]) c.c->SetCloseCallback([&c] { ++c.got[2]; });
    if (c.cbs[3]) c.c->SetErrorCallback([&c] { ++c.got[3]; });
  }
  size_t left = g.range(3, 30);
  std::vector<unsigned> before;
  TimeStamp tbefore;
  bool nt = false, first = true;
  std::function<void()> step = [&] {
    if (!first) {
      // which callbacks did this iteration's events cause?
      for (size_t i = 0; i < ch.size(); ++i) {
        auto &c = ch[i];
        unsigned now = c.reg && c.want ? devs[i]->ready(c.want) : 0;
        auto expect = [&](unsigned rev, int *e) {
          e[0] = c.cbs[0] && (rev & (POLLIN | POLLPRI | POLLRDHUP)) != 0;
          e[1] = c.cbs[1] && (rev & POLLOUT) != 0;
          e[2] = c.cbs[2] && (rev & POLLHUP) && !(rev & POLLIN);
          e[3] = c.cbs[3] && (rev & (POLLERR | POLLNVAL)) != 0;
        };
        int ea[4], eb[4];
        expect(before[i], ea);
        expect(now, eb);
        bool ok = !memcmp(ea, c.got, sizeof ea) || !memcmp(eb, c.got, sizeof eb);
        PBT_CHECK(ok, "%s loop: descriptor %zu (%s, interest %s, ready {%s}) ran read/write/close/error callbacks %d/%d/%d/%d times, expected %d/%d/%d/%d", is_poll ? "poll" : "epoll", i, devs[i]->name(),
                  c.reg ? evs(c.want).c_str() : "unregistered", evs(before[i]).c_str(), c.got[0], c.got[1], c.got[2], c.got[3], ea[0], ea[1], ea[2], ea[3]);
        if (c.got[0]) PBT_CHECK(!(c.t < tbefore) && !(TimeStamp::Now() < c.t), "the time given to the read callback is not the time of the poll");
        if (c.got[0] + c.got[1] + c.got[2] + c.got[3]) nt = true;
        PBT_CHECK(c.c->IsReading() == ((c.want & kR) != 0) && c.c->IsWriting() == ((c.want & kW) != 0) && c.c->IsNoneEvent() == (c.want == 0), "channel %zu doesn't know its interest", i);
        memset(c.got, 0, sizeof c.got);
      }
    }
    first = false;
    if (!left--) {
      for (auto &c : ch)
        if (c.reg) {
          if (g.boolean()) c.c->DisableAll();
          c.c->Remove();
        }
      loop->Quit();
      return;
    }
    size_t ops = g.range(1, 3);
    while (ops--) {
      size_t i = g.range(0, ch.size() - 1);
      auto &c = ch[i];
      switch (g.weighted({6, 2, 2, 2, 2, 1, 1})) {
        case 0: {
          const char *n = devs[i]->act(g.range(0, 19));
          NOTE("%zu: %s", i, n);
          break;
        }
        case 1: NOTE("%zu: EnableReading", i); c.c->EnableReading(), c.want |= kR, c.reg = true; break;
        case 2: NOTE("%zu: EnableWriting", i); c.c->EnableWriting(), c.want |= kW, c.reg = true; break;
        case 3: if (!c.reg) break; NOTE("%zu: DisableReading", i); c.c->DisableReading(), c.want &= ~kR; break;
        case 4: if (!c.reg) break; NOTE("%zu: DisableWriting", i); c.c->DisableWriting(), c.want &= ~kW; break;
        case 5: if (!c.reg) break; NOTE("%zu: DisableAll", i); c.c->DisableAll(), c.want = 0; break;
        default:
          if (!c.reg) break;
          NOTE("%zu: DisableAll, Remove", i);
          c.c->DisableAll(), c.want = 0;
          c.c->Remove(), c.reg = false;
      }
    }
    before.clear();
    for (size_t i = 0; i < ch.size(); ++i) before.push_back(ch[i].reg && ch[i].want ? devs[i]->ready(ch[i].want) : 0);
    tbefore = TimeStamp::Now();
    loop->QueueToLoop(step);
  };
  loop->QueueToLoop(step);
  loop->Wakeup();
  loop->StartLoop();
  if (nt) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N10";
  cfg.rule = "at least one descriptor was ready for an event its channel had enabled";
  cfg.assumptions = {"the kernel's poll()/epoll on the same descriptors is the reference",
                     "when more than 16 descriptors are ready, the epoll back end may report the rest in the following polls"};
  pbt::SuiteOpt o;
  o.quick = 60000;
  pbt::suite("backends", "both back ends report exactly the enabled, ready events", o, backends);
  o.quick = 30000;
  pbt::suite("edges", "edge-triggered reports equal those of a plain epoll instance", o, edges);
  o.quick = 30000;
  pbt::suite("dispatch", "channels in a loop run exactly the callbacks of the reported events", o, dispatch);
  return pbt::run(argc, argv, cfg);
}
