// Deterministic single-threaded driver for one connection: the test case, the
// event loop and the peer run in one thread; a step function queued in the
// loop performs the next operation and queues itself again, so that the loop
// polls once between two steps.  Operations "from another thread" are made by
// a thread that is joined before the step goes on.
#pragma once
#include "pbt.h"
#include "loud.h"
#include "faultio.h"
#include "mynet.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "kanon/thread/current_thread.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/log/logger.h"

namespace ck {
using namespace kanon;
using pbt::Gen;

enum Want : unsigned {
  W_SEND = 1,    // outgoing bytes
  W_SHUT = 2,    // graceful shutdown
  W_READ = 4,    // incoming bytes
  W_LIFE = 8,    // up/down callbacks, release
  W_NOTE = 16,   // write-complete and high-water notifications
};

static inline void begin_case()
{
  signal(SIGPIPE, SIG_IGN);
  CurrentThread::cacheTid();
  faultio::clear_all();
}

// Byte i of the stream a peer sends.
static inline unsigned char in_byte(uint64_t i) { return (unsigned char)(pbt::mix(i >> 3) >> ((i & 7) * 8)); }

struct Msg {
  unsigned src;
  size_t len;
  uint64_t seed;
  std::string data;
};

static inline std::string make_data(unsigned src, size_t len, uint64_t seed)
{
  std::string s(len, 0);
  uint64_t x = 0;
  for (size_t i = 0; i < len; ++i) {
    if (i % 8 == 0) x = pbt::mix(seed + i);
    s[i] = (char)(x >> (i % 8 * 8));
  }
  if (len) s[0] = (char)('A' + src);
  return s;
}

// Checks a stream of messages of several senders.
struct Parser {
  std::deque<Msg> pending[8];   // by sender, the messages not completely received
  int cur = -1;
  size_t off = 0;
  uint64_t total = 0;
  // nullptr or what is wrong
  std::string feed(const char *p, size_t n)
  {
    total += n;
    while (n) {
      if (cur < 0) {
        unsigned src = (unsigned char)*p - 'A';
        if (src >= 8 || pending[src].empty()) {
          char b[200];
          snprintf(b, sizeof b, "the peer receives byte 0x%02x at stream position %llu, where a message has to start (pending:%s%s%s%s)", (unsigned char)*p, (unsigned long long)(total - n),
                   pending[0].empty() ? "" : " A", pending[1].empty() ? "" : " B", pending[2].empty() ? "" : " C", pending[3].empty() ? "" : " D");
          return b;
        }
        cur = (int)src;
        off = 0;
      }
      Msg &m = pending[cur].front();
      size_t k = std::min(n, m.len - off);
      if (memcmp(p, m.data.data() + off, k)) {
        size_t i = 0;
        while (p[i] == m.data[off + i]) ++i;
        char b[200];
        snprintf(b, sizeof b, "byte %zu of a message of %zu bytes of sender %c is wrong at the peer (stream position %llu)", off + i, m.len, 'A' + cur, (unsigned long long)(total - n + i));
        return b;
      }
      off += k;
      p += k;
      n -= k;
      if (off == m.len) {
        pending[cur].pop_front();
        cur = -1;
      }
    }
    return "";
  }
  size_t missing() const
  {
    size_t n = 0;
    for (auto &q : pending)
      for (auto &m : q) n += m.len;
    return cur >= 0 ? n - off : n;
  }
};

static inline bool make_pair(bool tcp, int sndbuf, int fd[2])
{
  if (!tcp) {
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fd)) return false;
    if (sndbuf) setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    return true;
  }
  int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(my_address(1));
  socklen_t n = sizeof a;
  if (bind(l, (sockaddr *)&a, n) || listen(l, 1) || getsockname(l, (sockaddr *)&a, &n)) return false;
  int c = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (sndbuf) {
    setsockopt(c, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    int rb = 65536;
    setsockopt(l, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
  }
  if (connect(c, (sockaddr *)&a, n)) return false;
  int s = accept4(l, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
  close(l);
  fcntl(c, F_SETFL, O_NONBLOCK);
  int one = 1;   // no waiting for acknowledgements: it only costs time
  setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  fd[0] = c;
  fd[1] = s;
  return s >= 0;
}

struct Conn {
  Gen &g;
  const unsigned want;
  // configuration (set before start())
  unsigned kind = 0;             // 0 poll, 1 epoll, 2 epoll edge-triggered
  bool tcp = false;
  int sndbuf = 0;
  bool wcc_set = false, hwm_set = false;
  size_t mark = 0;
  bool faults = false;
  bool dtor_style = false;       // ended by ConnectionDestroyed() as a server's destructor does
  bool no_message_cb = false;
  // operations of the step function and of callbacks, by the property
  std::function<void(Conn &)> step;
  std::function<void(Conn &, unsigned)> in_callback;   // 0 message, 1 write complete, 2 high water, 3 up

  std::unique_ptr<EventLoop> loop;
  TcpConnectionPtr conn;
  std::weak_ptr<TcpConnection> weak;
  int fd[2] = {-1, -1};
  int &peer = fd[1];

  // outgoing
  Parser parser;
  uint64_t accepted = 0;       // bytes accepted, executed in the loop
  uint64_t queued = 0;         // bytes accepted from other threads, still on their way to the loop
  uint64_t handed = 0;         // bytes written to the socket
  uint64_t seq = 0;
  bool eof_seen = false;
  // incoming
  uint64_t in_sent = 0, consumed = 0, unread = 0;
  unsigned long messages = 0;
  bool paused = false;
  // life
  int ups = 0, downs = 0;
  bool shut = false;           // graceful shutdown requested
  bool forced = false;         // forced close requested
  bool peer_closed = false, peer_wr_closed = false, peer_reset = false;
  bool closed_cb = false;
  // notifications
  unsigned long completions = 0, wcc_calls = 0;
  std::deque<size_t> hwm_expected;
  unsigned long hwm_seen = 0;
  unsigned depth = 0;
  // driver
  unsigned long progress = 0;
  bool quitting = false;
  std::string trouble;

  Conn(Gen &gg, unsigned w) : g(gg), want(w) {}
  ~Conn()
  {
    faultio::clear_all();
    if (peer >= 0) ::close(peer);
  }

  void describe(const char *what)
  {
    NOTE("%s; %s loop, %s, send buffer %d%s%s%s", what, kind == 0 ? "poll" : kind == 1 ? "epoll" : "edge-triggered epoll", tcp ? "TCP" : "unix socket pair", sndbuf, wcc_set ? ", write-complete callback" : "",
         hwm_set ? (", high-water mark " + std::to_string(mark)).c_str() : "", faults ? ", faults" : "");
  }
  bool own_log = false;   // the suite has set the logging up
  void setup()
  {
    begin_case();
    if (!own_log) logging(g);
    if (!make_pair(tcp, sndbuf, fd)) abort();
    loop.reset(new EventLoop(kind == 0));
    if (kind == 2) loop->SetEdgeTriggerMode();
    InetAddr a("127.0.0.1", 1), b("127.0.0.1", 2);
    conn = TcpConnection::NewTcpConnection(loop.get(), "conn", fd[0], a, b);
    weak = conn;
    faultio::watch_write(fd[0], [this](size_t n) { on_handed(n); });
    if (!no_message_cb) conn->SetMessageCallback([this](TcpConnectionPtr const &c, Buffer &buf, TimeStamp) { on_message(c, buf); });
    conn->SetConnectionCallback([this](TcpConnectionPtr const &c) { on_connection(c); });
    if (wcc_set) set_wcc();
    if (hwm_set) set_hwm(mark);
    conn->SetCloseCallback([this](TcpConnectionPtr const &c) {
      if (want & W_LIFE) PBT_CHECK(!closed_cb, "the connection is removed from its owner twice");
      closed_cb = true;
      TcpConnectionPtr cc = c;
      loop->QueueToLoop([cc] { cc->ConnectionDestroyed(); });
    });
  }
  void set_wcc()
  {
    conn->SetWriteCompleteCallback([this](TcpConnectionPtr const &c) { return on_wcc(c); });
    wcc_set = true;
  }
  void set_hwm(size_t m)
  {
    mark = m;
    hwm_set = true;
    conn->SetHighWaterMarkCallback([this](TcpConnectionPtr const &c, size_t n) { on_hwm(c, n); }, m);
  }
  bool up() const { return ups && !downs; }
  bool alive() const { return conn && up(); }
  bool accepting() const { return up() && !shut && !forced; }

  // ---- callbacks of the connection ----
  void check_cb(const char *what)
  {
    ++progress;
    if (want & W_LIFE) {
      PBT_CHECK(ups == 1, "the %s callback runs before the connection is reported up", what);
      PBT_CHECK(downs == 0, "the %s callback runs after the connection was reported down", what);
    }
  }
  void on_connection(TcpConnectionPtr const &c)
  {
    ++progress;
    if (c->IsConnected()) {
      NOTE("  [up]");
      if (want & W_LIFE) PBT_CHECK(ups == 0 && downs == 0, "the connection is reported up again");
      ++ups;
      if (in_callback) in_callback(*this, 3);
    } else {
      NOTE("  [down]");
      if (want & W_LIFE) PBT_CHECK(ups == 1 && downs == 0, "the connection is reported down %s", downs ? "twice" : "before it was up");
      ++downs;
      if (want & (W_SHUT | W_READ | W_LIFE)) PBT_CHECK(forced || peer_closed || peer_wr_closed, "the connection is reported down although nobody closed it");
      if ((want & (W_READ | W_SHUT)) && !forced && !no_message_cb && !peer_reset) PBT_CHECK(consumed + unread == in_sent, "the connection is reported down when %llu of %llu received bytes were offered", (unsigned long long)(consumed + unread), (unsigned long long)in_sent);
    }
  }
  void on_message(TcpConnectionPtr const &c, Buffer &buf)
  {
    check_cb("message");
    ++messages;
    size_t n = buf.GetReadableSize();
    NOTE("  [message: %zu readable]", n);
    if (want & (W_READ | W_SHUT)) {
      PBT_CHECK(n >= unread, "%llu unread bytes were left in the input buffer, only %zu are there", (unsigned long long)unread, n);
      PBT_CHECK(n > unread, "the message callback runs without new bytes");
      PBT_CHECK(consumed + n <= in_sent, "the connection has received %llu bytes, only %llu were sent", (unsigned long long)(consumed + n), (unsigned long long)in_sent);
      const char *p = buf.GetReadBegin();
      for (size_t i = 0; i < n; ++i) PBT_CHECK((unsigned char)p[i] == in_byte(consumed + i), "received byte %llu is wrong", (unsigned long long)(consumed + i));
      PBT_CHECK(!paused || peer_closed || (peer_wr_closed && shut), "the message callback runs while reading is disabled");
    }
    unread = n;
    ++depth;
    if (in_callback && depth < 4) in_callback(*this, 0);
    --depth;
    size_t k = 0;
    switch (g.weighted({4, 2, 2, 1})) {
      case 0: k = unread; break;
      case 1: k = g.range(0, unread); break;
      case 2: break;
      default: k = std::min<uint64_t>(unread, g.small(unread));
    }
    if (k) {
      buf.AdvanceRead(k);
      consumed += k;
      unread -= k;
      NOTE("  [consumes %zu]", k);
    }
  }
  bool on_wcc(TcpConnectionPtr const &c)
  {
    check_cb("write-complete");
    ++wcc_calls;
    NOTE("  [write complete]");
    if (want & W_NOTE) PBT_CHECK(wcc_calls <= completions, "the write-complete callback runs for the %luth time, but everything accepted was handed over only %lu times", wcc_calls, completions);
    ++depth;
    if (in_callback && depth < 4) in_callback(*this, 1);
    --depth;
    bool r = !g.chance(1, 3);
    return r;
  }
  void on_hwm(TcpConnectionPtr const &c, size_t n)
  {
    check_cb("high-water");
    ++hwm_seen;
    NOTE("  [high water: %zu]", n);
    if (want & W_NOTE) {
      PBT_CHECK(!hwm_expected.empty(), "the high-water callback reports %zu, but the backlog did not rise over the mark", n);
      PBT_CHECK(hwm_expected.front() == n, "the high-water callback reports a backlog of %zu, it is %zu", n, hwm_expected.front());
    }
    if (!hwm_expected.empty()) hwm_expected.pop_front();
    ++depth;
    if (in_callback && depth < 4) in_callback(*this, 2);
    --depth;
  }
  void on_handed(size_t n)
  {
    ++progress;
    handed += n;
    if (want & (W_NOTE | W_SEND)) PBT_CHECK(handed <= accepted, "%llu bytes are written to the socket, only %llu were accepted", (unsigned long long)handed, (unsigned long long)accepted);
    if (handed == accepted) ++completions;
  }

  // ---- operations ----
  void elsewhere(std::function<void()> f)
  {
    std::thread t([&] {
      CurrentThread::cacheTid();
      f();
    });
    t.join();
  }
  size_t size()
  {
    switch (g.weighted({3, 3, 2, 1})) {
      case 0: return 1 + g.small(200);
      case 1: return 1 + g.small(9000);
      case 2: return 1 + g.size(20000, {4096, 4095, 4097, 8192});
      default: return 1 + g.small(150000);
    }
  }
  // Accounts for a send of n bytes that ran in the loop; b is the backlog before it.
  void sent_in_loop(uint64_t b)
  {
    uint64_t a = accepted - handed;
    if (hwm_set && b < mark && a >= mark && a > b) {
      hwm_expected.push_back(a);
      pbt::label("backlog rises over the mark");
    }
    if (a) pbt::label("output queued");
  }
  void send(bool other)
  {
    if (!conn) return;
    size_t n = size();
    unsigned how = g.range(0, 3);
    unsigned src = other ? 1 : 0;
    static const char *names[] = {"raw bytes", "a string", "an input buffer", "a chunk list"};
    NOTE("%ssend %zu bytes as %s%s%s", depth ? "  " : "", n, names[how], other ? " from another thread" : "", accepting() ? "" : " (closed)");
    Msg m{src, n, ++seq * 1000003, ""};
    m.data = make_data(src, n, m.seed);
    std::string d = m.data;
    bool acc = accepting();
    // what was received and not read yet is lost when the peer answers with a reset
    if (tcp && peer_closed) peer_reset = true;
    if (acc) {
      if (accepted + queued > handed) pbt::label("send with output queued");
      parser.pending[src].push_back(std::move(m));
    }
    std::unique_ptr<Buffer> ib;
    std::unique_ptr<ChunkList> ol;
    if (how == 2) {
      ib.reset(new Buffer);
      size_t junk = g.small(300);
      ib->Append(std::string(junk, 'x').data(), junk);
      ib->Append(d.data(), n);
      ib->AdvanceRead(junk);
    }
    if (how == 3) {
      ol.reset(new ChunkList);
      size_t junk = g.small(300), at = 0;
      ol->Append(std::string(junk, 'x').data(), junk);
      while (at < n) {
        size_t k = g.chance(1, 3) ? std::min<size_t>(n - at, 1 + g.small(5000)) : n - at;
        ol->Append(d.data() + at, k);
        at += k;
      }
      ol->AdvanceRead(junk);
    }
    TcpConnectionPtr c = conn;
    auto call = [&] {
      switch (how) {
        case 0: c->Send(d.data(), n); break;
        case 1: c->Send(StringView(d.data(), n)); break;
        case 2: c->Send(*ib); break;
        default: c->Send(*ol);
      }
    };
    if (!other) {
      uint64_t b = accepted - handed;
      if (acc) accepted += n;
      call();
      if (acc) sent_in_loop(b);
      return;
    }
    if (!acc) {
      elsewhere(call);
      return;
    }
    // the send runs in the loop between the two markers
    queued += n;
    auto before = std::make_shared<uint64_t>(0);
    elsewhere([&] {
      loop->QueueToLoop([this, n, before] {
        *before = accepted - handed;
        queued -= n;
        accepted += n;
      });
      call();
      loop->QueueToLoop([this, before] {
        if (!downs) sent_in_loop(*before);
      });
    });
  }
  void shutdown(bool other)
  {
    if (!conn) return;
    NOTE("%sShutdownWrite()%s%s", depth ? "  " : "", other ? " from another thread" : "", shut ? " again" : "");
    if (accepting() && accepted + queued > handed) pbt::label("shutdown with output queued");
    TcpConnectionPtr c = conn;
    if (up()) shut = true;
    if (other)
      elsewhere([&] { c->ShutdownWrite(); });
    else
      c->ShutdownWrite();
  }
  void force_close(bool other)
  {
    if (!conn) return;
    NOTE("%sForceClose()%s%s", depth ? "  " : "", other ? " from another thread" : "", forced ? " again" : "");
    if (accepted + queued > handed) pbt::label("forced close with output queued");
    TcpConnectionPtr c = conn;
    if (up()) forced = true;
    if (other)
      elsewhere([&] { c->ForceClose(); });
    else
      c->ForceClose();
  }
  void pause()
  {
    if (!conn) return;
    NOTE("%sDisableRead()", depth ? "  " : "");
    conn->DisbaleRead();
    if (up()) paused = true;
  }
  void resume()
  {
    if (!conn) return;
    NOTE("%sEnableRead()", depth ? "  " : "");
    conn->EnableRead();
    paused = false;
  }
  void plan_faults()
  {
    if (!faults || fd[0] < 0 || downs) return;
    auto mk = [&](bool wr) {
      std::vector<faultio::Act> v;
      size_t k = g.range(1, 5);
      std::string t;
      while (k--) {
        // an edge-triggered descriptor is not ready any more after EAGAIN: only real ones there
        switch (g.range(0, kind == 2 ? 1 : 2)) {
          case 0: v.push_back({0, 1 + (size_t)g.small(5000)}), t += " short"; break;
          case 1: v.push_back({EINTR, 0}), t += " EINTR"; break;
          default: v.push_back({EAGAIN, 0}), t += " EAGAIN";
        }
      }
      NOTE("%snext %s calls:%s", depth ? "  " : "", wr ? "write" : "read", t.c_str());
      return v;
    };
    if (g.boolean())
      faultio::plan_write(fd[0], mk(true));
    else
      faultio::plan_read(fd[0], mk(false));
    pbt::label("injected faults");
  }
  // The peer reads up to n bytes.
  size_t peer_read(size_t n)
  {
    static std::vector<char> buf(1 << 18);
    size_t got = 0;
    if (peer < 0 || eof_seen) return 0;
    while (got < n) {
      ssize_t r = ::read(peer, buf.data(), std::min(n - got, buf.size()));
      if (r < 0) {
        if (errno == EINTR) continue;
        break;
      }
      if (r == 0) {
        eof_seen = true;
        ++progress;
        NOTE("the peer sees the end of the stream");
        if (want & (W_SEND | W_SHUT)) PBT_CHECK(shut || forced || downs, "the peer sees the end of the stream although nothing was shut down");
        if ((want & (W_SEND | W_SHUT)) && !forced && !peer_reset && !peer_wr_closed) PBT_CHECK(parser.missing() == 0, "the stream ends when %zu bytes accepted before the shutdown were not received", parser.missing());
        break;
      }
      got += r;
      ++progress;
      if (want & (W_SEND | W_SHUT)) {
        std::string e = parser.feed(buf.data(), r);
        PBT_CHECK(e.empty(), "%s", e.c_str());
      }
    }
    if (got) NOTE("the peer reads %zu bytes", got);
    return got;
  }
  void peer_write(size_t n)
  {
    if (peer < 0 || peer_wr_closed) return;
    static std::vector<char> buf(1 << 18);
    n = std::min(n, buf.size());
    for (size_t i = 0; i < n; ++i) buf[i] = (char)in_byte(in_sent + i);
    ssize_t r = ::write(peer, buf.data(), n);
    if (r > 0) {
      in_sent += r;
      ++progress;
      NOTE("the peer writes %zd bytes", r);
    }
  }
  void peer_shutdown()
  {
    if (peer < 0 || peer_wr_closed) return;
    NOTE("the peer shuts its write side down");
    ::shutdown(peer, SHUT_WR);
    peer_wr_closed = true;
  }
  void peer_close(bool reset = false)
  {
    if (peer < 0) return;
    char c;
    bool unread_there = ::recv(peer, &c, 1, MSG_PEEK) > 0;
    if (reset && tcp) {
      linger l{1, 0};
      setsockopt(peer, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    NOTE("the peer %s%s", reset ? "resets" : "closes", unread_there ? " with unread bytes" : "");
    if (tcp && (reset || unread_there || accepted > handed)) peer_reset = true;
    ::close(peer);
    peer = -1;
    peer_closed = peer_wr_closed = true;
  }

  // ---- driver ----
  // Runs the loop until the case calls quit().
  void run(unsigned steps)
  {
    setup();
    loop->QueueToLoop([this] {
      conn->ConnectionEstablished();
    });
    remaining = steps;
    again();
    loop->StartLoop();
  }
  unsigned remaining = 0;
  unsigned idle_rounds = 0;
  int64_t idle_since = 0;
  unsigned long idle_progress = 0;
  std::function<bool(Conn &)> settled;   // the end condition of the phase after the steps
  std::function<void(Conn &)> settle_op; // what is done in each round until then
  std::function<void(Conn &)> stuck;     // fails with a description
  void again()
  {
    loop->QueueToLoop([this] { tick(); });
  }
  static int64_t ms()
  {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000 + t.tv_nsec / 1000000;
  }
  void tick()
  {
    if (remaining) {
      --remaining;
      step(*this);
      if (!remaining) {
        NOTE("--- settling");
        faultio::clear(fd[0]);
        idle_progress = progress;
        idle_rounds = 0;
      }
      again();
      return;
    }
    settle_op(*this);
    if (closing || settled(*this)) {
      close_tick();
      if (!quitting) again();
      return;
    }
    if (progress != idle_progress || !idle_since) {
      idle_progress = progress;
      idle_rounds = 0;
      idle_since = tcp ? ms() : 1;
    } else if (++idle_rounds > 40) {
      // TCP may need real time (delayed acknowledgements, window probes)
      if (!tcp || ms() - idle_since > 4000) {
        stuck(*this);
        return;
      }
      usleep(500);
    }
    again();
  }
  // The end of every case: the connection is closed and must be released.
  unsigned closing = 0;
  std::function<void(Conn &)> after_down;   // operations on a connection that is down
  void close_tick()
  {
    ++closing;
    if (closing == 1) {
      NOTE("--- closing");
      if (!downs) {
        if (dtor_style) {
          forced = true;
          NOTE("ConnectionDestroyed()");
          conn->ConnectionDestroyed();
        } else
          force_close(false);
      }
      return;
    }
    if (closing == 4 && after_down) after_down(*this);
    if (closing < 7) return;
    if (want & W_LIFE) {
      PBT_CHECK(ups == 1 && downs == 1, "the connection is reported up %d times and down %d times", ups, downs);
      PBT_CHECK(conn->IsDisconnected() && !conn->IsConnected(), "the connection is not disconnected after it was reported down");
      PBT_CHECK(conn.use_count() == 1, "%ld references to the connection are left after it was closed", conn.use_count() - 1);
      PBT_CHECK(closed_cb || dtor_style, "the connection is not removed from its owner");
    }
    int lfd = fd[0];
    faultio::clear_all();
    conn.reset();
    if (want & W_LIFE) {
      PBT_CHECK(weak.expired(), "the connection is still referenced after it was reported down and its owner released it");
      PBT_CHECK(fcntl(lfd, F_GETFD) < 0, "the descriptor of the connection is still open");
    }
    loop->Quit();
    quitting = true;
  }
  void finish()
  {
    PBT_CHECK(quitting, "the loop returned early");
    loop.reset();
  }
};

static inline void configure(Conn &c)
{
  Gen &g = c.g;
  c.kind = g.range(0, 2);
  c.tcp = g.chance(1, 4);
  c.sndbuf = g.pick<int>({0, 1, 8192, 4608, 30000, 100000});
}
}  // namespace ck
