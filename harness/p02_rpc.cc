// P02: the RPC channel runs every call's done with its own response, the server
// side hands every request to its method once and answers it when done is run.
#include "connkit.h"
#include "loud.h"
#include "pbframe.h"
#include "schedfuzz.h"
#include "vclock.h"
#include "p02.pb.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/tcp_client.h"
#include "kanon/rpc/rpc_channel.h"
#include "kanon/rpc/rpc_controller.h"
#include "kanon/rpc/rpc_server.h"
#include <google/protobuf/stubs/logging.h>
#include <sanitizer/allocator_interface.h>   // both sanitizers have it
#include <atomic>
#include <map>
#include <mutex>
#include <set>
using namespace ck;
namespace gp = google::protobuf;
namespace kr = kanon::protobuf::rpc;
typedef kr::RpcController Ctl;

static int64_t real_ms()
{
  timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static void begin(Gen &g)
{
  begin_case();
  logging(g);
  gp::SetLogHandler(nullptr);
}

// ---- methods and messages ----
struct Method {
  const char *service, *name;
  int in, out;   // 0 Ask, 1 Reply, 2 Loose
};
static const Method kMethods[] = {{"p02.One", "first", 0, 1}, {"p02.One", "second", 2, 1}, {"p02.One", "third", 0, 2}, {"p02.Two", "first", 0, 1}, {"p02.Two", "other", 2, 2}};
static gp::Message *new_msg(int kind)
{
  switch (kind) {
    case 0: return new p02::Ask;
    case 1: return new p02::Reply;
    default: return new p02::Loose;
  }
}
// A message with this serial number (-1: an empty one).
static std::unique_ptr<gp::Message> make_msg(Gen &g, int kind, int64_t serial, size_t max = 20000)
{
  std::unique_ptr<gp::Message> m(new_msg(kind));
  size_t n = g.chance(1, 6) ? g.small(max) : g.small(40);
  bool has = serial >= 0 && g.boolean();
  if (auto *a = dynamic_cast<p02::Ask *>(m.get())) {
    a->set_serial(serial);
    if (has) a->set_data(g.blob(n));
    for (unsigned k = g.small(6); k; --k) a->add_n((uint32_t)g.u64());
  } else if (auto *r = dynamic_cast<p02::Reply *>(m.get())) {
    r->set_serial(serial);
    if (has) r->set_data(g.blob(n));
  } else if (auto *l = dynamic_cast<p02::Loose *>(m.get())) {
    if (serial >= 0) l->set_serial(serial);
    if (has) l->set_data(g.blob(n));
  }
  return m;
}
static std::string wire(p02::Wire const &w) { return frame("krpc", w.SerializeAsString()); }

// A raw peer: reads frames from the socket.
struct Reader {
  std::string in;
  bool eof = false;
  // reads what is there; calls f for every message
  template <class F> bool read(int fd, F f)
  {
    bool any = false;
    static char b[1 << 16];
    ssize_t n;
    while (fd >= 0 && !eof && ((n = ::read(fd, b, sizeof b)) > 0 || (n == 0 && (eof = true)))) in.append(b, n), any = true;
    while (in.size() >= 4) {
      uint32_t len = rd32(in.data());
      PBT_CHECK(len >= 8 && len < 1u << 26, "a frame with the length %u is sent", len);
      if (in.size() < 4 + len) break;
      std::string body = in.substr(4, len - 4);
      PBT_CHECK(body.compare(0, 4, "krpc") == 0, "a frame without the tag of RPC messages is sent");
      PBT_CHECK(ref_xxh32(body) == rd32(in.data() + 4 + body.size()), "a frame with a wrong checksum is sent");
      p02::Wire w;
      PBT_CHECK(w.ParseFromString(body.substr(4)), "a frame that is no RPC message is sent");
      PBT_CHECK(w.has_id() && w.has_type(), "an RPC message without id or type is sent");
      in.erase(0, 4 + len);
      f(w);
    }
    return any;
  }
};

// ---- the virtual clock ----
static void clock_on(Gen &g)
{
  g_virtual = true;
  g_now = 1600000000000000 + (int64_t)g.range(0, 5000000);
  g_deadline = 0;
  g_tick = 0;
  g_idle = [] { return false; };
}

// ---- the client's side of a channel ----
struct Client {
  Gen &g;
  Conn c;
  std::unique_ptr<kr::RpcChannel> chan;
  struct Call;
  struct Done : gp::Closure {
    Client *cl;
    Call *call;
    void Run() override { cl->ran(*call); }
  };
  struct Call {
    unsigned method;
    std::string req;
    bool has_deadline = false, notify = false;
    uint64_t deadline = 0;     // ms
    int64_t made = 0;          // when the call was made
    std::unique_ptr<gp::Message> resp;
    Done done;
    bool seen = false;         // by the server
    uint64_t id = 0;
    int runs = 0;
    bool gone = false;         // answered or past its deadline
    bool must = false, may = false;
    std::string expect;
    bool empty = false, nest = false;
  };
  std::vector<std::unique_ptr<Call>> calls;
  Reader reader;
  std::set<uint64_t> ids;
  // what the server sends
  std::string out;
  size_t written = 0;
  struct Frame {
    size_t end;
    uint64_t id;
    bool error;
    std::string resp;
    int code;   // of the answer to a request sent to the client; 0: not a request
  };
  std::deque<Frame> frames;
  std::multiset<std::pair<uint64_t, int>> back;   // answers to requests sent to the client
  int64_t serial = 0;
  bool in_loop = true;
  unsigned answered = 0;

  explicit Client(Gen &gg) : g(gg), c(gg, 0) {}

  void ran(Call &k)
  {
    ++c.progress;
    ++k.runs;
    NOTE("  [done of call %llu]", (unsigned long long)k.id);
    PBT_CHECK(c.loop->IsLoopInThread(), "done runs outside the loop's thread");
    PBT_CHECK(k.runs == 1, "done of a call runs twice");
    PBT_CHECK(k.must || k.may, "done runs although the call has no answer%s", k.has_deadline ? " before its deadline" : "");
    PBT_CHECK(k.resp->SerializePartialAsString() == k.expect, "the response of a call is not the one that was sent for it");
    k.must = k.may = false;
    k.gone = true;
    ++answered;
    if (k.nest) {
      pbt::label("call made by done");
      make_call(false);
    }
  }
  bool expired(Call const &k) const { return k.has_deadline && (g_now / 1000 >= (int64_t)k.deadline || k.deadline > (uint64_t)INT64_MAX / 1000) && k.deadline <= (uint64_t)INT64_MAX / 1000; }
  // the timer certainly ran (the loop polled after the time passed)
  bool surely_gone(Call const &k) const
  {
    if (k.gone) return true;
    if (!expired(k)) return false;
    int64_t d = std::max<int64_t>((int64_t)k.deadline * 1000, k.made);
    return g_now >= d + 1000;
  }
  void make_call(bool other)
  {
    unsigned m = (unsigned)g.range(0, 4);
    calls.emplace_back(new Call);
    Call &k = *calls.back();
    k.method = m;
    k.done.cl = this;
    k.done.call = &k;
    k.made = g_now;
    bool empty_there = false;
    for (auto &x : calls) empty_there |= x->empty && !x->seen;
    k.empty = kMethods[m].in == 2 && !empty_there && g.chance(1, 3);
    auto req = make_msg(g, kMethods[m].in, k.empty ? -1 : ++serial);
    k.req = req->SerializeAsString();
    k.notify = g.chance(1, 8);
    k.nest = !k.notify && calls.size() < 40 && g.chance(1, 8);
    if (!k.notify) k.resp.reset(new_msg(kMethods[m].out));
    std::unique_ptr<Ctl> ctl;
    std::string t = "no controller";
    if (!g.chance(1, 3)) {
      ctl.reset(new Ctl);
      PBT_CHECK(ctl->deadline() == UINT64_MAX, "a new controller has a deadline");
      t = "no deadline";
      switch (g.weighted({2, 4, 2, 2, 1})) {
        case 0: break;
        case 1: {
          uint64_t ms = g.small(5000);
          ctl->SetTimeout(ms);
          k.deadline = g_now / 1000 + ms;
          k.has_deadline = true;
          t = "timeout " + std::to_string(ms) + " ms";
          break;
        }
        case 2:
          k.deadline = g_now / 1000 + g.irange(-20, 3000);
          ctl->SetDeadline(k.deadline);
          k.has_deadline = true;
          t = "deadline in " + std::to_string((int64_t)k.deadline - g_now / 1000) + " ms";
          break;
        case 3: {
          int64_t at = g_now + g.irange(-5000, 2000000);
          ctl->SetDeadline(TimeStamp(at));
          k.deadline = at / 1000;
          k.has_deadline = true;
          t = "deadline as a time stamp in " + std::to_string(at - g_now) + " us";
          break;
        }
        default:
          k.deadline = g.chance(1, 2) ? (uint64_t)g_now + (1ull << g.range(40, 62)) : UINT64_MAX - 1 - g.small(1000);
          ctl->SetDeadline(k.deadline);
          k.has_deadline = true;
          t = "a far deadline";
          pbt::label("far deadline");
      }
      if (g.chance(1, 8)) {
        ctl->Reset();
        k.has_deadline = false;
        t = "a controller that was reset";
      }
    }
    if (k.has_deadline) pbt::label("deadline");
    NOTE("%scall %s.%s(%zu bytes)%s with %s%s", c.depth ? "  " : "", kMethods[m].service, kMethods[m].name, k.req.size(), k.notify ? " without done" : "", t.c_str(), other ? " from another thread" : "");
    gp::Closure *done = k.notify ? nullptr : &k.done;
    auto f = [&] {
      bool direct = g.boolean();
      const gp::ServiceDescriptor *sd = (m < 3 ? p02::One::descriptor() : p02::Two::descriptor());
      if (direct) {
        chan->CallMethod(sd->FindMethodByName(kMethods[m].name), ctl.get(), req.get(), k.resp.get(), done);
        return;
      }
      p02::One::Stub one(chan.get());
      p02::Two::Stub two(chan.get());
      switch (m) {
        case 0: one.first(ctl.get(), (p02::Ask *)req.get(), (p02::Reply *)k.resp.get(), done); break;
        case 1: one.second(ctl.get(), (p02::Loose *)req.get(), (p02::Reply *)k.resp.get(), done); break;
        case 2: one.third(ctl.get(), (p02::Ask *)req.get(), (p02::Loose *)k.resp.get(), done); break;
        case 3: two.first(ctl.get(), (p02::Ask *)req.get(), (p02::Reply *)k.resp.get(), done); break;
        default: two.other(ctl.get(), (p02::Loose *)req.get(), (p02::Loose *)k.resp.get(), done);
      }
    };
    if (other)
      c.elsewhere(f);
    else
      f();
    // only needed during the call
    req->Clear();
    if (ctl && g.boolean()) ctl->SetDeadline((uint64_t)0);
  }
  // calls made by several threads at the same time
  void burst()
  {
    unsigned n = (unsigned)g.range(2, 3), each = (unsigned)g.range(1, 4);
    NOTE("%u threads make %u calls each", n, each);
    pbt::label("calls of several threads at the same time");
    std::vector<std::vector<Call *>> mine(n);
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < each; ++j) {
        calls.emplace_back(new Call);
        Call &k = *calls.back();
        k.method = 0;
        k.done.cl = this;
        k.done.call = &k;
        k.made = g_now;
        p02::Ask a;
        a.set_serial(++serial);
        k.req = a.SerializeAsString();
        k.resp.reset(new p02::Reply);
        mine[i].push_back(&k);
      }
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (unsigned i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        CurrentThread::cacheTid();
        ++ready;
        while (ready < n) {}
        for (auto *k : mine[i]) {
          p02::Ask a;
          a.ParseFromString(k->req);
          p02::One::Stub one(chan.get());
          one.first(nullptr, &a, (p02::Reply *)k->resp.get(), &k->done);
        }
      });
    for (auto &t : th) t.join();
  }
  // the requests that arrived at the server
  void peer_reads()
  {
    if (reader.read(c.peer, [&](p02::Wire &w) {
          if (w.type() == 0) {
            auto it = back.find({w.id(), w.error()});
            PBT_CHECK(it != back.end(), "the client answers id %llu with error %d, which is no answer to a request", (unsigned long long)w.id(), w.error());
            back.erase(it);
            return;
          }
          PBT_CHECK(w.type() == 1, "a message of type %d is sent", w.type());
          Call *k = nullptr;
          for (auto &x : calls)
            if (!x->seen && x->req == w.request() && w.service() == kMethods[x->method].service && w.method() == kMethods[x->method].name) k = x.get();
          PBT_CHECK(w.has_request() && k, "a request of %s.%s with %zu bytes arrives that no call made", w.service().c_str(), w.method().c_str(), w.request().size());
          PBT_CHECK(w.has_deadline() == k->has_deadline && (!k->has_deadline || w.deadline() == k->deadline), "a request arrives with the deadline %lld, the call was made with %lld", w.has_deadline() ? (long long)w.deadline() : -1ll,
                    k->has_deadline ? (long long)k->deadline : -1ll);
          PBT_CHECK(ids.insert(w.id()).second, "two calls have the id %llu", (unsigned long long)w.id());
          k->seen = true;
          k->id = w.id();
          NOTE("  call %llu arrives at the server", (unsigned long long)k->id);
        }))
      ++c.progress;
  }
  void add_frame(p02::Wire const &w, Frame f)
  {
    out += wire(w);
    f.end = out.size();
    frames.push_back(f);
  }
  void answer(Call &k, const char *what)
  {
    p02::Wire w;
    w.set_type(0);
    w.set_id(k.id);
    auto m = make_msg(g, kMethods[k.method].out, (kMethods[k.method].out == 2 && g.chance(1, 3)) ? -1 : (int64_t)g.small(1000));
    w.set_response(m->SerializeAsString());
    if (g.chance(1, 5)) w.set_error(0);
    if (g.chance(1, 10)) w.set_unknown("more");
    NOTE("the server answers call %llu%s (%zu bytes)", (unsigned long long)k.id, what, w.response().size());
    add_frame(w, {0, k.id, false, w.response(), 0});
  }
  void server_op()
  {
    std::vector<Call *> open, old;
    for (auto &k : calls)
      if (k->seen) (k->gone || k->notify ? old : open).push_back(k.get());
    p02::Wire w;
    switch (g.weighted({10, 2, 2, 1, 1})) {
      case 0:
        if (!open.empty()) {
          size_t i = g.boolean() ? 0 : g.range(0, open.size() - 1);
          if (i) pbt::label("answers out of order");
          answer(*open[i], "");
        }
        break;
      case 1:
        if (!old.empty()) {
          Call &k = *g.pickc(old);
          pbt::label(k.notify ? "answer to a notification" : k.runs ? "second answer" : "answer after the deadline");
          answer(k, " again");
        }
        break;
      case 2: {   // no call has this id
        w.set_type(0);
        uint64_t id = 0;
        switch (g.range(0, 2)) {
          case 0: id = calls.size() + 1000 + g.small(100000); break;
          case 1: id = UINT64_MAX - g.small(100000); break;
          default: id = (open.empty() ? 0 : open[0]->id) + (1ull << g.range(32, 63));
        }
        w.set_id(id);
        bool error = g.boolean();
        if (error)
          w.set_error((int)g.range(1, 6));
        else if (g.chance(3, 4))
          w.set_response(std::string("\x08\x07", 2));
        NOTE("the server answers id %llu, which no call has%s", (unsigned long long)id, error ? ", with an error" : "");
        pbt::label("answer to no call");
        add_frame(w, {0, id, error, "x", 0});
        break;
      }
      case 3:   // an error for a call that ended
        for (auto *k : old)
          if (k->notify || surely_gone(*k)) {
            w.set_type(0);
            w.set_id(k->id);
            w.set_error((int)g.range(1, 6));
            NOTE("the server answers call %llu, which ended, with an error", (unsigned long long)k->id);
            pbt::label("error for a call that ended");
            add_frame(w, {0, k->id, true, "", 0});
            break;
          }
        break;
      default: {   // the client has no services
        w.set_type(1);
        w.set_id(g.u64());
        int code = 1;
        if (g.boolean()) {
          w.set_service("p02.One");
          w.set_method("first");
          w.set_request("x");
          code = 2;
        }
        NOTE("the server sends a request");
        pbt::label("request to the client");
        add_frame(w, {0, w.id(), false, "", code});
      }
    }
  }
  void peer_writes(size_t n)
  {
    if (c.peer < 0 || c.downs || written == out.size()) return;
    size_t k = std::min({n, out.size() - written, (size_t)30000});
    ssize_t r = ::write(c.peer, out.data() + written, k);
    if (r <= 0) return;
    written += r;
    ++c.progress;
    NOTE("the server writes %zd bytes", r);
    while (!frames.empty() && frames.front().end <= written) {
      Frame f = frames.front();
      frames.pop_front();
      if (f.code) {
        back.insert({f.id, f.code});
        continue;
      }
      for (auto &x : calls) {
        Call &k = *x;
        if (!k.seen || k.id != f.id || k.gone || k.must || k.may || k.notify) continue;
        if (f.error) pbt::fail("harness: an error for a call");
        if (surely_gone(k)) {
          pbt::label("answer after the deadline");
          continue;
        }
        k.expect = f.resp;
        (expired(k) ? k.may : k.must) = true;
      }
    }
  }
  // everything written before was handled by the loop
  void check()
  {
    for (auto &x : calls) {
      Call &k = *x;
      PBT_CHECK(!k.must, "done of call %llu does not run although its answer arrived", (unsigned long long)k.id);
      if (k.may) k.may = false, k.gone = true;
      if (!k.gone && surely_gone(k)) k.gone = true;
    }
  }
  void step()
  {
    check();
    peer_reads();
    switch (g.weighted({8, 3, 1, 8, 8, 3, 1})) {
      case 0:
      case 1: {
        if (calls.size() >= 60) return;
        bool other = g.chance(1, 3);
        make_call(other);
        break;
      }
      case 2: burst(); break;
      case 3: server_op(); break;
      case 4: peer_writes(g.boolean() ? 1 + g.small(60) : 30000); break;
      case 5: {
        int64_t d = g.chance(1, 4) ? g.small(5000000) : g.small(100000);
        NOTE("%lld us pass", (long long)d);
        g_now += d;
        break;
      }
      default:
        if (g.chance(1, 4) && !c.downs) {
          if (g.boolean())
            c.peer_close();
          else
            c.force_close(g.boolean());
          pbt::label("connection closed");
        }
    }
  }
  void run()
  {
    begin(g);
    clock_on(g);
    configure(c);
    c.tcp = false;
    c.no_message_cb = true;
    c.describe("calls");
    c.in_callback = [&](Conn &, unsigned what) {
      if (what != 3) return;
      chan->SetConnection(c.conn);
    };
    void *mem = malloc(sizeof(kr::RpcChannel));   // not all zero
    memset(mem, 0xa5, sizeof(kr::RpcChannel));
    free(mem);
    chan.reset(new kr::RpcChannel);
    bool first = true;
    c.step = [&](Conn &) {
      if (first) {
        first = false;
        return;
      }
      step();
    };
    c.settle_op = [&](Conn &) {
      check();
      peer_reads();
      peer_writes(30000);
    };
    auto missing = [&]() -> Call * {
      for (auto &k : calls)
        if (!k->seen) return k.get();
      return nullptr;
    };
    c.settled = [&](Conn &) {
      if (c.downs || c.peer < 0) return true;
      for (auto &k : calls)
        if (k->must) return false;
      return written == out.size() && back.empty() && !missing();
    };
    c.stuck = [&](Conn &) {
      if (Call *k = missing()) pbt::fail("the request of call %d of %s.%s does not arrive", (int)(k - calls[0].get()), kMethods[k->method].service, kMethods[k->method].name);
      pbt::fail(back.empty() ? "the client does not read" : "a request sent to the client is not answered");
    };
    c.after_down = [&](Conn &) {
      check();
      if (g.chance(1, 3)) make_call(g.boolean());
      if (g.chance(1, 2)) {
        NOTE("an hour passes");
        g_now += 3600000000ll;
      }
      late = g.boolean();
      if (late) return;
      NOTE("the channel is destroyed");
      chan.reset();
      NOTE("an hour passes");
      g_now += 3600000000ll;
    };
    c.run((unsigned)g.range(4, 60));
    chan.reset();
    c.finish();
    for (auto &k : calls) PBT_CHECK(k->runs <= 1, "done of a call runs twice");
    if (answered >= 2) pbt::nontrivial();
    g_virtual = false;
  }
  bool late = false;
};
static void client_case(Gen &g)
{
  Client k(g);
  k.run();
}

// ---- the server's side ----
struct Request {
  unsigned method;
  std::string bytes;
  uint64_t id;
  bool has_deadline = false;
  uint64_t deadline = 0;
};
struct Running {   // a method that did not run done yet
  Request r;
  Ctl *ctl;
  const gp::Message *req;
  gp::Message *resp;
  gp::Closure *done;
};
struct Server;
static std::function<void(unsigned, gp::RpcController *, const gp::Message *, gp::Message *, gp::Closure *)> g_handle;
struct OneImpl : p02::One {
  void first(gp::RpcController *c, const p02::Ask *q, p02::Reply *r, gp::Closure *d) override { g_handle(0, c, q, r, d); }
  void second(gp::RpcController *c, const p02::Loose *q, p02::Reply *r, gp::Closure *d) override { g_handle(1, c, q, r, d); }
  void third(gp::RpcController *c, const p02::Ask *q, p02::Loose *r, gp::Closure *d) override { g_handle(2, c, q, r, d); }
};
struct TwoImpl : p02::Two {
  void first(gp::RpcController *c, const p02::Ask *q, p02::Reply *r, gp::Closure *d) override { g_handle(3, c, q, r, d); }
  void other(gp::RpcController *c, const p02::Loose *q, p02::Loose *r, gp::Closure *d) override { g_handle(4, c, q, r, d); }
};
struct Answer {
  uint64_t id;
  int error;
  std::string resp;
};

struct Server {
  Gen &g;
  Conn c;
  OneImpl one;
  TwoImpl two;
  std::unique_ptr<kr::RpcChannel> chan;
  kr::RpcChannel::ServiceMap services;
  Reader reader;
  std::string out;
  size_t written = 0;
  struct Frame {
    size_t begin, end;
    int kind;              // 0 request, 1 malformed request, 2 response, 3 broken frame
    Request r;
    std::vector<int> codes;
  };
  std::deque<Frame> frames;
  std::deque<Request> due;               // the methods that must be called next
  std::vector<Running> running;
  std::multiset<std::pair<uint64_t, std::vector<int>>> errors_due;
  std::vector<std::pair<Answer, bool>> answers_due;   // whether it must arrive
  bool broken = false;                   // a broken frame began
  bool eof_ok = false;
  unsigned handled = 0;
  int64_t serial = 0;

  explicit Server(Gen &gg) : g(gg), c(gg, 0) {}

  void check_controller(Running const &k)
  {
    PBT_CHECK(k.r.has_deadline ? k.ctl->deadline() == k.r.deadline : k.ctl->deadline() == UINT64_MAX, "the controller has the deadline %llu", (unsigned long long)k.ctl->deadline());
    bool cancelled = k.ctl->IsCanceled();
    uint64_t now = (uint64_t)(g_now / 1000);
    if (!k.r.has_deadline || now < k.r.deadline) PBT_CHECK(!cancelled, "a request is cancelled before its deadline");
    if (k.r.has_deadline && now > k.r.deadline) {
      PBT_CHECK(cancelled, "a request is not cancelled after its deadline");
      pbt::label("cancelled request");
    }
  }
  // elsewhere: 0 here, 1 in another thread
  void complete(Running k, bool other)
  {
    check_controller(k);
    std::string id = std::to_string(k.r.id);
    auto m = make_msg(g, kMethods[k.r.method].out, kMethods[k.r.method].out == 2 && g.chance(1, 3) ? -1 : (int64_t)g.small(100000));
    k.resp->CopyFrom(*m);
    NOTE("%sdone of request %s (%zu bytes)%s%s", c.depth ? "  " : "", id.c_str(), m->ByteSizeLong(), other ? " from another thread" : "", c.downs ? " after the connection ended" : "");
    if (c.downs) pbt::label(chan ? "done after the connection ended" : "done after the channel was destroyed");
    if (!c.downs) {
      answers_due.push_back({{k.r.id, 0, m->SerializeAsString()}, !broken});
      // whatever is accepted before the broken frame is complete is sent
    }
    delete k.req;
    auto f = [&] { k.done->Run(); };
    if (other) {
      pbt::label("done from another thread");
      c.elsewhere(f);
    } else
      f();
  }
  void handle(unsigned method, gp::RpcController *ctl, const gp::Message *req, gp::Message *resp, gp::Closure *done)
  {
    ++c.progress;
    ++handled;
    PBT_CHECK(!due.empty(), "%s.%s is called without a request", kMethods[method].service, kMethods[method].name);
    Request r = due.front();
    due.pop_front();
    NOTE("  [%s.%s: request %llu]", kMethods[method].service, kMethods[method].name, (unsigned long long)r.id);
    PBT_CHECK(method == r.method, "%s.%s is called, the request is for %s.%s", kMethods[method].service, kMethods[method].name, kMethods[r.method].service, kMethods[r.method].name);
    PBT_CHECK(req->SerializeAsString() == r.bytes, "the method is called with another request than was sent");
    PBT_CHECK(ctl && resp && done, "the method is called without controller, response or done");
    PBT_CHECK(resp->ByteSizeLong() == 0, "the method is called with a response that is not empty");
    Running k{r, dynamic_cast<Ctl *>(ctl), req, resp, done};
    PBT_CHECK(k.ctl, "the controller is no RpcController");
    ++c.depth;
    switch (g.weighted({4, 4, 1})) {
      case 0: complete(k, false); break;
      case 1:
        check_controller(k);
        running.push_back(k);
        break;
      default: complete(k, true);
    }
    --c.depth;
  }
  void peer_reads()
  {
    if (reader.read(c.peer, [&](p02::Wire &w) {
          PBT_CHECK(w.type() == 0, "the server sends a message of type %d", w.type());
          NOTE("the client receives an answer for id %llu, error %d", (unsigned long long)w.id(), w.error());
          if (w.has_error() && w.error() != 0) {
            auto best = errors_due.end();   // the one with the fewest possible errors
            for (auto it = errors_due.begin(); it != errors_due.end(); ++it)
              if (it->first == w.id() && std::count(it->second.begin(), it->second.end(), w.error()) && (best == errors_due.end() || it->second.size() < best->second.size())) best = it;
            if (best != errors_due.end()) {
              errors_due.erase(best);
              return;
            }
            pbt::fail("request %llu is answered with error %d", (unsigned long long)w.id(), w.error());
          }
          PBT_CHECK(w.has_response(), "an answer without response or error is sent");
          for (size_t i = 0; i < answers_due.size(); ++i)
            if (answers_due[i].first.id == w.id() && answers_due[i].first.resp == w.response()) {
              answers_due.erase(answers_due.begin() + i);
              return;
            }
          pbt::fail("request %llu is answered with a response (%zu bytes) that no method gave", (unsigned long long)w.id(), w.response().size());
        }))
      ++c.progress;
    PBT_CHECK(!reader.eof || c.forced || eof_ok || broken, "the connection is shut down");
  }
  void add_request()
  {
    Frame f;
    f.begin = out.size();
    p02::Wire w;
    f.r.id = g.weighted({4, 1}) ? g.u64() : ++serial;
    w.set_type(1);
    w.set_id(f.r.id);
    f.r.method = (unsigned)g.range(0, 4);
    Method const &m = kMethods[f.r.method];
    auto q = make_msg(g, m.in, m.in == 2 && g.chance(1, 3) ? -1 : (int64_t)g.small(100000));
    f.r.bytes = q->SerializeAsString();
    w.set_service(m.service);
    w.set_method(m.name);
    w.set_request(f.r.bytes);
    if (g.chance(1, 3)) {
      f.r.has_deadline = true;
      f.r.deadline = g.chance(1, 8) ? g.u64() >> 1 : (uint64_t)(g_now / 1000 + g.irange(-20, 500));
      w.set_deadline(f.r.deadline);
    }
    if (g.chance(1, 10)) w.set_unknown("more");
    if (g.chance(1, 10)) w.set_response("x");
    if (g.chance(1, 10)) w.set_error(0);
    f.kind = 0;
    std::string t;
    switch (g.weighted({20, 2, 2, 2, 2, 2, 1})) {
      case 0: break;
      case 1: {
        unsigned k = (unsigned)g.range(1, 7);
        if (k & 1) w.clear_service();
        if (k & 2) w.clear_method();
        if (k & 4) w.clear_request();
        f.codes = {1};
        t = " with fields missing";
        break;
      }
      case 2:
        w.set_service(g.pick<const char *>({"", "One", "p02.one", "p02.One.", "p02.Three", ".p02.One", "p02.On"}));
        f.codes = {2};
        t = " of an unknown service";
        break;
      case 3:
        w.set_method(g.pick<const char *>({"", "First", "p02.One.first", "firs", "firstx", "fourth"}));
        f.codes = {3};
        t = " of an unknown method";
        break;
      case 4:   // a method of the other service
        w.set_method(f.r.method < 3 ? "other" : "third");
        f.codes = {3};
        t = " of another service's method";
        break;
      case 5:
        if (m.in == 0 && g.boolean())
          w.set_request("\x12\x01x");   // no serial
        else if (g.boolean())
          w.set_request("\xff\xff\xff");
        else
          w.set_request(f.r.bytes + "\x12\x7f");
        f.codes = {4};
        t = " that cannot be parsed";
        break;
      default:   // several
        w.clear_request();
        w.set_service("nobody");
        f.codes = {1, 2};
        t = " with several errors";
    }
    if (!f.codes.empty()) {
      f.kind = 1;
      pbt::label("malformed request");
    }
    NOTE("frame: request %llu of %s.%s%s", (unsigned long long)f.r.id, w.service().c_str(), w.method().c_str(), t.c_str());
    out += wire(w);
    f.end = out.size();
    frames.push_back(f);
  }
  void add_other()
  {
    Frame f;
    f.begin = out.size();
    p02::Wire w;
    if (g.chance(4, 5)) {
      w.set_type(0);
      w.set_id(g.boolean() ? g.u64() : g.small(5));
      if (g.boolean())
        w.set_error((int)g.range(0, 6));
      else if (g.chance(3, 4))
        w.set_response("xx");
      f.kind = 2;
      pbt::label("response to the server");
      NOTE("frame: a response");
      out += wire(w);
    } else {
      std::string s;
      w.set_type(1);
      w.set_id(7);
      switch (g.range(0, 3)) {
        case 0:
          w.clear_type();
          s = wire(w);
          break;
        case 1:
          w.clear_id();
          s = wire(w);
          break;
        case 2:
          s = wire(w);
          s.back() = (char)(s.back() + 1);
          break;
        default:
          w.set_type(7);
          s = wire(w);
      }
      f.kind = 3;
      pbt::label("broken frame");
      NOTE("frame: a broken one");
      out += s;
    }
    f.end = out.size();
    frames.push_back(f);
  }
  void peer_writes(size_t n)
  {
    if (c.peer < 0 || c.downs || written == out.size()) return;
    size_t k = std::min({n, out.size() - written, (size_t)30000});
    ssize_t r = ::write(c.peer, out.data() + written, k);
    if (r <= 0) return;
    written += r;
    ++c.progress;
    NOTE("the client writes %zd bytes", r);
    while (!frames.empty()) {
      Frame &f = frames.front();
      if (f.kind == 3 && f.begin < written) broken = true;
      if (f.end > written) break;
      if (f.kind == 3) {   // nothing after it is read
        eof_ok = true;
        frames.clear();
        out.resize(written);
        break;
      }
      if (f.kind == 0) due.push_back(f.r);
      if (f.kind == 1) errors_due.insert({f.r.id, f.codes});
      frames.pop_front();
    }
  }
  void check()
  {
    if (!c.downs && c.peer >= 0) PBT_CHECK(due.empty(), "the method of request %llu is not called", (unsigned long long)due.front().id);
    if (c.downs) due.clear();
  }
  void step()
  {
    check();
    peer_reads();
    if (c.downs && chan && g.boolean()) {
      NOTE("the channel is destroyed");
      chan.reset();
    }
    switch (g.weighted({8, 8, 6, 2, 1, 1})) {
      case 0:
        if (!broken && frames.size() < 20) {
          bool last_broken = !frames.empty() && frames.back().kind == 3;
          if (last_broken) return;
          if (g.chance(1, 6))
            add_other();
          else
            add_request();
        }
        break;
      case 1: peer_writes(g.boolean() ? 1 + g.small(60) : 30000); break;
      case 2:
        if (!running.empty()) {
          size_t i = g.range(0, running.size() - 1);
          Running k = running[i];
          running.erase(running.begin() + i);
          if (i) pbt::label("answers out of order");
          complete(k, g.chance(1, 3));
        }
        break;
      case 3: {
        int64_t d = g.small(300000);
        NOTE("%lld us pass", (long long)d);
        g_now += d;
        break;
      }
      case 4:
        if (g.chance(1, 6) && !c.downs) {
          if (g.boolean())
            c.peer_close();
          else
            c.force_close(g.boolean());
          pbt::label("connection closed");
        }
        break;
      default: break;
    }
  }
  void run()
  {
    begin(g);
    clock_on(g);
    configure(c);
    c.tcp = false;
    c.no_message_cb = true;
    c.describe("serves");
    services.emplace("p02.One", &one);
    services.emplace("p02.Two", &two);
    g_handle = [&](unsigned m, gp::RpcController *k, const gp::Message *q, gp::Message *r, gp::Closure *d) { handle(m, k, q, r, d); };
    c.in_callback = [&](Conn &, unsigned what) {
      if (what != 3) return;
      chan.reset(new kr::RpcChannel(c.conn));
      chan->SetServices(services);
    };
    bool first = true;
    c.step = [&](Conn &) {
      if (first) {
        first = false;
        return;
      }
      step();
    };
    c.settle_op = [&](Conn &) {
      check();
      peer_reads();
      peer_writes(30000);
      if (!running.empty() && !broken && !c.downs && rest-- > 0) {
        Running k = running.back();
        running.pop_back();
        complete(k, false);
      }
    };
    rest = (int)g.small(30);
    auto missing = [&] {
      for (auto &a : answers_due)
        if (a.second) return true;
      return false;
    };
    c.settled = [&](Conn &) {
      if (c.downs || c.peer < 0) return true;
      if (eof_ok && !reader.eof) return false;
      return written == out.size() && errors_due.empty() && !missing() && (rest <= 0 || running.empty() || broken);
    };
    c.stuck = [&](Conn &) {
      if (!errors_due.empty()) pbt::fail("the malformed request %llu is not answered", (unsigned long long)errors_due.begin()->first);
      if (missing()) pbt::fail("the response of a request is not sent");
      pbt::fail(eof_ok ? "the connection is not shut down after a broken frame" : "the server does not read");
    };
    c.after_down = [&](Conn &) {
      if (!running.empty() && g.boolean()) {
        complete(running.back(), g.boolean());
        running.pop_back();
      }
      if (chan) NOTE("the channel is destroyed");
      chan.reset();
      while (!running.empty()) {
        complete(running.back(), g.boolean());
        running.pop_back();
      }
    };
    c.run((unsigned)g.range(4, 80));
    c.finish();
    if (handled >= 2) pbt::nontrivial();
    g_virtual = false;
  }
  int rest = 0;
};
static void server_case(Gen &g)
{
  Server k(g);
  k.run();
}

// ---- nothing is left of a request or call ----
static void leaks_case(Gen &g)
{
  begin(g);
  clock_on(g);
  Conn c(g, 0);
  configure(c);
  c.tcp = false;
  c.sndbuf = 0;
  c.no_message_cb = true;
  static const char *names[] = {"valid requests", "requests answered later", "requests with missing fields", "requests of unknown services", "requests of unknown methods", "requests that cannot be parsed", "responses to the server",
                                "calls that are answered", "calls past their deadline", "notifications", "calls answered before their deadline"};
  unsigned kind = (unsigned)g.range(0, 10);
  c.describe(names[kind]);
  bool client = kind >= 7;
  OneImpl one;
  kr::RpcChannel::ServiceMap services;
  services.emplace("p02.One", &one);
  std::unique_ptr<kr::RpcChannel> chan;
  c.in_callback = [&](Conn &, unsigned what) {
    if (what != 3) return;
    if (client) {
      chan.reset(new kr::RpcChannel);
      chan->SetConnection(c.conn);
    } else {
      chan.reset(new kr::RpcChannel(c.conn));
      chan->SetServices(services);
    }
  };
  std::vector<Running> running;
  running.reserve(64);
  unsigned served = 0, dones = 0;
  g_handle = [&](unsigned, gp::RpcController *k, const gp::Message *q, gp::Message *r, gp::Closure *d) {
    ++served;
    ((p02::Reply *)r)->set_serial(1);
    delete q;
    if (kind == 1)
      running.push_back({{}, (Ctl *)k, nullptr, r, d});
    else
      d->Run();
  };
  struct D : gp::Closure {
    unsigned *n;
    void Run() override { ++*n; }
  } done;
  done.n = &dones;
  p02::Reply reply;
  Reader reader;
  reader.in.reserve(1 << 16);
  const int kBatches = 5, kN = 30;
  size_t mark[kBatches + 1];
  unsigned phase = 0;
  static std::string frames;   // one batch of the requests
  frames.clear();
  if (!client)
    for (int i = 0; i < kN; ++i) {
      p02::Wire w;
      w.set_type(1);
      w.set_id(i);
      w.set_service("p02.One");
      w.set_method("first");
      p02::Ask a;
      a.set_serial(5);
      a.set_data("12345678901234567890");
      w.set_request(a.SerializeAsString());
      w.set_deadline(5);
      if (kind == 2) w.clear_request();
      if (kind == 3) w.set_service("p");
      if (kind == 4) w.set_method("p");
      if (kind == 5) w.set_request("\x12\x01x");
      if (kind == 6) {
        w.Clear();
        w.set_type(0);
        w.set_id(i);
        if (i & 1)
          w.set_error(3);
        else
          w.set_response("abc");
      }
      frames += wire(w);
    }
  p02::Ask ask;
  ask.set_serial(3);
  std::string answer;
  auto before = [&] {
    if (!client) {
      PBT_CHECK(::write(c.peer, frames.data(), frames.size()) == (ssize_t)frames.size(), "harness: write");
      return;
    }
    for (int i = 0; i < kN; ++i) {
      p02::One::Stub stub(chan.get());
      Ctl ctl;
      if (kind == 8 || kind == 10) ctl.SetTimeout(5);
      if (kind == 9)
        stub.first(&ctl, &ask, nullptr, nullptr);
      else
        stub.first(&ctl, &ask, &reply, &done);
    }
  };
  auto after = [&] {
    answer.clear();
    reader.read(c.peer, [&](p02::Wire &w) {
      if (kind != 7 && kind != 10) return;
      p02::Wire v;
      v.set_type(0);
      v.set_id(w.id());
      v.set_response(std::string("\x08\x01", 2));
      answer += wire(v);
    });
    if (answer.size()) PBT_CHECK(::write(c.peer, answer.data(), answer.size()) == (ssize_t)answer.size(), "harness: write");
    for (auto &r : running) r.done->Run();
    running.clear();
    if (kind == 8) g_now += 6000;
  };
  c.step = [&](Conn &) {
    unsigned p = phase % 8, b = phase / 8;
    ++phase;
    if (p == 0 && b <= kBatches) mark[b] = __sanitizer_get_current_allocated_bytes();
    if (p == 1) before();
    if (p == 3) after();
    if (p == 5) {
      if (kind == 10) g_now += 20000;   // the timers
      reader.read(c.peer, [](p02::Wire &) {});
    }
  };
  c.settle_op = [&](Conn &) {};
  c.settled = [&](Conn &) { return true; };
  c.stuck = [&](Conn &) {};
  c.after_down = [&](Conn &) { chan.reset(); };
  c.run(kBatches * 8 + 1);
  c.finish();
  g_virtual = false;
  if (kind <= 1) PBT_CHECK(served == kBatches * kN, "%u of %d requests are served", served, kBatches * kN);
  if (kind == 7 || kind == 10) PBT_CHECK(dones == kBatches * kN, "done runs for %u of %d calls", dones, kBatches * kN);
  if (kind == 8) PBT_CHECK(dones == 0, "done runs after the deadline");
  long least = LONG_MAX;
  for (int b = 0; b < kBatches; ++b) least = std::min(least, (long)mark[b + 1] - (long)mark[b]);
  NOTE("least growth per batch: %ld bytes", least);
  PBT_CHECK(least < kN * 12, "every %d %s leave at least %ld bytes allocated", kN, names[kind], least);
  pbt::nontrivial();
}

// ---- a server and its clients with several threads ----
struct Place {
  sockaddr_in a{};
  std::string ip;
  uint16_t port;
  void choose(Gen &g)
  {
    static unsigned n = 0;
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(my_address(1 + g.range(0, 3)));
    char b[32];
    inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
    ip = b;
    for (;;) {
      port = 3000 + n++ % 1000;
      a.sin_port = htons(port);
      int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
      setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
      bool ok = !bind(s, (const sockaddr *)&a, sizeof a) && !listen(s, 1);
      ::close(s);
      if (ok) return;
    }
  }
};
struct LoopThread {   // a loop in a thread, with objects created and destroyed in it
  std::atomic<EventLoop *> lp{nullptr};
  std::atomic<bool> unused{false};
  std::function<void()> at_end;
  std::thread t;
  void start(unsigned kind)
  {
    t = std::thread([this, kind] {
      CurrentThread::cacheTid();
      EventLoop loop(kind == 0);
      if (kind == 2) loop.SetEdgeTriggerMode();
      loop.QueueToLoop([&] { lp = &loop; });
      loop.StartLoop();
      if (at_end) at_end();
      while (!unused) usleep(20);
    });
    while (!lp) usleep(20);
  }
  void in(std::function<void()> f)
  {
    std::atomic<bool> ok{false};
    lp.load()->QueueToLoop([&] {
      f();
      ok = true;
    });
    while (!ok) usleep(20);
  }
  void stop()
  {
    lp.load()->Quit();
    unused = true;
    t.join();
  }
};
struct Tally {
  std::atomic<unsigned> runs{0};
  std::atomic<unsigned> wrong{0};
};
struct CountDone : gp::Closure {
  Tally *t;
  std::unique_ptr<p02::Reply> r;
  uint64_t serial;
  std::string data;
  std::atomic<unsigned> runs{0};
  void Run() override
  {
    if (++runs > 1 || r->serial() != serial * 2 + 1 || r->data() != data) ++t->wrong;
    ++t->runs;
  }
};
// the response of the request
static void respond(const p02::Ask *q, p02::Reply *r)
{
  r->set_serial(q->serial() * 2 + 1);
  r->set_data(std::string(q->data().rbegin(), q->data().rend()));
}
static void threads_case(Gen &g)
{
  begin(g);
  Place w;
  w.choose(g);
  unsigned skind = g.range(0, 2), ckind = g.range(0, 2), workers = g.range(0, 3), nthr = g.range(1, 4), ncli = g.range(1, 3), noise = g.range(0, 2);
  bool deferred = g.boolean(), cut = g.chance(1, 5);
  if (cut) deferred = false;
  unsigned each = (unsigned)g.range(1, 25);
  NOTE("%u worker loops, %u clients, %u threads with %u calls each, done %s%s", workers, ncli, nthr, each, deferred ? "by another thread" : "in the method", cut ? ", the server is destroyed early" : "");
  schedfuzz::setup(g.u64(), noise, 0);
  // the thread that completes deferred requests
  std::mutex mu;
  std::deque<std::function<void()>> jobs;
  std::atomic<bool> jobs_end{false};
  std::thread jt([&] {
    CurrentThread::cacheTid();
    for (;;) {
      std::function<void()> f;
      {
        std::lock_guard<std::mutex> l(mu);
        if (!jobs.empty()) {
          f = jobs.front();
          jobs.pop_front();
        }
      }
      if (f)
        f();
      else if (jobs_end)
        return;
      else
        usleep(20);
    }
  });
  std::atomic<unsigned> calls_seen{0};
  g_handle = [&](unsigned, gp::RpcController *, const gp::Message *q, gp::Message *r, gp::Closure *d) {
    ++calls_seen;
    auto *a = (const p02::Ask *)q;
    auto *b = (p02::Reply *)r;
    auto f = [a, b, d] {
      respond(a, b);
      delete a;
      d->Run();
    };
    if (deferred && a->serial() % 3) {
      std::lock_guard<std::mutex> l(mu);
      jobs.push_back(f);
    } else
      f();
  };
  std::unique_ptr<OneImpl> impl(new OneImpl);
  OneImpl &one = *impl;
  LoopThread sl, cl;
  sl.start(skind);
  std::unique_ptr<kr::RpcServer> server;
  sl.in([&] {
    server.reset(new kr::RpcServer(sl.lp, InetAddr(w.ip, w.port), "rpc", false));
    server->AddServices(&one);
    server->SetLoopNum((int)workers);
    server->StartRun();
  });
  cl.start(ckind);
  struct C {
    std::unique_ptr<kr::RpcChannel> chan;
    TcpClientPtr cli;
    std::atomic<int> ups{0}, downs{0};
  };
  Tally tally;
  {
    std::vector<C> cs(ncli);
    for (unsigned i = 0; i < ncli; ++i) {
      C &c = cs[i];
      c.chan.reset(new kr::RpcChannel);
      c.cli = NewTcpClient(cl.lp, InetAddr(w.ip, w.port), "c" + std::to_string(i), g.boolean());
      c.cli->SetConnectionCallback([&c](TcpConnectionPtr const &k) {
        if (k->IsConnected()) {
          c.chan->SetConnection(k);
          ++c.ups;
        } else
          ++c.downs;
      });
      c.cli->Connect();
    }
    unsigned rounds = cut ? 1 : (unsigned)g.pick<int>({1, 1, 2, 3});
    unsigned runs = 0;
    for (unsigned round = 0; round < rounds; ++round) {
    auto t0 = real_ms();
    for (auto &c : cs)
      while (c.ups != (int)round + 1) {
        PBT_CHECK(real_ms() - t0 < 20000, "the client does not connect");
        usleep(50);
      }
    tally.runs = 0;
    calls_seen = 0;
    std::vector<std::vector<std::unique_ptr<CountDone>>> dones(nthr);
    std::vector<std::vector<unsigned>> to(nthr);
    std::vector<uint64_t> tseed(nthr);
    unsigned total = nthr * each;
    for (unsigned t = 0; t < nthr; ++t) {
      tseed[t] = g.u64();
      for (unsigned i = 0; i < each; ++i) {
        std::unique_ptr<CountDone> d(new CountDone);
        d->t = &tally;
        d->r.reset(new p02::Reply);
        d->serial = t * 1000 + i;
        to[t].push_back((unsigned)(pbt::mix(tseed[t] + i) % ncli));
        dones[t].push_back(std::move(d));
      }
    }
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nthr; ++t)
      th.emplace_back([&, t] {
        CurrentThread::cacheTid();
        for (unsigned i = 0; i < each; ++i) {
          uint64_t s = pbt::mix(tseed[t] + 77 * i);
          CountDone &d = *dones[t][i];
          p02::Ask a;
          a.set_serial(d.serial);
          a.set_data(make_data(0, s % 7 == 0 ? s / 7 % 9000 : s / 7 % 50, s));
          d.data = std::string(a.data().rbegin(), a.data().rend());
          p02::One::Stub stub(cs[to[t][i]].chan.get());
          if (s >> 60 & 1) {
            Ctl ctl;
            if (s >> 61 & 1) ctl.SetTimeout(100000);
            stub.first(&ctl, &a, d.r.get(), &d);
          } else
            stub.first(nullptr, &a, d.r.get(), &d);
          if (!(s >> 50 & 15)) usleep(100);
        }
      });
    if (cut) {
      usleep((unsigned)g.small(2000));
      sl.in([&] { server.reset(); });
      pbt::label("server destroyed with calls outstanding");
    }
    for (auto &t : th) t.join();
    t0 = real_ms();
    if (!cut)
      while (tally.runs < total && !tally.wrong) {
        PBT_CHECK(real_ms() - t0 < 20000, "done of %u of %u calls does not run", total - tally.runs.load(), total);
        usleep(50);
      }
    usleep((unsigned)g.small(200));
    runs = tally.runs;
    PBT_CHECK(!tally.wrong, "%u responses are wrong or given twice", tally.wrong.load());
    PBT_CHECK(cut || (runs == total && calls_seen == total), "%u calls are made, %u requests handled, done runs %u times", total, calls_seen.load(), runs);
    PBT_CHECK(runs <= total, "done runs %u times for %u calls", runs, total);
    bool last = round + 1 == rounds;
    if (last) {
      jobs_end = true;
      jt.join();
    } else
      pbt::label("calls over a new connection of the same client");
    for (auto &c : cs) {
      if (auto k = c.cli->GetConnection()) k->ForceClose();
      if (last) c.cli->Stop();
    }
    t0 = real_ms();
    for (auto &c : cs)
      while (c.downs < c.ups) {
        PBT_CHECK(real_ms() - t0 < 20000, "the client's connection is not reported down");
        usleep(50);
      }
    if (!last)
      for (auto &c : cs) cl.in([&] { c.cli->Connect(); });
    }
    cl.in([&] {
      for (auto &c : cs) c.cli.reset();
    });
    cl.in([&] {
      for (auto &c : cs) c.chan.reset();
    });
    if (runs >= 2) pbt::nontrivial();
  }
  if (!cut) sl.in([&] { server.reset(); });
  cl.stop();
  sl.stop();
  schedfuzz::off();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "P02";
  cfg.rule = "at least two calls were answered (client, threads), at least two requests reached a method (server), or all batches were measured (leaks)";
  cfg.assumptions = {"the client ends the process by design when the server answers one of its outstanding calls with an error or a response that does not parse; such answers are not generated",
                     "a channel is destroyed in its loop's thread after its connection was reported down",
                     "every service method runs done exactly once and deletes the request"};
  pbt::SuiteOpt o;
  o.quick = 40000;
  pbt::suite("client", "calls against a server played by the harness, on a virtual clock", o, client_case);
  o.quick = 40000;
  pbt::suite("server", "requests of a client played by the harness, on a virtual clock", o, server_case);
  o.quick = 2000;
  pbt::suite("leaks", "memory after many requests of one kind", o, leaks_case);
  o.quick = 3000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "an RPC server with worker loops and clients used by several threads", o, threads_case);
  o.quick = 1500;
  pbt::suite("races", "the same, observed by ThreadSanitizer", o, threads_case);
  return pbt::run(argc, argv, cfg);
}
