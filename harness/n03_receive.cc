// N03: received bytes reach the message callback once, in order, none withheld.
#include "connkit.h"
using namespace ck;

static void run_case(Gen &g, bool tcp)
{
  Conn c(g, W_READ);
  configure(c);
  c.tcp = tcp;
  c.faults = g.chance(1, 2);
  c.wcc_set = g.chance(1, 4);
  c.no_message_cb = g.chance(1, 20);
  unsigned end = g.range(0, 4), pausing = g.range(0, 2);
  bool leave_paused = g.chance(1, 3);
  c.describe("receives");
  c.in_callback = [&](Conn &c, unsigned what) {
    if (what == 0 && pausing && g.chance(1, 4)) {
      if (c.paused)
        c.resume();
      else
        c.pause();
    }
    if (what != 0 && c.paused && g.chance(1, 3)) c.resume();
    if (what == 0 && g.chance(1, 10)) c.send(false);
    // the peer goes on while the callback runs
    if (what == 0 && g.chance(1, 6)) c.peer_write(1 + g.small(100000));
    if (what == 0 && !c.remaining && g.chance(1, 20)) c.peer_shutdown();
    if (what == 3 && g.chance(1, 4)) c.peer_write(1 + g.small(100000));
  };
  c.step = [&](Conn &c) {
    unsigned n = g.range(1, 4);
    while (n--) switch (g.weighted({8, 1, 1, 2, pausing})) {
        case 0: {
          size_t k = g.size(262144, {1, 65536, 65537, 65535, 1024, 1016, 131072});
          c.peer_write(k ? k : 1);
          if (k > 66000) pbt::label("burst larger than one read");
          break;
        }
        case 1: c.send(g.boolean()); break;
        case 2: c.peer_read(1 << 18); break;
        case 3: c.plan_faults(); break;
        default:
          if (c.paused)
            c.resume();
          else
            c.pause();
      }
  };
  int phase = 0;
  c.settle_op = [&](Conn &c) {
    c.peer_read(1 << 20);
    if (phase == 0 && c.up()) {
      bool all = c.consumed + c.unread == c.in_sent || c.no_message_cb;
      if (c.paused && !leave_paused) c.resume();
      if (!all && !c.paused && !c.peer_wr_closed) return;
      // the last burst is followed by the close
      phase = 1;
      if (!c.peer_wr_closed) c.peer_write(g.small(200000));
      switch (end) {
        case 0: c.peer_close(); break;
        case 1: c.peer_shutdown(); break;
        case 2:
          c.shutdown(g.boolean());
          c.peer_close();
          break;
        case 3:
          c.shutdown(g.boolean());
          c.peer_shutdown();
          break;
        default: c.peer_close();
      }
      if (c.paused) pbt::label("closed by the peer while reading is paused");
      return;
    }
    // without reading, only the end of both directions is noticed
    if (phase++ > 3 && c.paused && c.alive()) c.resume();
  };
  c.settled = [&](Conn &c) { return c.downs > 0; };
  c.stuck = [&](Conn &c) {
    if (!phase || !c.no_message_cb) PBT_CHECK(c.consumed + c.unread == c.in_sent, "%llu of %llu bytes that the peer sent are offered", (unsigned long long)(c.consumed + c.unread), (unsigned long long)c.in_sent);
    pbt::fail("the close of the peer is not noticed");
  };
  c.run((unsigned)g.range(1, 14));
  if (c.messages > 1 && c.in_sent > 100) pbt::nontrivial();
  pbt::label_if(c.messages > 3, "more than 3 arrivals");
  pbt::label_if(c.in_sent > 300000, "more than 300 kB received");
  c.finish();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N03";
  cfg.rule = "the message callback ran at least twice and more than 100 bytes were received";
  cfg.assumptions = {"EAGAIN is injected on level-triggered descriptors only: an edge-triggered descriptor that is ready gives no further event after it",
                     "a close that leaves bytes unread at the peer over TCP resets the connection; received bytes may be discarded by the kernel then and are not required"};
  pbt::SuiteOpt o;
  o.quick = 24000;
  pbt::suite("unix", "arrivals over a socket pair", o, [](Gen &g) { run_case(g, false); });
  o.quick = 9000;
  pbt::suite("tcp", "arrivals over TCP", o, [](Gen &g) { run_case(g, true); });
  return pbt::run(argc, argv, cfg);
}
