// N05: write-complete and high-water notifications match the output backlog.
#include "connkit.h"
using namespace ck;

static void run_case(Gen &g, bool tcp)
{
  Conn c(g, W_NOTE | W_SEND);
  configure(c);
  c.tcp = tcp;
  c.wcc_set = !g.chance(1, 5);
  c.hwm_set = !g.chance(1, 5);
  c.mark = g.size(120000, {1, 4096, 65536});
  c.faults = g.chance(1, 2);
  unsigned slow = g.range(0, 3), pipeline = g.range(0, 12);
  bool change = g.chance(1, 4);
  c.describe("notifications");
  c.in_callback = [&](Conn &c, unsigned what) {
    if (what == 1 && pipeline) {
      // the next part is sent in the write-complete callback
      --pipeline;
      c.send(false);
    }
    if (what == 0 && c.remaining && g.chance(1, 3)) c.send(false);
    if (what == 2 && g.chance(1, 4)) {
      c.send(false);
      if (g.boolean()) c.pause();
    }
    if (what == 1 && c.paused) c.resume();
    if (what == 3 && g.chance(1, 3)) c.send(false);
  };
  c.step = [&](Conn &c) {
    unsigned n = g.range(1, 3);
    while (n--) switch (g.weighted({6, 2, slow, 1, 2, 1})) {
        case 0: c.send(false); break;
        case 1: c.send(true); break;
        case 2: c.peer_read(1 + g.small(200000)); break;
        case 3: c.peer_write(1 + g.small(5000)); break;
        case 4: c.plan_faults(); break;
        default:
          if (change && c.hwm_set && !c.queued) {
            size_t m = g.size(120000, {1, 4096, 65536});
            NOTE("high-water mark %zu", m);
            c.set_hwm(m);
          }
      }
  };
  c.settle_op = [](Conn &c) { c.peer_read(1 << 20); };
  unsigned after = 0;
  c.settled = [&](Conn &c) {
    if (c.parser.missing() || c.queued || (c.wcc_set && c.wcc_calls < c.completions) || !c.hwm_expected.empty()) {
      after = 0;
      return false;
    }
    return ++after > 3;   // nothing more comes
  };
  c.stuck = [](Conn &c) {
    PBT_CHECK(c.parser.missing() == 0, "%zu of the bytes sent never reach the peer", c.parser.missing());
    PBT_CHECK(!c.wcc_set || c.wcc_calls == c.completions, "everything accepted was handed over %lu times, the write-complete callback ran %lu times", c.completions, c.wcc_calls);
    pbt::fail("the backlog rose over the mark to %zu, the high-water callback was not called", c.hwm_expected.front());
  };
  c.run((unsigned)g.range(1, 20));
  PBT_CHECK(!c.wcc_set || c.wcc_calls == c.completions, "everything accepted was handed over %lu times, the write-complete callback ran %lu times", c.completions, c.wcc_calls);
  if (c.hwm_seen || (c.wcc_calls && c.completions)) pbt::nontrivial();
  pbt::label_if(c.hwm_seen > 1, "several high-water notifications");
  pbt::label_if(c.wcc_calls > 3, "several write-complete notifications");
  c.finish();
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N05";
  cfg.rule = "at least one of the two callbacks ran";
  cfg.assumptions = {"EAGAIN is injected on level-triggered descriptors only", "the write-complete callback is called once for each time the output became empty, deferred to the loop's next functor phase"};
  pbt::SuiteOpt o;
  o.quick = 40000;
  pbt::suite("unix", "notifications over a socket pair", o, [](Gen &g) { run_case(g, false); });
  o.quick = 12000;
  pbt::suite("tcp", "notifications over TCP", o, [](Gen &g) { run_case(g, true); });
  return pbt::run(argc, argv, cfg);
}
