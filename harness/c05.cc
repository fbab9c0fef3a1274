// C05: a counter never goes down and counts exactly
//@ sources core/
//@ bounds every sequence of up to 3 (thorough 4) increments and resets, every amount; also 200 (thorough 2000) fixed operations with 2 arbitrary amounts among them
//@ assume amounts are not NaN
//@ entry c05_sequence reach=neg,reset,done
//@ entry c05_long reach=done
#include "prometheus/counter.h"
#include "vp.h"
using namespace prometheus;
extern "C" void c05_sequence() {
  Counter c;
  double want = 0;
  VP_ASSERT(c.Value() == 0, "a counter starts at 0");
  unsigned n = vp_choose(VP_TIER(4, 5), "nops");
  for (unsigned i = 0; i < n; i++) {
    double before = c.Value();
    unsigned op = vp_choose(3, "op");
    if (op == 0) { c.Increment(); want += 1; }
    else if (op == 1) {
      double d = vp::sym_double("amount"); vp_assume(d == d);
      c.Increment(d);
      if (vp_decide(d < 0)) { vp_reach("neg"); VP_ASSERT(vp::same_value(c.Value(), before), "a negative amount leaves the counter unchanged"); }
      else { want += d; }
    } else { c.Reset(); want = 0; vp_reach("reset"); VP_ASSERT(c.Value() == 0, "reset returns the counter to 0"); }
    if (op != 2) VP_ASSERT(c.Value() >= before, "between resets the counter never decreases");
    VP_ASSERT(vp::same_value(c.Value(), want), "an increment adds exactly the given amount");
    ClientMetric m = c.Collect();
    VP_ASSERT(vp::same_value(m.counter.value, want), "collecting reports the current value");
    VP_ASSERT(vp::same_value(c.Value(), want), "collecting does not change the counter");
  }
  vp::out_double(c.Value());
  vp_reach("done");
}
// a long history
extern "C" void c05_long() {
  Counter c;
  double want = 0;
  unsigned n = VP_TIER(200, 2000), style = vp_choose(3, "style"), at = vp_choose(3, "at") * n / 3 + n / 7;
  for (unsigned i = 0; i < n; i++) {
    if (i == at || i == n - 2) {
      double d = vp::sym_double("amount"); vp_assume(d == d);
      c.Increment(d);
      if (!vp_decide(d < 0)) want += d;
    } else if (style == 0) { c.Increment(); want += 1; }
    else if (style == 1) { double d = i % 3 == 2 ? -1.0 * i : i * 0.125; c.Increment(d); if (d >= 0) want += d; }
    else { double d = i % 4 ? 1e-3 * i : 1e12; c.Increment(d); want += d; if (i % 61 == 60) { c.Reset(); want = 0; } }
    if (i % 16 == 0 || i == at) VP_ASSERT(vp::same_value(c.Value(), want), "an increment adds exactly the given amount");
  }
  VP_ASSERT(vp::same_value(c.Collect().counter.value, want), "collecting reports the current value");
  vp_reach("done");
}
