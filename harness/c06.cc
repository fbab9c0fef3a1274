// C06: gauge arithmetic is exact under any sequence of operations
//@ sources core/
//@ bounds every sequence of up to 3 (thorough 4) operations, every double, every time of the system clock up to 2^33 seconds; also 200 (thorough 2000) fixed operations with 2 arbitrary ones among them
//@ entry c06_sequence reach=set,time,done
//@ entry c06_long reach=done
#include "prometheus/gauge.h"
#include "vp.h"
using namespace prometheus;
static int64_t now_s;
static int64_t timefn() { return now_s; }
static int64_t sysclock() { return now_s * 1000000000LL + 999999999LL; }
extern "C" void c06_sequence() {
  double want = 0;
  bool init = vp_choose(2, "init");
  if (init) want = vp::sym_double("initial");
  Gauge dflt, other{want};
  Gauge& g = init ? other : dflt;
  vp_system_hook = sysclock; vp_time_hook = timefn;
  unsigned n = vp_choose(VP_TIER(4, 5), "nops");
  VP_ASSERT(vp::same_value(g.Value(), want), "a gauge starts at its initial value");
  for (unsigned i = 0; i < n; i++) {
    unsigned op = vp_choose(6, "op");
    double d = op < 3 ? vp::sym_double("amount") : 0;
    if (op == 0) { g.Set(d); want = d; vp_reach("set"); }
    else if (op == 1) { g.Increment(d); want = want + d; }
    else if (op == 2) { g.Decrement(d); want = want - d; }
    else if (op == 3) { g.Increment(); want = want + 1; }
    else if (op == 4) { g.Decrement(); want = want - 1; }
    else { now_s = vp_sym("now", 33); g.SetToCurrentTime(); want = (double)now_s; vp_reach("time"); }
    VP_ASSERT(vp::same_value(g.Value(), want), "the gauge holds the result of the operations in order");
  }
  ClientMetric m = g.Collect();
  VP_ASSERT(vp::same_value(m.gauge.value, want), "collecting reports the current value");
  VP_ASSERT(vp::same_value(g.Value(), want), "collecting does not change the gauge");
  vp::out_double(m.gauge.value);
  vp_reach("done");
}
// a long history
extern "C" void c06_long() {
  double want = 0;
  Gauge g;
  vp_system_hook = sysclock; vp_time_hook = timefn;
  unsigned n = VP_TIER(200, 2000), style = vp_choose(3, "style"), at = vp_choose(3, "at") * n / 3 + n / 7;
  for (unsigned i = 0; i < n; i++) {
    double d = i == at || i == n - 2 ? vp::sym_double("amount") : (style == 0 ? 1.0 : style == 1 ? (i % 7) * 0.1 - 0.3 : i % 5 ? 1e-9 : -1e9);
    switch (i % (style + 3)) {
      case 0: g.Increment(d); want += d; break;
      case 1: g.Decrement(d); want -= d; break;
      case 2: if (i == at || d == 1) { g.Increment(d); want += d; } else { g.Increment(); want += 1; } break;
      case 3: g.Decrement(); want -= 1; break;
      default: if (i % 43 == 4) { g.Set(d); want = d; } else { now_s = 1500000000 + i; if (i % 29 == 9) { g.SetToCurrentTime(); want = (double)now_s; } }
    }
    if (i % 16 == 0 || i == at) VP_ASSERT(vp::same_value(g.Value(), want), "the gauge holds the result of the operations in order");
  }
  VP_ASSERT(vp::same_value(g.Collect().gauge.value, want), "collecting reports the current value");
  vp_reach("done");
}
