// C17: summary quantiles forget observations within the time window
//@ sources core/
//@ bounds every clock history of 3 (thorough 4) steps (observe or collect), each after an arbitrary time of 0..2.5 max_age (nanoseconds); max_age 1 s (thorough also 1 ms and 10 s), age_buckets 1..3, and the default window; idle times of 10..2000 rotation intervals; 3 distinct values in any order
//@ assume the steady clock never goes back; max_age > 0, age_buckets > 0
//@ entry c17_history1 q:secs=300 reach=visible,expired,done
//@ entry c17_history2 q:secs=300 reach=visible,expired,done
//@ entry c17_history3 q:secs=300 reach=visible,expired,done
//@ entry c17_default q:secs=300 reach=visible,expired,done
//@ entry c17_idle reach=done
//@ entry c17_dense q:secs=300 reach=done
#include "prometheus/summary.h"
#include "vp.h"
using namespace prometheus;
static int64_t now_ns;
static int64_t clk() { return now_ns; }
struct Obs { double v; int64_t t; };
static Summary::Quantiles Q() { return Summary::Quantiles{{1.0, 0.01}, {0.0, 0.01}}; }
// the quantiles must be those of some suffix of the observations that contains
// everything younger than the lower limit and nothing older than the upper one
static void check(Summary& s, const std::vector<Obs>& o, int64_t age, int buckets) {
  auto m = s.Collect();
  double sum = 0;
  for (auto& x : o) sum += x.v;
  VP_CHECK(m.summary.sample_count == o.size() && m.summary.sample_sum == sum, "count and sum are never forgotten");
  VP_CHECK(m.summary.quantile.size() == 2, "one value per quantile");
  double hi = m.summary.quantile[0].value, lo = m.summary.quantile[1].value;
  int64_t keep = age / buckets * (buckets - 1), slack = buckets;
  int ok = 0;
  for (size_t k = 0; k <= o.size(); k++) {   // the suffix o[k..]
    int allowed = 1;
    for (size_t i = 0; i < o.size(); i++) {
      int64_t a = now_ns - o[i].t;
      if (i < k) allowed &= a > keep - slack;          // forgotten: old enough
      else allowed &= a <= age + slack;                // still seen: young enough
    }
    double mx = 0, mn = 0;
    for (size_t i = k; i < o.size(); i++) { if (i == k || o[i].v > mx) mx = o[i].v; if (i == k || o[i].v < mn) mn = o[i].v; }
    int match = k == o.size() ? (hi != hi) & (lo != lo) : (hi == mx) & (lo == mn);
    ok |= allowed & match;
  }
  VP_ASSERT(ok, "an observation is seen for at least max_age*(1-1/age_buckets) and at most max_age");
  if (!o.empty()) { if (hi == hi) vp_reach("visible"); else vp_reach("expired"); }
}
static const double V[] = {5, 3, 8};
static void step(Summary& s, std::vector<Obs>& o, int64_t age, int buckets, bool last, unsigned order) {
  int64_t d = vp::sym_i64("elapsed");
  vp_assume((d >= 0) & (d <= age * 5 / 2));
  now_ns += d;
  if (!last && vp_choose(2, "op")) {
    double v = V[(o.size() + order) % 3];
    s.Observe(v);
    o.push_back(Obs{v, now_ns});
  } else check(s, o, age, buckets);
}
static void history(int buckets) {
  now_ns = 1000000000; vp_steady_hook = clk;
  static const int64_t ms[] = {1000, 1, 10000};
  unsigned w = vp_choose(VP_TIER(1, 3), "age");
  int64_t age = ms[w] * 1000000;
  Summary s{Q(), std::chrono::milliseconds(ms[w]), buckets};
  std::vector<Obs> o;
  unsigned n = VP_TIER(3, 4), order = vp_choose(buckets == 3 ? VP_TIER(1, 3) : 3, "order");
  for (unsigned i = 0; i < n; i++) step(s, o, age, buckets, i + 1 == n, order);
  vp_reach("done");
}
extern "C" void c17_history1() { history(1); }
extern "C" void c17_history2() { history(2); }
extern "C" void c17_history3() { history(3); }
// the default window: 60 s in 5 buckets
extern "C" void c17_default() {
  now_ns = 5; vp_steady_hook = clk;
  Summary s{Q()};
  std::vector<Obs> o;
  unsigned n = VP_TIER(2, 3), order = vp_choose(3, "order");
  for (unsigned i = 0; i < n; i++) step(s, o, 60000000000LL, 5, i + 1 == n, order);
  vp_reach("done");
}
// long idle times forget everything, and the summary works on
extern "C" void c17_idle() {
  now_ns = 1000000000; vp_steady_hook = clk;
  int buckets = 1 + (int)vp_choose(4, "buckets");
  int64_t age = 1000000000, in = age / buckets;
  Summary s{Q(), std::chrono::milliseconds(1000), buckets};
  std::vector<Obs> o;
  static const int64_t many[] = {10, 37, 256, 2000};
  if (vp_choose(2, "before")) { s.Observe(5); o.push_back(Obs{5, now_ns}); }
  int64_t r = vp::sym_i64("rest");
  vp_assume((r >= 0) & (r <= in));
  now_ns += many[vp_choose(4, "idle")] * in + r;
  if (vp_choose(2, "look")) check(s, o, age, buckets);
  s.Observe(3); o.push_back(Obs{3, now_ns});
  int64_t d = vp::sym_i64("elapsed");
  vp_assume((d >= 0) & (d <= 2 * age));
  now_ns += d;
  check(s, o, age, buckets);
  vp_reach("done");
}
// regular observations: every one is seen exactly as long as promised
extern "C" void c17_dense() {
  now_ns = 1000000000; vp_steady_hook = clk;
  int buckets = 2 + (int)vp_choose(2, "buckets");
  int64_t age = 1000000000;
  Summary s{Q(), std::chrono::milliseconds(1000), buckets};
  std::vector<Obs> o;
  int64_t d = vp::sym_i64("period");
  vp_assume((d >= age / 8) & (d <= age));
  unsigned n = VP_TIER(6, 9), dir = vp_choose(3, "dir");
  for (unsigned i = 0; i < n; i++) {
    double v = (dir == 2 ? i % 2 : dir) ? 100 + i : 100 - (double)i;
    s.Observe(v); o.push_back(Obs{v, now_ns});
    now_ns += d;
  }
  check(s, o, age, buckets);
  vp_reach("done");
}
