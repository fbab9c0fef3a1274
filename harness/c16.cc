// C16: summary count, sum and quantiles are faithful
//@ sources core/
//@ bounds up to 4 (thorough 5) observations of arbitrary non-NaN doubles in every order with a collection after any of them, for 8 quantile configurations (0 and 1, unsorted, repeated, tight and wide errors); streams of 12 observations in 6 patterns with 2 arbitrary values among them, and of 30 (thorough 48 and 80) with 1; 1010 (thorough 1510) observations (more than two internal batches) with 1 arbitrary value from 3 ranges
//@ assume observations are not NaN; quantiles in [0,1], errors in (0,1)
//@ entry c16_small forkcmp=1 q:secs=300 reach=collected,done
//@ entry c16_empty reach=done
//@ entry c16_stream forkcmp=1 q:secs=300 reach=done
//@ entry c16_long forkcmp=1 q:secs=300 reach=done
//@ entry c16_batch forkcmp=1 q:secs=300 reach=done
//@ entry c16_sum reach=done
#include "prometheus/summary.h"
#include "vp.h"
#include <algorithm>
using namespace prometheus;
typedef Summary::Quantiles Q;
struct Cfg { double q, e; };
static const unsigned NCFG = 8;
static std::vector<Cfg> cfg(unsigned i) {
  switch (i) {
    case 0: return {{0.5, 0.05}, {0.9, 0.01}, {0.99, 0.001}};
    case 1: return {{0.5, 0.2}};
    case 2: return {{1.0, 0.1}, {0.0, 0.1}};
    case 3: return {{0.9, 0.3}, {0.25, 0.1}, {0.9, 0.3}};
    case 4: return {{0.95, 0.005}};
    case 5: return {{0.1, 0.4}, {0.6, 0.02}};
    case 6: return {{0.0, 0.001}, {0.5, 0.49}, {1.0, 0.001}};
    default: return {{0.75, 0.1}, {0.3, 0.0}};
  }
}
static Q quantiles(const std::vector<Cfg>& c) { Q q; for (auto& x : c) q.push_back({x.q, x.e}); return q; }
static void check(const ClientMetric& m, const std::vector<Cfg>& c, const std::vector<double>& v, bool window_empty) {
  VP_CHECK(m.summary.sample_count == v.size(), "the count is the number of observations");
  VP_CHECK(m.summary.quantile.size() == c.size(), "one value per configured quantile");
  size_t n = v.size();
  for (size_t i = 0; i < c.size(); i++) {
    VP_CHECK(m.summary.quantile[i].quantile == c[i].q, "quantiles are reported in the configured order");
    double r = m.summary.quantile[i].value;
    if (window_empty) { VP_CHECK(r != r, "without observations in the window a quantile is NaN"); continue; }
    uint64_t lt = 0, le = 0;
    for (double d : v) { lt += d < r; le += d <= r; }
    VP_ASSERT(le != lt, "a quantile is one of the observed values");
    // its ranks among the observations are lt+1 .. le
    double want = c[i].q * (double)n, tol = c[i].e * (double)n + 1;
    int ok = 0;
    for (uint64_t k = 1; k <= n; k++) {   // is rank k one of them and close enough?
      double dist = (double)k > want ? (double)k - want : want - (double)k;
      if (dist <= tol) ok |= (lt < k) & (k <= le);
    }
    VP_ASSERT(ok, "the rank of a quantile is within the configured error");
  }
}
static double value(const char* n) { double d = vp::sym_double(n); vp_assume(d == d); return d; }
extern "C" void c16_small() {
  auto c = cfg(vp_choose(NCFG, "cfg"));
  Summary s{quantiles(c)};
  unsigned n = 1 + vp_choose(VP_TIER(4, 5), "n");
  std::vector<double> v;
  for (unsigned i = 0; i < n; i++) {
    v.push_back(value("v"));
    s.Observe(v.back());
    if (i + 1 < n && vp_choose(2, "collect")) { check(s.Collect(), c, v, false); vp_reach("collected"); }
  }
  check(s.Collect(), c, v, false);
  check(s.Collect(), c, v, false);
  vp_out(n); vp_reach("done");
}
extern "C" void c16_empty() {
  auto c = cfg(vp_choose(NCFG, "cfg"));
  Summary s{quantiles(c)};
  check(s.Collect(), c, {}, true);
  s.Observe(3);
  check(s.Collect(), c, {3}, false);
  Summary none{Q{}};
  double x = value("x");
  none.Observe(x); none.Observe(1);
  auto m = none.Collect();
  VP_CHECK(m.summary.quantile.empty() && m.summary.sample_count == 2, "a summary without quantiles reports count and sum");
  VP_CHECK(vp::same_value(m.summary.sample_sum, (0.0 + x) + 1), "the sum is the sum of the observed values");
  vp_reach("done");
}
extern "C" void c16_sum() {
  Summary s{Q{{0.5, 0.1}}};
  double w = 0;
  unsigned n = 1 + vp_choose(3, "n");
  for (unsigned i = 0; i < n; i++) { double d = vp::sym_double("v"); s.Observe(d); w += d; if (vp_choose(2, "collect")) VP_CHECK(vp::same_value(s.Collect().summary.sample_sum, w), "the sum is the sum of the observed values"); }
  auto m = s.Collect();
  VP_CHECK(vp::same_value(m.summary.sample_sum, w), "the sum is the sum of the observed values");
  VP_CHECK(m.summary.sample_count == n, "the count is the number of observations");
  vp_reach("done");
}
static double pattern(unsigned p, unsigned i, unsigned n) {
  switch (p) {
    case 0: return i;
    case 1: return n - i;
    case 2: return (i * 7) % n;
    case 3: return i % 3;
    case 4: return i % 2 ? i : 2.0 * n - i;
    default: return (i * i) % 31;
  }
}
static void stream(unsigned n, unsigned every, unsigned nsym, unsigned ci, unsigned p, bool narrow) {
  auto c = cfg(ci);
  Summary s{quantiles(c)};
  std::vector<double> v;
  unsigned at[2] = {vp_choose(2, "at") * n / 2 + n / 6, n - 1};
  for (unsigned i = 0; i < n; i++) {
    double d = pattern(p, i, n);
    for (unsigned k = 0; k < nsym; k++) if (i == at[k]) {
      d = value("v");
      if (narrow) vp_assume((d < 1) | (d > n - 1.0) | ((d > n / 2 - 1.0) & (d < n / 2 + 1.0)));
    }
    v.push_back(d);
    s.Observe(d);
    if (every && i % every == every - 1) check(s.Collect(), c, v, false);
  }
  check(s.Collect(), c, v, false);
  vp_out(n); vp_reach("done");
}
// all configurations; quick: patterns and collection rhythms paired with them
extern "C" void c16_stream() {
  static const unsigned every[] = {0, 1, 5, 3};
  unsigned c = vp_choose(NCFG, "cfg"), k = vp_choose(VP_TIER(3, 6), "pattern");
  stream(12, every[VP_TIER((c + k) % 3, vp_choose(3, "every"))], 2, c, (c / 2 + k * VP_TIER(2, 1)) % 6, false);
}
extern "C" void c16_long() {
  static const unsigned every[] = {0, 1, 5, 3};
  unsigned c = vp_choose(NCFG, "cfg"), k = vp_choose(6, "pattern"), n = VP_TIER(30, vp_choose(2, "len") ? 80 : 48);
  stream(n, every[VP_TIER((c + k) % 4, vp_choose(4, "every"))], 1, c, k, false);
}
// more than two internal batches
extern "C" void c16_batch() {
  unsigned c = vp_choose(NCFG, "cfg"), k = vp_choose(VP_TIER(1, 6), "pattern");
  stream(VP_TIER(1010, 1510), (c + c / 6 + k) % 2 ? 333 : 0, 1, c, VP_TIER(c % 6, k), true);
}
