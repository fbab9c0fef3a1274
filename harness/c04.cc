// C04: histogram bulk update, reset and construction are exact
//@ sources core/
//@ bounds up to 2 (thorough 3) bounds; increments 0..255, also times 2^28 (thorough and 2^44); bulk updates mixed with up to 1 (thorough 2) single observations; increment lists of length 0..bounds+3; construction: every list of up to 4 (thorough 5) doubles; also 20 fixed bounds: bulk updates of arbitrary increments, lists of 0..40 increments, construction with one arbitrary bound
//@ assume bounds are not NaN, observed values are not NaN, increments are whole and non-negative
//@ entry c04_bulk reach=done
//@ entry c04_equiv reach=done
//@ entry c04_refuse reach=refused
//@ entry c04_reset reach=done
//@ entry c04_construct reach=accepted,refused
//@ entry c04_large reach=bulk,refused,accepted
#include "prometheus/histogram.h"
#include "vp.h"
#include <limits>
#include <stdexcept>
using namespace prometheus;
static const int MAXB = VP_TIER(2, 3);
static Histogram::BucketBoundaries sym_bounds(unsigned n) {
  Histogram::BucketBoundaries b;
  for (unsigned i = 0; i < n; i++) {
    double d = vp::sym_double("bound");
    vp_assume(d == d);
    if (i) vp_assume(b[i - 1] < d);
    b.push_back(d);
  }
  return b;
}
static void same(const ClientMetric& a, const ClientMetric& b, const char* msg) {
  VP_CHECK(a.histogram.bucket.size() == b.histogram.bucket.size(), msg);
  VP_ASSERT(a.histogram.sample_count == b.histogram.sample_count, msg);
  VP_ASSERT(vp::same_value(a.histogram.sample_sum, b.histogram.sample_sum), msg);
  for (size_t i = 0; i < a.histogram.bucket.size(); i++) {
    VP_ASSERT(vp::same_value(a.histogram.bucket[i].upper_bound, b.histogram.bucket[i].upper_bound), msg);
    VP_ASSERT(a.histogram.bucket[i].cumulative_count == b.histogram.bucket[i].cumulative_count, msg);
  }
}
static double obs(Histogram& h, const Histogram::BucketBoundaries& b, uint64_t* cnt) {
  double v = vp::sym_double("value"); vp_assume(v == v);
  h.Observe(v);
  int below = 1;
  for (size_t i = 0; i <= b.size(); i++) { int in = i == b.size() ? 1 : (int)(v <= b[i]); cnt[i] += (uint64_t)(in & below); below &= !in; }
  return v;
}
// counts and sum after bulk updates mixed with single observations
extern "C" void c04_bulk() {
  unsigned nb = vp_choose(MAXB + 1, "nbounds");
  auto b = sym_bounds(nb);
  Histogram h{b};
  uint64_t cnt[8] = {}; double sum = 0;
  unsigned pre = vp_choose(2, "before"), bulks = 1 + vp_choose(VP_TIER(1, 2), "bulks"), post = VP_TIER(0, vp_choose(2, "after"));
  static const unsigned scales[] = {0, 28, 44};
  unsigned scale = scales[vp_choose(VP_TIER(2, 3), "scale")];   // also counts far above 2^32
  for (unsigned i = 0; i < pre; i++) sum += obs(h, b, cnt);
  for (unsigned k = 0; k < bulks; k++) {
    std::vector<double> inc;
    for (unsigned i = 0; i <= nb; i++) { uint64_t x = vp_sym("inc", 8) << scale; inc.push_back((double)x); cnt[i] += x; }
    double s = vp::sym_double("sum");
    h.ObserveMultiple(inc, s); sum += s;
  }
  for (unsigned i = 0; i < post; i++) sum += obs(h, b, cnt);
  ClientMetric m = h.Collect();
  VP_CHECK(m.histogram.bucket.size() == nb + 1, "one bucket per bound plus +Inf");
  uint64_t c = 0;
  for (unsigned i = 0; i <= nb; i++) {
    c += cnt[i];
    VP_ASSERT(m.histogram.bucket[i].cumulative_count == c, "a bulk update adds exactly the given increments to each bucket");
    vp_out(m.histogram.bucket[i].cumulative_count);
  }
  VP_ASSERT(m.histogram.sample_count == c, "a bulk update adds exactly the given number of observations");
  VP_ASSERT(vp::same_value(m.histogram.sample_sum, sum), "a bulk update adds exactly the given sum");
  vp::out_double(m.histogram.sample_sum);
  vp_reach("done");
}
// a bulk update equals the single observations it stands for
extern "C" void c04_equiv() {
  unsigned nb = vp_choose(MAXB + 1, "nbounds");
  auto b = sym_bounds(nb);
  Histogram h1{b}, h2{b};
  std::vector<double> inc(nb + 1, 0.0);
  unsigned n = vp_choose(VP_TIER(3, 4), "nvalues");
  double sum = 0;
  for (unsigned i = 0; i < n; i++) {
    uint64_t cnt[8] = {};
    double v = obs(h1, b, cnt);
    sum += v;
    for (unsigned k = 0; k <= nb; k++) inc[k] += (double)cnt[k];
  }
  h2.ObserveMultiple(inc, sum);
  same(h1.Collect(), h2.Collect(), "a bulk update equals the observations it stands for");
  vp_reach("done");
}
extern "C" void c04_refuse() {
  unsigned nb = vp_choose(MAXB + 1, "nbounds"), n = vp_choose(nb + 4, "nincs");
  vp_assume(n != nb + 1);
  auto b = sym_bounds(nb);
  Histogram h{b};
  uint64_t cnt[8] = {};
  if (vp_choose(2, "before")) obs(h, b, cnt);
  ClientMetric m = h.Collect();
  std::vector<double> inc;
  for (unsigned i = 0; i < n; i++) inc.push_back((double)vp_sym("inc", 8));
  bool threw = false;
  try { h.ObserveMultiple(inc, vp::sym_double("sum")); } catch (const std::exception&) { threw = true; }
  VP_CHECK(threw, "a bulk update of the wrong size is refused");
  same(m, h.Collect(), "a refused bulk update has no effect");
  // and the histogram still works
  inc.assign(nb + 1, 1.0);
  h.ObserveMultiple(inc, 0.0);
  VP_ASSERT(h.Collect().histogram.sample_count == m.histogram.sample_count + nb + 1, "the histogram works after a refused update");
  vp_reach("refused");
}
extern "C" void c04_reset() {
  unsigned nb = vp_choose(MAXB + 1, "nbounds");
  auto b = sym_bounds(nb);
  Histogram h{b}, fresh{b};
  uint64_t cnt[8] = {};
  unsigned n = vp_choose(3, "nvalues");
  for (unsigned i = 0; i < n; i++) obs(h, b, cnt);
  if (vp_choose(2, "bulk")) { std::vector<double> inc; for (unsigned i = 0; i <= nb; i++) inc.push_back((double)vp_sym("inc", 8)); h.ObserveMultiple(inc, vp::sym_double("sum")); }
  h.Reset();
  same(h.Collect(), fresh.Collect(), "reset returns the histogram to its fresh state");
  double v = vp::sym_double("value"); vp_assume(v == v);
  h.Observe(v); fresh.Observe(v);
  same(h.Collect(), fresh.Collect(), "a reset histogram behaves like a fresh one");
  vp_reach("done");
}
extern "C" void c04_construct() {
  unsigned nb = vp_choose(VP_TIER(5, 6), "nbounds"), how = vp_choose(2, "overload");
  Histogram::BucketBoundaries b;
  int ok = 1;
  for (unsigned i = 0; i < nb; i++) {
    double d = vp::sym_double("bound"); vp_assume(d == d);
    if (i) ok &= b[i - 1] < d;
    b.push_back(d);
  }
  bool threw = false;
  try {
    if (how == 0) { Histogram h{b}; ClientMetric m = h.Collect(); VP_CHECK(m.histogram.bucket.size() == nb + 1, "fresh histogram has its buckets"); VP_ASSERT(m.histogram.sample_count == 0, "fresh histogram is empty");
      for (unsigned i = 0; i < nb; i++) VP_ASSERT(m.histogram.bucket[i].upper_bound == b[i], "bounds are the given ones"); }
    else { Histogram::BucketBoundaries c = b; Histogram h{std::move(c)}; ClientMetric m = h.Collect(); VP_CHECK(m.histogram.bucket.size() == nb + 1, "fresh histogram has its buckets");
      for (unsigned i = 0; i < nb; i++) VP_ASSERT(m.histogram.bucket[i].upper_bound == b[i], "bounds are the given ones"); }
  } catch (const std::exception&) { threw = true; }
  if (threw) { VP_ASSERT(!ok, "a strictly increasing bound list is accepted"); vp_reach("refused"); }
  else { VP_ASSERT(ok, "any other bound list is refused"); vp_reach("accepted"); }
}
// many bounds
extern "C" void c04_large() {
  const unsigned nb = 20;
  Histogram::BucketBoundaries b;
  for (unsigned i = 0; i < nb; i++) b.push_back(i * 1.5);
  unsigned what = vp_choose(3, "what");
  if (what == 2) {   // any one of the bounds arbitrary
    unsigned k = vp_choose(nb, "which");
    double d = vp::sym_double("bound"); vp_assume(d == d);
    b[k] = d;
    int ok = (k == 0 || b[k - 1] < d) & (k + 1 == nb || d < b[k + 1]);
    bool threw = false;
    try { Histogram h{b}; } catch (const std::exception&) { threw = true; }
    if (threw) { VP_ASSERT(!ok, "a strictly increasing bound list is accepted"); vp_reach("refused"); }
    else { VP_ASSERT(ok, "any other bound list is refused"); vp_reach("accepted"); }
    return;
  }
  Histogram h{b};
  uint64_t cnt[nb + 1] = {}; double sum = 0;
  for (unsigned r = 0; r < 3; r++) {
    std::vector<double> inc;
    for (unsigned i = 0; i <= nb; i++) { uint64_t x = (i + r) % 4 == 0 ? vp_sym("inc", 8) : (i * r) % 5; inc.push_back((double)x); cnt[i] += x; }
    double s = vp::sym_double("sum");
    h.ObserveMultiple(inc, s); sum += s;
    double v = r * 12.0 + 1; h.Observe(v); cnt[8 * r + 1]++; sum += v;
  }
  if (what == 1) {
    unsigned n = vp_choose(41, "nincs"); vp_assume(n != nb + 1);
    std::vector<double> inc(n, 1.0);
    bool threw = false;
    try { h.ObserveMultiple(inc, 7.0); } catch (const std::exception&) { threw = true; }
    VP_CHECK(threw, "a bulk update of the wrong size is refused");
    vp_reach("refused");
  }
  ClientMetric m = h.Collect();
  VP_CHECK(m.histogram.bucket.size() == nb + 1, "one bucket per bound plus +Inf");
  uint64_t c = 0;
  for (unsigned i = 0; i <= nb; i++) { c += cnt[i]; VP_ASSERT(m.histogram.bucket[i].cumulative_count == c, "a bulk update adds exactly the given increments to each bucket"); }
  VP_ASSERT(m.histogram.sample_count == c, "a bulk update adds exactly the given number of observations");
  VP_ASSERT(vp::same_value(m.histogram.sample_sum, sum), "a bulk update adds exactly the given sum");
  h.Reset();
  same(h.Collect(), Histogram{b}.Collect(), "reset returns the histogram to its fresh state");
  vp_reach("bulk");
}
