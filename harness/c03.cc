// C03: every observation is counted in exactly the right buckets
//@ sources core/
//@ bounds quick: up to 3 bounds, up to 2 observations; thorough: up to 4 bounds, up to 3 observations; every double otherwise symbolic; also 17, 24, 40 and 70 (thorough 130) fixed bounds of three shapes with 60 (thorough 600) fixed and 1 (thorough 2) arbitrary observations
//@ assume bounds are finite and strictly increasing; observed values are not NaN
//@ entry c03_observe reach=observed,nobounds
//@ entry c03_large reach=done
#include "prometheus/histogram.h"
#include "vp.h"
#include <cmath>
#include <limits>
using namespace prometheus;

static const int MAXB = VP_TIER(3, 4), MAXV = VP_TIER(2, 3);

static Histogram::BucketBoundaries sym_bounds(unsigned n) {
  Histogram::BucketBoundaries b;
  for (unsigned i = 0; i < n; i++) {
    double d = vp::sym_double("bound");
    vp_assume(vp::finite(d));
    if (i) vp_assume(b[i - 1] < d);
    b.push_back(d);
  }
  return b;
}

extern "C" void c03_observe() {
  unsigned nb = vp_choose(MAXB + 1, "nbounds");
  auto bounds = sym_bounds(nb);
  Histogram h{bounds};
  unsigned nv = vp_choose(MAXV + 1, "nvalues");
  double v[MAXV + 1];
  double sum = 0;
  for (unsigned i = 0; i < nv; i++) {
    v[i] = vp::sym_double("value");
    vp_assume(v[i] == v[i]);
    h.Observe(v[i]);
    sum += v[i];
  }
  ClientMetric m = h.Collect();
  ClientMetric m2 = h.Collect();
  auto& H = m.histogram;
  VP_CHECK(H.bucket.size() == nb + 1, "one bucket per bound plus +Inf");
  VP_CHECK(m2.histogram.bucket.size() == nb + 1, "collecting changes nothing");
  VP_ASSERT(H.sample_count == nv, "count is the number of observations");
  VP_ASSERT(vp::same_value(H.sample_sum, sum), "sum is the sum of the observed values");
  VP_ASSERT(vp::same_value(m2.histogram.sample_sum, sum), "collecting does not change the sum");
  for (unsigned b = 0; b <= nb; b++) {
    double ub = b < nb ? bounds[b] : std::numeric_limits<double>::infinity();
    VP_ASSERT(H.bucket[b].upper_bound == ub, "bucket bound is the configured one");
    uint64_t want = 0;
    for (unsigned i = 0; i < nv; i++) want += (uint64_t)(v[i] <= ub);
    VP_ASSERT(H.bucket[b].cumulative_count == want, "cumulative count is the number of values <= bound");
    VP_ASSERT(m2.histogram.bucket[b].cumulative_count == want, "collecting does not change the buckets");
    vp_out(H.bucket[b].cumulative_count);
  }
  vp::out_double(H.sample_sum);
  if (nb == 0) vp_reach("nobounds");
  if (nv > 0 && nb > 0) vp_reach("observed");
}
// many bounds, many observations
extern "C" void c03_large() {
  static const unsigned sizes[] = {17, 24, 40, 70, 130};
  unsigned nb = sizes[vp_choose(VP_TIER(4, 5), "nbounds")], shape = vp_choose(3, "shape"), n = VP_TIER(60, 600);
  Histogram::BucketBoundaries bounds;
  double power = 1e-6;
  for (unsigned i = 0; i < nb; i++, power *= 2) bounds.push_back(shape == 0 ? i * 0.25 : shape == 1 ? (double)i * i - 100 : power);
  Histogram h{bounds};
  std::vector<double> v; double sum = 0;
  unsigned at[2] = {vp_choose(2, "at") ? n - 1 : n / 3, VP_TIER(n, n / 2)};
  for (unsigned i = 0; i < n; i++) {
    double x = i % 5 == 4 ? bounds[i % nb] : (double)((i * 37) % 101) - 20.5;
    if (i == at[0] || i == at[1]) { x = vp::sym_double("value"); vp_assume(x == x); }
    h.Observe(x); v.push_back(x); sum += x;
  }
  auto m = h.Collect();
  auto& H = m.histogram;
  VP_CHECK(H.bucket.size() == nb + 1, "one bucket per bound plus +Inf");
  VP_ASSERT(H.sample_count == n, "count is the number of observations");
  VP_ASSERT(vp::same_value(H.sample_sum, sum), "sum is the sum of the observed values");
  for (unsigned b = 0; b <= nb; b++) {
    double ub = b < nb ? bounds[b] : std::numeric_limits<double>::infinity();
    VP_ASSERT(H.bucket[b].upper_bound == ub, "bucket bound is the configured one");
    uint64_t want = 0;
    for (double x : v) want += (uint64_t)(x <= ub);
    VP_ASSERT(H.bucket[b].cumulative_count == want, "cumulative count is the number of values <= bound");
    vp_out(H.bucket[b].cumulative_count);
  }
  vp_reach("done");
}
