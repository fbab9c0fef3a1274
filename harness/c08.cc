// C08: a histogram snapshot is consistent under concurrency
//@ sources core/
//@ bounds all interleavings of 2 updating threads (observe, bulk update, reset; 1 operation each, thorough also 2) and one collecting thread on a histogram with 2 (bulk: 1) bounds; observed values and sums symbolic within a chosen bucket
//@ assume sequentially consistent atomics (plain accesses are checked for data races); values are not NaN
//@ entry c08_observe mt reach=done,mid
//@ entry c08_bulk mt reach=done,mid
//@ entry c08_reset mt reach=done,mid
//@ entry c08_bulk_reset mt reach=done,mid
//@ entry c08_two_collects mt reach=done,mid
//@ entry c08_two_each mt thorough reach=done
//@ entry c08_bulk_bulk mt thorough reach=done
#include "prometheus/histogram.h"
#include "vp.h"
using namespace prometheus;

struct State { uint64_t c[3]; double sum; };
struct Op { int kind; double v; unsigned bucket; double inc[3]; };   // 0 observe, 1 bulk, 2 reset
struct Ctx { Histogram* h; Op a, b, d; ClientMetric m1, m2; };
static void run(Histogram* h, const Op& o, unsigned nb) {
  if (o.kind == 0) h->Observe(o.v);
  else if (o.kind == 1) h->ObserveMultiple(std::vector<double>(o.inc, o.inc + nb + 1), o.v);
  else h->Reset();
}
static unsigned NB;
static void* ta(void* p) { Ctx* x = (Ctx*)p; run(x->h, x->a, NB); return nullptr; }
static void* tb(void* p) { Ctx* x = (Ctx*)p; run(x->h, x->b, NB); return nullptr; }
static void* tad(void* p) { Ctx* x = (Ctx*)p; run(x->h, x->a, NB); run(x->h, x->d, NB); return nullptr; }
static void* tc(void* p) { Ctx* x = (Ctx*)p; x->m1 = x->h->Collect(); return nullptr; }
static void* tcc(void* p) { Ctx* x = (Ctx*)p; x->m1 = x->h->Collect(); x->m2 = x->h->Collect(); return nullptr; }
static void apply(State& s, const Op& o) {
  if (o.kind == 0) { s.c[o.bucket]++; s.sum += o.v; }
  else if (o.kind == 1) { for (unsigned i = 0; i <= NB; i++) s.c[i] += (uint64_t)o.inc[i]; s.sum += o.v; }
  else s = State{};
}
static State st(const State& i, std::initializer_list<const Op*> ops) { State s = i; for (auto o : ops) apply(s, *o); return s; }
static int is(const ClientMetric& m, const State& s) {
  int r = 1; uint64_t c = 0;
  for (unsigned i = 0; i <= NB; i++) { c += s.c[i]; r &= m.histogram.bucket[i].cumulative_count == c; }
  r &= m.histogram.sample_count == c;
  r &= vp::same_value(m.histogram.sample_sum, s.sum) ? 1 : 0;
  return r;
}
static Op observe(unsigned bucket) {
  static const double lim[] = {-100, 1, 2, 100};
  Op o{}; o.kind = 0; o.bucket = bucket; o.v = vp::sym_double("value");
  vp_assume((o.v > lim[bucket]) & (o.v <= lim[bucket + 1]));
  if (bucket == NB) vp_assume(o.v > NB);
  return o;
}
static Op bulk(double x, double y, double z) { Op o{}; o.kind = 1; o.v = vp::sym_double("sum"); vp_assume(vp::finite(o.v)); o.inc[0] = x; o.inc[1] = y; o.inc[2] = z; return o; }
static Op reset() { Op o{}; o.kind = 2; return o; }
static Histogram::BucketBoundaries bounds(unsigned n) { NB = n; Histogram::BucketBoundaries b; for (unsigned i = 0; i < n; i++) b.push_back(i + 1); return b; }

static void two(Histogram& h, const State& init, Op a, Op b) {
  Ctx x{&h, a, b, {}, {}, {}};
  int t1 = vp_spawn(ta, &x), t2 = vp_spawn(tb, &x), t3 = vp_spawn(tc, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  VP_CHECK(x.m1.histogram.bucket.size() == NB + 1, "one bucket per bound plus +Inf");
  State s0 = init, sa = st(init, {&a}), sb = st(init, {&b}), sab = st(init, {&a, &b}), sba = st(init, {&b, &a});
  VP_ASSERT(is(x.m1, s0) | is(x.m1, sa) | is(x.m1, sb) | is(x.m1, sab) | is(x.m1, sba), "a snapshot shows the state after some whole number of operations");
  ClientMetric m = h.Collect();
  VP_ASSERT(is(m, sab) | is(m, sba), "no update is lost");
  if (vp_decide(!is(x.m1, s0) & !is(m, s0) & !is(x.m1, sab) & !is(x.m1, sba))) vp_reach("mid");
  vp_out(m.histogram.sample_count);
  vp_reach("done");
}
extern "C" void c08_observe() {
  Histogram h{bounds(2)};
  two(h, State{}, observe(0), observe(vp_choose(2, "bucket")));
}
extern "C" void c08_bulk() {
  Histogram h{bounds(1)};
  two(h, State{}, observe(1), bulk(1, 2, 0));
}
extern "C" void c08_reset() {
  Histogram h{bounds(1)};
  State s{}; Op i = observe(0); run(&h, i, NB); apply(s, i);
  two(h, s, observe(1), reset());
}
extern "C" void c08_bulk_reset() {
  Histogram h{bounds(1)};
  State s{}; Op i = observe(1); run(&h, i, NB); apply(s, i);
  two(h, s, bulk(1, 2, 0), reset());
}
extern "C" void c08_bulk_bulk() {
  Histogram h{bounds(2)};
  two(h, State{}, bulk(1, 2, 4), bulk(8, 16, 32));
}
// collections of one thread never go back
extern "C" void c08_two_collects() {
  Histogram h{bounds(1)};
  Op a = observe(0), b = observe(1);
  Ctx x{&h, a, b, {}, {}, {}};
  int t1 = vp_spawn(ta, &x), t2 = vp_spawn(tb, &x), t3 = vp_spawn(tcc, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  State s0{}, sa = st(s0, {&a}), sb = st(s0, {&b}), sab = st(s0, {&a, &b});
  VP_ASSERT(is(x.m1, s0) | is(x.m1, sa) | is(x.m1, sb) | is(x.m1, sab), "a snapshot shows the state after some whole number of operations");
  VP_ASSERT(is(x.m2, s0) | is(x.m2, sa) | is(x.m2, sb) | is(x.m2, sab), "a snapshot shows the state after some whole number of operations");
  for (unsigned i = 0; i <= NB; i++) VP_ASSERT(x.m1.histogram.bucket[i].cumulative_count <= x.m2.histogram.bucket[i].cumulative_count, "successive snapshots never go back");
  VP_ASSERT(is(h.Collect(), sab), "no update is lost");
  if (vp_decide(is(x.m1, sa) & is(x.m2, sab))) vp_reach("mid");
  vp_reach("done");
}
extern "C" void c08_two_each() {
  Histogram h{bounds(1)};
  Op a = observe(0), d = observe(0), b = observe(1);
  Ctx x{&h, a, b, d, {}, {}};
  int t1 = vp_spawn(tad, &x), t2 = vp_spawn(tb, &x), t3 = vp_spawn(tcc, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  State s0{};
  for (auto* m : {&x.m1, &x.m2})
    VP_ASSERT(is(*m, s0) | is(*m, st(s0, {&a})) | is(*m, st(s0, {&b})) | is(*m, st(s0, {&a, &b})) | is(*m, st(s0, {&b, &a})) | is(*m, st(s0, {&a, &d})) | is(*m, st(s0, {&a, &d, &b})) | is(*m, st(s0, {&a, &b, &d})) | is(*m, st(s0, {&b, &a, &d})), "a snapshot shows the state after some whole number of operations");
  ClientMetric m = h.Collect();
  VP_ASSERT(is(m, st(s0, {&a, &d, &b})) | is(m, st(s0, {&a, &b, &d})) | is(m, st(s0, {&b, &a, &d})), "no update is lost");
  vp_reach("done");
}
