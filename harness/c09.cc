// C09: a summary snapshot is consistent under concurrency
//@ sources core/
//@ bounds all interleavings of 2 threads (1 operation each, thorough also 2) that observe or collect plus one collecting thread; 2 quantiles, 2 age buckets; 2 observed values, symbolic and ordered either way; the clock also stands still or moves one rotation between operations
//@ assume sequentially consistent atomics (plain accesses are checked for data races); values are finite
//@ entry c09_observe mt reach=done,mid
//@ entry c09_collect mt reach=done,mid
//@ entry c09_rotate mt reach=done
//@ entry c09_two_each mt thorough reach=done
#include "prometheus/summary.h"
#include "vp.h"
using namespace prometheus;

struct Ctx { Summary* s; double a, b, d; ClientMetric m1, m2, m3; };
static void* oa(void* p) { Ctx* x = (Ctx*)p; x->s->Observe(x->a); return nullptr; }
static void* ob(void* p) { Ctx* x = (Ctx*)p; x->s->Observe(x->b); return nullptr; }
static void* oad(void* p) { Ctx* x = (Ctx*)p; x->s->Observe(x->a); x->s->Observe(x->d); return nullptr; }
static void* c1(void* p) { Ctx* x = (Ctx*)p; x->m1 = x->s->Collect(); return nullptr; }
static void* c2(void* p) { Ctx* x = (Ctx*)p; x->m2 = x->s->Collect(); return nullptr; }
static void* c13(void* p) { Ctx* x = (Ctx*)p; x->m1 = x->s->Collect(); x->m3 = x->s->Collect(); return nullptr; }
static Summary::Quantiles Q() { return Summary::Quantiles{{0.0, 0.01}, {0.9, 0.01}}; }
static ClientMetric of(std::initializer_list<double> v) {
  Summary s{Q(), std::chrono::milliseconds(1000), 2};
  for (double d : v) s.Observe(d);
  return s.Collect();
}
static int is(const ClientMetric& m, const ClientMetric& w) {
  int r = m.summary.sample_count == w.summary.sample_count;
  r &= vp::same_value(m.summary.sample_sum, w.summary.sample_sum) ? 1 : 0;
  for (size_t i = 0; i < 2; i++) r &= (vp::same_value(m.summary.quantile[i].value, w.summary.quantile[i].value) ? 1 : 0) & (m.summary.quantile[i].quantile == w.summary.quantile[i].quantile);
  return r;
}
static void values(Ctx& x) {
  x.a = vp::sym_double("a"); x.b = vp::sym_double("b"); x.d = 0;
  vp_assume(vp::finite(x.a) & vp::finite(x.b));
  vp_assume((x.a != x.b) & (x.a != 0) & (x.b != 0));
  if (vp_choose(2, "order")) vp_assume(x.a < x.b); else vp_assume(x.b < x.a);
}
extern "C" void c09_observe() {
  Summary s{Q(), std::chrono::milliseconds(1000), 2};
  Ctx x{}; x.s = &s; values(x);
  int t1 = vp_spawn(oa, &x), t2 = vp_spawn(ob, &x), t3 = vp_spawn(c1, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  VP_CHECK(x.m1.summary.quantile.size() == 2, "one value per quantile");
  ClientMetric m = s.Collect(), e = of({}), A = of({x.a}), B = of({x.b}), AB = of({x.a, x.b});
  VP_ASSERT(is(x.m1, e) | is(x.m1, A) | is(x.m1, B) | is(x.m1, AB), "a snapshot shows one and the same set of observations");
  VP_ASSERT(is(m, AB), "no observation is lost");
  if (vp_decide(is(x.m1, A))) vp_reach("mid");
  vp_out(m.summary.sample_count);
  vp_reach("done");
}
extern "C" void c09_collect() {
  Summary s{Q(), std::chrono::milliseconds(1000), 2};
  Ctx x{}; x.s = &s; values(x);
  s.Observe(x.b);
  int t1 = vp_spawn(oa, &x), t2 = vp_spawn(c2, &x), t3 = vp_spawn(c13, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  ClientMetric m = s.Collect(), B = of({x.b}), AB = of({x.b, x.a});
  VP_ASSERT(is(x.m1, B) | is(x.m1, AB), "a snapshot shows one and the same set of observations");
  VP_ASSERT(is(x.m2, B) | is(x.m2, AB), "a snapshot shows one and the same set of observations");
  VP_ASSERT(is(x.m3, B) | is(x.m3, AB), "a snapshot shows one and the same set of observations");
  VP_ASSERT(x.m1.summary.sample_count <= x.m3.summary.sample_count, "successive snapshots never go back");
  VP_ASSERT(is(m, AB), "no observation is lost");
  if (vp_decide(is(x.m1, B) & is(x.m3, AB))) vp_reach("mid");
  vp_reach("done");
}
static int64_t now_ns;
static int64_t clk() { return now_ns; }
// rotation happens while threads observe and collect
extern "C" void c09_rotate() {
  now_ns = 1000000000; vp_steady_hook = clk;
  Summary s{Q(), std::chrono::milliseconds(1000), 2};
  Ctx x{}; x.s = &s; values(x);
  s.Observe(x.b);
  static const int64_t d[] = {600000000, 1100000000, 1600000000};
  now_ns += d[vp_choose(3, "elapsed")];
  int t1 = vp_spawn(oa, &x), t2 = vp_spawn(c2, &x), t3 = vp_spawn(c1, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  for (auto* m : {&x.m1, &x.m2}) VP_ASSERT((m->summary.sample_count == 1) | ((m->summary.sample_count == 2)), "no observation is lost");
  for (auto* m : {&x.m1, &x.m2}) VP_ASSERT((vp::same_value(m->summary.sample_sum, x.b) ? 1 : 0) | (vp::same_value(m->summary.sample_sum, x.a + x.b) ? 1 : 0), "a snapshot shows one and the same set of observations");
  VP_ASSERT(s.Collect().summary.sample_count == 2, "no observation is lost");
  vp_reach("done");
}
extern "C" void c09_two_each() {
  Summary s{Q(), std::chrono::milliseconds(1000), 2};
  Ctx x{}; x.s = &s; x.a = 1; x.b = 2; x.d = 4;
  int t1 = vp_spawn(oad, &x), t2 = vp_spawn(ob, &x), t3 = vp_spawn(c13, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  for (auto* m : {&x.m1, &x.m3})
    VP_ASSERT(is(*m, of({})) | is(*m, of({1})) | is(*m, of({2})) | is(*m, of({1, 2})) | is(*m, of({1, 4})) | is(*m, of({1, 2, 4})), "a snapshot shows one and the same set of observations");
  VP_ASSERT(is(s.Collect(), of({1, 2, 4})), "no observation is lost");
  vp_reach("done");
}
