// C07: concurrent counter and gauge updates are never lost or torn
//@ sources core/
//@ bounds all interleavings of 2 updating threads with 1 (thorough also 2) updates each plus one reading thread, and of 3 updating threads; every amount
//@ assume sequentially consistent atomics (weaker orderings are not explored; plain accesses are checked for data races); amounts are not NaN; compare_exchange_weak does not fail spuriously
//@ entry c07_counter mt reach=done
//@ entry c07_counter_read mt reach=done
//@ entry c07_counter_reset mt reach=done
//@ entry c07_counter_unit mt reach=done
//@ entry c07_gauge mt reach=done
//@ entry c07_gauge_read mt reach=done
//@ entry c07_gauge_incdec mt reach=done
//@ entry c07_two_each mt thorough reach=done
//@ entry c07_collect mt reach=done
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "vp.h"
#include <thread>
using namespace prometheus;

struct Ctx { Counter* c; Gauge* g; double a, b, d; double r1, r2; };
static void* inc_a(void* p) { Ctx* x = (Ctx*)p; x->c->Increment(x->a); return nullptr; }
static void* inc_b(void* p) { Ctx* x = (Ctx*)p; x->c->Increment(x->b); return nullptr; }
static void* inc_d(void* p) { Ctx* x = (Ctx*)p; x->c->Increment(x->d); return nullptr; }
static void* inc_1(void* p) { Ctx* x = (Ctx*)p; x->c->Increment(); return nullptr; }
static void* creset(void* p) { Ctx* x = (Ctx*)p; x->c->Reset(); return nullptr; }
static void* cread(void* p) { Ctx* x = (Ctx*)p; x->r1 = x->c->Value(); x->r2 = x->c->Value(); return nullptr; }
static void* ccollect(void* p) { Ctx* x = (Ctx*)p; x->r1 = x->c->Collect().counter.value; return nullptr; }
static void* gset(void* p) { Ctx* x = (Ctx*)p; x->g->Set(x->a); return nullptr; }
static void* ginc(void* p) { Ctx* x = (Ctx*)p; x->g->Increment(x->b); return nullptr; }
static void* gdec(void* p) { Ctx* x = (Ctx*)p; x->g->Decrement(x->d); return nullptr; }
static void* gread(void* p) { Ctx* x = (Ctx*)p; x->r1 = x->g->Value(); return nullptr; }
static void* gcollect(void* p) { Ctx* x = (Ctx*)p; x->r1 = x->g->Collect().gauge.value; return nullptr; }
static int eq(double a, double b) { return vp::same_value(a, b); }
static double amount(const char* n, bool nonneg) {
  double d = vp::sym_double(n);
  vp_assume(vp::finite(d));
  if (nonneg) vp_assume(d >= 0);
  return d;
}

extern "C" void c07_counter() {
  Counter c;
  Ctx x{&c, nullptr, amount("a", true), amount("b", true), 0, 0, 0};
  int t1 = vp_spawn(inc_a, &x), t2 = vp_spawn(inc_b, &x);
  vp_join(t1); vp_join(t2);
  double v = c.Value();
  VP_ASSERT(eq(v, 0 + x.a + x.b) | eq(v, 0 + x.b + x.a), "no update is lost");
  vp::out_double(v);
  vp_reach("done");
}
extern "C" void c07_counter_read() {
  Counter c;
  Ctx x{&c, nullptr, amount("a", true), amount("b", true), 0, 0, 0};
  int t1 = vp_spawn(inc_a, &x), t2 = vp_spawn(inc_b, &x), t3 = vp_spawn(cread, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  double v = c.Value();
  VP_ASSERT(eq(v, x.a + x.b), "no update is lost");
  VP_ASSERT(eq(x.r1, 0) | eq(x.r1, x.a) | eq(x.r1, x.b) | eq(x.r1, x.a + x.b), "a read returns the state after some prefix of the updates");
  VP_ASSERT(eq(x.r2, 0) | eq(x.r2, x.a) | eq(x.r2, x.b) | eq(x.r2, x.a + x.b), "a read returns the state after some prefix of the updates");
  VP_ASSERT(x.r2 >= x.r1, "successive reads never decrease");
  vp_reach("done");
}
extern "C" void c07_counter_reset() {
  Counter c;
  Ctx x{&c, nullptr, amount("a", true), amount("b", true), 0, 0, 0};
  c.Increment(x.b);
  int t1 = vp_spawn(inc_a, &x), t2 = vp_spawn(creset, &x);
  vp_join(t1); vp_join(t2);
  VP_ASSERT(eq(c.Value(), 0) | eq(c.Value(), x.a), "a reset and an update happen in some order");
  vp_reach("done");
}
extern "C" void c07_counter_unit() {
  Counter c;
  Ctx x{&c, nullptr, 0, 0, 0, 0, 0};
  int t1 = vp_spawn(inc_1, &x), t2 = vp_spawn(inc_1, &x), t3 = vp_spawn(inc_1, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  VP_ASSERT(c.Value() == 3, "no update is lost");
  vp::out_double(c.Value());
  vp_reach("done");
}
extern "C" void c07_gauge() {
  Gauge g;
  Ctx x{nullptr, &g, amount("a", false), amount("b", false), amount("d", false), 0, 0};
  int t1 = vp_spawn(gset, &x), t2 = vp_spawn(ginc, &x), t3 = vp_spawn(gdec, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  double v = g.Value(), a = x.a, b = x.b, d = x.d;
  VP_ASSERT(eq(v, a) | eq(v, a + b) | eq(v, a - d) | eq(v, a + b - d) | eq(v, a - d + b), "the final value is the result of all updates in some order");
  vp::out_double(v);
  vp_reach("done");
}
extern "C" void c07_gauge_read() {
  double i = amount("i", false);
  Gauge g{i};
  Ctx x{nullptr, &g, amount("a", false), amount("b", false), 0, 0, 0};
  int t1 = vp_spawn(gset, &x), t2 = vp_spawn(ginc, &x), t3 = vp_spawn(gread, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  double v = x.r1, a = x.a, b = x.b;
  VP_ASSERT(eq(v, i) | eq(v, a) | eq(v, i + b) | eq(v, a + b), "a read returns the state after some prefix of the updates");
  VP_ASSERT(eq(g.Value(), a) | eq(g.Value(), a + b), "the final value is the result of all updates in some order");
  vp_reach("done");
}
extern "C" void c07_gauge_incdec() {
  Gauge g;
  Ctx x{nullptr, &g, 0, amount("b", false), amount("d", false), 0, 0};
  int t2 = vp_spawn(ginc, &x), t3 = vp_spawn(gdec, &x), t4 = vp_spawn(gcollect, &x);
  vp_join(t2); vp_join(t3); vp_join(t4);
  double b = x.b, d = x.d;
  VP_ASSERT(eq(g.Value(), b - d), "no update is lost");
  VP_ASSERT(eq(x.r1, 0) | eq(x.r1, b) | eq(x.r1, 0 - d) | eq(x.r1, b - d), "a collection returns the state after some prefix of the updates");
  vp_reach("done");
}
static void* inc_ab(void* p) { inc_a(p); inc_b(p); return nullptr; }
static void* inc_dd(void* p) { inc_d(p); inc_1(p); return nullptr; }
extern "C" void c07_two_each() {
  Counter c;
  Ctx x{&c, nullptr, 1, 2, 4, 0, 0};
  int t1 = vp_spawn(inc_ab, &x), t2 = vp_spawn(inc_dd, &x), t3 = vp_spawn(cread, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  VP_ASSERT(c.Value() == 8, "no update is lost");
  VP_ASSERT(x.r2 >= x.r1, "successive reads never decrease");
  int ok = 0;   // prefixes: a, ab of thread 1 and d, d1 of thread 2
  static const double p1[] = {0, 1, 3}, p2[] = {0, 4, 5};
  for (double u : p1) for (double w : p2) ok |= x.r1 == u + w;
  VP_ASSERT(ok, "a read returns the state after some prefix of the updates");
  vp_reach("done");
}
extern "C" void c07_collect() {
  Counter c;
  Ctx x{&c, nullptr, amount("a", true), amount("b", true), 0, 0, 0};
  int t1 = vp_spawn(inc_a, &x), t2 = vp_spawn(inc_b, &x), t3 = vp_spawn(ccollect, &x);
  vp_join(t1); vp_join(t2); vp_join(t3);
  VP_ASSERT(eq(x.r1, 0) | eq(x.r1, x.a) | eq(x.r1, x.b) | eq(x.r1, x.a + x.b), "a collection returns the state after some prefix of the updates");
  VP_ASSERT(eq(c.Value(), x.a + x.b), "no update is lost");
  vp_reach("done");
}
