// C15: registries and families may be used from many threads
//@ sources core/
//@ bounds all interleavings of 2 updating threads (add, remove, refused add, register, remove family, update a series; 1 operation each, thorough also 2) and one observing thread (collect, membership, collect twice) on one family / registry; types: counter and, for the pairs of updating threads, all 5
//@ assume sequentially consistent atomics (plain accesses are checked for data races); hash collisions: none or all
//@ entry c15_same_series mt reach=done,before,after
//@ entry c15_two_series mt reach=done,mid
//@ entry c15_add_remove mt reach=done,mid
//@ entry c15_remove_remove mt reach=done
//@ entry c15_refused mt reach=done
//@ entry c15_update mt reach=done,mid
//@ entry c15_family_types mt reach=done
//@ entry c15_same_name mt reach=done,before,after
//@ entry c15_clash mt reach=done
//@ entry c15_throw mt reach=done
//@ entry c15_register_remove mt reach=done,mid
//@ entry c15_unregister mt reach=done
//@ entry c15_registry_types mt reach=done
//@ entry c15_fresh_series mt reach=done
//@ entry c15_two_families mt reach=done
//@ entry c15_family_long mt reach=done
#include "registry.h"
using namespace rm;
static const Labels L1{{"x", "1"}}, L2{{"x", "2"}}, BAD{{"__x", "1"}};
struct Ctx {
  Family<Counter>* f; Registry* r;
  Counter *pa, *pb, *old; bool ra, rb, has1, has2, thrown;
  void *fa, *fb; unsigned ta, tb;
  std::vector<MetricFamily> m1, m2;
};
typedef void* (*Fn)(void*);
#define TH(name, ...) static void* name(void* p) { Ctx* x = (Ctx*)p; __VA_ARGS__; return nullptr; }
TH(add1a, x->pa = &x->f->Add(L1))
TH(add1b, x->pb = &x->f->Add(L1))
TH(add2b, x->pb = &x->f->Add(L2))
TH(collect, x->m1 = x->f->Collect())
TH(collect2, x->m1 = x->f->Collect(); x->m2 = x->f->Collect())
TH(fdrop, x->f->Remove(x->old))
TH(hasq, x->has1 = x->f->Has(L1); x->has2 = x->f->Has(L2))
TH(badadd, try { x->f->Add(BAD); } catch (const std::exception&) { x->thrown = true; })
TH(bump, x->old->Increment())
TH(rega, x->fa = reg(x->ta, *x->r, "n", "h", {}); if (x->fa) add(x->ta, x->fa, L1))
TH(regb, x->fb = reg(x->tb, *x->r, "n", "h", {}); if (x->fb) add(x->tb, x->fb, L1))
TH(reg2b, x->fb = reg(x->tb, *x->r, "m", "h", {}); if (x->fb) add(x->tb, x->fb, L1))
TH(unrega, x->ra = remove(x->ta, *x->r, x->fa))
TH(unregb, x->rb = remove(x->ta, *x->r, x->fa))
TH(rcollect, x->m1 = x->r->Collect())
TH(rcollect2, x->m1 = x->r->Collect(); x->m2 = x->r->Collect())
static void go(Ctx& x, Fn a, Fn b, Fn c) {
  int t1 = vp_spawn(a, &x), t2 = b ? vp_spawn(b, &x) : -1, t3 = c ? vp_spawn(c, &x) : -1;
  vp_join(t1); if (b) vp_join(t2); if (c) vp_join(t3);
}
// which series does a collection of the family show?  bit 0: L1, bit 1: L2; 4: malformed
static unsigned shows(const std::vector<MetricFamily>& v, const char* name = "f") {
  if (v.empty()) return 0;
  if (v.size() != 1 || v[0].name != name || v[0].metric.empty()) return 4;
  unsigned r = 0;
  for (auto& m : v[0].metric) {
    unsigned b = m.label.size() == 1 && m.label[0].name == "x" ? (m.label[0].value == "1" ? 1 : m.label[0].value == "2" ? 2 : 4) : 4;
    if (r & b) return 4;
    r |= b;
  }
  return r;
}
extern "C" void c15_same_series() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f;
  bool twice = vp_choose(2, "collects");
  go(x, add1a, add1b, twice ? collect2 : hasq);
  VP_CHECK(x.pa && x.pa == x.pb, "two threads adding the same label set obtain the same object");
  VP_CHECK(&f.Add(L1) == x.pa, "an added series is the one that stays");
  if (twice) {
    unsigned a = shows(x.m1), b = shows(x.m2);
    VP_CHECK(a < 2 && b < 2 && a <= b, "a collection sees each addition entirely or not at all");
    vp_reach(a ? "after" : "before");
  } else { VP_CHECK(!x.has2, "membership is exact"); vp_reach(x.has1 ? "after" : "before"); }
  VP_CHECK(shows(f.Collect()) == 1, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_two_series() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f;
  go(x, add1a, add2b, collect);
  VP_CHECK(x.pa && x.pb && x.pa != x.pb, "different label sets obtain different objects");
  unsigned a = shows(x.m1);
  VP_CHECK(a < 4, "a collection sees each addition entirely or not at all");
  if (a == 1 || a == 2) vp_reach("mid");
  VP_CHECK(shows(f.Collect()) == 3, "the outcome is that of some sequential order");
  VP_CHECK(&f.Add(L1) == x.pa && &f.Add(L2) == x.pb, "no addition is lost");
  vp_out(a); vp_reach("done");
}
extern "C" void c15_add_remove() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f; x.old = &f.Add(L1);
  bool coll = vp_choose(2, "collects");
  go(x, fdrop, add2b, coll ? collect : hasq);
  if (coll) { unsigned a = shows(x.m1); VP_CHECK(a < 4, "a collection sees each operation entirely or not at all"); if (a == 0 || a == 3) vp_reach("mid"); }
  VP_CHECK(!f.Has(L1) && f.Has(L2) && shows(f.Collect()) == 2, "the outcome is that of some sequential order");
  VP_CHECK(&f.Add(L2) == x.pb, "no addition is lost");
  vp_reach("done");
}
extern "C" void c15_remove_remove() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f; x.old = &f.Add(L1); f.Add(L2);
  go(x, fdrop, fdrop, collect);
  unsigned a = shows(x.m1);
  VP_CHECK(a == 2 || a == 3, "a collection sees each operation entirely or not at all");
  VP_CHECK(shows(f.Collect()) == 2, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_refused() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f;
  go(x, badadd, add1a, vp_choose(2, "collects") ? collect : hasq);
  VP_CHECK(x.thrown, "an invalid label set is refused");
  VP_CHECK(shows(x.m1) < 2 && !x.has2, "a refused addition is never visible");
  VP_CHECK(shows(f.Collect()) == 1 && !f.Has(BAD) && &f.Add(L1) == x.pa, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_update() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f; x.old = &f.Add(L1);
  go(x, bump, add2b, collect);
  unsigned a = shows(x.m1);
  VP_CHECK(a == 1 || a == 3, "a collection sees each operation entirely or not at all");
  for (auto& m : x.m1[0].metric) {
    if (m.label[0].value == "1") { VP_CHECK(m.counter.value == 0 || m.counter.value == 1, "a collected value is that of some prefix"); if (m.counter.value == 1 && a == 1) vp_reach("mid"); }
    else VP_CHECK(m.counter.value == 0, "a new series starts at zero");
  }
  auto v = f.Collect();
  VP_CHECK(shows(v) == 3, "the outcome is that of some sequential order");
  for (auto& m : v[0].metric) VP_CHECK(m.counter.value == (m.label[0].value == "1" ? 1 : 0), "no update is lost");
  vp_reach("done");
}
// a series obtained from Add may be used at once
static void* use1(void* p) { Ctx* x = (Ctx*)p; x->f->Add(L1).Increment(); return nullptr; }
static void* use2(void* p) { Ctx* x = (Ctx*)p; x->f->Add(L1).Increment(2); return nullptr; }
extern "C" void c15_fresh_series() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f;
  go(x, use1, use2, collect);
  VP_CHECK(shows(x.m1) < 2, "a collection sees each addition entirely or not at all");
  if (!x.m1.empty()) { double d = x.m1[0].metric[0].counter.value; VP_CHECK(d == 0 || d == 1 || d == 2 || d == 3, "a collected value is that of some prefix"); }
  VP_CHECK(f.Add(L1).Value() == 3, "no update is lost");
  vp_reach("done");
}
// the same for every metric type: one thread adds, another adds or removes or asks
struct TCtx { unsigned t; void* f; void* old; void *pa, *pb; std::vector<MetricFamily> m; bool h; };
static void* ta1(void* p) { TCtx* x = (TCtx*)p; x->pa = add(x->t, x->f, L1); return nullptr; }
static void* tb1(void* p) { TCtx* x = (TCtx*)p; x->pb = add(x->t, x->f, L1); return nullptr; }
static void* tdrop(void* p) { TCtx* x = (TCtx*)p; drop(x->t, x->f, x->old); return nullptr; }
static void* thas(void* p) { TCtx* x = (TCtx*)p; x->h = has(x->t, x->f, L1); return nullptr; }
static void* tcoll(void* p) { TCtx* x = (TCtx*)p; x->m = ((Collectable*)x->f)->Collect(); return nullptr; }
template <class T> static void famtypes(unsigned t) {
  Family<T> f{"f", "", {}};
  TCtx x{}; x.t = t; x.f = &f;
  x.old = add(t, &f, L2);
  unsigned k = vp_choose(4, "pair");
  static const Fn second[] = {tb1, tdrop, thas, tcoll};
  int a = vp_spawn(ta1, &x), b = vp_spawn(second[k], &x);
  vp_join(a); vp_join(b);
  if (k == 0) VP_CHECK(x.pa == x.pb, "two threads adding the same label set obtain the same object");
  if (k == 3) { unsigned s = shows(x.m); VP_CHECK(s == 2 || s == 3, "a collection sees each operation entirely or not at all"); }
  VP_CHECK(shows(f.Collect()) == (k == 1 ? 1u : 3u) && add(t, &f, L1) == x.pa, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_family_types() { unsigned t = vp_choose(5, "type"); RM_TYPES(t, famtypes, t); }

extern "C" void c15_same_name() {
  Registry r;
  Ctx x{}; x.r = &r;
  go(x, rega, regb, rcollect);
  VP_CHECK(x.fa && x.fa == x.fb, "two threads registering the same name obtain the same object");
  unsigned a = shows(x.m1, "n");
  VP_CHECK(a < 2, "a collection sees each registration entirely or not at all");
  vp_reach(a ? "after" : "before");
  VP_CHECK(shows(r.Collect(), "n") == 1 && reg(0, r, "n", "h", {}) == x.fa, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_clash() {
  Registry r;
  static const unsigned pr[][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}};
  unsigned k = vp_choose(5, "types");
  Ctx x{}; x.r = &r; x.ta = pr[k][0]; x.tb = pr[k][1];
  go(x, rega, regb, nullptr);
  VP_CHECK((x.fa != nullptr) + (x.fb != nullptr) == 1, "of two types registering one name exactly one succeeds");
  VP_CHECK(shows(r.Collect(), "n") == 1, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_throw() {
  Registry r{Registry::InsertBehavior::Throw};
  Ctx x{}; x.r = &r;
  go(x, rega, regb, rcollect);
  VP_CHECK((x.fa != nullptr) + (x.fb != nullptr) == 1, "of two registrations of one name exactly one succeeds");
  VP_CHECK(shows(x.m1, "n") < 2 && shows(r.Collect(), "n") == 1, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_register_remove() {
  Registry r;
  Ctx x{}; x.r = &r; x.fa = reg(0, r, "n", "h", {}); add(0, x.fa, L1);
  go(x, unrega, reg2b, rcollect);
  VP_CHECK(x.ra, "removing a registered family reports that it was present");
  VP_CHECK(x.m1.size() <= 2, "a collection sees each operation entirely or not at all");
  if (x.m1.empty() || x.m1.size() == 2) vp_reach("mid");
  auto v = r.Collect();
  VP_CHECK(v.size() == 1 && v[0].name == "m", "the outcome is that of some sequential order");
  VP_CHECK(reg(0, r, "m", "h", {}) == x.fb && reg(1, r, "n", "h", {}), "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_unregister() {
  Registry r;
  Ctx x{}; x.r = &r; x.fa = reg(0, r, "n", "h", {}); add(0, x.fa, L1);
  go(x, unrega, unregb, nullptr);
  VP_CHECK(x.ra != x.rb, "exactly one removal reports that the family was present");
  VP_CHECK(r.Collect().empty(), "the outcome is that of some sequential order");
  vp_reach("done");
}
// every type: a registration or removal against a collection
struct RCtx { Registry* r; unsigned t; void* f; std::vector<MetricFamily> m; };
static void* rr(void* p) { RCtx* x = (RCtx*)p; remove(x->t, *x->r, x->f); return nullptr; }
static void* ra(void* p) { RCtx* x = (RCtx*)p; x->f = reg(x->t, *x->r, "n", "h", {}); return nullptr; }
static void* rc(void* p) { RCtx* x = (RCtx*)p; x->m = x->r->Collect(); return nullptr; }
extern "C" void c15_registry_types() {
  Registry r;
  RCtx x{}; x.r = &r; x.t = vp_choose(5, "type");
  void* keep = reg(x.t, r, "keep", "", {}); add(x.t, keep, L1);
  bool rem = vp_choose(2, "remove");
  if (rem) { x.f = reg(x.t, r, "n", "h", {}); add(x.t, x.f, L2); }
  int a = vp_spawn(rem ? rr : ra, &x), b = vp_spawn(rc, &x);
  vp_join(a); vp_join(b);
  VP_CHECK(x.m.size() == 1u || (rem && x.m.size() == 2u), "a collection sees each operation entirely or not at all");
  VP_CHECK(r.Collect().size() == 1, "the outcome is that of some sequential order");
  vp_reach("done");
}
extern "C" void c15_two_families() {
  Registry r;
  Ctx x{}; x.r = &r; x.ta = 0; x.tb = 3;
  go(x, rega, reg2b, rcollect2);
  VP_CHECK(x.fa && x.fb && x.m1.size() <= x.m2.size() && x.m2.size() <= 2, "a collection sees each registration entirely or not at all");
  VP_CHECK(r.Collect().size() == 2, "the outcome is that of some sequential order");
  vp_reach("done");
}
TH(addrem, x->pa = &x->f->Add(L1); x->f->Remove(x->pa))
extern "C" void c15_family_long() {
  Family<Counter> f{"f", "", {}};
  Ctx x{}; x.f = &f;
  go(x, addrem, add2b, collect2);
  VP_CHECK(shows(x.m1) < 4 && shows(x.m2) < 4, "a collection sees each operation entirely or not at all");
  VP_CHECK(shows(f.Collect()) == 2, "the outcome is that of some sequential order");
  vp_reach("done");
}
