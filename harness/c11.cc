// C11: one time series per label set
//@ sources core/
//@ bounds every sequence of up to 3 (thorough 4) operations (add, remove, remove of a foreign series, touch) over 3 label sets with 0..2 labels whose values are arbitrary bytes (so any of them may be equal), on every metric type; 0..1 constant labels; hash collisions: none or all; 30 (thorough 100) series of 0..12 labels and texts of up to 200 bytes with one arbitrary byte, followed by one arbitrary operation
//@ entry c11_counter reach=added,again,removed,done
//@ entry c11_types reach=added,again,removed,done
//@ entry c11_shapes reach=done
//@ entry c11_large reach=done
#include "metric.h"
#include <cstring>
using namespace mt;
struct Ent { Labels l; void* p; uint64_t n; };

template <class T> static void audit(Family<T>& f, const std::vector<Ent>& model, const Labels& constant, const std::vector<Labels>& uni) {
  for (auto& l : uni) {
    bool in = false;
    for (auto& e : model) in |= same(e.l, l);
    VP_CHECK(f.Has(l) == in, "membership names exactly the series added and not removed");
  }
  std::vector<MetricFamily> v = f.Collect();
  if (model.empty()) { VP_CHECK(v.empty(), "an empty family shows nothing"); return; }
  VP_CHECK(v.size() == 1, "a family collects as one family");
  VP_CHECK(v[0].name == "fam" && v[0].help == "help text", "the collection carries name and help");
  VP_CHECK(v[0].type == T::metric_type, "the collection carries the type");
  VP_CHECK(v[0].metric.size() == model.size(), "exactly one sample per series");
  std::vector<char> used(model.size(), 0);
  for (auto& e : model) {
    bool found = false;
    for (size_t k = 0; k < v[0].metric.size() && !found; k++) {
      if (used[k] || !carries(v[0].metric[k], constant, e.l)) continue;
      used[k] = 1; found = true;
      uint64_t c = M<T>::count(v[0].metric[k]);
      if (M<T>::counts) VP_CHECK(c == e.n, "a sample shows the current value of its series");
    }
    VP_CHECK(found, "every series has its sample with its own and the constant labels");
  }
}
template <class T> static void seq(unsigned maxops, const std::vector<Labels>& uni, const Labels& constant) {
  Family<T> f{"fam", "help text", constant}, foreign{"foreign", "", {}};
  T& stranger = M<T>::add(foreign, {});
  std::vector<Ent> model;
  unsigned n = vp_choose(maxops + 1, "nops");
  for (unsigned i = 0; i < n; i++) {
    unsigned op = vp_choose(3, "op");
    if (op == 0) {
      const Labels& l = uni[vp_choose((unsigned)uni.size(), "set")];
      Ent* old = nullptr;
      for (auto& e : model) if (same(e.l, l)) old = &e;
      T& t = M<T>::add(f, l);
      if (old) { VP_CHECK(old->p == &t, "adding the same label set again returns the same object"); vp_reach("again"); }
      else {
        for (auto& e : model) VP_CHECK(e.p != &t, "a different label set gives a different object");
        model.push_back(Ent{l, &t, 0}); vp_reach("added");
      }
      M<T>::touch(t);
      for (auto& e : model) if (e.p == &t) e.n++;
    } else if (op == 1) {
      if (model.empty()) continue;
      unsigned k = vp_choose((unsigned)model.size(), "which");
      f.Remove((T*)model[k].p);
      model.erase(model.begin() + k);
      vp_reach("removed");
    } else {
      if (vp_choose(2, "null")) f.Remove(nullptr); else f.Remove(&stranger);
    }
    if (i + 1 < n || n == 0) continue;
  }
  audit<T>(f, model, constant, uni);
  VP_CHECK(foreign.Has({}), "other families are not affected");
  VP_CHECK(same(f.GetConstantLabels(), constant) && f.GetName() == "fam", "the family keeps its name and constant labels");
  vp_out(model.size());
  vp_reach("done");
}
static std::vector<Labels> universe(bool two) {
  // values are arbitrary: any two of the sets with the same names may be equal
  std::string a = vp::sym_string(1, "a"), b = vp::sym_string(1, "b"), c = vp::sym_string(1, "c");
  std::vector<Labels> u;
  u.push_back(Labels{{"x", a}});
  u.push_back(Labels{{"x", b}});
  u.push_back(two ? Labels{{"x", a}, {"y", c}} : Labels{});
  return u;
}
extern "C" void c11_counter() {
  seq<Counter>(VP_TIER(3, 4), universe(vp_choose(2, "two")), vp_choose(2, "constant") ? Labels{{"k", "v"}} : Labels{});
}
extern "C" void c11_types() {
  std::vector<Labels> u; u.push_back(Labels{{"x", "1"}}); u.push_back(Labels{{"x", vp::sym_string(1, "b")}});
  Labels k{{"k", "v"}};
  switch (vp_choose(4, "type")) {
    case 0: seq<Gauge>(VP_TIER(2, 3), u, k); break;
    case 1: seq<Histogram>(VP_TIER(2, 3), u, k); break;
    case 2: seq<Summary>(VP_TIER(2, 3), u, k); break;
    default: seq<Info>(VP_TIER(2, 3), u, k);
  }
}
// label sets that resemble each other: same text split differently over names and values, empty values, prefixes
extern "C" void c11_shapes() {
  std::vector<Labels> u{Labels{}, Labels{{"a", ""}}, Labels{{"a", "b"}}, Labels{{"ab", ""}}, Labels{{"a", ""}, {"b", ""}}, Labels{{"b", "a"}}, Labels{{"a", "b"}, {"b", "a"}}, Labels{{"a", "ab"}, {"b", ""}}, Labels{{"a", std::string("\0", 1)}}};
  Family<Counter> f{"fam", "help text", {}};
  unsigned first = vp_choose((unsigned)u.size(), "first"), second = vp_choose((unsigned)u.size(), "second");
  vp_assume(first != second);
  Counter& a = f.Add(u[first]);
  Counter& b = f.Add(u[second]);
  VP_CHECK(&a != &b, "a different label set gives a different object");
  a.Increment(); b.Increment(); b.Increment();
  std::vector<Ent> model{Ent{u[first], &a, 1}, Ent{u[second], &b, 2}};
  audit<Counter>(f, model, {}, u);
  f.Remove(&a);
  model.erase(model.begin());
  audit<Counter>(f, model, {}, u);
  VP_CHECK(&f.Add(u[second]) == &b, "removing a series leaves the others");
  vp_reach("done");
}
// many series, many labels, long texts
extern "C" void c11_large() {
  Labels constant{{"k1", "v"}, {"k2", std::string(80, 'w')}};
  Family<Counter> f{"fam", "help text", constant};
  std::vector<Labels> u;
  std::vector<Ent> model;
  unsigned n = VP_TIER(30, 100);
  std::string odd = vp::long_string(200, "value");
  for (unsigned i = 0; i < n; i++) {
    Labels l;
    for (unsigned k = 0; k < i % 13; k++) l[std::string(1 + k, (char)('a' + k))] = std::string(i / 13, 'v');
    l["id"] = i % 9 == 4 ? odd + std::string(i, '.') : std::string(1 + i / 26, (char)('a' + i % 26));
    u.push_back(l);
    if (i % 5 == 3) continue;   // never added
    Counter& c = f.Add(l);
    for (auto& e : model) VP_CHECK(e.p != &c, "a different label set gives a different object");
    c.Increment();
    model.push_back(Ent{l, &c, 1});
  }
  unsigned k = vp_choose((unsigned)model.size(), "which"), op = vp_choose(3, "op");
  if (op == 0) { f.Remove((Counter*)model[k].p); model.erase(model.begin() + k); }
  else if (op == 1) { VP_CHECK(&f.Add(model[k].l) == model[k].p, "adding the same label set again returns the same object"); ((Counter*)model[k].p)->Increment(); model[k].n++; }
  else { Labels l = model[k].l; f.Remove((Counter*)model[k].p); model.erase(model.begin() + k); Counter& c = f.Add(l); c.Increment(); c.Increment(); model.push_back(Ent{l, &c, 2}); }
  audit<Counter>(f, model, constant, u);
  for (auto& e : model) VP_CHECK(&f.Add(e.l) == e.p, "removing a series leaves the others");
  vp_reach("done");
}
