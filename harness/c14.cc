// C14: a registry collection is complete and exact
//@ sources core/
//@ bounds every sequence of up to 4 (thorough 5) operations (register, remove, remove of a family of another registry, add a series, remove a series, touch) on one registry whose families are of 2 types chosen from all 5, 3 names; help, label values: arbitrary bytes (1); up to 2 series per family; up to 6 families of all types in c14_many; every ordered triple of 7 names that contain or resemble each other, with equal or different help and labels; 40 families (thorough 120) of which one has 30 series
//@ entry c14_seq reach=removed,foreign,done
//@ entry c14_many reach=done
//@ entry c14_text reach=done
//@ entry c14_names reach=done
//@ entry c14_large reach=done
#include "registry.h"
using namespace rm;
static void untouched(const std::vector<Fam>& model) {
  for (auto& f : model) {
    VP_CHECK(meta(f.type, f.p, f.name, f.constant), "references to other families stay valid");
    for (auto& s : f.series) {
      VP_CHECK(has(f.type, f.p, s.l), "references to other series stay valid");
      VP_CHECK(add(f.type, f.p, s.l) == s.p, "references to other series stay valid");
    }
  }
}
extern "C" void c14_seq() {
  Registry r, elsewhere;
  static const unsigned pairs[][2] = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {0, 3}, {4, 1}, {2, 0}};
  const unsigned* ty = pairs[vp_choose(VP_TIER(7, 8), "types")];
  static const char* const names[] = {"a", "b", "c"};
  static const char* const helps[] = {"ha", "", "hc"};
  void* stranger[2] = {reg(ty[0], elsewhere, "a", "", {}), nullptr};
  std::vector<Fam> model;
  unsigned n = VP_TIER(4, 5);
  for (unsigned i = 0; i < n; i++) {
    unsigned op = i == 0 ? 0 : vp_choose(5, "op");
    if (op == 0) {
      unsigned k = (unsigned)model.size();
      if (k >= 3) return;
      unsigned which = 0;
      for (;; which++) { bool used = false; for (auto& f : model) used |= f.name == names[which]; if (!used) break; }
      unsigned t = ty[vp_choose(ty[0] == ty[1] ? 1 : 2, "type")];
      Labels c = which == 1 ? Labels{{"k", "v"}} : Labels{};
      void* p = reg(t, r, names[which], helps[which], c);
      VP_CHECK(p != nullptr, "an unused name can be registered");
      model.push_back(Fam{t, names[which], helps[which], c, p, {}});
      if (vp_choose(2, "series")) { void* s = add(t, p, {{"s", "0"}}); model.back().series.push_back(Series{{{"s", "0"}}, s, 0}); }
    } else if (op == 1) {
      if (model.empty()) return;
      unsigned k = vp_choose((unsigned)model.size(), "which");
      VP_CHECK(remove(model[k].type, r, model[k].p), "removing a registered family reports that it was present");
      model.erase(model.begin() + k);
      vp_reach("removed");
    } else if (op == 2) {
      VP_CHECK(!remove(ty[0], r, stranger[0]), "removing a family that is not registered reports that it was not");
      vp_reach("foreign");
    } else if (op == 3) {
      if (model.empty()) return;
      Fam& f = model[vp_choose((unsigned)model.size(), "which")];
      Labels l{{"s", f.series.size() == 1 ? "1" : "0"}};
      if (f.series.size() >= 2) return;
      for (auto& s : f.series) if (s.l == l) l["s"] = "2";
      void* s = add(f.type, f.p, l);
      touch(f.type, s);
      f.series.push_back(Series{l, s, 1});
    } else {
      if (model.empty()) return;
      Fam& f = model[vp_choose((unsigned)model.size(), "which")];
      if (f.series.empty()) return;
      if (vp_choose(2, "drop")) { drop(f.type, f.p, f.series[0].p); f.series.erase(f.series.begin()); }
      else { touch(f.type, f.series.back().p); f.series.back().n++; }
    }
  }
  audit(r, model);
  untouched(model);
  vp_out(model.size());
  vp_reach("done");
}
// many families of all types at once; collecting twice gives the same
extern "C" void c14_many() {
  Registry r;
  static const char* const names[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"};
  std::vector<Fam> model;
  unsigned n = VP_TIER(6, 8), first = vp_choose(5, "first"), step = 1 + vp_choose(4, "step");
  for (unsigned i = 0; i < n; i++) {
    unsigned t = (first + i * step) % 5;
    void* p = reg(t, r, names[i], "h", {});
    VP_CHECK(p != nullptr, "an unused name can be registered");
    model.push_back(Fam{t, names[i], "h", {}, p, {}});
    for (unsigned k = 0; k < i % 3; k++) {
      Labels l{{"s", k ? "1" : "0"}};
      void* s = add(t, p, l);
      for (unsigned c = 0; c <= i; c++) touch(t, s);
      model.back().series.push_back(Series{l, s, i + 1});
    }
  }
  audit(r, model);
  audit(r, model);
  unsigned k = vp_choose(n, "gone");
  VP_CHECK(remove(model[k].type, r, model[k].p), "removing a registered family reports that it was present");
  model.erase(model.begin() + k);
  audit(r, model);
  untouched(model);
  vp_reach("done");
}
// the texts are passed through byte for byte
template <class T> static void text() {
  Registry r;
  std::string name = vp::sym_string(2, "name"), help = vp::sym_string(2, "help"), cv = vp::sym_string(1, "cv"), lv = vp::sym_string(2, "lv");
  vp_assume((name[0] >= 'a') & (name[0] <= 'z') & (((name[1] >= 'A') & (name[1] <= 'Z')) | (name[1] == '_')));
  auto& f = detail::Builder<T>().Name(name).Help(help).Labels({{"c", cv}}).Register(r);
  auto& s = M<T>::add(f, {{"b", lv}});
  M<T>::touch(s);
  auto v = r.Collect();
  VP_CHECK(v.size() == 1 && v[0].metric.size() == 1, "exactly the registered families that have a series are collected");
  VP_CHECK(v[0].type == T::metric_type, "a family is collected with its type");
  VP_CHECK(same(v[0].name, name) && same(v[0].help, help), "name and help are collected as given");
  VP_CHECK(carries(v[0].metric[0], Labels{{"c", cv}}, Labels{{"b", lv}}), "labels are collected as given");
  uint64_t c = M<T>::count(v[0].metric[0]);
  if (M<T>::counts) VP_CHECK(c == 1, "a series is collected with its current value");
  VP_CHECK(v[0].metric[0].timestamp_ms == 0, "a collected series has no timestamp of its own");
  vp_reach("done");
}
extern "C" void c14_text() { unsigned t = vp_choose(5, "type"); RM_TYPES(t, text); }
// names that contain or resemble each other; equal help, labels and values
extern "C" void c14_names() {
  Registry r;
  static const char* const names[] = {"a", "ab", "a_b", "b", "A", "aa", "a_total"};
  bool twins = vp_choose(2, "twins");
  unsigned t[3]; t[0] = vp_choose(5, "type"); t[1] = (t[0] + vp_choose(VP_TIER(2, 5), "type2")) % 5; t[2] = (t[0] + 2 * vp_choose(2, "type3")) % 5;
  std::vector<Fam> model;
  for (unsigned i = 0; i < 3; i++) {
    std::string n = names[vp_choose(7, "name")];
    for (auto& f : model) vp_assume(f.name != n);
    std::string h = twins ? "help" : "help" + n;
    Labels c = twins ? Labels{{"c", "v"}} : Labels{};
    void* p = reg(t[i], r, n, h, c);
    VP_CHECK(p != nullptr, "an unused name can be registered");
    model.push_back(Fam{t[i], n, h, c, p, {}});
    void* s = add(t[i], p, {{"s", "0"}});
    touch(t[i], s);
    model.back().series.push_back(Series{{{"s", "0"}}, s, 1});
  }
  audit(r, model);
  vp_reach("done");
}
// many families, many series, long texts
extern "C" void c14_large() {
  Registry r;
  std::vector<Fam> model;
  unsigned n = VP_TIER(40, 120);
  std::string help = vp::long_string(200, "help");
  for (unsigned i = 0; i < n; i++) {
    std::string name = std::string(1 + i % 4, (char)('a' + i % 26)) + "_" + std::string(i / 26, 'x') + (i % 7 ? "" : std::string(60, 'y'));
    std::string h = i % 10 == 3 ? help : "help " + name;
    unsigned t = (i * 3) % 5;
    Labels c = i % 4 ? Labels{} : Labels{{"c", name}};
    void* p = reg(t, r, name, h, c);
    VP_CHECK(p != nullptr, "an unused name can be registered");
    model.push_back(Fam{t, name, h, c, p, {}});
    for (unsigned k = 0; k < (i == 11 ? 30 : i % 3); k++) {
      Labels l{{"s", std::string(1 + k % 3, (char)('a' + k))}};
      void* s = add(t, p, l); touch(t, s);
      model.back().series.push_back(Series{l, s, 1});
    }
  }
  audit(r, model);
  unsigned k = vp_choose(n, "which");
  if (vp_choose(2, "op")) { VP_CHECK(remove(model[k].type, r, model[k].p), "removing a registered family reports that it was present"); model.erase(model.begin() + k); }
  else if (!model[k].series.empty()) { drop(model[k].type, model[k].p, model[k].series[0].p); model[k].series.erase(model[k].series.begin()); }
  else { Labels l{{"s", "late"}}; void* s = add(model[k].type, model[k].p, l); touch(model[k].type, s); model[k].series.push_back(Series{l, s, 1}); }
  audit(r, model);
  untouched(model);
  vp_reach("done");
}
