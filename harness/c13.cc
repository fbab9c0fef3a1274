// C13: family names are unique in a registry under the chosen policy
//@ sources core/
//@ bounds every sequence of up to 3 (thorough 4) register/remove operations for every ordered pair of the 5 metric types; the names are 2 names that may or may not be equal (1 arbitrary valid byte each); the constant labels have 0..1 label with an arbitrary 1-byte value; both insert behaviours; every family with or without a series; every ordered pair of 9 constant label sets that contain or resemble each other; 40 (thorough 120) families with one arbitrary operation at the end
//@ entry c13_pair reach=created,merged,typeclash,refused,freed
//@ entry c13_seq reach=created,merged,typeclash,refused,freed
//@ entry c13_names reach=created,merged,refused
//@ entry c13_labels reach=created,merged,refused
//@ entry c13_large reach=created,merged,typeclash,refused,freed
#include "registry.h"
using namespace rm;
struct W { Registry r; bool merge; std::vector<Fam> model; unsigned removed; W(bool m) : r(m ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw), merge(m), removed(0) {} };
static std::string letter(const char* tag) {
  std::string s = vp::sym_string(1, tag);
  vp_assume((s[0] >= 'a') & (s[0] <= 'z'));
  return s;
}
static void enroll(W& w, unsigned t, const std::string& name, const std::string& help, const Labels& k, bool series) {
  Fam* old = nullptr;
  for (auto& f : w.model) if (same(f.name, name)) old = &f;
  bool tc = old && old->type != t, ok = !old || (!tc && w.merge && same(old->constant, k));
  void* p = reg(t, w.r, name, help, k);
  if (!ok) {
    VP_CHECK(p == nullptr, tc ? "a name that another metric type uses is refused" : "a second registration that the policy does not allow is refused");
    vp_reach(tc ? "typeclash" : "refused");
    return;
  }
  VP_CHECK(p != nullptr, old ? "merging the same registration succeeds" : "an unused name is free");
  VP_CHECK(meta(t, p, name, k), "a registration returns a family with the requested name and labels");
  if (old) { VP_CHECK(p == old->p, "merging returns the existing family"); vp_reach("merged"); return; }
  for (auto& f : w.model) VP_CHECK(f.p != p, "a new name gives a new family");
  w.model.push_back(Fam{t, name, help, k, p, {}});
  vp_reach(w.removed ? "freed" : "created");
  if (series) {
    void* s = add(t, p, {});
    touch(t, s);
    w.model.back().series.push_back(Series{{}, s, 1});
  }
}
static void dismiss(W& w, size_t i) {
  VP_CHECK(remove(w.model[i].type, w.r, w.model[i].p), "removing a registered family succeeds");
  w.model.erase(w.model.begin() + i);
  w.removed++;
}
// two registrations, the removal of one, and a third registration
extern "C" void c13_pair() {
  W w(vp_choose(2, "merge"));
  unsigned t1 = vp_choose(5, "type1"), t2 = vp_choose(5, "type2");
  std::string a = letter("a"), b = letter("b");
  Labels ka{{"k", vp::sym_string(1, "ka")}}, kb{{"k", vp::sym_string(1, "kb")}};
  bool s = vp_choose(2, "series");
  enroll(w, t1, a, "help one", ka, s);
  enroll(w, t2, b, "help two", kb, s);
  audit(w.r, w.model);
  if (vp_choose(2, "third")) {
    dismiss(w, vp_choose((unsigned)w.model.size(), "gone"));
    enroll(w, vp_choose(2, "type3") ? t1 : t2, a, "help three", kb, true);
    audit(w.r, w.model);
  }
  vp_out(w.model.size());
}
extern "C" void c13_seq() {
  W w(vp_choose(2, "merge"));
  static const unsigned pairs[][2] = {{0, 1}, {2, 3}, {4, 0}, {3, 4}, {1, 2}};
  const unsigned* ty = pairs[vp_choose(VP_TIER(3, 5), "types")];
  std::string nm[2] = {"n", letter("n2")};
  Labels ls[2] = {{}, {{"k", "v"}}};
  unsigned n = VP_TIER(3, 4);
  for (unsigned i = 0; i < n; i++) {
    unsigned op = vp_choose(2, "op");
    if (op == 0) enroll(w, ty[vp_choose(2, "type")], nm[vp_choose(2, "name")], i == 0 ? "first" : "later", ls[vp_choose(2, "labels")], true);
    else if (!w.model.empty()) dismiss(w, vp_choose((unsigned)w.model.size(), "which"));
    else break;
  }
  audit(w.r, w.model);
  vp_out(w.model.size());
}
// names that resemble each other; several families before the one that matters
extern "C" void c13_names() {
  W w(vp_choose(2, "merge"));
  unsigned t = vp_choose(5, "type"), o = vp_choose(5, "other");
  static const char* const names[] = {"name", "name_total", "Name", "nam", "name_"};
  unsigned before = vp_choose(4, "before");
  for (unsigned i = 0; i < before; i++) enroll(w, (t + i) % 5, names[i], "", {}, true);
  std::string x = "nam"; x += letter("x");
  std::string y = vp_choose(2, "longer") ? x + "_total" : x;
  enroll(w, o, y, "late", {}, true);
  // the families that were there before can still be found, whatever came after
  for (unsigned i = 0; i < before; i++) enroll(w, (t + i) % 5, names[i], "again", {}, false);
  audit(w.r, w.model);
  vp_out(w.model.size());
}
// constant labels that contain or resemble each other
extern "C" void c13_labels() {
  W w(vp_choose(2, "merge"));
  std::string v = vp::sym_string(1, "v");
  std::vector<Labels> u{Labels{}, Labels{{"a", "x"}}, Labels{{"a", v}}, Labels{{"a", ""}}, Labels{{"b", "x"}}, Labels{{"a", "x"}, {"b", "y"}}, Labels{{"a", "x"}, {"b", v}}, Labels{{"a", "y"}, {"b", "x"}}, Labels{{"a", "x"}, {"b", "y"}, {"c", "z"}}};
  unsigned t = vp_choose(5, "type");
  const Labels &first = u[vp_choose((unsigned)u.size(), "first")], &second = u[vp_choose((unsigned)u.size(), "second")];
  enroll(w, t, "name", "help", first, true);
  enroll(w, t, "name", vp_choose(2, "help") ? "help" : "another help", second, true);
  audit(w.r, w.model);
}
// many families
extern "C" void c13_large() {
  W w(vp_choose(2, "merge"));
  unsigned n = VP_TIER(40, 120);
  std::vector<std::string> names;
  for (unsigned i = 0; i < n; i++) {
    std::string s = std::string(1 + i % 4, (char)('a' + i % 26)) + "_" + std::string(i / 26, 'x') + (i % 7 ? "" : std::string(60, 'y'));
    names.push_back(s);
    enroll(w, (i * 3) % 5, s, "help " + s, i % 2 ? Labels{{"k", s}} : Labels{}, i % 3 != 0);
  }
  unsigned k = vp_choose(n, "which"), op = vp_choose(4, "op");
  if (op == 0) enroll(w, w.model[k].type, names[k], "again", w.model[k].constant, false);
  else if (op == 1) enroll(w, w.model[k].type, names[k], "again", Labels{{"k", "other"}}, false);
  else if (op == 2) enroll(w, (w.model[k].type + 1 + vp_choose(4, "type")) % 5, names[k], "again", w.model[k].constant, false);
  else { dismiss(w, k); enroll(w, vp_choose(5, "type"), names[k], "new", {}, true); }
  audit(w.r, w.model);
}
