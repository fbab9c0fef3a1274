// C27: label identity, ordering and hashing agree
//@ sources core/
//@ bounds order: names and values of 0..2 (thorough 0..3) arbitrary bytes for pairs, of 0..1 (thorough 0..2) arbitrary bytes for triples; hash: label sets of 0..2 (thorough 0..3) labels with names and values of 0..2 arbitrary bytes, built in either insertion order; names and values of 8..300 bytes that differ in one arbitrary byte or in length; label sets of 8 labels; label sets whose values are replaced or swapped in place between two hashes, also with another set hashed in between
//@ assume the hash of a byte string (libstdc++) is an arbitrary function of its content
//@ entry c27_pair reach=less,equal,greater
//@ entry c27_triple reach=done
//@ entry c27_hash reach=equal,different
//@ entry c27_large reach=less,equal,greater
//@ entry c27_hash_large reach=equal,different
//@ entry c27_changing reach=done
#include "prometheus/client_metric.h"
#include "prometheus/detail/utils.h"
#include "vp.h"
using namespace prometheus;
typedef ClientMetric::Label L;
static L lab(unsigned n) { L l; l.name = vp::sym_string_upto(0, n, "name", "nlen"); l.value = vp::sym_string_upto(0, n, "value", "vlen"); return l; }
static int same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
extern "C" void c27_pair() {
  L a = lab(VP_TIER(2, 3)), b = lab(VP_TIER(2, 3));
  bool lt = a < b, gt = b < a, eq = a == b, qe = b == a;
  int is = same(a.name, b.name) & same(a.value, b.value);
  if (eq) VP_ASSERT(is, "equal labels have equal name and value"); else VP_ASSERT(!is, "labels with equal name and value are equal");
  VP_CHECK(eq == qe, "equality is symmetric");
  VP_CHECK((int)lt + (int)gt + (int)eq == 1, "exactly one of less, equal, greater holds");
  VP_CHECK(!(a < a) && a == a, "a label equals itself");
  vp_out(lt); vp_out(gt);
  vp_reach(eq ? "equal" : lt ? "less" : "greater");
}
extern "C" void c27_triple() {
  L a = lab(VP_TIER(1, 2)), b = lab(VP_TIER(1, 1)), c = lab(VP_TIER(1, 1));
  bool ab = a < b, bc = b < c;
  vp_assume(ab && bc);
  VP_CHECK(a < c, "the order of labels is transitive");
  vp_reach("done");
}
extern "C" void c27_hash() {
  unsigned n = vp_choose(VP_TIER(3, 4), "nlabels");
  static const char* const names[] = {"a", "b", "c"};
  std::string v[3], w[3];
  Labels x, y;
  int eq = 1;
  for (unsigned i = 0; i < n; i++) {
    v[i] = vp::sym_string_upto(0, n > 1 ? 1 : 2, "v", "vlen"); w[i] = vp::sym_string_upto(0, n > 1 ? 1 : 2, "w", "wlen");
    eq &= same(v[i], w[i]);
  }
  bool rev = vp_choose(2, "reverse");
  for (unsigned i = 0; i < n; i++) x[names[i]] = v[i];
  Labels other; other["zz"] = "y";   // unrelated objects in between
  for (unsigned i = 0; i < n; i++) { unsigned k = rev ? n - 1 - i : i; y[names[k]] = w[k]; }
  if (vp_choose(2, "history")) { y["d"] = "x"; y.erase("d"); x.insert(std::make_pair(std::string("d"), std::string())); x.erase(x.find("d")); }
  detail::LabelHasher h1, h2;
  size_t hx = h1(x);
  size_t hy = h2(y);
  Labels copy = x;
  VP_CHECK(h2(copy) == hx && h1(x) == hx, "the hash of a label set depends on nothing but its content");
  if (vp_decide(eq)) { VP_CHECK(hx == hy, "equal label sets have equal hashes"); vp_reach("equal"); } else vp_reach("different");
}
// long texts that differ in one byte or in length
extern "C" void c27_large() {
  static const unsigned len[] = {8, 15, 16, 17, 40, 255, 300};
  unsigned n = len[vp_choose(7, "len")], where = vp_choose(2, "where");
  std::string p = vp::long_string(n, "a"), q = vp::long_string(n, "b");
  unsigned cut = vp_choose(3, "cut");
  if (cut == 1) q.pop_back(); else if (cut == 2) q += 'x';
  L a, b; a.name = b.name = "n"; a.value = b.value = std::string(20, 'v');
  if (where) { a.name = p; b.name = q; b.value += vp_choose(2, "v") ? "x" : ""; } else { a.value = p; b.value = q; }
  bool lt = a < b, gt = b < a, eq = a == b;
  int is = same(a.name, b.name) & same(a.value, b.value);
  if (eq) VP_ASSERT(is, "equal labels have equal name and value"); else VP_ASSERT(!is, "labels with equal name and value are equal");
  VP_CHECK((int)lt + (int)gt + (int)eq == 1, "exactly one of less, equal, greater holds");
  vp_reach(eq ? "equal" : lt ? "less" : "greater");
}
extern "C" void c27_hash_large() {
  Labels x, y;
  std::string v = vp::long_string(120, "v"), w = vp::long_string(120, "w");
  bool rev = vp_choose(2, "reverse");
  for (unsigned i = 0; i < 8; i++) {
    unsigned k = rev ? 7 - i : i;
    std::string xn(1 + i, (char)('a' + i)), yn(1 + k, (char)('a' + k));
    x[xn] = i == 6 ? v : std::string(i * 5, 'q'); y[yn] = k == 6 ? w : std::string(k * 5, 'q');
  }
  detail::LabelHasher h;
  size_t hx = h(x), hy = h(y);
  VP_CHECK(h(x) == hx, "the hash of a label set depends on nothing but its content");
  if (vp_decide(same(v, w))) { VP_CHECK(hx == hy, "equal label sets have equal hashes"); vp_reach("equal"); } else vp_reach("different");
}
// the hash follows a label set whose content changes
extern "C" void c27_changing() {
  detail::LabelHasher h;
  Labels x; x["a"] = vp::sym_string(1, "v"); x["b"] = vp::sym_string(1, "v");
  h(x);
  if (vp_choose(2, "between")) { Labels o; o["q"] = "r"; h(o); }
  std::string v = vp::sym_string(1, "v");
  if (vp_choose(2, "swap")) x["a"].swap(x["b"]); else x["b"].assign(v);
  Labels y; for (auto& l : x) y[l.first] = l.second;
  detail::LabelHasher h2;
  size_t hy = vp_choose(2, "first") ? h2(y) : h2(Labels(y));
  VP_CHECK(h(x) == hy, "equal label sets have equal hashes");
  ClientMetric::Label a, b; a.name = b.name = "n"; a.value = vp::sym_string(1, "v"); b.value = a.value;
  bool e1 = a == b, l1 = a < b;
  VP_CHECK(e1 && !l1, "labels with equal name and value are equal");
  b.value[0] = vp::sym_string(1, "v")[0];
  bool e2 = a == b;
  if (e2) VP_ASSERT(same(a.value, b.value), "equal labels have equal name and value"); else VP_ASSERT(!same(a.value, b.value), "labels with equal name and value are equal");
  VP_CHECK((int)(a < b) + (int)(b < a) + (int)e2 == 1, "exactly one of less, equal, greater holds");
  vp_reach("done");
}
