// C12: invalid label sets are refused and leave no trace
//@ sources core/
//@ bounds every metric type; family names and constant label names of 0..3 arbitrary bytes; series label names of 0..2 arbitrary bytes (alone, or with another label before or after), "le"/"quantile" with one arbitrary byte; 0..1 constant labels; the constant value equal to or different from the series label value; 0..1 existing series; 8 labels, constant or of a series, any one of which has a name of 1..2 arbitrary bytes
//@ entry c12_family reach=accepted,refused
//@ entry c12_registry reach=accepted,refused
//@ entry c12_add reach=accepted,refused,dup
//@ entry c12_reserved reach=accepted,refused
//@ entry c12_many reach=accepted,refused
#include "metric.h"
#include "prometheus/detail/builder.h"
#include <cstring>
#include <stdexcept>
using namespace mt;
static int letter(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static int digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static int valid(const std::string& s, bool metric) {
  size_t n = s.size();
  if (n == 0) return 0;
  int ok = 1;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    int in = letter(c);
    if (metric) in |= c == ':';
    if (i) in |= digit(c);
    ok &= in;
  }
  if (n >= 2) ok &= !((s[0] == '_') & (s[1] == '_'));
  return ok;
}
static int is(const std::string& s, const char* w) {
  if (s.size() != strlen(w)) return 0;
  int r = 1;
  for (size_t i = 0; i < s.size(); i++) r &= s[i] == w[i];
  return r;
}
template <class T> static int labelOk(const std::string& n) {
  int ok = valid(n, false);
  if (T::metric_type == MetricType::Histogram) ok &= !is(n, "le");
  if (T::metric_type == MetricType::Summary) ok &= !is(n, "quantile");
  return ok;
}
template <class T> static void family(bool reg) {
  std::string name = "fam";
  Labels k;
  int want = 1;
  unsigned what = vp_choose(3, "what");
  if (what == 0) { name = vp::sym_string_upto(0, VP_TIER(3, 4), "name", "len"); want = valid(name, true); }
  else if (what == 1) { std::string l = vp::sym_string_upto(0, VP_TIER(3, 4), "label", "len"); k[l] = "v"; want = labelOk<T>(l); }
  else { std::string l = vp::sym_string_upto(0, 1, "label", "len"); k["good"] = "w"; k[l] = "v"; want = labelOk<T>(l); }
  if (reg) {
    Registry r;
    auto& other = detail::Builder<Info>().Name("other").Register(r); other.Add({});
    bool ok = true;
    try { auto& f = detail::Builder<T>().Name(name).Labels(k).Register(r); M<T>::add(f, {}); } catch (const std::exception&) { ok = false; }
    vp_assume(!vp_decide(is(name, "other")));
    std::vector<MetricFamily> v = r.Collect();
    if (ok) { VP_ASSERT(want, "a family with an invalid name or constant label name is refused"); VP_CHECK(v.size() == 2, "a registered family is collected"); vp_reach("accepted"); }
    else { VP_ASSERT(!want, "a family with valid names is accepted"); VP_CHECK(v.size() == 1 && v[0].name == "other", "a refused family leaves no trace"); vp_reach("refused"); }
    return;
  }
  bool ok = true;
  try { Family<T> f{name, "", k}; } catch (const std::exception&) { ok = false; }
  if (ok) { VP_ASSERT(want, "a family with an invalid name or constant label name is refused"); vp_reach("accepted"); }
  else { VP_ASSERT(!want, "a family with valid names is accepted"); vp_reach("refused"); }
  vp_out(ok);
}
#define FOR_TYPE(fn, ...) switch (vp_choose(5, "type")) { case 0: fn<Counter>(__VA_ARGS__); break; case 1: fn<Gauge>(__VA_ARGS__); break; case 2: fn<Histogram>(__VA_ARGS__); break; case 3: fn<Summary>(__VA_ARGS__); break; default: fn<Info>(__VA_ARGS__); }
extern "C" void c12_family() { FOR_TYPE(family, false) }
extern "C" void c12_registry() { FOR_TYPE(family, true) }

template <class T> static void snapshot(Family<T>& f, const Labels& k, bool existing, T* old) {
  VP_CHECK(f.Has(Labels{{"e", "1"}}) == existing, "a refused operation does not change membership");
  VP_CHECK(!f.Has({}), "a refused operation does not change membership");
  auto v = f.Collect();
  VP_CHECK(v.size() == (existing ? 1u : 0u), "a refused operation does not change the collection");
  if (existing) {
    VP_CHECK(v[0].metric.size() == 1 && carries(v[0].metric[0], k, Labels{{"e", "1"}}), "a refused operation does not change the collection");
    uint64_t c = M<T>::count(v[0].metric[0]);
    if (M<T>::counts) VP_CHECK(c == 1, "a refused operation does not change existing series");
    VP_CHECK(&M<T>::add(f, Labels{{"e", "1"}}) == old, "a refused operation does not change existing series");
  }
}
template <class T> static void add(const std::string& name) {
  Labels k;
  bool constant = vp_choose(2, "constant");
  if (constant) k["k"] = vp_choose(2, "kvalue") ? "1" : "v";
  Family<T> f{"fam", "", k};
  T* old = nullptr;
  bool existing = vp_choose(2, "existing");
  if (existing) { old = &M<T>::add(f, Labels{{"e", "1"}}); M<T>::touch(*old); }
  Labels l{{name, "1"}};
  unsigned extra = vp_choose(2, "extra");
  int dup = constant ? is(name, "k") : 0, want = labelOk<T>(name) & !dup;
  if (extra) { vp_assume(!vp_decide(is(name, "M"))); l["M"] = "2"; }   // sorts before lower-case and after digits
  else vp_assume(!vp_decide(is(name, "e")));
  bool ok = true;
  T* t = nullptr;
  try { t = &M<T>::add(f, l); } catch (const std::exception&) { ok = false; }
  if (ok) {
    VP_ASSERT(want, "a series with an invalid, reserved or constant label name is refused");
    VP_CHECK(f.Has(l), "an added series is a member");
    auto v = f.Collect();
    VP_CHECK(v.size() == 1 && v[0].metric.size() == 1u + existing, "an added series is collected");
    vp_reach("accepted");
  } else {
    VP_ASSERT(!want, "a valid series is accepted");
    VP_CHECK(!f.Has(l), "a refused series is not a member");
    snapshot(f, k, existing, old);
    // refused again, and a valid series can still be added
    bool again = false;
    try { M<T>::add(f, l); } catch (const std::exception&) { again = true; }
    VP_CHECK(again, "a refused series is refused again");
    VP_CHECK(!f.Has(l), "a refused series is not a member");
    snapshot(f, k, existing, old);
    M<T>::add(f, Labels{{"good", "1"}});
    VP_CHECK(f.Has(Labels{{"good", "1"}}), "valid series can be added after a refusal");
    vp_reach("refused");
    if (constant && vp_decide(dup)) vp_reach("dup");
  }
  vp_out(ok);
}
extern "C" void c12_add() { std::string n = vp::sym_string_upto(0, VP_TIER(2, 3), "name", "len"); FOR_TYPE(add, n) }
extern "C" void c12_reserved() {
  static const char* const words[] = {"le", "quantile"};
  std::string n = words[vp_choose(2, "word")], x = vp::sym_string(1, "byte");
  n[vp_choose((unsigned)n.size(), "pos")] = x[0];
  FOR_TYPE(add, n)
}
// many labels, any one of which may be wrong
template <class T> static void many() {
  static const char* const names[] = {"aa", "b1", "cc", "d_", "ee", "f", "g7", "h"};
  unsigned at = vp_choose(8, "at");
  std::string x = vp::sym_string_upto(1, 2, "name", "len");
  for (auto n : names) vp_assume(!vp_decide(is(x, n)));
  Labels l;
  for (unsigned i = 0; i < 8; i++) if (i != at) l[names[i]] = "v";
  l[x] = "w";
  int want = labelOk<T>(x);
  bool constant = vp_choose(2, "constant"), ok = true;
  if (constant) { try { Family<T> f{"fam", "", l}; } catch (const std::exception&) { ok = false; } }
  else {
    bool dup = vp_choose(2, "dup");
    Family<T> f{"fam", "", dup ? Labels{{"k", "1"}, {names[(at + 3) % 8], at % 2 ? "1" : "v"}, {"zz", "1"}} : Labels{{"k", "1"}, {"zz", "1"}}};
    want &= !dup & !is(x, "k") & !is(x, "zz");
    try { M<T>::add(f, l); } catch (const std::exception&) { ok = false; }
    VP_CHECK(f.Has(l) == ok && f.Collect().size() == (ok ? 1u : 0u), "a refused series leaves no trace");
  }
  if (ok) { VP_ASSERT(want, "label sets with an invalid, reserved or constant label name are refused"); vp_reach("accepted"); }
  else { VP_ASSERT(!want, "a valid label set is accepted"); vp_reach("refused"); }
}
extern "C" void c12_many() { if (VP_THOROUGH) { FOR_TYPE(many) } else { if (vp_choose(2, "type")) many<Histogram>(); else many<Summary>(); } }
