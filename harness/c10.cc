// C10: exactly the valid metric and label names are accepted
//@ sources core/
//@ bounds every byte string of length 0..4 (thorough 0..5); "quantile" and names of 9 (thorough 17) letters with any 1 (thorough 2) positions holding any byte; names of 33 to 300 characters with one arbitrary byte at the start, the end or in between; all metric types; the C locale functions answer arbitrarily for bytes above 127; two checks in a row of texts of 2 characters, 1 and 2 of them arbitrary, in one string object, and three of reserved names, as metric or label name of any metric type
//@ entry c10_metric reach=accepted,refused
//@ entry c10_label reach=accepted,refused
//@ entry c10_reserved reach=accepted,refused
//@ entry c10_long reach=accepted,refused
//@ entry c10_large reach=accepted,refused
//@ entry c10_changing reach=accepted,refused
#include "prometheus/check_names.h"
#include "vp.h"
#include <cstring>
using namespace prometheus;
static int letter(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static int digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
// the documented regular expressions, without branches
static int valid(const std::string& s, bool colon) {
  size_t n = s.size();
  if (n == 0) return 0;
  int ok = 1;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    int in = letter(c);
    if (colon) in |= c == ':';
    if (i) in |= digit(c);
    ok &= in;
  }
  if (n >= 2) ok &= !((s[0] == '_') & (s[1] == '_'));
  return ok;
}
static int is(const std::string& s, const char* w) {
  if (s.size() != strlen(w)) return 0;
  int r = 1;
  for (size_t i = 0; i < s.size(); i++) r &= s[i] == w[i];
  return r;
}
static void metric(const std::string& s) {
  bool r = CheckMetricName(s);
  if (r) { VP_ASSERT(valid(s, true), "only valid metric names are accepted"); vp_reach("accepted"); }
  else { VP_ASSERT(!valid(s, true), "every valid metric name is accepted"); vp_reach("refused"); }
  vp_out(r);
}
static void label(const std::string& s, MetricType t) {
  int want = valid(s, false);
  if (t == MetricType::Histogram) want &= !is(s, "le");
  if (t == MetricType::Summary) want &= !is(s, "quantile");
  bool r = CheckLabelName(s, t);
  if (r) { VP_ASSERT(want, "only valid label names are accepted"); vp_reach("accepted"); }
  else { VP_ASSERT(!want, "every valid label name is accepted"); vp_reach("refused"); }
  vp_out(r);
}
static const MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Summary, MetricType::Untyped, MetricType::Histogram, MetricType::Info};
extern "C" void c10_metric() { vp_foreign_ctype = 1; metric(vp::sym_string_upto(0, VP_TIER(4, 5), "name", "len")); }
extern "C" void c10_label() {
  vp_foreign_ctype = 1;
  MetricType t = VP_THOROUGH ? types[vp_choose(6, "type")] : vp_choose(2, "type") ? MetricType::Histogram : MetricType::Summary;
  label(vp::sym_string_upto(0, VP_TIER(4, 5), "name", "len"), t);
}
static std::string with(const char* base, size_t n) {
  std::string s(base, n), x = vp::sym_string(VP_TIER(1, 2), "byte");
  for (size_t i = 0; i < x.size(); i++) s[vp_choose((unsigned)n, "pos")] = x[i];
  return s;
}
extern "C" void c10_reserved() {
  static const char* const words[] = {"quantile", "le", "quantile_", "les", "Le", "xquantile"};
  std::string s = words[vp_choose(6, "word")];
  s = with(s.c_str(), s.size());
  label(s, types[vp_choose(6, "type")]);
}
extern "C" void c10_long() {
  std::string s = with("abcd_fghIjklmnopq", VP_TIER(9, 17));
  if (vp_choose(2, "metric")) metric(s); else label(s, types[vp_choose(6, "type")]);
}
extern "C" void c10_large() {
  static const unsigned len[] = {33, 64, 65, 128, 129, 255, 256, 257, 300};
  std::string s = vp::long_string(len[vp_choose(9, "len")], "byte");
  if (vp_choose(2, "metric")) metric(s); else label(s, types[vp_choose(6, "type")]);
}
// answers do not depend on what was asked before, also about the same object
extern "C" void c10_changing() {
  std::string s;
  if (vp_choose(2, "text")) {
    for (unsigned i = 0; i < 2; i++) {
      std::string n = i ? vp::sym_string(2, "name") : "aa";
      if (!i) n[1] = vp::sym_string(1, "name")[0];
      s.assign(n);
      if (vp_choose(2, "metric")) metric(s); else label(s, i ? MetricType::Histogram : MetricType::Counter);
    }
  } else {
    s.assign(vp_choose(2, "word") ? "le" : "quantile");
    for (unsigned i = 0; i < 3; i++) { if (vp_choose(4, "metric") == 0) metric(s); else label(s, types[vp_choose(6, "type")]); }
  }
}
