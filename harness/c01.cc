// C01: the text exposition carries exactly the collected data
//@ sources core/
//@ bounds one family with one metric: 0..1 labels of 0..2 arbitrary bytes (thorough: 0..2 labels of 0..2 bytes) on every metric type, help of 0..3 arbitrary bytes, arbitrary doubles, 64-bit counts and timestamps, up to 2 (thorough 3) quantiles/buckets; lists of up to 2 (thorough 3) families with up to 2 metrics each of any type; large outputs: help and a label value of 300 bytes of which one is arbitrary, 12 labels, 24 quantiles or buckets, 40 families
//@ assume metric and label names are valid (C10, C12); number-to-text conversion of libstdc++ is trusted (numbers are symbolic tokens carrying value and effective stream format); bucket bounds are not NaN
//@ entry c01_simple reach=done
//@ entry c01_labels reach=done
//@ entry c01_help reach=done
//@ entry c01_summary reach=done
//@ entry c01_histogram reach=done,inf,noinf
//@ entry c01_list reach=done
//@ entry c01_large reach=done
#include "expo.h"
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
using expo::Line;

static const char* type_text(MetricType t) {
  switch (t) {
    case MetricType::Counter: return "counter";
    case MetricType::Gauge: return "gauge";
    case MetricType::Info: return "gauge";
    case MetricType::Summary: return "summary";
    case MetricType::Untyped: return "untyped";
    case MetricType::Histogram: return "histogram";
  }
  return "";
}
static const MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Info, MetricType::Summary, MetricType::Untyped, MetricType::Histogram};

// every sample of one name, in order
static std::vector<const Line*> named(const std::vector<Line>& v, size_t b, size_t e, const std::string& n) {
  std::vector<const Line*> r;
  for (size_t i = b; i < e; i++) if (v[i].kind == 's' && v[i].name == n) r.push_back(&v[i]);
  return r;
}
// base labels and timestamp; returns the extra label if one is expected
static const expo::Lab* common(const Line& l, const ClientMetric& m, const char* extra) {
  VP_CHECK(l.labels.size() == m.label.size() + (extra ? 1 : 0), "a sample carries exactly its labels");
  const expo::Lab* x = nullptr; size_t k = 0;
  for (auto& a : l.labels) {
    if (extra && !x && a.name == extra) { x = &a; continue; }
    VP_CHECK(k < m.label.size() && a.name == m.label[k].name, "label names are carried in order");
    VP_CHECK(a.value.size() == m.label[k].value.size(), "label value is carried byte for byte");
    VP_ASSERT(memcmp(a.value.data(), m.label[k].value.data(), a.value.size()) == 0, "label value is carried byte for byte");
    k++;
  }
  VP_CHECK(!extra || (x && x->num), "the extra label is present");
  if (l.has_ts) VP_ASSERT(expo::is_i64(l.ts, m.timestamp_ms), "timestamp is carried");
  VP_ASSERT((m.timestamp_ms == 0) | l.has_ts, "a non-zero timestamp is carried");
  return x;
}
static void check_family(const std::vector<Line>& v, size_t b, size_t e, const MetricFamily& f) {
  size_t help = 0, type = 0, firstSample = e;
  for (size_t i = b; i < e; i++) {
    if (v[i].kind == 's') { if (firstSample == e) firstSample = i; continue; }
    VP_CHECK(i < firstSample, "comment lines precede the samples");
    VP_CHECK(v[i].kind != 'c', "no other comment lines");
    VP_CHECK(v[i].name == f.name, "comment lines name the family");
    if (v[i].kind == 'h') {
      help++;
      VP_CHECK(v[i].text.size() == f.help.size(), "help text is carried byte for byte");
      VP_ASSERT(memcmp(v[i].text.data(), f.help.data(), f.help.size()) == 0, "help text is carried byte for byte");
    } else { type++; VP_CHECK(v[i].text == type_text(f.type), "type is carried"); }
  }
  VP_CHECK(help == (f.help.empty() ? 0u : 1u), "one HELP line exactly if there is a help text");
  VP_CHECK(type == 1, "exactly one TYPE line");
  size_t n = 0;
  for (size_t i = b; i < e; i++) n += v[i].kind == 's';
  size_t want = 0;
  auto one = [&](const std::string& name, size_t k) -> const Line& {
    auto s = named(v, b, e, name);
    VP_CHECK(k < s.size(), "every sample of the family is present");
    return *s[k];
  };
  size_t q = 0, u = 0;
  for (size_t i = 0; i < f.metric.size(); i++) {
    auto& m = f.metric[i];
    switch (f.type) {
      case MetricType::Counter: case MetricType::Gauge: case MetricType::Untyped: {
        auto& l = one(f.name, i); common(l, m, nullptr);
        double x = f.type == MetricType::Counter ? m.counter.value : f.type == MetricType::Gauge ? m.gauge.value : m.untyped.value;
        VP_ASSERT(expo::is_double(l.value, x), "value is carried"); want++; break; }
      case MetricType::Info: {
        auto& l = one(f.name + "_info", i); common(l, m, nullptr); VP_ASSERT(expo::is_double(l.value, m.info.value), "info value is carried"); want++; break; }
      case MetricType::Summary: {
        auto& c = one(f.name + "_count", i); common(c, m, nullptr); VP_ASSERT(expo::is_u64(c.value, m.summary.sample_count), "count is carried");
        auto& s = one(f.name + "_sum", i); common(s, m, nullptr); VP_ASSERT(expo::is_double(s.value, m.summary.sample_sum), "sum is carried");
        for (auto& x : m.summary.quantile) {
          auto& l = one(f.name, q++); auto* ex = common(l, m, "quantile");
          VP_ASSERT(expo::is_double(ex->n, x.quantile), "quantile label is carried"); VP_ASSERT(expo::is_double(l.value, x.value), "quantile value is carried");
        }
        want += 2 + m.summary.quantile.size(); break; }
      case MetricType::Histogram: {
        auto& c = one(f.name + "_count", i); common(c, m, nullptr); VP_ASSERT(expo::is_u64(c.value, m.histogram.sample_count), "count is carried");
        auto& s = one(f.name + "_sum", i); common(s, m, nullptr); VP_ASSERT(expo::is_double(s.value, m.histogram.sample_sum), "sum is carried");
        bool inf = false;
        for (auto& x : m.histogram.bucket) {
          auto& l = one(f.name + "_bucket", u++); auto* ex = common(l, m, "le");
          VP_ASSERT(expo::is_double(ex->n, x.upper_bound), "bucket bound is carried"); VP_ASSERT(expo::is_u64(l.value, x.cumulative_count), "bucket count is carried");
          inf = vp_decide(x.upper_bound == std::numeric_limits<double>::infinity());
        }
        if (!inf) {
          auto& l = one(f.name + "_bucket", u++); auto* ex = common(l, m, "le");
          VP_ASSERT(expo::is_double(ex->n, std::numeric_limits<double>::infinity()), "a histogram ends in a +Inf bucket"); VP_ASSERT(expo::is_u64(l.value, m.histogram.sample_count), "the +Inf bucket equals the count");
          vp_reach("noinf");
        } else vp_reach("inf");
        want += 2 + m.histogram.bucket.size() + !inf; break; }
    }
  }
  VP_CHECK(n == want, "no sample is added or dropped");
}
static void check_all(const std::vector<MetricFamily>& fs, const char* numlabel) {
  TextSerializer ts;
  std::string out = static_cast<const Serializer&>(ts).Serialize(fs);
  bool ok;
  std::vector<Line> v = expo::read(out, numlabel, ok);
  // a family starts at the comment lines that follow samples or another family's TYPE line
  size_t b = 0;
  for (size_t k = 0; k < fs.size(); k++) {
    size_t e = b; bool t = false, s = false;
    while (e < v.size()) {
      if (v[e].kind == 's') s = true;
      else { if (s || (t && v[e].kind != 'c')) break; if (v[e].kind == 't') t = true; }
      e++;
    }
    check_family(v, b, e, fs[k]);
    b = e;
  }
  VP_CHECK(b == v.size(), "nothing is written beyond the families given");
  if (!vp_native()) vp_out(v.size()); else vp_out(v.size());
  vp_reach("done");
}
static void add_labels(ClientMetric& m, unsigned lo, unsigned hi, unsigned len) {
  static const char* const names[] = {"a", "label_2", "Z9"};
  unsigned n = lo + vp_choose(hi - lo + 1, "nlabels");
  for (unsigned i = 0; i < n; i++) { ClientMetric::Label l; l.name = names[i]; l.value = vp::sym_string_upto(0, len, "label", "len"); m.label.push_back(l); }
}
static MetricFamily fam(MetricType t, const char* name) { MetricFamily f; f.name = name; f.type = t; return f; }

// plain values of every type with any value and timestamp
extern "C" void c01_simple() {
  static const MetricType ty[] = {MetricType::Counter, MetricType::Gauge, MetricType::Info, MetricType::Untyped};
  MetricFamily f = fam(ty[vp_choose(4, "type")], "metric:name_1");
  ClientMetric m;
  double x = vp::sym_double("value");
  if (f.type == MetricType::Counter) m.counter.value = x; else if (f.type == MetricType::Gauge) m.gauge.value = x; else if (f.type == MetricType::Untyped) m.untyped.value = x;
  m.timestamp_ms = vp::sym_i64("timestamp");
  add_labels(m, 0, 1, 1);
  f.metric.push_back(m);
  check_all({f}, nullptr);
}
// label values of any bytes
extern "C" void c01_labels() {
  MetricFamily f = fam(types[vp_choose(6, "type")], "m");
  ClientMetric m;
  add_labels(m, 1, VP_TIER(1, 2), 2);
  f.metric.push_back(m);
  check_all({f}, f.type == MetricType::Summary ? "quantile" : "le");
}
// help text of any bytes
extern "C" void c01_help() {
  MetricFamily f = fam(vp_choose(2, "type") ? MetricType::Counter : MetricType::Histogram, "m");
  f.help = vp::sym_string_upto(0, VP_TIER(3, 4), "help", "len");
  f.metric.push_back(ClientMetric());
  check_all({f}, "le");
}
extern "C" void c01_summary() {
  MetricFamily f = fam(MetricType::Summary, "s_x");
  ClientMetric m;
  m.summary.sample_count = vp::sym_u64("count");
  m.summary.sample_sum = vp::sym_double("sum");
  unsigned n = vp_choose(VP_TIER(3, 4), "quantiles");
  for (unsigned i = 0; i < n; i++) { ClientMetric::Quantile q; q.quantile = vp::sym_double("quantile"); q.value = vp::sym_double("value"); vp_assume(vp::finite(q.quantile)); m.summary.quantile.push_back(q); }
  add_labels(m, 0, 1, 1);
  m.timestamp_ms = vp_choose(2, "ts") ? vp::sym_i64("timestamp") : 0;
  f.metric.push_back(m);
  check_all({f}, "quantile");
}
extern "C" void c01_histogram() {
  MetricFamily f = fam(MetricType::Histogram, "h_x");
  ClientMetric m;
  m.histogram.sample_count = vp::sym_u64("count");
  m.histogram.sample_sum = vp::sym_double("sum");
  unsigned n = vp_choose(VP_TIER(3, 4), "buckets");
  for (unsigned i = 0; i < n; i++) {
    ClientMetric::Bucket b; b.upper_bound = vp::sym_double("bound"); b.cumulative_count = vp::sym_u64("cumulative");
    vp_assume(b.upper_bound == b.upper_bound);
    if (i + 1 < n) vp_assume(b.upper_bound < std::numeric_limits<double>::infinity());
    m.histogram.bucket.push_back(b);
  }
  add_labels(m, 0, 1, 1);
  m.timestamp_ms = vp_choose(2, "ts") ? vp::sym_i64("timestamp") : 0;
  f.metric.push_back(m);
  check_all({f}, "le");
}
// lists of families and metrics of every type
extern "C" void c01_list() {
  static const char* const names[] = {"first", "second_total", "third"};
  unsigned n = vp_choose(VP_TIER(3, 4), "families");
  std::vector<MetricFamily> fs; bool q = false, h = false;
  for (unsigned i = 0; i < n; i++) {
    MetricFamily f = fam(types[vp_choose(6, "type")], names[i]);
    q |= f.type == MetricType::Summary; h |= f.type == MetricType::Histogram;
    if (vp_choose(2, "help")) f.help = "text";
    unsigned k = VP_TIER(1, 1) + vp_choose(VP_TIER(2, 2), "metrics");
    for (unsigned j = 0; j < k; j++) {
      ClientMetric m; ClientMetric::Label l; l.name = "i"; l.value = j ? "two" : "one"; m.label.push_back(l);
      m.counter.value = m.gauge.value = m.untyped.value = vp::bits_to_double(vp_sym("value", 62));
      m.summary.sample_count = m.histogram.sample_count = vp::sym_u64("count");
      ClientMetric::Quantile qq; qq.quantile = 0.5; qq.value = 2.5; m.summary.quantile.push_back(qq);
      ClientMetric::Bucket b; b.upper_bound = 1.5; b.cumulative_count = vp::sym_u64("cumulative"); m.histogram.bucket.push_back(b);
      vp_assume(vp::finite(m.counter.value));
      f.metric.push_back(m);
    }
    fs.push_back(f);
  }
  vp_assume(!(q && h));   // one numeric label name per list
  check_all(fs, q ? "quantile" : "le");
}
// the same for large outputs: long texts, many labels, buckets, quantiles, families
extern "C" void c01_large() {
  static const MetricType ty[] = {MetricType::Counter, MetricType::Histogram, MetricType::Summary, MetricType::Info};
  unsigned what = vp_choose(4, "what");
  MetricType t = what == 3 ? MetricType::Untyped : ty[vp_choose(what == 2 ? 2 : 4, "type") + (what == 2 ? 1 : 0)];
  std::vector<MetricFamily> fs;
  for (unsigned i = 0; i < (what == 3 ? 40u : 1u); i++) {
    MetricFamily f = fam(what == 3 ? types[(i * 7) % 6 == 3 ? 0 : (i * 7) % 6] : t, "m");   // no summaries among histograms
    f.name += std::string(i % 17, 'x');
    if (what == 0 && vp_choose(2, "help")) f.help = vp::long_string(300, "help");
    if (what == 3 && i % 3) f.help = "some help";
    ClientMetric m;
    double x = vp::bits_to_double(vp_sym("value", 62)); vp_assume(vp::finite(x));
    m.counter.value = m.gauge.value = m.untyped.value = m.summary.sample_sum = m.histogram.sample_sum = x;
    m.summary.sample_count = m.histogram.sample_count = vp::sym_u64("count");
    if (what == 0 && f.help.empty()) { ClientMetric::Label l; l.name = std::string(300, 'n'); l.value = vp::long_string(300, "label"); m.label.push_back(l); }
    if (what == 1) for (int k = 0; k < 12; k++) { ClientMetric::Label l; l.name = std::string(1 + k, 'l'); l.value = k == 11 || k == 5 ? vp::sym_string(1, "label") : std::string(k, 'v'); m.label.push_back(l); }
    if (what == 2) for (int k = 0; k < 24; k++) {
      ClientMetric::Bucket b; b.upper_bound = k * 2.5; b.cumulative_count = vp::sym_u64("cumulative"); m.histogram.bucket.push_back(b);
      ClientMetric::Quantile q; q.quantile = k / 32.0; q.value = vp::bits_to_double(vp_sym("quantile", 62)); vp_assume(vp::finite(q.value)); m.summary.quantile.push_back(q);
    }
    for (int k = 0; k < (what == 2 ? 3 : 1); k++) { m.timestamp_ms = what == 1 ? vp::sym_i64("timestamp") : 0; f.metric.push_back(m); }
    fs.push_back(f);
  }
  check_all(fs, t == MetricType::Summary ? "quantile" : "le");
}
