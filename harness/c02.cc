// C02: serialisation ignores and preserves the stream's formatting state
//@ sources core/
//@ bounds a list of one family of any type with one labelled metric (help, timestamp, one quantile, one bucket) with numbers on which every setting shows; stream with any combination of dec/oct/hex/none, fixed/scientific/hexfloat/default, left/right/internal, showpos, showbase, showpoint, uppercase, boolalpha, unitbuf; precision 0..18; fill any byte; width 0 or 9; classic or a foreign locale
//@ assume number-to-text conversion of libstdc++ is trusted (numbers are symbolic tokens carrying value and effective stream format)
//@ entry c02_state reach=done
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
#include "vp.h"
#include <cstring>
#include <sstream>
using namespace prometheus;

static const MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Info, MetricType::Summary, MetricType::Untyped, MetricType::Histogram};

extern "C" void c02_state() {
  MetricFamily f;
  f.name = "name"; f.type = types[vp_choose(6, "type")];
  if (vp_choose(2, "help")) f.help = "text";
  ClientMetric m;
  m.label.push_back(ClientMetric::Label{"a", "b"});
  // numbers on which every format setting shows
  double x = 1.2345678901234567e+30, y = vp_choose(2, "bound") ? 1234567.25 : 1e-7;
  m.counter.value = m.gauge.value = m.untyped.value = m.summary.sample_sum = m.histogram.sample_sum = x;
  m.summary.sample_count = m.histogram.sample_count = 1234567890123ULL;
  m.timestamp_ms = 1600000000000LL;
  ClientMetric::Quantile q; q.quantile = y; q.value = x; m.summary.quantile.push_back(q);
  ClientMetric::Bucket b; b.upper_bound = y; b.cumulative_count = m.summary.sample_count; m.histogram.bucket.push_back(b);
  if (vp_choose(2, "metric")) f.metric.push_back(m);
  TextSerializer ts;
  const Serializer& ser = ts;
  std::ostringstream plain, odd;
  std::vector<MetricFamily> fs(1, f);

  std::ios_base::fmtflags fl = std::ios_base::fmtflags(0);
  static const std::ios_base::fmtflags base[] = {std::ios_base::dec, std::ios_base::oct, std::ios_base::hex, std::ios_base::fmtflags(0)};
  static const std::ios_base::fmtflags flt[] = {std::ios_base::fmtflags(0), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific};
  static const std::ios_base::fmtflags adj[] = {std::ios_base::fmtflags(0), std::ios_base::left, std::ios_base::right, std::ios_base::internal};
  uint64_t k = vp_sym("flags", 12);
  auto pick = [&](const std::ios_base::fmtflags* t, uint64_t i) { return (std::ios_base::fmtflags)vp_ite64(i == 0, t[0], vp_ite64(i == 1, t[1], vp_ite64(i == 2, t[2], t[3]))); };
  fl |= pick(base, k & 3) | pick(flt, (k >> 2) & 3) | pick(adj, (k >> 4) & 3);
  static const std::ios_base::fmtflags one[] = {std::ios_base::showpos, std::ios_base::showbase, std::ios_base::showpoint, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::unitbuf};
  for (unsigned i = 0; i < 6; i++) fl |= (std::ios_base::fmtflags)vp_ite64((k >> (6 + i)) & 1, one[i], 0);
  int prec = (int)vp_sym("precision", 5); vp_assume(prec <= 18);
  char fill = (char)vp_sym("fill", 8);
  bool width = vp_choose(2, "width"), loc = vp_choose(2, "locale");
  odd.flags(fl); odd.precision(prec); odd.fill(fill);
  if (width) odd.width(9);
  if (loc) odd.imbue(vp::foreign_locale());
  std::locale before = odd.getloc();

  ser.Serialize(plain, fs);
  ser.Serialize(odd, fs);
  std::string a = plain.str(), c = odd.str();
  VP_CHECK(a.size() == c.size(), "the text does not depend on the stream's formatting state");
  VP_ASSERT(memcmp(a.data(), c.data(), a.size()) == 0, "the text does not depend on the stream's formatting state");
  VP_ASSERT(odd.flags() == fl, "the format flags are restored");
  VP_ASSERT(odd.precision() == prec, "the precision is restored");
  VP_ASSERT(odd.fill() == fill, "the fill character is restored");
  VP_CHECK(odd.getloc() == before, "the locale is restored");
  VP_CHECK(odd.good() && plain.good(), "the stream is in a good state");
  vp_out((uint64_t)odd.flags()); vp_out((uint64_t)odd.precision());
  vp_reach("done");
}
