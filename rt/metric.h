// Uniform access to the metric types for harnesses.
#pragma once
#include "prometheus/counter.h"
#include "prometheus/family.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "vp.h"
namespace mt {
using namespace prometheus;
// add a series; touch it (k times) so that its state is recognisable; read the touch count back
template <class T> struct M;
template <> struct M<Counter> {
  static Counter& add(Family<Counter>& f, const Labels& l) { return f.Add(l); }
  static void touch(Counter& c) { c.Increment(); }
  static uint64_t count(const ClientMetric& m) { return (uint64_t)m.counter.value; }
  static const bool counts = true;
};
template <> struct M<Gauge> {
  static Gauge& add(Family<Gauge>& f, const Labels& l) { return f.Add(l, 0.0); }
  static void touch(Gauge& c) { c.Increment(); }
  static uint64_t count(const ClientMetric& m) { return (uint64_t)m.gauge.value; }
  static const bool counts = true;
};
template <> struct M<Histogram> {
  static Histogram& add(Family<Histogram>& f, const Labels& l) { return f.Add(l, Histogram::BucketBoundaries{1.0}); }
  static void touch(Histogram& c) { c.Observe(0.5); }
  static uint64_t count(const ClientMetric& m) { VP_CHECK(m.histogram.bucket.size() == 2, "the buckets of the series are collected"); return m.histogram.sample_count; }
  static const bool counts = true;
};
template <> struct M<Summary> {
  static Summary& add(Family<Summary>& f, const Labels& l) { return f.Add(l, Summary::Quantiles{{0.5, 0.1}}, std::chrono::milliseconds(1000), 1); }
  static void touch(Summary& c) { c.Observe(2.0); }
  static uint64_t count(const ClientMetric& m) { VP_CHECK(m.summary.quantile.size() == 1, "the quantiles of the series are collected"); return m.summary.sample_count; }
  static const bool counts = true;
};
template <> struct M<Info> {
  static Info& add(Family<Info>& f, const Labels& l) { return f.Add(l); }
  static void touch(Info&) {}
  static uint64_t count(const ClientMetric& m) { VP_CHECK(m.info.value == 1, "an info metric has the value 1"); return 0; }
  static const bool counts = false;
};
// equality of strings whose bytes may be symbolic: decided once
inline bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return vp_decide(r);
}
inline bool same(const Labels& a, const Labels& b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin(), j = b.begin();
  for (; i != a.end(); ++i, ++j) if (!same(i->first, j->first) || !same(i->second, j->second)) return false;
  return true;
}
// does the sample carry exactly the constant labels and its own (in any order)?
inline bool carries(const ClientMetric& m, const Labels& constant, const Labels& own) {
  if (m.label.size() != constant.size() + own.size()) return false;
  auto has = [&](const std::string& n, const std::string& v) { for (auto& l : m.label) if (same(l.name, n) && same(l.value, v)) return true; return false; };
  for (auto& l : constant) if (!has(l.first, l.second)) return false;
  for (auto& l : own) if (!has(l.first, l.second)) return false;
  return true;
}
}  // namespace mt
