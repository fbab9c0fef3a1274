// A reference model of a registry with families of every metric type.
#pragma once
#include "metric.h"
#include "prometheus/detail/builder.h"
#include <stdexcept>
namespace rm {
using namespace mt;
enum { NTYPES = 5 };
struct Series { Labels l; void* p; uint64_t n; };
struct Fam { unsigned type; std::string name, help; Labels constant; void* p; std::vector<Series> series; };
#define RM_TYPES(type, fn, ...) ((type) == 0 ? fn<Counter>(__VA_ARGS__) : (type) == 1 ? fn<Gauge>(__VA_ARGS__) : (type) == 2 ? fn<Histogram>(__VA_ARGS__) : (type) == 3 ? fn<Summary>(__VA_ARGS__) : fn<Info>(__VA_ARGS__))
template <class T> static void* reg_(Registry& r, const std::string& name, const std::string& help, const Labels& k) {
  try { return &detail::Builder<T>().Name(name).Help(help).Labels(k).Register(r); } catch (const std::exception&) { return nullptr; }
}
template <class T> static bool remove_(Registry& r, void* f) { return r.Remove(*(Family<T>*)f); }
template <class T> static void* add_(void* f, const Labels& l) { return &M<T>::add(*(Family<T>*)f, l); }
template <class T> static void drop_(void* f, void* s) { ((Family<T>*)f)->Remove((T*)s); }
template <class T> static bool has_(void* f, const Labels& l) { return ((Family<T>*)f)->Has(l); }
template <class T> static void touch_(void* s) { M<T>::touch(*(T*)s); }
template <class T> static uint64_t count_(const ClientMetric& m) { return M<T>::count(m); }
template <class T> static bool counts_() { return M<T>::counts; }
template <class T> static MetricType type_() { return T::metric_type; }
template <class T> static void* alone_(const std::string& n) { return new Family<T>{n, "", {}}; }
template <class T> static void kill_(void* p) { delete (Family<T>*)p; }
template <class T> static bool meta_(void* f, const std::string& n, const Labels& k) { return same(((Family<T>*)f)->GetName(), n) && same(((Family<T>*)f)->GetConstantLabels(), k); }
inline void* reg(unsigned t, Registry& r, const std::string& n, const std::string& h, const Labels& k) { return RM_TYPES(t, reg_, r, n, h, k); }
inline bool remove(unsigned t, Registry& r, void* f) { return RM_TYPES(t, remove_, r, f); }
inline void* add(unsigned t, void* f, const Labels& l) { return RM_TYPES(t, add_, f, l); }
inline void drop(unsigned t, void* f, void* s) { RM_TYPES(t, drop_, f, s); }
inline bool has(unsigned t, void* f, const Labels& l) { return RM_TYPES(t, has_, f, l); }
inline void touch(unsigned t, void* s) { RM_TYPES(t, touch_, s); }
inline uint64_t count(unsigned t, const ClientMetric& m) { return RM_TYPES(t, count_, m); }
inline bool counts(unsigned t) { return RM_TYPES(t, counts_); }
inline MetricType type(unsigned t) { return RM_TYPES(t, type_); }
inline bool meta(unsigned t, void* f, const std::string& n, const Labels& k) { return RM_TYPES(t, meta_, f, n, k); }

// the collection shows exactly the families of the model that have series
inline void audit(const Registry& r, const std::vector<Fam>& model) {
  std::vector<MetricFamily> v = r.Collect();
  std::vector<char> used(v.size(), 0);
  size_t want = 0;
  for (auto& f : model) want += !f.series.empty();
  VP_CHECK(v.size() == want, "exactly the registered families that have a series are collected");
  for (auto& f : model) {
    if (f.series.empty()) continue;
    bool found = false;
    for (size_t i = 0; i < v.size() && !found; i++) {
      if (used[i] || v[i].type != type(f.type) || !same(v[i].name, f.name)) continue;
      found = true; used[i] = 1;
      VP_CHECK(same(v[i].help, f.help), "a family is collected with the help given when it was created");
      VP_CHECK(v[i].metric.size() == f.series.size(), "a family is collected with one sample per series");
      std::vector<char> su(v[i].metric.size(), 0);
      for (auto& s : f.series) {
        bool sf = false;
        for (size_t k = 0; k < v[i].metric.size() && !sf; k++) {
          if (su[k] || !carries(v[i].metric[k], f.constant, s.l)) continue;
          su[k] = 1; sf = true;
          uint64_t c = count(f.type, v[i].metric[k]);
          if (counts(f.type)) VP_CHECK(c == s.n, "a series is collected with its current value");
        }
        VP_CHECK(sf, "a series is collected with the labels given when it was created");
      }
    }
    VP_CHECK(found, "every registered family with a series is collected under its name and type");
  }
}
}  // namespace rm
