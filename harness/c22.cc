// C22: asynchronous operations equal their synchronous counterparts
//@ sources core/ push/
//@ bounds asynchronous pushes of 0..2 collectables (thorough 3), of either kind, and asynchronous deletions; every interleaving of the caller and all request threads at library calls, locks and atomics; every transport error and status of each request; two operations in flight
//@ assume the gateway outlives the futures it returned (futures refer to it); sequentially consistent atomics; stub of libcurl
//@ entry c22_push mt reach=success,failure
//@ entry c22_snapshot mt reach=done
//@ entry c22_delete mt reach=done
//@ entry c22_overlap mt reach=done
//@ entry c22_mixed mt reach=done
#include "curl_stub.h"
#include "metric.h"
#include "prometheus/gateway.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
struct Source : Collectable {
  std::string name; mutable int calls = 0; bool empty = false;
  explicit Source(const char* n) : name(n) {}
  static std::vector<MetricFamily> at(const std::string& name, int call) {
    MetricFamily f; f.name = name; f.help = ""; f.type = MetricType::Counter;
    ClientMetric m; m.counter.value = call; f.metric.push_back(m);
    return {f};
  }
  std::vector<MetricFamily> Collect() const override { if (empty) return {}; return at(name, calls++); }
};
static int codes[4]; static long stats[4];
static int slot(const std::string& url) { char c = url.back(); return c >= '0' && c <= '3' ? c - '0' : 3; }   // by collectable, not by order
static CURLcode outcome(int, const cu::Req& r, long* st) { int k = slot(r.url); *st = stats[k]; return (CURLcode)codes[k]; }
static void arbitrary(int n) {
  for (int i = 0; i < 4; i++) { codes[i] = 0; stats[i] = 200; }
  for (int i = 0; i < n; i++) {
    unsigned c = (unsigned)vp_sym("code", 8); unsigned s = (unsigned)vp_sym("status", 16);
    vp_assume(c < 100); vp_assume(s < 1000);
    codes[i] = (int)c; stats[i] = s;
  }
}
static const char* const names[] = {"first", "second", "third"};
static void expect(const std::string& url, const std::string& body, const char* method) {
  int n = 0;
  for (auto& q : cu::g->req) if (q.url == url) {
    n++;
    VP_CHECK(q.body == body, "an asynchronous request carries the metrics of the time of the call");
    VP_CHECK(q.method == method, "an asynchronous request uses the method of its operation");
    VP_CHECK(q.headers.size() == 1, "an asynchronous request carries the same headers");
  }
  VP_CHECK(n == 1, "an asynchronous push performs the same requests");
}
static std::string url(int i) { return "http://h:1/metrics/job/j/g/1/n/" + std::string(1, (char)('0' + i)); }
static void finished(size_t n) {
  int done = cu::net.load();
  vp_env(1); size_t k = cu::g->req.size(); int f = cu::g->finished; vp_env(0);
  VP_CHECK(k == n && f == (int)n && done == (int)n, "the future becomes ready only after all requests have finished");
}
extern "C" void c22_push() {
  cu::net = 0; cu::start(); cu::g->outcome = outcome;
  unsigned n = vp_choose(VP_TIER(3, 4), "n");
  arbitrary((int)n);
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::vector<std::shared_ptr<Source>> src;
    for (unsigned i = 0; i < n; i++) {
      src.push_back(std::make_shared<Source>(names[i]));
      Labels l{{"n", std::string(1, (char)('0' + i))}};
      g.RegisterCollectable(src[i], &l);
    }
    if (n == 2) { auto gone = std::make_shared<Source>("gone"); g.RegisterCollectable(gone); }
    bool add = vp_choose(2, "add");
    std::future<int> f = add ? g.AsyncPushAdd() : g.AsyncPush();
    int rc = f.get();
    finished(n);
    for (unsigned i = 0; i < n; i++) expect(url((int)i), TextSerializer().Serialize(Source::at(names[i], 0)), add ? "PUT" : "POST");
    int any = 0, match = 0;
    for (unsigned i = 0; i < n; i++) {
      int bad = (codes[i] != 0) | (stats[i] < 100) | (stats[i] >= 400);
      any |= bad;
      match |= bad & (rc == (int)vp_ite64(codes[i] != 0, (uint64_t)-(int64_t)codes[i], (uint64_t)stats[i]));
    }
    VP_ASSERT((!any & (rc == 200)) | (any & match), "the result is 200, or the status of a failed request");
    vp_reach(vp_decide(any) ? "failure" : "success");
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
}
// what was pushed may change or disappear as soon as the call returned
extern "C" void c22_snapshot() {
  cu::net = 0; cu::start(); cu::g->outcome = outcome; arbitrary(0);
  {
    std::function<void(CURL*)> setup = [](CURL* c) { curl_easy_setopt(c, CURLOPT_VERBOSE, 1L); };
    Gateway g("http://h:1", setup, "j", Labels{{"g", "1"}});
    std::string body;
    std::future<int> f;
    bool two = vp_choose(2, "two");
    {
      auto src = std::make_shared<Source>(names[0]);
      auto other = std::make_shared<Source>(names[1]);
      Labels l{{"n", "0"}}, m{{"n", "1"}};
      g.RegisterCollectable(src, &l);
      if (two) g.RegisterCollectable(other, &m);
      f = g.AsyncPush();
      src->name = "changed"; other->calls += 5;
      l["n"] = "9";
    }
    unsigned later = vp_choose(3, "later");
    if (later == 1) { auto s = std::make_shared<Source>(names[2]); Labels l{{"n", "2"}}; g.RegisterCollectable(s, &l); }
    if (later == 2) g.AddHttpHeader("X: 1");
    int rc = f.get();
    VP_CHECK(rc == 200, "a successful push returns 200");
    finished(two ? 2 : 1);
    VP_CHECK(cu::g->req[0].opts.size() == 1, "the connection settings are applied");
    for (int i = 0; i < (two ? 2 : 1); i++) {
      int n = 0;
      for (auto& q : cu::g->req) if (q.url == url(i)) { n++; VP_CHECK(q.body == TextSerializer().Serialize(Source::at(names[i], 0)), "an asynchronous request carries the metrics of the time of the call"); }
      VP_CHECK(n == 1, "an asynchronous push performs the same requests");
    }
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
  vp_reach("done");
}
extern "C" void c22_delete() {
  cu::net = 0; cu::start(); cu::g->outcome = outcome; arbitrary(0);
  codes[3] = (int)(vp_sym("code", 8) & 63); stats[3] = (long)(vp_sym("status", 16) & 511); codes[1] = 0; stats[1] = 202;
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::future<int> a = g.AsyncDelete();
    std::future<int> b; bool both = vp_choose(2, "both");
    if (both) b = g.AsyncDeleteForInstance();
    int rc = a.get();
    VP_ASSERT(rc == (int)vp_ite64(codes[3] != 0, (uint64_t)-(int64_t)codes[3], (uint64_t)stats[3]), "an asynchronous deletion returns its status");
    if (both) VP_CHECK(b.get() == 202, "an asynchronous deletion returns its status");
    finished(both ? 2 : 1);
    int n = 0, m = 0;
    for (auto& q : cu::g->req) { n += q.url == "http://h:1/metrics/job/j"; m += q.url == "http://h:1/metrics/job/j/g/1"; VP_CHECK(q.method == "DELETE" && q.body.empty(), "an asynchronous deletion is a request with method DELETE"); }
    VP_CHECK(n == 1 && m == (both ? 1 : 0), "an asynchronous deletion performs the same request");
  }
  cu::finish();
  vp_reach("done");
}
// two asynchronous pushes in flight, whose futures are taken in either order
extern "C" void c22_overlap() {
  cu::net = 0; cu::start(); cu::g->outcome = outcome; arbitrary(0);
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    auto src = std::make_shared<Source>(names[0]);
    Labels l{{"n", "0"}};
    g.RegisterCollectable(src, &l);
    std::future<int> a = g.AsyncPush(), b = g.AsyncPushAdd();
    bool order = vp_choose(2, "order");
    if (order) { VP_CHECK(b.get() == 200, "a successful push returns 200"); VP_CHECK(a.get() == 200, "a successful push returns 200"); }
    else { VP_CHECK(a.get() == 200, "a successful push returns 200"); VP_CHECK(b.get() == 200, "a successful push returns 200"); }
    finished(2);
    std::string b0 = TextSerializer().Serialize(Source::at(names[0], 0)), b1 = TextSerializer().Serialize(Source::at(names[0], 1));
    int n = 0, m = 0;
    for (auto& q : cu::g->req) { n += q.method == "POST" && q.body == b0; m += q.method == "PUT" && q.body == b1; }
    VP_CHECK(n == 1 && m == 1, "each asynchronous push performs its requests");
  }
  cu::finish();
  vp_reach("done");
}
// synchronous operations while an asynchronous push is in flight
extern "C" void c22_mixed() {
  cu::net = 0; cu::start(); cu::g->outcome = outcome; arbitrary(0);
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    auto src = std::make_shared<Source>(names[0]);
    src->empty = vp_choose(2, "empty");
    Labels l{{"n", "0"}};
    g.RegisterCollectable(src, &l);
    std::future<int> a = g.AsyncPush();
    int rc;
    switch (vp_choose(3, "other")) {
      case 0: rc = g.PushAdd(); break;
      case 1: rc = g.Delete(); break;
      default: rc = g.DeleteForInstance();
    }
    VP_CHECK(rc == 200 && a.get() == 200, "both operations succeed");
    finished(2);
  }
  cu::finish();
  vp_reach("done");
}
