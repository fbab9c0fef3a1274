// C20: a push sends every live collectable once and reports failure
//@ sources core/ push/
//@ bounds every history of up to 3 (thorough 4) registrations (of 3 collectables, the same one possibly twice, with or without labels) of which any may have expired before or after, followed by up to 2 pushes of either kind; every transport error 1..99 and every status 0..999 for every request; deletions; 7 collectables of which any two have expired and any one request has an arbitrary outcome
//@ assume the HTTP library reports one result per transfer (stub of libcurl)
//@ entry c20_push reach=complete,stopped,skipped
//@ entry c20_history reach=done
//@ entry c20_delete reach=done
//@ entry c20_throw reach=done
//@ entry c20_many reach=complete,stopped,skipped
#include "curl_stub.h"
#include "metric.h"
#include "prometheus/gateway.h"
#include "prometheus/text_serializer.h"
#include <stdexcept>
using namespace prometheus;

static bool throws_;
struct Source : Collectable {
  int id; mutable int calls = 0;
  explicit Source(int i) : id(i) {}
  static std::vector<MetricFamily> at(int id, int call) {
    if (id == 2 && call == 0) return {};
    MetricFamily f; f.name = id == 0 ? "first" : id == 1 ? "second" : "third" + std::string(id - 2, 'x'); f.help = "h"; f.type = MetricType::Counter;
    ClientMetric m; m.counter.value = id * 10 + call; f.metric.push_back(m);
    return {f};
  }
  std::vector<MetricFamily> Collect() const override {
    if (throws_) throw std::runtime_error("no metrics");
    return at(id, calls++);
  }
};
static CURLcode codes[8]; static long stats[8];
static CURLcode outcome(int i, const cu::Req&, long* st) { *st = stats[i & 7]; return codes[i & 7]; }
static void arbitrary(int n) {
  for (int i = 0; i < n; i++) {
    unsigned c = (unsigned)vp_sym("code", 8); unsigned s = (unsigned)vp_sym("status", 16);
    vp_assume(c < 100); vp_assume(s < 1000);
    codes[i] = (CURLcode)c; stats[i] = s;
  }
}
struct Reg { int id; std::string path; };
static std::string url_of(const Reg& r) { return "http://h:1/metrics/job/j/g/1" + r.path; }

static void check_push(Gateway& g, bool add, std::vector<Reg> regs, std::shared_ptr<Source>* src, int* calls) {
  size_t before = cu::g->req.size();
  int rc = add ? g.PushAdd() : g.Push();
  size_t k = before;
  bool stopped = false;
  for (auto& r : regs) {
    if (!src[r.id]) { vp_reach("skipped"); continue; }
    VP_CHECK(k < cu::g->req.size(), "every collectable that is still alive is sent");
    const cu::Req& q = cu::g->req[k];
    std::string body = TextSerializer().Serialize(Source::at(r.id, calls[r.id]++));
    VP_CHECK(q.url == url_of(r), "a request goes to the URL of its collectable, in registration order");
    VP_CHECK(q.body == body, "a request carries the current metrics of its collectable");
    VP_CHECK(q.method == (add ? "PUT" : "POST"), "a request uses the method of the operation");
    k++;
    int code = codes[(k - 1) & 7]; long st = stats[(k - 1) & 7];
    int bad = (code != 0) | (st < 100) | (st >= 400);
    if (vp_decide(bad)) {
      VP_CHECK(cu::g->req.size() == k, "nothing is sent after a failed request");
      VP_ASSERT(rc == (int)vp_ite64(code != 0, (uint64_t)-(int64_t)code, (uint64_t)st), "the push returns the status of the failed request");
      stopped = true; vp_reach("stopped");
      break;
    }
  }
  if (!stopped) {
    VP_CHECK(cu::g->req.size() == k, "each collectable is sent once");
    VP_ASSERT(rc == 200, "a complete push returns 200");
    vp_reach("complete");
  }
  vp_out((uint64_t)rc);
}
static void add(Gateway& g, std::vector<Reg>& regs, std::shared_ptr<Source>* src, int id, bool labels) {
  Labels l{{"own", id == 0 ? "a" : "b"}};
  if (labels) g.RegisterCollectable(src[id], &l); else g.RegisterCollectable(src[id]);
  regs.push_back(Reg{id, labels ? (id == 0 ? "/own/a" : "/own/b") : ""});
}
static void prepare(std::shared_ptr<Source>* src) { for (int i = 0; i < 3; i++) src[i] = std::make_shared<Source>(i); }

extern "C" void c20_push() {
  cu::start(); cu::g->outcome = outcome; throws_ = false;
  arbitrary(3);
  std::shared_ptr<Source> src[3]; prepare(src);
  int calls[3] = {0, 0, 0};
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::vector<Reg> regs;
    unsigned n = vp_choose(4, "n");
    for (unsigned i = 0; i < n; i++) add(g, regs, src, (int)i, i != 1);
    unsigned dead = vp_choose(4, "dead");
    if (dead < 3) src[dead].reset();
    check_push(g, vp_choose(2, "add"), regs, src, calls);
  }
  cu::finish();
}
extern "C" void c20_history() {
  cu::start(); cu::g->outcome = outcome; throws_ = false;
  for (int i = 0; i < 8; i++) { codes[i] = CURLE_OK; stats[i] = 200; }
  std::shared_ptr<Source> src[3]; prepare(src);
  int calls[3] = {0, 0, 0};
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::vector<Reg> regs;
    unsigned n = VP_TIER(4, 5);
    for (unsigned i = 0; i < n; i++) {
      unsigned op = vp_choose(5, "op");
      if (op < 3) {
        if (!src[op]) return;
        add(g, regs, src, (int)op, i & 1);
      } else if (op == 3) {
        unsigned d = vp_choose(3, "dead");
        if (!src[d]) return;
        src[d].reset();
      } else check_push(g, false, regs, src, calls);
      if (cu::g->req.size() > 8) return;
    }
    check_push(g, true, regs, src, calls);
  }
  cu::finish();
  vp_reach("done");
}
extern "C" void c20_delete() {
  cu::start(); cu::g->outcome = outcome; throws_ = false;
  arbitrary(1);
  bool labels = vp_choose(2, "labels"), instance = vp_choose(2, "instance");
  std::shared_ptr<Source> src[3]; prepare(src);
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", labels ? Labels{{"g", "1"}} : Labels{});
    if (vp_choose(2, "registered")) g.RegisterCollectable(src[0]);
    int rc;
    unsigned async = vp_choose(2, "async");
    if (async) { std::future<int> f = instance ? g.AsyncDeleteForInstance() : g.AsyncDelete(); rc = f.get(); }
    else rc = instance ? g.DeleteForInstance() : g.Delete();
    VP_CHECK(cu::g->req.size() == 1, "a deletion is one request");
    const cu::Req& q = cu::g->req[0];
    VP_CHECK(q.method == "DELETE" && q.body.empty(), "a deletion uses the method DELETE without body");
    VP_CHECK(q.url == (instance && labels ? "http://h:1/metrics/job/j/g/1" : "http://h:1/metrics/job/j"), "a deletion addresses the job, or the job and the labels of the gateway");
    int code = codes[0]; long st = stats[0];
    VP_ASSERT(rc == (int)vp_ite64(code != 0, (uint64_t)-(int64_t)code, (uint64_t)st), "a deletion returns its status");
    VP_CHECK(src[0]->calls == 0, "a deletion collects nothing");
    vp_out((uint64_t)rc);
  }
  cu::finish();
  vp_reach("done");
}
// a collectable that throws leaves the gateway usable
extern "C" void c20_throw() {
  cu::start(); throws_ = true;
  for (int i = 0; i < 8; i++) { codes[i] = CURLE_OK; stats[i] = 200; }
  cu::g->outcome = outcome;
  std::shared_ptr<Source> src[3]; prepare(src);
  int calls[3] = {0, 0, 0};
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::vector<Reg> regs;
    add(g, regs, src, 0, false);
    bool caught = false;
    unsigned how = vp_choose(3, "how");
    try {
      if (how == 0) g.Push(); else if (how == 1) g.PushAdd(); else g.AsyncPush().get();
    } catch (const std::runtime_error&) { caught = true; }
    VP_CHECK(caught, "the failure of a collectable is not hidden");
    VP_CHECK(cu::g->req.empty(), "nothing is sent for a collectable that failed");
    throws_ = false;
    add(g, regs, src, 1, true);
    check_push(g, vp_choose(2, "add"), regs, src, calls);
  }
  cu::finish();
  vp_reach("done");
}
// many collectables
extern "C" void c20_many() {
  const unsigned N = 7;
  cu::start(); cu::g->outcome = outcome; throws_ = false;
  for (int i = 0; i < 8; i++) { codes[i] = CURLE_OK; stats[i] = i % 2 ? 200 : 202; }
  unsigned odd = vp_choose(N, "odd");
  unsigned c = (unsigned)vp_sym("code", 8), s = (unsigned)vp_sym("status", 16);
  vp_assume(c < 100); vp_assume(s < 1000);
  codes[odd] = (CURLcode)c; stats[odd] = s;
  std::shared_ptr<Source> src[N];
  int calls[N] = {};
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    std::vector<Reg> regs;
    for (unsigned i = 0; i < N; i++) {
      src[i] = std::make_shared<Source>((int)i);
      Labels l{{"own", std::string(1, (char)('a' + i))}};
      g.RegisterCollectable(src[i], &l);
      regs.push_back(Reg{(int)i, "/own/" + std::string(1, (char)('a' + i))});
    }
    unsigned a = vp_choose(N, "dead"), b = vp_choose(N, "dead2");
    vp_assume(a <= b);
    src[a].reset(); src[b].reset();
    check_push(g, vp_choose(2, "add"), regs, src, calls);
  }
  cu::finish();
}
