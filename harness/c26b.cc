// C26: registering with a gateway during a push (push side)
//@ sources core/ push/
//@ bounds every interleaving (at library calls, locks, atomics and thread operations) of one or two of push, asynchronous push, deletion with registration, expiry, an added header or another push; up to 3 collectables
//@ assume the gateway outlives the operations on it and the futures it returned; stub of libcurl
//@ entry c26_push_register mt reach=before,after
//@ entry c26_async_register mt reach=before,after
//@ entry c26_push_expire mt reach=before,after
//@ entry c26_header mt reach=before,after
//@ entry c26_two_pushes mt reach=done
//@ entry c26_two_registrations mt reach=done
//@ entry c26_delete_register mt reach=done
#include "curl_stub.h"
#include "metric.h"
#include "prometheus/gateway.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
struct Source : Collectable {
  std::string name; uint64_t alive = 0x600d;
  explicit Source(const char* n) : name(n) {}
  ~Source() { alive = 0; }
  std::vector<MetricFamily> Collect() const override {
    VP_CHECK(alive == 0x600d, "a collectable is alive while it is collected");
    MetricFamily f; f.name = name; f.type = MetricType::Counter;
    ClientMetric m; m.counter.value = 1; f.metric.push_back(m);
    return {f};
  }
};
struct Ctx { Gateway* g; std::shared_ptr<Source> keep, a, b; int rc = 0, rc2 = 0; bool added = false; };
typedef void* (*Fn)(void*);
#define TH(name, ...) static void* name(void* p) { Ctx* x = (Ctx*)p; __VA_ARGS__; return nullptr; }
TH(push, x->rc = x->g->Push())
TH(pushadd2, x->rc2 = x->g->PushAdd())
TH(push2, x->rc2 = x->g->Push())
TH(apush, x->rc = x->g->AsyncPush().get())
TH(del2, x->rc2 = x->g->Delete())
TH(regaw, std::weak_ptr<Collectable> w = x->a; Labels l{{"n", "1"}}; x->g->RegisterCollectable(w, &l))
TH(regb, Labels l{{"n", "2"}}; x->g->RegisterCollectable(x->b, &l))
TH(expa, x->a.reset())
TH(head, x->added = x->g->AddHttpHeader("X: 1"))
static void go(Fn a, Fn b, Fn c, Ctx& x) {
  int t1 = vp_spawn(a, &x), t2 = b ? vp_spawn(b, &x) : -1, t3 = c ? vp_spawn(c, &x) : -1;
  vp_join(t1); if (b) vp_join(t2); if (c) vp_join(t3);
}
static const char* const kName[] = {"keep", "first", "second"};
// the number of requests for a collectable; every request is complete
static int sent(int i, const char* method, size_t headers = 1) {
  int n = 0;
  for (auto& q : cu::g->req) {
    if (q.url != "http://h:1/metrics/job/j/g/1/n/" + std::string(1, (char)('0' + i)) || q.method != method) continue;
    VP_CHECK(q.body == TextSerializer().Serialize(Source(kName[i]).Collect()), "a request carries the metrics of its collectable");
    VP_CHECK(!headers || q.headers.size() == headers, "a request carries all headers or none");
    n++;
  }
  return n;
}
struct World {
  Ctx x;
  World() {
    cu::net = 0; cu::start();
    x.g = new Gateway("http://h:1", std::function<void(CURL*)>(), "j", Labels{{"g", "1"}});
    x.keep = std::make_shared<Source>("keep"); x.a = std::make_shared<Source>("first"); x.b = std::make_shared<Source>("second");
    Labels l{{"n", "0"}};
    x.g->RegisterCollectable(x.keep, &l);
  }
  ~World() { delete x.g; VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once"); cu::finish(); }
};
static void reg_during(Fn p) {
  World w; Ctx& x = w.x;
  go(p, regaw, nullptr, x);
  VP_CHECK(x.rc == 200, "a successful push returns 200");
  int n = sent(1, "POST");
  VP_CHECK(sent(0, "POST") == 1 && n <= 1 && cu::g->req.size() == (size_t)(1 + n), "a push sends each registered collectable once");
  vp_reach(n ? "after" : "before");
  x.g->PushAdd();
  VP_CHECK(sent(0, "PUT") == 1 && sent(1, "PUT") == 1, "a registration that returned is seen by every later push");
}
extern "C" void c26_push_register() { reg_during(push); }
extern "C" void c26_async_register() { reg_during(apush); }
extern "C" void c26_push_expire() {
  World w; Ctx& x = w.x;
  Labels l{{"n", "1"}};
  std::weak_ptr<Source> wa = x.a;
  x.g->RegisterCollectable(x.a, &l);
  bool clean = vp_choose(2, "cleanup");
  go(vp_choose(2, "async") ? apush : push, expa, clean ? regb : nullptr, x);
  int n = sent(1, "POST");
  VP_CHECK(x.rc == 200 && sent(0, "POST") == 1 && n <= 1, "a push sends each live collectable once");
  VP_CHECK(wa.expired(), "a push does not keep a collectable alive");
  vp_reach(n ? "before" : "after");
  x.g->PushAdd();
  VP_CHECK(sent(0, "PUT") == 1 && sent(1, "PUT") == 0 && sent(2, "PUT") == (clean ? 1 : 0), "later pushes send what is alive");
}
extern "C" void c26_header() {
  World w; Ctx& x = w.x;
  go(vp_choose(2, "async") ? apush : push, head, nullptr, x);
  VP_CHECK(x.added && x.rc == 200 && sent(0, "POST", 0) == 1, "both operations succeed");
  vp_reach(cu::g->req[0].headers.size() == 2 ? "after" : "before");
  x.g->PushAdd();
  VP_CHECK(sent(0, "PUT", 2) == 1, "an added header is sent with every later request");
}
extern "C" void c26_two_pushes() {
  World w; Ctx& x = w.x;
  go(vp_choose(2, "async") ? apush : push, pushadd2, nullptr, x);
  VP_CHECK(x.rc == 200 && x.rc2 == 200 && sent(0, "POST") == 1 && sent(0, "PUT") == 1 && cu::g->req.size() == 2, "concurrent pushes each send every collectable once");
  vp_reach("done");
}
extern "C" void c26_two_registrations() {
  World w; Ctx& x = w.x;
  go(regaw, regb, vp_choose(2, "push") ? push2 : nullptr, x);
  size_t before = cu::g->req.size();
  if (x.rc2) VP_CHECK(x.rc2 == 200 && sent(0, "POST") == 1, "a push sends what was registered before it");
  x.g->PushAdd();
  VP_CHECK(sent(0, "PUT") == 1 && sent(1, "PUT") == 1 && sent(2, "PUT") == 1 && cu::g->req.size() == before + 3, "no registration is lost");
  vp_reach("done");
}
extern "C" void c26_delete_register() {
  World w; Ctx& x = w.x;
  go(push, del2, regb, x);
  int d = 0; for (auto& q : cu::g->req) d += q.method == "DELETE" && q.url == "http://h:1/metrics/job/j" && q.body.empty();
  VP_CHECK(x.rc == 200 && x.rc2 == 200 && d == 1 && sent(0, "POST") == 1, "operations on one gateway do not disturb each other");
  vp_reach("done");
}
