// C26: scraping is safe while endpoints and collectables change (pull side)
//@ sources core/ pull/
//@ bounds every interleaving (at locks, atomics and thread operations) of one or two scrapes with one or two of: registration, removal, expiry, first registration for a URI, first or repeated registration of authentication, destruction of the exposer; up to 3 collectables, 2 URIs
//@ assume sequentially consistent atomics (plain accesses are checked for data races); stub of civetweb (a request handler is not replaced or removed while it runs, an authorisation may); the connection accepts everything written to it
//@ entry c26_register mt reach=before,after
//@ entry c26_remove mt reach=before,after
//@ entry c26_expire mt reach=before,after
//@ entry c26_new_uri mt reach=before,after
//@ entry c26_first_auth mt reach=done
//@ entry c26_replace_auth mt reach=old,new
//@ entry c26_two_scrapes mt reach=done
//@ entry c26_two_changes mt reach=done
//@ entry c26_two_uris mt reach=done
//@ entry c26_destroy mt reach=served,refused
//@ entry c26_order mt reach=none,one,both
#include "civet_stub.h"
#include "expo.h"
#include "metric.h"
#include "prometheus/exposer.h"
using namespace prometheus;

struct Source : Collectable {
  std::string name; uint64_t alive = 0x600d;
  explicit Source(const char* n) : name(n) {}
  ~Source() { alive = 0; }
  std::vector<MetricFamily> Collect() const override {
    VP_CHECK(alive == 0x600d, "a collectable is alive while it is collected");
    std::vector<MetricFamily> v;
    for (int k = 0; k < 2; k++) {
      MetricFamily f; f.name = name + (k ? "_b" : "_a"); f.type = MetricType::Counter;
      ClientMetric m; m.counter.value = 1; f.metric.push_back(m);
      v.push_back(f);
    }
    return v;
  }
};
static int count(const std::string& s, const std::string& what) { int n = 0; for (size_t i = 0; (i = s.find(what, i)) != std::string::npos; i++) n++; return n; }
// how often the collectable shows up; -1: in part
static int shown(const std::string& body, const char* name) {
  int a = count(body, std::string("# TYPE ") + name + "_a counter\n"), b = count(body, std::string("# TYPE ") + name + "_b counter\n");
  int c = count(body, std::string("\n") + name + "_a "), d = count(body, std::string("\n") + name + "_b ");
  return a == b && c == a && d == a ? a : -1;
}
static int shown(const mg_connection& c, const char* name) {
  http::Response r = http::parse(c.out);
  VP_CHECK(r.status == 200 && r.count("content-length") == 1 && http::number(*r.header("content-length")) == r.body.size(), "the response is complete");
  VP_CHECK(shown(r.body, "exposer_none") == 0 && count(r.body, "# TYPE exposer_scrapes_total counter\n") == 1, "the endpoint's own metrics are there once");
  return shown(r.body, name);
}
static void stats(const mg_connection& c, int scrapes, size_t bytes) {
  http::Response r = http::parse(c.out);
  bool ok; auto lines = expo::read(r.body, "quantile", ok);
  int seen = 0;
  for (auto& l : lines) {
    if (l.kind != 's') continue;
    if (l.name == "exposer_scrapes_total") { seen++; VP_CHECK(expo::is_double(l.value, scrapes), "no completed scrape is lost in the count"); }
    if (l.name == "exposer_transferred_bytes_total") { seen++; VP_CHECK(expo::is_double(l.value, (double)bytes), "no body is lost in the byte count"); }
    if (l.name == "exposer_request_latencies_count") { seen++; VP_CHECK(expo::is_u64(l.value, (uint64_t)scrapes), "no completed scrape is lost in the latencies"); }
  }
  VP_CHECK(seen == 3, "the endpoint reports its own metrics");
}
struct Ctx {
  Exposer* e = nullptr; cv::Ctx* c = nullptr;
  std::shared_ptr<Source> a, b; std::weak_ptr<Source> w;
  mg_connection r1, r2; int asked = 0, old_asked = 0;
  Ctx() { r1.uri = r2.uri = "/metrics"; }
};
typedef void* (*Fn)(void*);
#define TH(name, ...) static void* name(void* p) { Ctx* x = (Ctx*)p; __VA_ARGS__; return nullptr; }
TH(scrape1, cv::request(x->c, x->r1))
TH(scrape2, cv::request(x->c, x->r2))
TH(rega, x->e->RegisterCollectable(x->w))
TH(regb, x->e->RegisterCollectable(x->b))
TH(rega_other, x->e->RegisterCollectable(x->w, "/other"))
TH(regb_other, x->e->RegisterCollectable(x->b, "/other"))
TH(rema, x->e->RemoveCollectable(x->w))
TH(expa, x->a.reset())
TH(auth, x->e->RegisterAuth([x](const std::string& u, const std::string& p) { return u == "u" && p == "new"; }, "new"))
TH(auth2, x->e->RegisterAuth([x](const std::string& u, const std::string& p) { return u == "u" && p == "new"; }, "new2"))
TH(both, x->e->RegisterCollectable(x->a); x->e->RegisterCollectable(x->b))
static void go(Fn a, Fn b, Fn c, Ctx& x) {
  int t1 = vp_spawn(a, &x), t2 = b ? vp_spawn(b, &x) : -1, t3 = c ? vp_spawn(c, &x) : -1;
  vp_join(t1); if (b) vp_join(t2); if (c) vp_join(t3);
}
struct World {
  Ctx x; std::shared_ptr<Source> keep = std::make_shared<Source>("keep");
  World() {
    gz::c = gz::Cfg();
    cv::start();
    x.e = new Exposer("127.0.0.1:0", 1); x.c = cv::g->ctx;
    x.a = std::make_shared<Source>("first"); x.b = std::make_shared<Source>("second"); x.w = x.a;
  }
  mg_connection get(const char* uri = "/metrics", const char* auth = "") { return cv::get(uri, "", auth); }
  ~World() { delete x.e; cv::finish(); }
};
extern "C" void c26_register() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(w.keep);
    go(scrape1, rega, nullptr, x);
    VP_CHECK(x.r1.served, "a scrape is served");
    int n = shown(x.r1, "first");
    VP_CHECK(n == 0 || n == 1, "a scrape sees a registration entirely or not at all");
    VP_CHECK(shown(x.r1, "keep") == 1, "a scrape returns what stays registered");
    vp_reach(n ? "after" : "before");
    mg_connection c = w.get();
    VP_CHECK(shown(c, "first") == 1 && shown(c, "keep") == 1, "a registration that returned is seen by every later scrape");
  }
}
extern "C" void c26_remove() {
  {
    World w; Ctx& x = w.x;
    if (vp_choose(2, "first")) { x.e->RegisterCollectable(w.keep); x.e->RegisterCollectable(x.a); } else { x.e->RegisterCollectable(x.a); x.e->RegisterCollectable(w.keep); }
    go(scrape1, rema, nullptr, x);
    VP_CHECK(x.r1.served, "a scrape is served");
    int n = shown(x.r1, "first");
    VP_CHECK(n == 0 || n == 1, "a scrape sees a removal entirely or not at all");
    VP_CHECK(shown(x.r1, "keep") == 1, "a scrape returns what stays registered");
    vp_reach(n ? "before" : "after");
    mg_connection c = w.get();
    VP_CHECK(shown(c, "first") == 0 && shown(c, "keep") == 1, "a removal that returned is seen by every later scrape");
  }
}
// the last owner may let go of a collectable at any moment
extern "C" void c26_expire() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(x.a); x.e->RegisterCollectable(w.keep);
    go(scrape1, expa, vp_choose(2, "cleanup") ? regb : nullptr, x);
    VP_CHECK(x.r1.served, "a scrape is served");
    int n = shown(x.r1, "first");
    VP_CHECK(n == 0 || n == 1, "a scrape shows an expiring collectable entirely or not at all");
    VP_CHECK(shown(x.r1, "keep") == 1, "a scrape returns what stays registered");
    vp_reach(n ? "before" : "after");
    VP_CHECK(x.w.expired(), "a scrape does not keep a collectable alive");
    mg_connection c = w.get();
    VP_CHECK(shown(c, "first") == 0 && shown(c, "keep") == 1, "an expired collectable is not shown");
  }
}
// the first registration for a URI creates its endpoint
extern "C" void c26_new_uri() {
  {
    World w; Ctx& x = w.x;
    x.r1.uri = "/other";
    go(scrape1, rega_other, vp_choose(2, "two") ? regb_other : nullptr, x);
    if (x.r1.served) {
      int n = shown(x.r1, "first");
      VP_CHECK(n == 0 || n == 1, "a scrape sees a registration entirely or not at all");
      if (n) vp_reach("after");
    } else { VP_CHECK(!x.r1.found && x.r1.out.empty(), "nothing is served before the endpoint exists"); vp_reach("before"); }
    mg_connection c = w.get("/other");
    VP_CHECK(c.served && shown(c, "first") == 1, "a registration that returned is seen by every later scrape");
  }
}
extern "C" void c26_two_changes() {
  {
    World w; Ctx& x = w.x;
    static const Fn fa[] = {rega, rega_other, rema, auth}, fb[] = {regb, regb_other, auth2};
    unsigned a = vp_choose(4, "a"), b = vp_choose(3, "b");
    if (a == 2) x.e->RegisterCollectable(x.a);
    go(fa[a], fb[b], nullptr, x);
    const char* cred = "Basic dTpuZXc=";
    for (int o = 0; o < 2; o++) {
      mg_connection c = w.get(o ? "/other" : "/metrics", cred);
      bool ea = o ? a == 1 : a == 0, eb = o ? b == 1 : b == 0;
      bool exists = o ? ea || eb : a != 1 || b != 1;
      VP_CHECK(c.served == exists, "an endpoint exists for every URI that was used");
      if (c.served) VP_CHECK(shown(c, "first") == (ea ? 1 : 0) && shown(c, "second") == (eb ? 1 : 0), "both changes take effect");
    }
    if (a == 3 || b == 2) { mg_connection c = w.get(); VP_CHECK(!c.served, "a registered authentication is in force"); }
    vp_reach("done");
  }
}
extern "C" void c26_two_uris() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(x.a); x.e->RegisterCollectable(x.b, "/other");
    x.r2.uri = "/other";
    go(scrape1, scrape2, nullptr, x);
    VP_CHECK(x.r1.served && x.r2.served && shown(x.r1, "first") == 1 && shown(x.r1, "second") == 0 && shown(x.r2, "first") == 0 && shown(x.r2, "second") == 1, "concurrent scrapes of two URIs each return their own");
    stats(w.get(), 1, http::parse(x.r1.out).body.size());
    stats(w.get("/other"), 1, http::parse(x.r2.out).body.size());
    vp_reach("done");
  }
}
extern "C" void c26_two_scrapes() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(x.a);
    go(scrape1, scrape2, nullptr, x);
    VP_CHECK(x.r1.served && x.r2.served && shown(x.r1, "first") == 1 && shown(x.r2, "first") == 1, "concurrent scrapes each return everything");
    size_t n = http::parse(x.r1.out).body.size() + http::parse(x.r2.out).body.size();
    stats(w.get(), 2, n);
    vp_reach("done");
  }
}
extern "C" void c26_first_auth() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(x.a);
    unsigned k = vp_choose(3, "cred");
    if (k) x.r1.with("Authorization", k == 1 ? "Basic dTpuZXc=" : "Basic dTpvbGQ=");
    go(scrape1, auth, nullptr, x);
    if (x.r1.served) VP_CHECK(x.r1.authorized && shown(x.r1, "first") == 1, "a scrape is served entirely");
    else { VP_CHECK(k != 1, "accepted credentials reach the endpoint"); VP_CHECK(http::parse(x.r1.out).status == 401 && shown(x.r1.out, "first") == 0, "a refused request gets a challenge and nothing else"); }
    mg_connection c = w.get(), d = w.get("/metrics", "Basic dTpuZXc="), f = w.get("/metrics", "Basic dTpvbGQ=");
    VP_CHECK(!c.served && d.served && !f.served, "a registered authentication is in force");
    vp_reach("done");
  }
}
// the authentication is replaced while a request is being authorised
extern "C" void c26_replace_auth() {
  {
    World w; Ctx& x = w.x;
    x.e->RegisterCollectable(x.a);
    x.e->RegisterAuth([&x](const std::string& u, const std::string& p) { x.old_asked++; return u == "u" && p == "old"; }, "old");
    bool fresh = vp_choose(2, "cred");
    x.r1.with("Authorization", fresh ? "Basic dTpuZXc=" : "Basic dTpvbGQ=");
    go(scrape1, auth, vp_choose(2, "twice") ? auth2 : nullptr, x);
    bool by_old = x.old_asked == 1;
    VP_CHECK(x.r1.served == (fresh != by_old), "a request is judged by one of the callbacks");
    if (x.r1.served) VP_CHECK(shown(x.r1, "first") == 1, "a scrape is served entirely");
    else {
      http::Response r = http::parse(x.r1.out);
      VP_CHECK(r.status == 401 && r.header("www-authenticate") && (*r.header("www-authenticate") == "Basic realm=\"old\"") == by_old, "the challenge names the realm of the callback that judged");
    }
    vp_reach(by_old ? "old" : "new");
    VP_CHECK(!w.get("/metrics", "Basic dTpvbGQ=").served && w.get("/metrics", "Basic dTpuZXc=").served && x.old_asked == by_old, "a replaced authentication is not consulted any more");
  }
}
// destroying the exposer waits for the scrapes in flight and stops the server
extern "C" void c26_destroy() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Ctx x; bool two = vp_choose(2, "two");
    x.a = std::make_shared<Source>("first");
    int t1, t2 = -1;
    {
      Exposer e("127.0.0.1:0", 1); x.c = cv::g->ctx;
      e.RegisterCollectable(x.a);
      if (two) e.RegisterCollectable(x.a, "/other");
      t1 = vp_spawn(scrape1, &x);
      if (two) { x.r2.uri = "/other"; t2 = vp_spawn(scrape2, &x); }
    }
    VP_CHECK(x.a.use_count() == 1, "no scrape is running when the destructor returns");
    vp_join(t1); if (two) vp_join(t2);
    if (x.r1.served) { VP_CHECK(shown(x.r1, "first") == 1, "a scrape is served entirely"); vp_reach("served"); }
    else { VP_CHECK(x.r1.out.empty(), "a scrape is served entirely or not at all"); vp_reach("refused"); }
    if (two && x.r2.served) VP_CHECK(shown(x.r2, "first") == 1, "a scrape is served entirely");
  }
  cv::finish();
}
extern "C" void c26_order() {
  {
    World w; Ctx& x = w.x;
    go(scrape1, both, nullptr, x);
    if (!x.r1.served) { vp_reach("none"); return; }
    int a = shown(x.r1, "first"), b = shown(x.r1, "second");
    VP_CHECK(a >= b && b >= 0 && a <= 1, "a scrape sees registrations in their order");
    size_t i = x.r1.out.find("\nfirst_a"), j = x.r1.out.find("\nsecond_a");
    if (a && b) { VP_CHECK(i < j, "a scrape shows collectables in registration order"); vp_reach("both"); }
    else vp_reach(a ? "one" : "none");
  }
}
