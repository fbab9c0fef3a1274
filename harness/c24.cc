// C24: a scrape returns exactly the live collectables of that endpoint
//@ sources core/ pull/
//@ bounds every history of up to 4 (thorough 5) operations (register, remove one, remove an expired or foreign one, expire, scrape) on 3 collectables (registered any number of times) and 2 URIs, followed by scrapes of all URIs; 3 scrapes of 2 URIs in any order, compressed or not, failed authorisations in between; 8 collectables on one URI of which any one is removed and any one expires; 20 scrapes; three collectables on two URIs that are arbitrary texts of up to 2 (thorough 3) printable characters after a common start
//@ assume removing an expired or foreign collectable is asked for on an existing endpoint; stub of civetweb; the connection accepts everything written to it
//@ entry c24_history reach=done,skipped,removed
//@ entry c24_registry reach=done
//@ entry c24_stats reach=done
//@ entry c24_latency reach=done
//@ entry c24_lifetime leak reach=done
//@ entry c24_many reach=done
//@ entry c24_uris reach=same,different
#include "civet_stub.h"
#include "expo.h"
#include "metric.h"
#include "prometheus/exposer.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;

struct Source : Collectable {
  int id; mutable int calls = 0;
  explicit Source(int i) : id(i) {}
  static std::vector<MetricFamily> at(int id, int call) {
    if (id == 2 && call == 0) return {};
    std::vector<MetricFamily> v;
    for (int k = 0; k < (id == 1 ? 2 : 1); k++) {
      MetricFamily f; f.name = id == 0 ? "first" : id == 1 ? (k ? "second_b" : "second") : "third"; f.help = "h"; f.type = MetricType::Counter;
      ClientMetric m; m.counter.value = id * 10 + call; f.metric.push_back(m);
      v.push_back(f);
    }
    return v;
  }
  std::vector<MetricFamily> Collect() const override { return at(id, calls++); }
};
// the metrics of the endpoint itself
struct Own { double scrapes = -1, bytes = -1; uint64_t latencies = ~0ULL; };
static std::string own(const std::string& body, const std::string& expected, int scrapes, long bytes) {
  // the text of the collectables is there, complete and in order; the rest is about the endpoint
  VP_CHECK(body.size() >= expected.size(), "a scrape returns the metrics of every live collectable, in registration order");
  std::string head = body.substr(0, body.size() - expected.size());
  VP_CHECK(body.substr(head.size()) == expected, "a scrape returns the metrics of every live collectable, in registration order, and of no other");
  bool ok; auto lines = expo::read(head, "quantile", ok);
  int ns = 0, nb = 0;
  for (auto& l : lines) {
    if (l.kind != 's') continue;
    VP_CHECK(l.name.compare(0, 8, "exposer_") == 0, "a scrape returns the metrics of every live collectable, and of no other");
    if (l.name == "exposer_scrapes_total") { ns++; VP_CHECK(expo::is_double(l.value, scrapes), "the endpoint counts its completed scrapes"); }
    if (l.name == "exposer_transferred_bytes_total") { nb++; VP_CHECK(expo::is_double(l.value, (double)bytes), "the endpoint counts the body bytes sent"); }
    if (l.name == "exposer_request_latencies_count") VP_CHECK(expo::is_u64(l.value, (uint64_t)scrapes), "the endpoint records the latency of each completed scrape");
  }
  VP_CHECK(ns == 1 && nb == 1, "the endpoint reports its own metrics");
  return head;
}
struct Uri { const char* uri; bool exists = false; std::vector<int> regs; int scrapes = 0; long bytes = 0; };
static void scrape(Uri& u, std::shared_ptr<Source>* src, bool gzip) {
  mg_connection conn = cv::get(u.uri, gzip ? "gzip" : "");
  if (!u.exists) { VP_CHECK(!conn.served, "nothing is served at other URIs"); return; }
  VP_CHECK(conn.served, "a scrape is served");
  http::Response r = http::parse(conn.out);
  std::string body = r.body;
  if (r.header("content-encoding")) VP_CHECK(gz::decode(r.body, body), "the body decodes");
  std::vector<MetricFamily> all;
  int seen[3] = {0, 0, 0};
  for (int id : u.regs) {
    if (!src[id]) { vp_reach("skipped"); continue; }
    int n = 0; for (int x : u.regs) n += x == id;
    int call = src[id]->calls - n + seen[id]++;
    VP_CHECK(call >= 0, "each registered collectable is collected once per registration");
    for (auto& f : Source::at(id, call)) all.push_back(f);
  }
  own(body, TextSerializer().Serialize(all), u.scrapes, u.bytes);
  u.scrapes++; u.bytes += (long)r.body.size();
}
extern "C" void c24_history() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    Uri uris[2]; uris[0].uri = "/metrics"; uris[1].uri = "/metrics2";
    std::shared_ptr<Source> src[3]; std::weak_ptr<Source> weak[3];
    for (int i = 0; i < 3; i++) { src[i] = std::make_shared<Source>(i); weak[i] = src[i]; }
    unsigned n = VP_TIER(4, 5);
    for (unsigned i = 0; i < n; i++) {
      unsigned op = vp_choose(7, "op");
      if (op < 3) {
        Uri& u = uris[op == 2 ? 1 : 0];
        int id = op == 2 ? (int)vp_choose(2, "id") : (int)op;
        if (!src[id]) return;
        if (op == 2) e.RegisterCollectable(weak[id], u.uri); else e.RegisterCollectable(src[id]);
        u.regs.push_back(id); u.exists = true;
      } else if (op == 3 || op == 4) {
        Uri& u = uris[op == 4];
        if (!u.exists) return;
        int id = (int)vp_choose(3, "id");
        e.RemoveCollectable(weak[id], u.uri);
        if (src[id]) { std::vector<int> k; for (int x : u.regs) if (x != id) k.push_back(x); else vp_reach("removed"); u.regs = k; }
      } else if (op == 5) {
        int id = (int)vp_choose(2, "id");
        if (!src[id]) return;
        src[id].reset();
      } else scrape(uris[0], src, false);
    }
    scrape(uris[0], src, false);
    scrape(uris[1], src, false);
    scrape(uris[0], src, true);
  }
  cv::finish();
  vp_reach("done");
}
// registries as collectables: the scrape shows what they hold now
extern "C" void c24_registry() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e(std::vector<std::string>{"listening_ports", "0"});
    auto r = std::make_shared<Registry>();
    e.RegisterCollectable(r, "/m");
    Counter& c = BuildCounter().Name("c").Help("h").Register(*r).Add({{"l", vp::sym_string(1, "v")}});
    int bytes = 0;
    for (int i = 0; i < 2; i++) {
      c.Increment(3);
      mg_connection conn = cv::get("/m");
      VP_CHECK(conn.served, "a scrape is served");
      std::string body = http::parse(conn.out).body;
      own(body, TextSerializer().Serialize(r->Collect()), i, bytes);
      bytes += (int)body.size();
    }
    if (vp_choose(2, "remove")) e.RemoveCollectable(r, "/m"); else r.reset();
    mg_connection conn = cv::get("/m");
    own(http::parse(conn.out).body, "", 2, bytes);
  }
  cv::finish();
  vp_reach("done");
}
// the statistics belong to their URI, count what was sent, and nothing else
extern "C" void c24_stats() {
  gz::c = gz::Cfg(); gz::c.padding = 1000;
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    Uri uris[2]; uris[0].uri = "/a"; uris[1].uri = "/b"; uris[0].exists = uris[1].exists = true;
    std::shared_ptr<Source> src[3];
    for (int i = 0; i < 3; i++) src[i] = std::make_shared<Source>(i);
    e.RegisterCollectable(src[0], "/a"); uris[0].regs.push_back(0);
    e.RegisterCollectable(src[1], "/b"); uris[1].regs.push_back(1);
    e.RegisterAuth([](const std::string& u, const std::string&) { return u == "me"; }, "realm", "/c");
    for (int i = 0; i < VP_TIER(3, 4); i++) {
      gz::c.init = Z_OK;
      unsigned op = vp_choose(6, "op");
      if (op < 4) scrape(uris[op & 1], src, op >= 2);
      else if (op == 4) { gz::c.init = Z_MEM_ERROR; scrape(uris[0], src, true); }
      else { mg_connection c = cv::get("/c"); VP_CHECK(!c.served, "a request without credentials is refused"); }
    }
    gz::c.init = Z_OK;
    scrape(uris[0], src, false);
    scrape(uris[1], src, false);
    // requests that were refused or failed are not scrapes
    mg_connection c = cv::get("/c", "", "Basic bWU6");
    VP_CHECK(c.served, "accepted credentials reach the endpoint");
    own(http::parse(c.out).body, "", 0, 0);
    mg_connection h; h.uri = "/a"; h.method = "HEAD";
    cv::request(cv::g->ctx, h);
    if (!h.served) VP_CHECK(h.out.empty(), "a request that is not served gets no answer from the endpoint");
  }
  cv::finish();
  vp_reach("done");
}
static int64_t now_ns, step_ns;
static int64_t clk(void) { now_ns += step_ns; return now_ns; }
extern "C" void c24_latency() {
  gz::c = gz::Cfg();
  now_ns = 1000; vp_steady_hook = clk; step_ns = 0;
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>(0);
    static const int64_t steps[] = {0, 1, 999, 1000, 1500000, 1000000000};
    step_ns = steps[vp_choose(6, "step")];
    e.RegisterCollectable(src);
    long bytes = 0; int scrapes = 0;
    for (int i = 0; i < 2; i++) {
      mg_connection c = cv::get("/metrics");
      std::string body = http::parse(c.out).body;
      own(body, TextSerializer().Serialize(Source::at(0, i)), scrapes, bytes);
      scrapes++; bytes += (long)body.size();
    }
  }
  cv::finish();
  vp_steady_hook = nullptr;
  vp_reach("done");
}
// an exposer keeps nothing alive, and leaves nothing behind
extern "C" void c24_lifetime() {
  gz::c = gz::Cfg();
  cv::start();
  std::shared_ptr<Source> src = std::make_shared<Source>(0);
  {
    cv::g->fail_start = vp_choose(2, "fail");
    try {
      Exposer e("127.0.0.1:0", 1);
      VP_CHECK(!cv::g->fail_start, "a server that cannot start is reported");
      e.RegisterCollectable(src);
      e.RegisterCollectable(src, "/b");
      if (vp_choose(2, "auth")) { e.RegisterAuth([](const std::string&, const std::string&) { return true; }); e.RegisterAuth([](const std::string&, const std::string&) { return false; }); }
      VP_CHECK(src.use_count() == 1, "an exposer does not keep collectables alive");
      cv::get("/metrics"); cv::get("/b", "gzip"); cv::get("/metrics", "", "Basic dTpw");
      VP_CHECK(src.use_count() == 1, "an exposer does not keep collectables alive");
      std::vector<int> p = e.GetListeningPorts();
      VP_CHECK(p.size() == 1 && p[0] == 8080, "the ports are those of the server");
    } catch (const CivetException&) { VP_CHECK(cv::g->fail_start, "a server that can start is started"); }
  }
  src.reset();
  cv::finish();
  vp_reach("done");
}
// many collectables, many scrapes
extern "C" void c24_many() {
  gz::c = gz::Cfg();
  cv::start();
  {
    const int N = 8;
    Exposer e("127.0.0.1:0", 1);
    struct Named : Collectable {
      std::string n; explicit Named(std::string s) : n(std::move(s)) {}
      std::vector<MetricFamily> Collect() const override { MetricFamily f; f.name = n; f.help = "h"; f.type = MetricType::Gauge; ClientMetric m; m.gauge.value = 2; f.metric.push_back(m); f.metric.push_back(m); return {f}; }
    };
    std::shared_ptr<Named> src[N];
    for (int i = 0; i < N; i++) { src[i] = std::make_shared<Named>(std::string(1 + i % 3, (char)('a' + i))); e.RegisterCollectable(src[i], "/m"); }
    int dead = (int)vp_choose(N + 1, "dead"), gone = (int)vp_choose(N + 1, "gone");
    bool late = vp_choose(2, "late");
    if (!late && dead < N) src[dead].reset();
    if (gone < N && src[gone]) e.RemoveCollectable(src[gone], "/m");
    if (late && dead < N) src[dead].reset();
    long bytes = 0; unsigned n = vp_choose(2, "scrapes") ? 3 : 1;
    if (dead == 2 && gone == 5) n = 20;
    for (unsigned k = 0; k < n; k++) {
      std::vector<MetricFamily> all;
      for (int i = 0; i < N; i++) if (i != dead && i != gone) all.push_back(src[i]->Collect()[0]);
      mg_connection c = cv::get("/m", k % 2 ? "gzip" : "");
      VP_CHECK(c.served, "a scrape is served");
      http::Response r = http::parse(c.out);
      std::string body = r.body;
      if (r.header("content-encoding")) VP_CHECK(gz::decode(r.body, body), "the body decodes");
      own(body, TextSerializer().Serialize(all), (int)k, bytes);
      bytes += (long)r.body.size();
    }
  }
  cv::finish();
  vp_reach("done");
}

// what is registered for a URI is served at that URI only, however similar another one is
extern "C" void c24_uris() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    struct Named : Collectable {
      std::string n; explicit Named(std::string s) : n(std::move(s)) {}
      std::vector<MetricFamily> Collect() const override { MetricFamily f; f.name = n; f.help = "h"; f.type = MetricType::Gauge; ClientMetric m; m.gauge.value = 2; f.metric.push_back(m); return {f}; }
    };
    std::string u[2];
    for (int i = 0; i < 2; i++) {
      u[i] = "/a" + vp::sym_string_upto(0, VP_TIER(2, 3), "uri", "len");
      int ok = 1;
      for (unsigned char c : u[i]) ok &= (c > 32) & (c < 127) & (c != '$') & (c != '*') & (c != '?') & (c != '|') & (c != '#') & (c != '%') & (c != '\\');
      vp_assume(ok);
    }
    bool same = u[0].size() == u[1].size();
    if (same) { int eq = 1; for (size_t i = 0; i < u[0].size(); i++) eq &= u[0][i] == u[1][i]; same = vp_decide(eq); }
    auto a = std::make_shared<Named>("first"), b = std::make_shared<Named>("second"), c = std::make_shared<Named>("third");
    e.RegisterCollectable(a, u[0]); e.RegisterCollectable(b, u[1]); e.RegisterCollectable(c, u[0]);
    if (vp_choose(2, "remove")) e.RemoveCollectable(a, u[1]);   // registered there only if the URIs are the same
    else { a.reset(); if (!same) { a = std::make_shared<Named>("fourth"); e.RegisterCollectable(a, u[0]); } }
    std::vector<MetricFamily> w0, w1;
    if (same) { w0 = b->Collect(); w0.push_back(c->Collect()[0]); w1 = w0; vp_reach("same"); }
    else {
      w1 = b->Collect();
      if (a->n == "first") w0.push_back(a->Collect()[0]);
      w0.push_back(c->Collect()[0]);
      if (a->n == "fourth") w0.push_back(a->Collect()[0]);
      vp_reach("different");
    }
    mg_connection x = cv::get(u[0]); VP_CHECK(x.served, "a scrape is served");
    std::string body = http::parse(x.out).body;
    own(body, TextSerializer().Serialize(w0), 0, 0);
    mg_connection y = cv::get(u[1]); VP_CHECK(y.served, "a scrape is served");
    own(http::parse(y.out).body, TextSerializer().Serialize(w1), same ? 1 : 0, same ? (long)body.size() : 0);
  }
  cv::finish();
}
