// C19: push URLs identify exactly the given grouping key
//@ sources core/ push/
//@ bounds job names, label values: every byte string of length 0..2 (thorough 0..4), one of them arbitrary at a time and all of length 0..1 at once; label names: every valid name of 1..2 characters; 0..2 gateway labels, 0..1 collectable labels; values of 5..300 bytes with one arbitrary byte, 7 gateway and 5 collectable labels; every request operation; base URLs with and without trailing slash and path; two gateways after each other, or two collectables of one gateway, whose values of 0..1 arbitrary bytes are held by one label set that changes
//@ assume the HTTP library sends the request to the URL it is given, after dot-segment removal (stub of libcurl)
//@ entry c19_job reach=plain,encoded,empty
//@ entry c19_labels reach=plain,encoded,empty
//@ entry c19_all reach=done
//@ entry c19_names reach=done
//@ entry c19_base reach=done
//@ entry c19_large reach=done
//@ entry c19_sequence reach=done
#include "curl_stub.h"
#include "grouping.h"
#include "prometheus/gateway.h"
#include "metric.h"
using namespace prometheus;
using gk::KV;

struct One : Collectable {
  std::vector<MetricFamily> Collect() const override { return {}; }
};
// every way to send a request; sets what it addresses: the labels of the gateway / of the collectable
static void send(Gateway& g, bool& labels, bool& own) {
  labels = own = false;
  switch (vp_choose(4, "operation")) {
    case 0: g.Push(); labels = own = true; break;
    case 1: g.PushAdd(); labels = own = true; break;
    case 2: g.Delete(); break;
    default: g.DeleteForInstance(); labels = true;
  }
}
static void run(const std::string& url, const std::string& base, const std::string& job, const Labels& labels, const Labels& own) {
  cu::start();
  {
    Gateway g(url, std::function<void(CURL*)>(), job, labels);
    std::shared_ptr<Collectable> c = std::make_shared<One>();
    if (own.empty() && vp_choose(2, "null")) g.RegisterCollectable(c); else g.RegisterCollectable(c, &own);
    bool l, o;
    send(g, l, o);
    VP_CHECK(cu::g->req.size() == 1, "one request");
    std::vector<KV> want;
    want.push_back(KV{"job", job});
    if (l) for (auto& x : labels) want.push_back(KV{x.first, x.second});
    if (o) for (auto& x : own) want.push_back(KV{x.first, x.second});
    gk::check(cu::g->req[0].url, base, want);
    for (char ch : cu::g->req[0].url) vp_out((unsigned char)ch);
  }
  cu::finish();
}
static void classify(const std::string& s) {
  if (s.empty()) { vp_reach("empty"); return; }
  int plain = 1;
  for (char c : s) plain &= gk::unreserved((unsigned char)c);
  vp_reach(vp_decide(plain) ? "plain" : "encoded");
}
extern "C" void c19_job() {
  std::string job = vp::sym_string_upto(0, VP_TIER(3, 4), "job", "len");
  run("http://h:1/", "http://h:1", job, Labels{{"instance", "i"}}, Labels{{"z", "a/b"}});
  classify(job);
}
extern "C" void c19_labels() {
  std::string v = vp::sym_string_upto(0, VP_TIER(3, 4), "value", "len");
  bool own = vp_choose(2, "own");
  if (own) run("http://h:1", "http://h:1", "j", Labels{{"b", "x y"}}, Labels{{"v", v}});
  else run("http://h:1", "http://h:1", "j", Labels{{"a", ".."}, {"v", v}}, Labels{{"b", ""}});
  classify(v);
}
extern "C" void c19_all() {
  std::string job = vp::sym_string_upto(0, 1, "job", "len"), a = vp::sym_string_upto(0, 1, "a", "len"), b = vp::sym_string_upto(0, 1, "b", "len"), c = vp::sym_string_upto(0, 1, "c", "len");
  run("http://h:1", "http://h:1", job, Labels{{"a", a}, {"b", b}}, Labels{{"c", c}});
  vp_reach("done");
}
extern "C" void c19_names() {
  std::string n = vp::sym_string_upto(1, 2, "name", "len"), v = vp::sym_string_upto(0, 1, "value", "vlen");
  for (size_t i = 0; i < n.size(); i++) {
    unsigned char ch = n[i];
    int ok = ((ch >= 'a') & (ch <= 'z')) | ((ch >= 'A') & (ch <= 'Z')) | (ch == '_');
    if (i) ok |= (ch >= '0') & (ch <= '9');
    vp_assume(ok);
  }
  if (vp_choose(2, "own")) run("http://h:1", "http://h:1", "j", {}, Labels{{n, v}});
  else run("http://h:1", "http://h:1", "j", Labels{{n, v}}, {});
  vp_reach("done");
}
// base URLs, and the host/port constructors
extern "C" void c19_base() {
  static const char* const urls[] = {"http://h", "http://h/", "https://h:9091/prefix", "https://h:9091/prefix/", "h"};
  static const char* const bases[] = {"http://h", "http://h", "https://h:9091/prefix", "https://h:9091/prefix", "h"};
  unsigned k = vp_choose(7, "url");
  std::string v = vp::sym_string(1, "v");
  if (k < 5) run(urls[k], bases[k], "j", Labels{{"l", v}}, Labels{{"m", "."}});
  else {
    std::string host = vp::sym_string_upto(1, 2, "host", "hlen"), port = vp::sym_string_upto(1, 1, "port", "plen");
    for (char c : host) vp_assume(gk::unreserved((unsigned char)c));
    for (char c : port) vp_assume((c >= '0') & (c <= '9'));
    cu::start();
    {
      Labels l = Gateway::GetInstanceLabel(v);
      VP_CHECK(l.size() == 1 && l.begin()->first == "instance" && mt::same(l.begin()->second, v), "the instance label is the host name");
      VP_CHECK(Gateway::GetInstanceLabel("").empty(), "without host name there is no instance label");
      std::unique_ptr<Gateway> g;
      if (k == 5) g.reset(new Gateway(host, port, "j", l)); else g.reset(new Gateway(host, port, std::function<void(CURL*)>(), "j", l));
      g->DeleteForInstance();
      VP_CHECK(cu::g->req.size() == 1, "one request");
      gk::check(cu::g->req[0].url, host + ":" + port, {KV{"job", "j"}, KV{"instance", v}});
    }
    cu::finish();
  }
  vp_reach("done");
}
// long values, many labels
extern "C" void c19_large() {
  static const unsigned len[] = {5, 8, 16, 17, 47, 63, 64, 100, 255, 256, 300};
  std::string v = vp::long_string(len[vp_choose(11, "len")], "value");
  unsigned what = vp_choose(4, "what");
  if (what == 0) run("http://h:1", "http://h:1", v, Labels{{"b", "x y"}}, Labels{});
  else if (what == 1) run("http://h:1", "http://h:1", "j", Labels{{"a", v}}, Labels{});
  else if (what == 2) run("http://h:1", "http://h:1", "j", Labels{}, Labels{{"a", v}});
  else {
    Labels g, o;
    for (unsigned i = 0; i < 7; i++) g[std::string(1 + i, (char)('a' + i))] = i == 3 ? v : i == 4 ? std::string() : std::string(i * 3, i % 2 ? '/' : '.');
    for (unsigned i = 0; i < 5; i++) o[std::string(1 + i, (char)('p' + i))] = i == 4 ? v : std::string(i, ' ');
    run("http://h:1/x", "http://h:1/x", std::string(40, '/'), g, o);
  }
  vp_reach("done");
}
// the URL follows what is given to each gateway and each registration
extern "C" void c19_sequence() {
  Labels l; l["a"] = vp_choose(2, "a") ? "x" : ""; l["b"] = vp::sym_string(1, "v");
  if (vp_choose(2, "gateways")) {
    std::string job = "j";
    run("http://h:1", "http://h:1", job, l, {});
    if (vp_choose(2, "job")) { run("http://h:1", "http://h:1", vp::sym_string(1, "job"), l, {}); vp_reach("done"); return; }
    l["b"].assign(vp::sym_string(1, "v"));
    run("http://h:1", "http://h:1", job, l, {});
  } else {
    cu::start();
    {
      Gateway g("http://h:1", std::function<void(CURL*)>(), "j", {});
      std::shared_ptr<Collectable> c = std::make_shared<One>(), d = vp_choose(2, "same") ? c : std::make_shared<One>();
      std::vector<std::vector<KV>> want(2, std::vector<KV>{KV{"job", "j"}});
      for (auto& x : l) want[0].push_back(KV{x.first, x.second});
      g.RegisterCollectable(c, &l);
      l["b"].assign(vp::sym_string(1, "v"));
      if (vp_choose(2, "fewer")) l.erase("a");
      for (auto& x : l) want[1].push_back(KV{x.first, x.second});
      g.RegisterCollectable(d, &l);
      l.clear();
      if (vp_choose(2, "add")) g.PushAdd(); else g.Push();
      VP_CHECK(cu::g->req.size() == 2, "one request for each collectable");
      for (unsigned i = 0; i < 2; i++) gk::check(cu::g->req[i].url, "http://h:1", want[i]);
    }
    cu::finish();
  }
  vp_reach("done");
}
