// C21: each HTTP request is self-contained and resources are balanced
//@ sources core/ push/
//@ bounds every sequence of 3 (thorough 4) operations (push, push-add, with content of 0..2 arbitrary letters; both deletions; adding a header, accepted or refused) with any outcome of each transfer; user name, password, headers: arbitrary 0..2 bytes without NUL; timeout: every value the HTTP library accepts; bodies of 0..66000 bytes around buffer sizes, in changing order, with 20 headers; a failure of the HTTP library at any single call (initialisation, handle, list, option) of a client's life
//@ assume the HTTP library behaves as documented (stub of libcurl): strings are copied when set, body and header list are read during the transfer, a reset clears all options; apart from c21_faults setting an option succeeds
//@ entry c21_sequence reach=done,refused
//@ entry c21_settings reach=auth,anonymous
//@ entry c21_setup reach=done
//@ entry c21_result reach=error,status
//@ entry c21_large reach=done
//@ entry c21_faults leak reach=constructed,failed
//@ entry c21_setfaults leak reach=done
#include "curl_stub.h"
#include "metric.h"
#include "prometheus/gateway.h"
#include "prometheus/text_serializer.h"
#include <stdexcept>
using namespace prometheus;
static const char* const CT = "Content-Type: text/plain; version=0.0.4; charset=utf-8";

struct Source : Collectable {
  std::vector<MetricFamily> fams;
  std::vector<MetricFamily> Collect() const override { return fams; }
};
static std::vector<MetricFamily> content(const std::string& help) {
  MetricFamily f; f.name = "m"; f.help = help; f.type = MetricType::Counter;
  ClientMetric m; m.counter.value = 1; f.metric.push_back(m);
  return {f};
}
static int code_; static long status_;
static CURLcode outcome(int, const cu::Req&, long* st) { *st = status_; return (CURLcode)code_; }
static std::string text(const char* name) {
  std::string s = vp::sym_string_upto(0, 2, name, "tlen");
  for (char c : s) vp_assume(c != 0);
  return s;
}
struct Settings { bool on = false; std::vector<std::pair<int, long>> opts; };
static void check_request(const cu::Req& q, const char* method, const std::string& url, const std::string& body, const std::vector<std::string>& headers, const std::vector<std::pair<int, long>>& opts) {
  VP_CHECK(q.method == method, "a request has its own method");
  VP_CHECK(q.url == url, "a request has its own URL");
  VP_CHECK(q.body.size() == body.size(), "a request has its own body and length");
  VP_ASSERT(memcmp(q.body.data(), body.data(), body.size()) == 0, "a request has its own body");
  VP_CHECK(q.headers.size() == headers.size() + 1, "a request carries the content type and all headers added by the user");
  unsigned ct = 0; size_t next = 0;
  for (auto& h : q.headers) {
    if (h == CT && ct == 0) { ct++; continue; }
    VP_CHECK(next < headers.size() && mt::same(h, headers[next]), "a request carries the headers added by the user as they are");
    next++;
  }
  VP_CHECK(ct == 1, "a request announces the text exposition format");
  VP_CHECK(q.opts == opts, "the connection settings of the user are applied to every request, and no others");
}
extern "C" void c21_sequence() {
  cu::start(); cu::g->outcome = outcome;
  {
    std::vector<std::pair<int, long>> opts{{(int)CURLOPT_CONNECTTIMEOUT, 7}, {(int)CURLOPT_SSL_VERIFYPEER, 0}};
    std::function<void(CURL*)> setup = [](CURL* c) { curl_easy_setopt(c, CURLOPT_CONNECTTIMEOUT, 7L); curl_easy_setopt(c, CURLOPT_SSL_VERIFYPEER, 0L); };
    if (vp_choose(2, "nosetup")) { setup = nullptr; opts.clear(); }
    Gateway g("http://h:1", setup, "j", Labels{{"g", "1"}});
    auto src = std::make_shared<Source>();
    g.RegisterCollectable(src);
    std::vector<std::string> headers;
    unsigned n = VP_TIER(3, 4);
    for (unsigned i = 0; i < n; i++) {
      unsigned op = vp_choose(6, "op");
      if (op == 4) {
        std::string h = "X-A: " + std::string(1, (char)('0' + headers.size()));
        VP_CHECK(g.AddHttpHeader(h), "adding a header succeeds");
        headers.push_back(h);
        continue;
      }
      if (op == 5) {
        cu::g->fail_at = cu::g->calls;
        VP_CHECK(!g.AddHttpHeader("X-Lost: 1"), "adding a header reports failure");
        cu::g->fail_at = -1;
        vp_reach("refused");
        continue;
      }
      unsigned what = op < 2 ? vp_choose(3, "what") : 0;
      std::string help = what == 2 ? vp::sym_string(2, "help") : std::string();
      if (what == 2) for (char c : help) vp_assume((c >= 'a') & (c <= 'z'));
      src->fams = what == 0 ? std::vector<MetricFamily>() : content(help);
      std::string body = TextSerializer().Serialize(src->fams);
      // the outcome must not influence later requests
      if (vp_choose(2, "fails")) { code_ = CURLE_COULDNT_CONNECT; status_ = 0; } else { code_ = 0; status_ = 200; }
      size_t k = cu::g->req.size();
      int rc;
      switch (op) {
        case 0: rc = g.Push(); break;
        case 1: rc = g.PushAdd(); break;
        case 2: rc = g.Delete(); break;
        default: rc = g.DeleteForInstance();
      }
      VP_CHECK(rc == (code_ ? -code_ : 200), "the result of the request is reported");
      VP_CHECK(cu::g->req.size() == k + 1, "one request");
      check_request(cu::g->req[k], op == 0 ? "POST" : op == 1 ? "PUT" : "DELETE", op == 2 ? "http://h:1/metrics/job/j" : "http://h:1/metrics/job/j/g/1", op < 2 ? body : std::string(), headers, opts);
    }
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
  vp_reach("done");
}
extern "C" void c21_settings() {
  cu::start(); cu::g->outcome = outcome; code_ = 0; status_ = 202;
  {
    std::string user = text("user"), pass = text("password"), header = text("header");
    for (char c : user) vp_assume(c != ':');
    long timeout = (long)(uint32_t)vp_sym("timeout", 32);
    vp_assume(timeout <= 2147483);
    Gateway g("h", "1", "j", Labels{}, user, pass, std::chrono::seconds(timeout));
    VP_CHECK(g.AddHttpHeader("X: " + header), "adding a header succeeds");
    // what the caller passed may be gone by now
    std::string u = user, p = pass;
    user.assign(2, 'x'); pass.assign(2, 'x');
    auto src = std::make_shared<Source>();
    src->fams = content("x");
    g.RegisterCollectable(src);
    VP_CHECK(g.Push() == 200, "a successful push returns 200");
    VP_CHECK(g.Delete() == 202, "a deletion returns its status");
    VP_CHECK(cu::g->req.size() == 2, "one request each");
    for (unsigned i = 0; i < 2; i++) {
      const cu::Req& q = cu::g->req[i];
      check_request(q, i == 0 ? "POST" : "DELETE", "h:1/metrics/job/j", i == 0 ? TextSerializer().Serialize(src->fams) : std::string(), {"X: " + header}, {});
      if (!u.empty()) {
        VP_CHECK(q.has_user && mt::same(q.user, u), "the user name is sent");
        VP_CHECK(q.has_password && mt::same(q.password, p), "the password is sent");
        VP_CHECK(q.httpauth == CURLAUTH_BASIC, "credentials are sent by basic authentication");
        vp_reach("auth");
      } else { VP_CHECK(!q.has_user && !q.has_password, "without user name no credentials are sent"); vp_reach("anonymous"); }
      VP_ASSERT(q.timeout_ms == timeout * 1000, "the timeout applies to every request");
    }
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
}
// settings that depend on state of the user, e.g. renewed tokens, and that name other options
extern "C" void c21_setup() {
  cu::start(); cu::g->outcome = outcome; code_ = 0; status_ = 200;
  {
    long a = (long)vp_sym("a", 31), b = (long)vp_sym("b", 31);
    auto value = std::make_shared<long>(a);
    Gateway g("http://h", [value](CURL* c) { curl_easy_setopt(c, CURLOPT_USERPWD, "me:secret"); curl_easy_setopt(c, CURLOPT_LOW_SPEED_TIME, *value); curl_easy_setopt(c, CURLOPT_TIMEOUT, 5L); }, "j");
    g.Delete();
    *value = b;
    g.DeleteForInstance();
    VP_CHECK(cu::g->req.size() == 2, "one request each");
    for (unsigned i = 0; i < 2; i++) {
      const cu::Req& q = cu::g->req[i];
      VP_CHECK(q.opts.size() == 1 && q.opts[0].first == (int)CURLOPT_LOW_SPEED_TIME, "the settings are applied to every request");
      VP_ASSERT(q.opts[0].second == (i ? b : a), "the settings of the moment of the request are applied");
      VP_CHECK(q.has_user && q.user == "me" && q.has_password && q.password == "secret" && q.timeout_ms == 5000, "the settings are applied to every request");
    }
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
  vp_reach("done");
}
extern "C" void c21_result() {
  cu::start(); cu::g->outcome = outcome;
  unsigned c = (unsigned)vp_sym("code", 8), s = (unsigned)vp_sym("status", 16);
  vp_assume(c < 100); vp_assume(s < 1000);
  code_ = (int)c; status_ = (long)s;
  {
    Gateway g("http://h", std::function<void(CURL*)>(), "j");
    int rc = vp_choose(2, "instance") ? g.DeleteForInstance() : g.Delete();
    if (vp_decide(c != 0)) { VP_ASSERT(rc < 0, "transport errors are negative"); VP_ASSERT(rc == -(int)c, "transport errors are reported as their negative value"); vp_reach("error"); }
    else { VP_ASSERT(rc == (int)s, "a response is reported as its status"); vp_reach("status"); }
    vp_out((uint64_t)(unsigned)rc);
  }
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  cu::finish();
}
// the HTTP library fails at any one call; c21_setfaults: options as well
static void life(bool& constructed) {
  constructed = false;
  try {
    unsigned how = vp_choose(2, "constructor");
    std::unique_ptr<Gateway> g;
    std::function<void(CURL*)> setup;
    if (vp_choose(2, "setup")) setup = [](CURL* c) { curl_easy_setopt(c, CURLOPT_VERBOSE, 1L); };
    if (how == 0) g.reset(new Gateway("http://h", setup, "j", Labels{{"g", "1"}}));
    else g.reset(new Gateway("h", "1", "j", Labels{}, "u", "p", std::chrono::seconds(1)));
    constructed = true;
    bool a = g->AddHttpHeader("A: 1");
    auto src = std::make_shared<Source>();
    src->fams = content("x");
    g->RegisterCollectable(src);
    g->Push();
    bool b = g->AddHttpHeader("B: 1");
    VP_CHECK(a || b, "only one call fails");
    g->Delete();
    if (!cu::g->fail_setopt) for (auto& q : cu::g->req) VP_CHECK(q.headers.size() == 1 + (a ? 1 : 0) + (b && &q == &cu::g->req.back() ? 1 : 0), "a failed addition leaves the headers as they were");
  } catch (const std::exception&) { VP_CHECK(!constructed, "only the construction reports failures by exceptions"); }
}
extern "C" void c21_faults() {
  cu::start(); cu::g->outcome = outcome; code_ = 0; status_ = 200;
  cu::g->fail_at = (int)vp_choose(8, "fail") - 1;
  bool c; life(c);
  VP_CHECK(c || cu::g->fail_at >= 0, "without failure the construction succeeds");
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  vp_reach(c ? "constructed" : "failed");
  cu::finish();
}
extern "C" void c21_setfaults() {
  cu::start(); cu::g->outcome = outcome; code_ = 0; status_ = 200;
  cu::g->fail_setopt = 1; cu::g->fail_at = (int)vp_choose(VP_TIER(20, 40), "fail") - 1;
  bool c; life(c);
  VP_CHECK(cu::g->balanced(), "everything taken from the HTTP library is released once");
  vp_reach("done");
  cu::finish();
}
// large bodies of changing length, many headers
extern "C" void c21_large() {
  cu::start(); cu::g->outcome = outcome; code_ = 0; status_ = 200;
  {
    Gateway g("http://h:1", std::function<void(CURL*)>(), "j");
    std::vector<std::string> headers;
    for (int i = 0; i < 20; i++) { headers.push_back("X-" + std::string(1, (char)('a' + i)) + ": " + std::string(i * 20, 'v')); VP_CHECK(g.AddHttpHeader(headers.back()), "adding a header succeeds"); }
    auto src = std::make_shared<Source>();
    g.RegisterCollectable(src);
    static const unsigned len[] = {1000, 1024, 4000, 16384, 32768, 65600, 66000};
    unsigned first = len[vp_choose(7, "first")], second = vp_choose(2, "second") ? 5 : 20000;
    for (unsigned i = 0; i < 3; i++) {
      unsigned n = i == 0 ? first : i == 1 ? second : 0;
      std::string help = n ? std::string(n - 1, i ? 'y' : 'x') + vp::sym_string(1, "last") : std::string();
      if (n) vp_assume((help[n - 1] != '\\') & (help[n - 1] != '\n'));
      src->fams = n ? content(help) : std::vector<MetricFamily>();
      std::string body = TextSerializer().Serialize(src->fams);
      VP_CHECK((i == 1 ? g.PushAdd() : g.Push()) == 200, "a successful push returns 200");
      VP_CHECK(cu::g->req.size() == i + 1, "one request");
      check_request(cu::g->req[i], i == 1 ? "PUT" : "POST", "http://h:1/metrics/job/j", body, headers, {});
    }
    VP_CHECK(g.Delete() == 200 && cu::g->req.size() == 4, "one request");
    check_request(cu::g->req[3], "DELETE", "http://h:1/metrics/job/j", "", headers, {});
  }
  cu::finish();
  vp_reach("done");
}
