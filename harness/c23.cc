// C23: only requests with accepted credentials reach a protected endpoint
//@ sources core/ pull/
//@ bounds Authorization: absent, every value of 0..7 arbitrary bytes, "Basic " followed by 0, 3, 4 (thorough 5, 8) arbitrary bytes, one arbitrary byte anywhere in a correct value, correct base64 of every decoded value of 0..3 (thorough 4) arbitrary bytes and of 4..6 (thorough 7) bytes of which any two are arbitrary; the callback's decision is arbitrary; several endpoints and replaced callbacks; sequences of 3 (thorough 4) requests whose credentials are accepted or refused anew each time; user names and passwords of up to 300 bytes with one arbitrary byte
//@ assume stub of civetweb: authorisation handlers run before request handlers, header names are case-insensitive, values contain no NUL
//@ entry c23_header reach=refused
//@ entry c23_base64 reach=served,refused,asked
//@ entry c23_decoded reach=served,refused,asked
//@ entry c23_places4 reach=served,refused,asked
//@ entry c23_places5 reach=served,refused,asked
//@ entry c23_places6 reach=served,refused,asked
//@ entry c23_places7 thorough reach=served,refused,asked
//@ entry c23_mutated reach=served,refused
//@ entry c23_endpoints reach=served,refused
//@ entry c23_challenge reach=done
//@ entry c23_changing reach=served,refused
//@ entry c23_large reach=served,refused,asked
#include "civet_stub.h"
#include "metric.h"
#include "prometheus/exposer.h"
using namespace prometheus;

struct Source : Collectable {
  mutable int calls = 0;
  std::vector<MetricFamily> Collect() const override {
    calls++;
    MetricFamily f; f.name = "secret"; f.help = "h"; f.type = MetricType::Counter;
    ClientMetric m; m.counter.value = 1; f.metric.push_back(m);
    return {f};
  }
};
static unsigned value(unsigned char c) {   // RFC 4648 table 1; 64 for padding, 65 otherwise
  uint64_t r = 65;
  r = vp_ite64((c >= 'A') & (c <= 'Z'), c - 'A', r);
  r = vp_ite64((c >= 'a') & (c <= 'z'), c - 'a' + 26, r);
  r = vp_ite64((c >= '0') & (c <= '9'), c - '0' + 52, r);
  r = vp_ite64(c == '+', 62, r);
  r = vp_ite64(c == '/', 63, r);
  r = vp_ite64(c == '=', 64, r);
  return (unsigned)r;
}
static char digit(unsigned v) {
  uint64_t r = '/';
  r = vp_ite64(v == 62, '+', r);
  r = vp_ite64(v < 62, v - 52 + '0', r);
  r = vp_ite64(v < 52, v - 26 + 'a', r);
  r = vp_ite64(v < 26, v + 'A', r);
  return (char)r;
}
static std::string encode(const std::string& in) {
  std::string o;
  for (size_t i = 0; i < in.size(); i += 3) {
    auto b = [&](size_t k) { return i + k < in.size() ? (unsigned)(unsigned char)in[i + k] : 0u; };
    unsigned w = b(0) << 16 | b(1) << 8 | b(2);
    for (unsigned k = 0; k < 4; k++) o += i + k <= in.size() ? digit((w >> (18 - 6 * k)) & 63) : '=';
  }
  return o;
}
// user and password a header value carries, if any
static bool credentials(const std::string& h, std::string& user, std::string& pass) {
  static const char prefix[] = "Basic ";
  if (h.size() < 6) return false;
  int ok = 1;
  for (int i = 0; i < 6; i++) ok &= h[i] == prefix[i];
  if (!vp_decide(ok)) return false;
  std::string s = h.substr(6), d;
  if (s.size() % 4) return false;
  size_t n = s.size(), pad = 0;
  std::vector<unsigned> v;
  for (char c : s) v.push_back(value((unsigned char)c));
  ok = 1;
  for (size_t i = 0; i + 2 < n; i++) ok &= v[i] < 64;
  if (n) { int p1 = v[n - 1] == 64, p2 = p1 & (v[n - 2] == 64); ok &= (v[n - 2] < 64) | p2; ok &= (v[n - 1] < 64) | p1; }
  if (!vp_decide(ok)) return false;
  if (n) pad = vp_decide(v[n - 1] == 64) ? (vp_decide(v[n - 2] == 64) ? 2 : 1) : 0;
  for (size_t i = 0; i < n / 4 * 3 - pad; i++) {
    unsigned w = 0; size_t g = i / 3 * 4;
    for (int k = 0; k < 4; k++) w = w << 6 | (unsigned)vp_ite64(v[g + k] == 64, 0, v[g + k]);
    d += (char)(w >> (16 - 8 * (i % 3)));
  }
  size_t c = 0;
  while (c < d.size() && !vp_decide(d[c] == ':')) c++;
  if (c == d.size()) return false;
  user = d.substr(0, c); pass = d.substr(c + 1);
  return true;
}
struct Asked { int n = 0; std::string user, pass; bool answer = false; };
static void refused(const mg_connection& conn, const Source& src, const std::string& realm, int before) {
  VP_CHECK(!conn.authorized && !conn.served && src.calls == before, "no other request reaches the endpoint");
  VP_CHECK(conn.out.find("secret") == std::string::npos, "a refusal contains no metrics");
  http::Response r = http::parse(conn.out);
  VP_CHECK(r.status == 401, "a refusal is a 401");
  VP_CHECK(r.count("www-authenticate") == 1 && *r.header("www-authenticate") == "Basic realm=\"" + realm + "\"", "a refusal is a challenge naming the realm");
  VP_CHECK(r.body.empty(), "a refusal has no body");
  VP_CHECK(r.count("content-length") == 1 && http::number(*r.header("content-length")) == 0, "a refusal declares its length");
}
static void served(const mg_connection& conn, const Source& src, int before) {
  VP_CHECK(conn.authorized && conn.served && src.calls == before + 1, "accepted credentials reach the endpoint");
  VP_CHECK(http::parse(conn.out).status == 200 && conn.out.find("secret 1") != std::string::npos || !vp_native(), "accepted credentials are served the metrics");
  VP_CHECK(http::parse(conn.out).body.find("# TYPE secret counter") != std::string::npos, "accepted credentials are served the metrics");
}
static void run(bool given, const std::string& header) {
  for (char c : header) vp_assume(c != 0);
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    e.RegisterCollectable(src);
    Asked asked;
    e.RegisterAuth([&asked](const std::string& u, const std::string& p) { asked.n++; asked.user = u; asked.pass = p; asked.answer = vp_choose(2, "answer"); return asked.answer; }, "the realm");
    mg_connection conn; conn.uri = "/metrics";
    conn.with("Host", "h");
    if (given) conn.with("AUTHORIZATION", header);
    cv::request(cv::g->ctx, conn);
    std::string user, pass;
    bool valid = given && credentials(header, user, pass);
    if (asked.n) {
      VP_CHECK(valid, "the callback sees only credentials that were sent");
      VP_CHECK(asked.n == 1, "the callback decides once");
      VP_CHECK(asked.user.size() == user.size() && asked.pass.size() == pass.size(), "the user name ends at the first colon, the password is everything after it");
      VP_ASSERT(memcmp(asked.user.data(), user.data(), user.size()) == 0, "the callback gets precisely the user name sent");
      VP_ASSERT(memcmp(asked.pass.data(), pass.data(), pass.size()) == 0, "the callback gets precisely the password sent");
      vp_reach("asked");
    } else VP_CHECK(!valid, "correct credentials are presented to the callback");
    if (asked.n && asked.answer) { served(conn, *src, 0); vp_reach("served"); }
    else { refused(conn, *src, "the realm", 0); vp_reach("refused"); }
    vp_out(asked.n * 2 + asked.answer);
  }
  cv::finish();
}
extern "C" void c23_header() {
  bool given = vp_choose(2, "given");
  run(given, given ? vp::sym_string_upto(0, 7, "header", "len") : std::string());
}
extern "C" void c23_base64() {
  static const unsigned lens[] = {0, 3, 4, 5, 8};
  run(true, "Basic " + vp::sym_string(lens[vp_choose(VP_TIER(3, 5), "len")], "b64"));
}
extern "C" void c23_decoded() {
  run(true, "Basic " + encode(vp::sym_string_upto(0, VP_TIER(3, 4), "credentials", "len")));
}
// arbitrary bytes at any two places of a longer value
static void places(unsigned n) {
  std::string d = std::string("us:pa:s").substr(0, n);
  unsigned a = vp_choose(n, "a"), b = vp_choose(n, "b");
  vp_assume(a < b);
  std::string x = vp::sym_string(2, "credentials");
  d[a] = x[0]; d[b] = x[1];
  run(true, "Basic " + encode(d));
}
extern "C" void c23_places4() { places(4); }
extern "C" void c23_places5() { places(5); }
extern "C" void c23_places6() { places(6); }
extern "C" void c23_places7() {
  places(7);
}
extern "C" void c23_mutated() {
  std::string h = "Basic dXNlcjpwYTpz";   // user:pa:s
  unsigned op = vp_choose(3, "op");
  size_t at = vp_choose((unsigned)h.size() + (op == 1), "at");
  if (op == 0) h[at] = vp::sym_string(1, "byte")[0];
  else if (op == 1) h.insert(at, vp::sym_string(1, "byte"));
  else h.erase(at, 1);
  run(true, h);
}
// each endpoint has its own protection; the last callback registered decides
extern "C" void c23_endpoints() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto open = std::make_shared<Source>(), closed = std::make_shared<Source>();
    int first = 0, second = 0, other = 0;
    std::string expect = "u:" + vp::sym_string(1, "p");
    vp_assume(expect[2] != 0);
    unsigned order = vp_choose(3, "order");
    if (order == 0) e.RegisterCollectable(closed, "/closed");
    e.RegisterAuth([&](const std::string&, const std::string&) { first++; return true; }, "one", "/closed");
    if (order == 1) e.RegisterCollectable(closed, "/closed");
    e.RegisterCollectable(open, "/open");
    if (vp_choose(2, "third")) e.RegisterAuth([&](const std::string&, const std::string&) { other++; return true; }, "three", "/third");
    bool replaced = vp_choose(2, "replaced");
    if (replaced) e.RegisterAuth([&](const std::string& u, const std::string& p) { second++; return mt::same(u, "u") && mt::same(p, "q"); }, "two", "/closed");
    if (order == 2) e.RegisterCollectable(closed, "/closed");
    mg_connection o = cv::get("/open");
    served(o, *open, 0);
    mg_connection n = cv::get("/closed");
    refused(n, *closed, replaced ? "two" : "one", 0);
    VP_CHECK(first + second == 0, "no callback is asked without credentials");
    bool sub = vp_choose(2, "sub");
    mg_connection c = cv::get(sub ? "/closed/x" : "/closed", "", "Basic " + encode(expect));
    VP_CHECK(other == 0 && first == (replaced ? 0 : 1) && second == (replaced ? 1 : 0), "the callback of the endpoint decides, the last one registered");
    if (!replaced || vp_decide(expect[2] == 'q')) { served(c, *closed, 0); vp_reach("served"); }
    else { refused(c, *closed, "two", 0); vp_reach("refused"); }
  }
  cv::finish();
}
extern "C" void c23_challenge() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    e.RegisterCollectable(src);
    std::string realm = vp::sym_string_upto(0, 2, "realm", "len");
    for (char c : realm) vp_assume((c >= ' ') & (c != '"') & (c != '\\') & (c != 127));
    realm = "100%s " + realm;
    bool accept = vp_choose(2, "accept");
    e.RegisterAuth([accept](const std::string&, const std::string&) { return accept; }, realm);
    static const char* const headers[] = {"", "Basic", "Basic dTpw", "Bearer x", "Basic dTpw="};
    unsigned k = vp_choose(5, "header");
    mg_connection conn = cv::get("/metrics", vp_choose(2, "gzip") ? "gzip" : "", headers[k]);
    if (k == 2 && accept) VP_CHECK(conn.served, "accepted credentials reach the endpoint");
    else {
      VP_CHECK(!conn.served && src->calls == 0, "no other request reaches the endpoint");
      http::Response r = http::parse(conn.out);
      VP_CHECK(r.status == 401 && r.body.empty(), "a refusal is a 401 without body");
      VP_CHECK(r.count("www-authenticate") == 1 && mt::same(*r.header("www-authenticate"), "Basic realm=\"" + realm + "\""), "a refusal is a challenge naming the realm");
    }
    // the next request is judged anew
    mg_connection next = cv::get("/metrics");
    VP_CHECK(!next.served, "credentials count for the request they came with only");
  }
  cv::finish();
  vp_reach("done");
}
// the callback's decision of the moment counts
extern "C" void c23_changing() {
  gz::c = gz::Cfg();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    e.RegisterCollectable(src);
    bool a = false, b = false;
    e.RegisterAuth([&](const std::string& u, const std::string& p) { return u == "u" && ((p == "p" && a) || (p == "q" && b)); }, "the realm");
    static const char* const cred[] = {"Basic dTpw", "Basic dTpx", "", "Basic dTpw="};   // u:p, u:q, none, broken
    for (unsigned i = 0; i < VP_TIER(3, 4); i++) {
      a = vp_choose(2, "accept_p"); b = vp_choose(2, "accept_q");
      unsigned k = vp_choose(4, "credentials");
      int before = src->calls;
      mg_connection c = cv::get("/metrics", "", cred[k]);
      if ((k == 0 && a) || (k == 1 && b)) { served(c, *src, before); vp_reach("served"); }
      else { refused(c, *src, "the realm", before); vp_reach("refused"); }
    }
  }
  cv::finish();
}
// long credentials
extern "C" void c23_large() {
  static const unsigned len[] = {20, 33, 64, 100, 200, 300};
  std::string x = vp::long_string(len[vp_choose(6, "len")], "credentials");
  switch (vp_choose(3, "what")) {
    case 0: run(true, "Basic " + encode("user:" + x)); break;
    case 1: run(true, "Basic " + encode(x + ":password")); break;
    default: run(true, "Basic " + encode(x));
  }
}
