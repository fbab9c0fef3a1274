// C25: HTTP responses are framed and encoded correctly
//@ sources core/ pull/
//@ bounds Accept-Encoding: every value of 0..4 (thorough 6) arbitrary bytes, and 0..3 arbitrary bytes at the front, the end or the place of the weight of lists naming gzip; compressed lengths below, at and above one and two output buffers (32768); a failure of the compressor at its initialisation or at any of 3 rounds with any error; bodies: the metrics of the endpoint and 0..1 families with arbitrary text (2 bytes), bodies of 4000..140000 bytes; sequences of 3 (thorough 4) requests that allow gzip or not, with a body that grows or shrinks and a compressor that may fail
//@ assume the connection accepts everything written to it; stub of zlib (the compressed data carries the input, its length and the format chosen); stub of civetweb
//@ entry c25_accept reach=plain,gzip
//@ entry c25_lists reach=plain,gzip
//@ entry c25_weight reach=plain,gzip
//@ entry c25_compressor reach=plain,gzip
//@ entry c25_content reach=plain,gzip
//@ entry c25_large reach=plain,gzip
//@ entry c25_sequence reach=plain,gzip
#include "civet_stub.h"
#include "metric.h"
#include "prometheus/exposer.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;

struct Source : Collectable {
  std::vector<MetricFamily> fams;
  std::vector<MetricFamily> Collect() const override { return fams; }
};
static std::vector<MetricFamily> content(const std::string& v) {
  MetricFamily f; f.name = "m"; f.help = "h"; f.type = MetricType::Counter;
  ClientMetric m; m.counter.value = 1; m.label.push_back(ClientMetric::Label{"l", v}); f.metric.push_back(m);
  return {f};
}
// does the value allow gzip (RFC 9110 section 12.5.3)?  Elements that do not follow the grammar are taken in favour of it.
static bool allows(const std::string& v) {
  size_t i = 0; bool gzip = false, zero = false, star = false;
  auto is = [&](size_t k, char c) { return k < v.size() && vp_decide(v[k] == c); };
  auto ows = [&](size_t k) { return k < v.size() && vp_decide((v[k] == ' ') | (v[k] == '\t')); };
  while (i < v.size()) {
    while (i < v.size() && (ows(i) || is(i, ','))) i++;
    size_t b = i;
    while (i < v.size() && !ows(i) && !is(i, ',') && !is(i, ';')) i++;
    std::string coding = v.substr(b, i - b);
    auto named = [&](const char* n) {
      if (strlen(n) != coding.size()) return false;
      int r = 1;
      for (size_t k = 0; k < coding.size(); k++) { char c = n[k]; r &= (coding[k] == c) | ((c >= 'a') & (c <= 'z') & (coding[k] == (char)(c - 32))); }
      return (bool)vp_decide(r);
    };
    while (ows(i)) i++;
    bool none = false;
    if (is(i, ';')) {
      i++;
      while (ows(i)) i++;
      if ((is(i, 'q') || is(i, 'Q')) && is(i + 1, '=') && is(i + 2, '0')) {
        size_t k = i + 3; bool nonzero = false;
        if (is(k, '.')) k++;
        while (k < v.size() && !ows(k) && !is(k, ',') && !is(k, ';')) { if (!is(k, '0')) nonzero = true; k++; }
        none = !nonzero;
      }
    }
    if (named("gzip") || named("x-gzip")) { gzip |= !none; zero |= none; }
    if (named("*")) star |= !none;
    while (i < v.size() && !is(i, ',')) i++;
  }
  return gzip || (!zero && star);
}
static void check(mg_connection& conn, const std::string& expected, bool accept_given, const std::string& accept) {
  VP_CHECK(conn.served, "a scrape is served");
  http::Response r = http::parse(conn.out);
  VP_CHECK(r.status == 200, "a scrape is answered with 200");
  VP_CHECK(r.count("content-length") == 1 && r.count("transfer-encoding") == 0, "a response declares one length");
  VP_CHECK(http::number(*r.header("content-length")) == r.body.size(), "the declared length is the number of body bytes written");
  VP_CHECK(r.count("content-type") == 1 && r.header("content-type")->compare(0, 10, "text/plain") == 0, "a response announces text");
  const std::string* enc = r.header("content-encoding");
  std::string body = r.body;
  if (enc) {
    VP_CHECK(r.count("content-encoding") == 1 && (*enc == "gzip" || *enc == "x-gzip"), "the encoding is announced as gzip");
    VP_CHECK(accept_given && allows(accept), "the body is compressed only if the request allows gzip");
    VP_CHECK(gz::decode(r.body, body), "a body announced as compressed is the complete compressed body");
    vp_reach("gzip");
  } else vp_reach("plain");
  // the metrics of the endpoint come first or last: the text of the collectable must be there, complete
  VP_CHECK(body.size() >= expected.size(), "the body is the full text");
  std::string tail = body.substr(body.size() - expected.size());
  VP_CHECK(mt::same(tail, expected), "the body is the full text");
  std::string head = body.substr(0, body.size() - expected.size());
  VP_CHECK(head.compare(0, 7, "# HELP ") == 0 && head.find("exposer_scrapes_total") != std::string::npos && head.back() == '\n', "the body is the full text");
  VP_CHECK(gz::c.open == 0, "the compressor is released");
  vp_out(enc ? 1 : 0);
}
static void scrape(bool accept_given, const std::string& accept, const std::vector<MetricFamily>& fams) {
  for (char c : accept) vp_assume(c != 0);
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    src->fams = fams;
    e.RegisterCollectable(src);
    mg_connection conn; conn.uri = "/metrics";
    conn.with("Host", "h");
    if (accept_given) conn.with("accept-encoding", accept);
    cv::request(cv::g->ctx, conn);
    check(conn, TextSerializer().Serialize(fams), accept_given, accept);
  }
  cv::finish();
}
static void fresh() { gz::c = gz::Cfg(); }
extern "C" void c25_accept() {
  fresh();
  unsigned k = vp_choose(2, "given");
  std::string a = k ? vp::sym_string_upto(0, VP_TIER(4, 6), "accept", "len") : std::string();
  scrape(k, a, content("x"));
}
extern "C" void c25_lists() {
  fresh();
  static const char* const heads[] = {"", "gzip", "x", "deflate,", "gzip;q=0,", "*;q=0,gzip", "identity;q=1, *;q=0"};
  static const char* const tails[] = {"gzip", "", "zip", ", gzip", "gzip;q=0", "gzi"};
  std::string a = heads[vp_choose(7, "head")];
  a += vp::sym_string_upto(0, VP_TIER(2, 3), "mid", "len");
  a += tails[vp_choose(6, "tail")];
  scrape(true, a, content("x"));
}
extern "C" void c25_weight() {
  fresh();
  static const char* const heads[] = {"gzip", "gzip;", "gzip;q=", "gzip;q=0", "gzip;q=0.", "gzip;q=0.00", "gzip ; Q=", "deflate, gzip;q=", "gzip; x=1;q=", "br;q=1.0,gzip\t;\tq=0"};
  static const char* const tails[] = {"", ", deflate", ";q=1"};
  std::string a = heads[vp_choose(10, "head")];
  a += vp::sym_string_upto(0, VP_TIER(2, 3), "weight", "len");
  a += tails[vp_choose(3, "tail")];
  scrape(true, a, content("x"));
}
extern "C" void c25_compressor() {
  fresh();
  static const int codes[] = {Z_STREAM_ERROR, Z_BUF_ERROR, Z_DATA_ERROR, Z_MEM_ERROR, Z_NEED_DICT};
  unsigned f = vp_choose(5, "fail");
  if (f == 1) gz::c.init = codes[vp_choose(5, "code")];
  if (f > 1) { gz::c.fail_round = (int)f - 2; gz::c.fail_code = codes[vp_choose(5, "code")]; }
  static const long targets[] = {0, 1, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000};
  long target = targets[vp_choose(10, "size")];
  gz::c.late = vp_choose(2, "late");
  // find the length of the text first
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    src->fams = content("x");
    e.RegisterCollectable(src);
    mg_connection first = cv::get("/metrics");
    check(first, TextSerializer().Serialize(src->fams), false, "");
    Exposer e2("127.0.0.1:0", 1);
    e2.RegisterCollectable(src);
    long n = (long)http::parse(first.out).body.size() + 12;
    gz::c.padding = target > n ? (size_t)(target - n) : 0;
    mg_connection second = cv::get("/metrics", "gzip");
    check(second, TextSerializer().Serialize(src->fams), true, "gzip");
  }
  cv::finish();
}
extern "C" void c25_content() {
  fresh();
  std::string s = vp::sym_string(2, "text");
  for (char c : s) vp_assume((c != '\\') & (c != '"') & (c != '\n'));
  unsigned what = vp_choose(3, "what");
  bool gzip = vp_choose(2, "gzip");
  scrape(gzip, gzip ? "gzip" : "", what == 0 ? std::vector<MetricFamily>() : what == 1 ? content(s) : content(std::string(1000, 'x') + s));
}
// large bodies: around one and more buffers, compressed or not
extern "C" void c25_large() {
  fresh();
  static const unsigned len[] = {4000, 8192, 16384, 32000, 32600, 32768, 33000, 65000, 65536, 66000, 140000};
  std::string s(len[vp_choose(11, "len")], 'x'), x = vp::sym_string(1, "text");
  vp_assume((x[0] != '\\') & (x[0] != '"') & (x[0] != '\n'));
  bool gzip = vp_choose(2, "gzip");
  scrape(gzip, gzip ? "gzip" : "", content(s + x));
}
// each response has its own encoding, length and body
extern "C" void c25_sequence() {
  fresh();
  cv::start();
  {
    Exposer e("127.0.0.1:0", 1);
    auto src = std::make_shared<Source>();
    e.RegisterCollectable(src);
    static const char* const accept[] = {"", "gzip", "gzip;q=0"};
    for (unsigned i = 0; i < VP_TIER(3, 4); i++) {
      src->fams = content(std::string(vp_choose(2, "size") ? 300 : 3, (char)('x' + i)));
      unsigned k = vp_choose(4, "accept");
      gz::c.init = k == 3 ? Z_MEM_ERROR : Z_OK;
      std::string a = accept[k == 3 ? 1 : k];
      mg_connection c = cv::get("/metrics", a);
      check(c, TextSerializer().Serialize(src->fams), !a.empty(), a);
    }
  }
  cv::finish();
}
