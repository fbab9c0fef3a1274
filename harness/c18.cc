// C18: base64 encoding and decoding are inverse and strict
//@ sources core/
//@ bounds encoding: every byte string of length 0..7 (thorough 0..10), base64url and round trip 0..3 (thorough 0..4); decoding: every string of length 0..7; length 8 with any 1 position and one of the last two (thorough any 3 positions) holding any byte and the others any capital letter; thorough also length 12 with any 2 positions; lengths 30..303 (encoding) and 64..1004 (decoding) with one arbitrary byte near the start, the middle or the end; two operations in a row on one string object with 2 respectively 4 characters, changed in between
//@ entry c18_encode reach=done
//@ entry c18_encode_url reach=done
//@ entry c18_roundtrip reach=done
//@ entry c18_decode reach=accepted,refused
//@ entry c18_decode_long reach=accepted,refused
//@ entry c18_large reach=done,accepted,refused
//@ entry c18_changing reach=done,accepted,refused
#include "prometheus/detail/base64.h"
#include "vp.h"
#include <cstring>
#include <vector>
using namespace prometheus::detail;

static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned char digit(unsigned v, bool url) {  // RFC 4648 tables 1 and 2
  uint64_t r = (unsigned char)((url ? '_' : '/'));
  r = vp_ite64(v == 62, (unsigned char)(url ? '-' : '+'), r);
  r = vp_ite64(v < 62, v - 52 + '0', r);
  r = vp_ite64(v < 52, v - 26 + 'a', r);
  r = vp_ite64(v < 26, v + 'A', r);
  return (unsigned char)r;
}
// value of an alphabet character, 64 for padding, 65 otherwise
static unsigned value(unsigned char c) {
  uint64_t r = 65;
  r = vp_ite64((c >= 'A') & (c <= 'Z'), c - 'A', r);
  r = vp_ite64((c >= 'a') & (c <= 'z'), c - 'a' + 26, r);
  r = vp_ite64((c >= '0') & (c <= '9'), c - '0' + 52, r);
  r = vp_ite64(c == '+', 62, r);
  r = vp_ite64(c == '/', 63, r);
  r = vp_ite64(c == '=', 64, r);
  return (unsigned)r;
}
static void check_enc(const std::string& in, const std::string& out, bool url) {
  VP_CHECK(out.size() == (in.size() + 2) / 3 * 4, "encoded length");
  for (size_t i = 0; i < out.size(); i++) {
    size_t bit = i * 6, b = bit / 8, sh = bit % 8;
    unsigned v = 0;
    auto byte = [&](size_t k) { return k < in.size() ? (unsigned)(unsigned char)in[k] : 0u; };
    v = ((byte(b) << 8 | byte(b + 1)) >> (10 - sh)) & 63;
    unsigned char want = b < in.size() ? digit(v, url) : '=';
    if (i * 6 >= in.size() * 8) want = '=';
    VP_ASSERT((unsigned char)out[i] == want, "encoding is the one of RFC 4648");
  }
}
extern "C" void c18_encode() {
  std::string s = vp::sym_string_upto(0, VP_TIER(7, 10), "in", "len");
  check_enc(s, base64_encode(s), false);
  for (char c : base64_encode(s)) vp_out((unsigned char)c);
  vp_reach("done");
}
extern "C" void c18_encode_url() {
  std::string s = vp::sym_string_upto(0, VP_TIER(3, 4), "in", "len");
  std::string e = base64url_encode(s);
  check_enc(s, e, true);
  for (char c : e) vp_out((unsigned char)c);
  vp_reach("done");
}
extern "C" void c18_roundtrip() {
  std::string s = vp::sym_string_upto(0, VP_TIER(3, 4), "in", "len");
  // the encoded characters are arbitrary: any group the encoder can produce
  std::string d = base64_decode(base64_encode(s));
  VP_CHECK(d.size() == s.size(), "decode(encode(x)) == x");
  VP_ASSERT(memcmp(d.data(), s.data(), s.size()) == 0, "decode(encode(x)) == x");
  vp_reach("done");
}
static void check_dec(const std::string& s) {
  // the documented format
  size_t n = s.size(); int ok = n % 4 == 0;
  unsigned pad = 0;
  std::vector<uint64_t> v(n);
  for (size_t i = 0; i < n; i++) v[i] = value((unsigned char)s[i]);
  if (ok && n) {
    int p1 = v[n - 1] == 64, p2 = p1 & (v[n - 2] == 64);
    for (size_t i = 0; i + 2 < n; i++) ok &= v[i] < 64;
    ok &= (v[n - 2] < 64) | p2;
    ok &= (v[n - 1] < 64) | p1;
  }
  std::string d; bool threw = false;
  try { d = base64_decode(s); } catch (const std::exception&) { threw = true; }
  if (threw) { VP_ASSERT(!ok, "correct base64 is decoded"); vp_reach("refused"); vp_out(1000); return; }
  VP_ASSERT(ok, "anything but correct base64 is refused");
  // one decision for the padding length
  if (n) pad = vp_decide(v[n - 1] == 64) ? (vp_decide(v[n - 2] == 64) ? 2 : 1) : 0;
  VP_CHECK(d.size() == n / 4 * 3 - pad, "decoded length");
  for (size_t i = 0; i < d.size(); i++) {
    size_t g = i / 3 * 4; unsigned w = 0;
    for (int k = 0; k < 4; k++) w = w << 6 | (unsigned)vp_ite64(v[g + k] == 64, 0, v[g + k]);
    VP_ASSERT((unsigned char)d[i] == (unsigned char)(w >> (16 - 8 * (i % 3))), "decoded bytes are the ones of RFC 4648");
    vp_out((unsigned char)d[i]);
  }
  vp_reach("accepted");
}
extern "C" void c18_decode() {
  unsigned n = vp_choose(8, "len");
  std::string s = vp::sym_string(n, "in");
  check_dec(s);
}
extern "C" void c18_decode_long() {
  unsigned n = VP_TIER(8, 8);
  if (VP_THOROUGH && vp_choose(2, "groups")) n = 12;
  std::string s = vp::sym_string(n, "in");
  unsigned a = vp_choose(n, "p1"), b = vp_choose(n, "p2"), c = n == 8 && VP_THOROUGH ? vp_choose(n, "p3") : b;
  if (!VP_THOROUGH) vp_assume(b == a || b >= n - 2);
  vp_assume((a < b || (!VP_THOROUGH && a == b)) && b <= c);
  for (unsigned i = 0; i < n; i++) if (i != a && i != b && i != c) vp_assume((s[i] >= 'A') & (s[i] <= 'Z'));
  check_dec(s);
}
extern "C" void c18_large() {
  if (vp_choose(2, "what")) {
    static const unsigned len[] = {30, 31, 63, 64, 65, 255, 256, 257, 300, 301, 302, 303};
    std::string s = vp::long_string(len[vp_choose(12, "len")], "in");
    bool url = vp_choose(2, "url");
    check_enc(s, url ? base64url_encode(s) : base64_encode(s), url);
    vp_reach("done");
  } else {
    static const unsigned len[] = {64, 68, 128, 256, 260, 1000, 1004, 255, 257};
    unsigned n = len[vp_choose(9, "len")];
    std::string s, good;
    for (unsigned i = 0; i < n; i++) s += AL[(i * 29) % 64];
    unsigned pad = vp_choose(3, "pad"); for (unsigned i = 0; i < pad; i++) s[n - 1 - i] = '=';
    unsigned at[] = {0, 31, n / 2, n - 5, n - 4, n - 3, n - 2, n - 1};
    s[at[vp_choose(8, "at")]] = vp::sym_string(1, "in")[0];
    check_dec(s);
  }
}
// results do not depend on what was asked before, also about the same object
extern "C" void c18_changing() {
  std::string s;
  unsigned what = vp_choose(3, "what");
  for (unsigned i = 0; i < 2; i++) {
    if (what == 2) { s.assign(i ? "QUI=" : "QUJD"); s[vp_choose(4, "at")] = vp::sym_string(1, "in")[0]; check_dec(s); }
    else { s.assign(vp::sym_string(2, "in")); check_enc(s, what ? base64url_encode(s) : base64_encode(s), what); }
  }
  vp_reach("done");
}
