// The grouping key of a Pushgateway URL, decoded as its documentation says.
#pragma once
#include <string>
#include <vector>
#include "vp.h"
namespace gk {
struct KV { std::string name, value; };
inline int unreserved(unsigned char c) {   // RFC 3986 section 2.3
  return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.') | (c == '_') | (c == '~');
}
inline unsigned digit(unsigned char c) {   // RFC 4648 table 2, 65 for anything else
  uint64_t r = 65;
  r = vp_ite64((c >= 'A') & (c <= 'Z'), c - 'A', r);
  r = vp_ite64((c >= 'a') & (c <= 'z'), c - 'a' + 26, r);
  r = vp_ite64((c >= '0') & (c <= '9'), c - '0' + 52, r);
  r = vp_ite64(c == '-', 62, r);
  r = vp_ite64(c == '_', 63, r);
  return (unsigned)r;
}
inline int eq(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return 0;
  int r = 1;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
inline std::vector<std::string> segments(const std::string& path) {
  std::vector<std::string> raw, out;
  size_t i = 0;
  while (i < path.size()) {
    VP_CHECK(path[i] == '/', "the path consists of segments");
    std::string s; i++;
    for (; i < path.size() && path[i] != '/'; i++) {
      // a '?' or '#' would end the path, a '%' would be decoded
      VP_ASSERT(unreserved((unsigned char)path[i]) | (path[i] == '@') | (path[i] == '=') | (path[i] == ':'), "the path contains only characters that mean themselves");
      s += path[i];
    }
    raw.push_back(s);
  }
  // RFC 3986 section 5.2.4
  for (size_t k = 0; k < raw.size(); k++) {
    const std::string& s = raw[k];
    bool last = k + 1 == raw.size();
    if (s.size() == 1 && vp_decide(s[0] == '.')) { if (last) out.push_back(""); continue; }
    if (s.size() == 2 && vp_decide((s[0] == '.') & (s[1] == '.'))) { if (!out.empty()) out.pop_back(); if (last) out.push_back(""); continue; }
    out.push_back(s);
  }
  return out;
}
inline void check(const std::string& url, const std::string& base, const std::vector<KV>& want) {
  std::string head = base + "/metrics";
  VP_CHECK(url.size() >= head.size() && eq(url.substr(0, head.size()), head), "the URL starts with the base and /metrics");
  std::vector<std::string> seg = segments(url.substr(head.size()));
  VP_CHECK(seg.size() == 2 * want.size(), "the path has one name and one value per label");
  for (size_t i = 0; i < want.size(); i++) {
    const std::string &n = seg[2 * i], &v = seg[2 * i + 1];
    const KV& w = want[i];
    static const char suffix[] = "@base64";
    bool encoded = n.size() >= 7 && vp_decide(eq(n.substr(n.size() - 7), suffix));
    VP_CHECK(eq(encoded ? n.substr(0, n.size() - 7) : n, w.name), "names appear in order");
    if (!encoded) {
      VP_CHECK(!v.empty(), "an empty path segment is not a value");
      VP_ASSERT(eq(v, w.value), "a plain value decodes to the value given");
      continue;
    }
    int plain = !w.value.empty();
    for (char c : w.value) plain &= unreserved((unsigned char)c);
    if (w.value.size() == 1) plain &= w.value[0] != '.';
    if (w.value.size() == 2) plain &= !((w.value[0] == '.') & (w.value[1] == '.'));
    VP_ASSERT(!plain, "plain values of unreserved characters are sent unencoded");
    // base64url, padding optional, "=" alone stands for the empty value
    size_t len = v.size();
    VP_CHECK(len > 0, "an encoded value is not an empty path segment");
    while (len > 0 && vp_decide(v[len - 1] == '=')) len--;
    VP_CHECK(len % 4 != 1, "an encoded value has a valid length");
    size_t bytes = len * 6 / 8;
    VP_CHECK(bytes == w.value.size(), "an encoded value decodes to the value given");
    for (size_t k = 0; k < len; k++) VP_ASSERT(digit((unsigned char)v[k]) < 64, "an encoded value uses the base64url alphabet");
    for (size_t k = 0; k < bytes; k++) {
      size_t bit = k * 8, d = bit / 6, sh = bit % 6;
      unsigned x = digit((unsigned char)v[d]) << 12 | digit((unsigned char)v[d + 1]) << 6 | (d + 2 < len ? digit((unsigned char)v[d + 2]) : 0);
      VP_ASSERT((unsigned char)(x >> (10 - sh)) == (unsigned char)w.value[k], "an encoded value decodes to the value given");
    }
  }
}
}  // namespace gk
