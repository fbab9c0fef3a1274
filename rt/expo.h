// A strict reader of the Prometheus text exposition format, written from the
// format's documentation.  Numbers are read as tokens in the symbolic build and
// as decimal text in native replays.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "token.h"
#include "vp.h"

namespace expo {
struct Num {           // a parsed number: token or text
  char kind = 0;       // 'd' 'l' 'u' token, 'n' NaN, 'p' +Inf, 'm' -Inf, 't' text
  uint64_t raw = 0;
  std::string text;
};
struct Lab { std::string name, value; bool num = false; Num n; };
struct Line {
  char kind = 0;       // 'h' HELP, 't' TYPE, 's' sample, 'c' other comment
  std::string name, text;
  std::vector<Lab> labels;
  Num value; bool has_ts = false; Num ts;
};

struct Reader {
  const char* p; const char* e; bool ok = true; const char* why = "";
  explicit Reader(const std::string& s) : p(s.data()), e(s.data() + s.size()) {}
  bool bad(const char* w) { if (ok) why = w; ok = false; return false; }
  bool end() const { return p >= e; }
  bool is(char c) const { return p < e && vp_decide(*p == c); }
  bool lit(const char* s) {
    size_t n = strlen(s);
    if ((size_t)(e - p) < n || memcmp(p, s, n) != 0) return false;
    p += n; return true;
  }
  static bool name0(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == ':'); }
  static bool namec(char c) { return name0(c) | ((c >= '0') & (c <= '9')); }
  std::string name() {
    std::string r;
    if (p < e && vp_decide(name0(*p))) { do r += *p++; while (p < e && vp_decide(namec(*p))); }
    else bad("name expected");
    return r;
  }
  // at a value: NaN / infinities / number
  Num num() {
    Num n;
    if (lit("Nan") || lit("NaN") || lit("nan")) { n.kind = 'n'; return n; }
    if (lit("+Inf") || lit("Inf")) { n.kind = 'p'; return n; }
    if (lit("-Inf")) { n.kind = 'm'; return n; }
    if (!vp_native() && p < e && vp_decide((unsigned char)*p == VP_TOKEN_MARK)) {
      if (e - p < VP_TOKEN_LEN) { bad("truncated number"); return n; }
      n.kind = p[1];
      for (int i = 7; i >= 0; i--) n.raw = (n.raw << 8) | (unsigned char)p[2 + i];
      uint32_t fl = 0;
      for (int i = 3; i >= 0; i--) fl = (fl << 8) | (unsigned char)p[10 + i];
      int prec = (unsigned char)p[14]; bool plain = p[15] == 0 && p[17] == 0;
      if (n.kind == 'd') {
        std::ios_base::fmtflags f = (std::ios_base::fmtflags)fl;
        auto ff = f & std::ios_base::floatfield;
        if (ff != std::ios_base::fmtflags(0) && ff != std::ios_base::scientific) plain = false;
        if (prec < (ff == std::ios_base::scientific ? 15 : 16)) plain = false;
      } else if (n.kind == 'l' || n.kind == 'u') {
        auto bf = (std::ios_base::fmtflags)fl & std::ios_base::basefield;
        if (bf == std::ios_base::hex || bf == std::ios_base::oct) plain = false;
      } else plain = false;
      if (!plain) bad("number written in a format that loses its value");
      p += VP_TOKEN_LEN;
      return n;
    }
    n.kind = 't';
    while (p < e && !is(' ') && !is('\n') && !is('"')) n.text += *p++;
    if (n.text.empty()) bad("number expected");
    return n;
  }
  // quoted label value; as number if asked
  void quoted(Lab& l, bool asnum) {
    if (!is('"')) { bad("quote expected"); return; }
    p++;
    if (asnum) { l.num = true; l.n = num(); if (!is('"')) { bad("closing quote expected"); return; } p++; return; }
    for (;;) {
      if (end()) { bad("unterminated label value"); return; }
      if (is('"')) { p++; return; }
      if (is('\n')) { bad("line feed inside a label value"); return; }
      if (is('\\')) {
        p++;
        if (is('n')) l.value += '\n'; else if (is('\\')) l.value += '\\'; else if (is('"')) l.value += '"';
        else { bad("invalid escape in a label value"); return; }
        p++;
      } else l.value += *p++;
    }
  }
  std::string restOfLine(bool esc) {
    std::string r;
    while (!end() && !is('\n')) {
      if (esc && is('\\')) {
        p++;
        if (is('n')) r += '\n'; else if (is('\\')) r += '\\'; else if (is('"')) r += '"'; else { bad("invalid escape in help text"); return r; }
        p++;
      } else r += *p++;
    }
    if (end()) bad("last line not terminated"); else p++;
    return r;
  }
  // a label whose value is a number (le, quantile) is given by name
  Line line(const char* numlabel) {
    Line l;
    if (is('#')) {
      if (lit("# HELP ")) { l.kind = 'h'; l.name = name(); if (is(' ')) p++; l.text = restOfLine(true); }
      else if (lit("# TYPE ")) { l.kind = 't'; l.name = name(); if (!is(' ')) bad("space expected"); else p++; l.text = restOfLine(false); }
      else { l.kind = 'c'; restOfLine(false); }
      return l;
    }
    l.kind = 's'; l.name = name();
    if (!ok) return l;
    if (is('{')) {
      p++;
      while (ok && !is('}')) {
        Lab a; a.name = name(); if (!ok) return l;
        if (!is('=')) { bad("= expected"); return l; } p++;
        quoted(a, numlabel && a.name == numlabel); if (!ok) return l;
        l.labels.push_back(a);
        if (is(',')) p++; else if (!is('}')) { bad("comma expected"); return l; }
      }
      p++;
    }
    if (!is(' ')) { bad("space before the value expected"); return l; } p++;
    l.value = num(); if (!ok) return l;
    if (is(' ')) { p++; l.has_ts = true; l.ts = num(); if (!ok) return l; }
    if (!is('\n')) { bad("end of line expected"); return l; } p++;
    return l;
  }
};
inline std::vector<Line> read(const std::string& s, const char* numlabel, bool& ok) {
  Reader r(s); std::vector<Line> v;
  while (r.ok && !r.end()) v.push_back(r.line(numlabel));
  ok = r.ok;
  if (!ok && vp_native()) fprintf(stderr, "not parseable (%s):\n%s\n", r.why, s.c_str());
  VP_CHECK(r.ok, "the output follows the exposition format");
  return v;
}
// does the number say v (to the 16 significant digits written)?
inline int is_double(const Num& n, double v) {
  uint64_t b = vp::double_to_bits(v);
  int nan = (int)(v != v), inf = (int)((b & 0x7fffffffffffffffULL) == 0x7ff0000000000000ULL);
  if (n.kind == 'n') return nan;
  if (n.kind == 'p') return inf & (int)(v > 0);
  if (n.kind == 'm') return inf & (int)(v < 0);
  if (n.kind == 'd') return (n.raw == b) & !nan & !inf;
  if (n.kind == 'l') return (int)((double)(int64_t)n.raw == v);
  if (n.kind == 'u') return (int)((double)n.raw == v);
  if (n.kind == 't') {
    char buf[64]; snprintf(buf, sizeof buf, "%.16g", v);
    char* end; double got = strtod(n.text.c_str(), &end);
    return n.text[0] != ' ' && *end == 0 && !nan && !inf && (got == strtod(buf, nullptr) || got == v);
  }
  return 0;
}
inline int is_u64(const Num& n, uint64_t v) {
  if (n.kind == 'u') return n.raw == v;
  if (n.kind == 'l') return (n.raw == v) & ((int64_t)v >= 0);
  if (n.kind == 'd') return (v < 10000000000000000ULL) & (vp::bits_to_double(n.raw) == (double)v);
  if (n.kind == 't') {
    uint64_t r = 0; int ok = 1;
    for (char c : n.text) { ok &= (c >= '0') & (c <= '9'); r = r * 10 + (uint64_t)(c - '0'); }
    return ok & (n.text.size() <= 20) & (r == v);
  }
  return 0;
}
inline int is_i64(const Num& n, int64_t v) {
  if (n.kind == 'l') return n.raw == (uint64_t)v;
  if (n.kind == 'u') return (n.raw == (uint64_t)v) & (v >= 0);
  if (n.kind == 't') {
    size_t i = n.text[0] == '-'; uint64_t r = 0; int ok = n.text.size() > i;
    for (size_t k = i; k < n.text.size(); k++) { char c = n.text[k]; ok &= (c >= '0') & (c <= '9'); r = r * 10 + (uint64_t)(c - '0'); }
    return ok & ((i ? 0 - r : r) == (uint64_t)v);
  }
  return 0;
}
}  // namespace expo
