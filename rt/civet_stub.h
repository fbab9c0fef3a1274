// Stand-ins for civetweb's server and for zlib's deflate, with the documented
// semantics, and a way to send requests.  Defined in the harness, so that
// symbolic execution and native replays use the same code.
//
// The server keeps the handlers it is given by URI (exact match first, then
// prefixes), runs the authorisation handler before the request handler, waits
// for running requests before it replaces or removes a request handler, but not
// for running authorisations, and waits for all requests when it is closed.
#pragma once
#include <CivetServer.h>
#include <pthread.h>
#include <zlib.h>

#include <cctype>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "token.h"

#include "vp.h"

namespace cv { struct Ctx; }
struct mg_connection {
  std::string method = "GET", uri;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string out;          // bytes sent
  bool refused = false, found = false, authorized = false, served = false;
  int writes = 0;
  mg_connection& with(const std::string& n, const std::string& v) { headers.push_back(std::make_pair(n, v)); return *this; }
};
namespace cv {
struct Entry { std::string uri; CivetHandler* h; int ref; bool removing; };
struct Auth { std::string uri; CivetAuthHandler* a; };
struct Ctx {
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
  CivetServer* server = nullptr;
  std::vector<Entry*> entries; std::vector<Auth> auths;
  std::vector<std::string> options;
  bool stopped = false; int active = 0;
  void lock() { pthread_mutex_lock(&mu); }
  void unlock() { pthread_mutex_unlock(&mu); }
  Entry* find(const std::string& uri) {
    for (Entry* e : entries) if (e->uri == uri) return e;
    for (Entry* e : entries) if (e->uri.size() < uri.size() && uri[e->uri.size()] == '/' && uri.compare(0, e->uri.size(), e->uri) == 0) return e;
    return nullptr;
  }
  Auth* auth(const std::string& uri) {
    for (Auth& e : auths) if (e.uri == uri) return &e;
    for (Auth& e : auths) if (e.uri.size() < uri.size() && uri[e.uri.size()] == '/' && uri.compare(0, e.uri.size(), e.uri) == 0) return &e;
    return nullptr;
  }
};
struct Srv { std::vector<Ctx*> all; Ctx* ctx = nullptr; bool fail_start = false; };
static Srv* g;
static inline void start() { g = new Srv(); }
static inline void finish() {
  for (Ctx* c : g->all) {
    VP_CHECK(c->stopped, "the server is stopped in the end");
    VP_CHECK(c->entries.empty() && c->auths.empty(), "no handler stays registered");
    delete c;
  }
  delete g; g = nullptr;
}
static inline int handle(CivetHandler* h, Ctx* c, mg_connection* conn) {
  int st = -1; bool ok;
  if (conn->method == "GET") { ok = h->handleGet(c->server, conn, &st); if (st < 0) ok = h->handleGet(c->server, conn); }
  else if (conn->method == "HEAD") { ok = h->handleHead(c->server, conn, &st); if (st < 0) ok = h->handleHead(c->server, conn); }
  else { ok = h->handlePost(c->server, conn, &st); if (st < 0) ok = h->handlePost(c->server, conn); }
  return ok;
}
// a request as a worker thread of the server serves it
static inline void request(Ctx* c, mg_connection& conn) {
  c->lock();
  if (c->stopped) { conn.refused = true; c->unlock(); return; }
  c->active++;
  Entry* e = c->find(conn.uri);
  if (e && e->removing) e = nullptr;
  if (e) e->ref++;
  CivetHandler* h = e ? e->h : nullptr;
  Auth* a = c->auth(conn.uri);
  CivetAuthHandler* ah = a ? a->a : nullptr;
  c->unlock();
  conn.found = e != nullptr;
  conn.authorized = !ah || ah->authorize(c->server, &conn);
  if (conn.authorized && h) conn.served = handle(h, c, &conn);
  c->lock();
  if (e) e->ref--;
  c->active--;
  pthread_cond_broadcast(&c->cond);
  c->unlock();
}
static inline mg_connection get(const std::string& uri, const std::string& accept = std::string(), const std::string& authorization = std::string()) {
  mg_connection conn; conn.uri = uri;
  conn.with("Host", "h");
  if (!accept.empty()) conn.with("Accept-Encoding", accept);
  if (!authorization.empty()) conn.with("Authorization", authorization);
  request(g->ctx, conn);
  return conn;
}
}  // namespace cv

// ------------------------------------------------------------------ server
#define VP_NO(m) bool CivetHandler::m(CivetServer*, struct mg_connection*) { return false; } \
  bool CivetHandler::m(CivetServer*, struct mg_connection*, int* st) { if (st) *st = -1; return false; }
VP_NO(handleGet) VP_NO(handlePost) VP_NO(handleHead) VP_NO(handlePut) VP_NO(handleDelete) VP_NO(handleOptions) VP_NO(handlePatch)
#undef VP_NO
CivetServer::CivetServer(const std::vector<std::string>& options, const CivetCallbacks*, const void* user) : context(nullptr), UserContext(user) {
  if (cv::g->fail_start) throw CivetException("null context when constructing CivetServer. Possible problem binding to port.");
  cv::Ctx* c = new cv::Ctx();
  c->server = this; c->options = options;
  cv::g->all.push_back(c); cv::g->ctx = c;
  context = (struct mg_context*)c;
}
CivetServer::~CivetServer() { close(); }
void CivetServer::close() {
  if (!context) return;
  cv::Ctx* c = (cv::Ctx*)context;
  c->lock();
  c->stopped = true;
  while (c->active) pthread_cond_wait(&c->cond, &c->mu);
  for (cv::Entry* e : c->entries) delete e;
  c->entries.clear(); c->auths.clear();
  c->unlock();
  context = nullptr;
}
void CivetServer::addHandler(const std::string& uri, CivetHandler* h) {
  cv::Ctx* c = (cv::Ctx*)context;
  c->lock();
  for (;;) {
    cv::Entry* e = nullptr;
    for (cv::Entry* x : c->entries) if (x->uri == uri) e = x;
    if (!e) { c->entries.push_back(new cv::Entry{uri, h, 0, false}); break; }
    if (!e->ref) { e->h = h; break; }
    pthread_cond_wait(&c->cond, &c->mu);
  }
  c->unlock();
}
void CivetServer::removeHandler(const std::string& uri) {
  cv::Ctx* c = (cv::Ctx*)context;
  c->lock();
  for (;;) {
    size_t k = 0;
    while (k < c->entries.size() && c->entries[k]->uri != uri) k++;
    if (k == c->entries.size()) break;
    if (!c->entries[k]->ref) { delete c->entries[k]; c->entries.erase(c->entries.begin() + k); break; }
    c->entries[k]->removing = true;
    pthread_cond_wait(&c->cond, &c->mu);
  }
  c->unlock();
}
void CivetServer::addAuthHandler(const std::string& uri, CivetAuthHandler* a) {
  cv::Ctx* c = (cv::Ctx*)context;
  c->lock();
  bool found = false;
  for (cv::Auth& x : c->auths) if (x.uri == uri) { x.a = a; found = true; }
  if (!found) c->auths.push_back(cv::Auth{uri, a});
  c->unlock();
}
void CivetServer::removeAuthHandler(const std::string& uri) {
  cv::Ctx* c = (cv::Ctx*)context;
  c->lock();
  for (size_t k = 0; k < c->auths.size(); k++) if (c->auths[k].uri == uri) { c->auths.erase(c->auths.begin() + k); break; }
  c->unlock();
}
std::vector<int> CivetServer::getListeningPorts() { return std::vector<int>{8080}; }
const char* CivetServer::getHeader(struct mg_connection* conn, const std::string& n) { return mg_get_header(conn, n.c_str()); }
const char* CivetServer::getMethod(struct mg_connection* conn) { return conn->method.c_str(); }

extern "C" {
const char* mg_get_header(const struct mg_connection* conn, const char* name) {
  for (auto& h : conn->headers) {
    size_t n = strlen(name);
    if (h.first.size() != n) continue;
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= (h.first[i] | 32) == (name[i] | 32);
    if (same) return h.second.c_str();
  }
  return nullptr;
}
int mg_write(struct mg_connection* conn, const void* p, size_t n) { conn->out.append((const char*)p, n); conn->writes++; return (int)n; }
static void vp_dec(std::string& o, unsigned long long v, bool neg) {
  char b[24]; int k = 0;
  v = vp_concretize(v);
  do { b[k++] = (char)('0' + v % 10); v /= 10; } while (v);
  if (neg) o += '-';
  while (k) o += b[--k];
}
static void vp_format(std::string& o, const char* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { o += *f; continue; }
    f++;
    while (*f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#') f++;
    long prec = -1;
    if (*f == '*') { va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int l = 0;
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') l = 1; f++; }
    switch (*f) {
      case '%': o += '%'; break;
      case 'c': o += (char)va_arg(ap, int); break;
      case 's': { const char* s = va_arg(ap, const char*); for (long i = 0; (prec < 0 || i < prec) && s[i]; i++) o += s[i]; break; }
      case 'd': case 'i': { long long v = l ? va_arg(ap, long) : (long long)va_arg(ap, int); bool neg = v < 0; vp_dec(o, neg ? 0ULL - (unsigned long long)v : (unsigned long long)v, neg); break; }
      case 'u': { unsigned long long v = l ? va_arg(ap, unsigned long) : (unsigned long long)va_arg(ap, unsigned); vp_dec(o, v, false); break; }
      default: vp_assume(0);   // not modelled
    }
  }
}
int mg_vprintf_(struct mg_connection* conn, const char* f, va_list ap) {
  size_t n = conn->out.size();
  vp_format(conn->out, f, ap);
  return (int)(conn->out.size() - n);
}
int mg_printf(struct mg_connection* conn, const char* f, ...) {
  va_list ap; va_start(ap, f); int r = mg_vprintf_(conn, f, ap); va_end(ap);
  return r;
}
static const char* vp_reason(int c) { return c == 200 ? "OK" : c == 401 ? "Unauthorized" : c == 404 ? "Not Found" : "Error"; }
int mg_send_http_error(struct mg_connection* conn, int code, const char* f, ...) {
  std::string body; va_list ap; va_start(ap, f); vp_format(body, f, ap); va_end(ap);
  mg_printf(conn, "HTTP/1.1 %d %s\r\nContent-Length: %lu\r\n\r\n", code, vp_reason(code), (unsigned long)body.size());
  conn->out += body;
  return 0;
}
int mg_send_http_ok(struct mg_connection* conn, const char* mime, long long n) {
  mg_printf(conn, "HTTP/1.1 200 OK\r\nContent-Type: %s\r\n", mime);
  if (n < 0) conn->out += "Transfer-Encoding: chunked\r\n"; else mg_printf(conn, "Content-Length: %lu\r\n", (unsigned long)n);
  conn->out += "\r\n";
  return 0;
}
const struct mg_request_info* mg_get_request_info(const struct mg_connection*) { static mg_request_info i; i.request_method = "GET"; return &i; }
void mg_lock_connection(struct mg_connection*) {}
void mg_unlock_connection(struct mg_connection*) {}
}

// ------------------------------------------------------------------ zlib
namespace gz {
// the compressed form: magic, window bits, length, the bytes themselves, padding
struct Cfg {
  int init = Z_OK;        // result of the initialisation
  int fail_round = -1, fail_code = Z_STREAM_ERROR;   // this call of deflate() fails
  size_t padding = 0;     // the compressed data is this much longer
  bool late = false;      // the end is reported by one more call if the output just fits
  int open = 0, rounds = 0;
};
static Cfg c;
struct State { std::string in, out; size_t pos = 0; int bits = 0; bool done = false, ended = false; };
static inline bool decode(const std::string& s, std::string& body) {
  if (s.size() < 12 || s[0] != 0x1f || (unsigned char)s[1] != 0x8b || s[2] != 31) return false;
  size_t n = 0;
  for (int i = 0; i < 8; i++) n = n << 8 | (unsigned char)s[4 + i];
  if (s.size() < 12 + n) return false;
  for (size_t i = 12 + n; i < s.size(); i++) if (s[i] != 'p') return false;
  if (s.size() != 12 + n + c.padding) return false;   // truncated
  body = s.substr(12, n);
  return true;
}
}  // namespace gz
extern "C" {
int deflateInit2_(z_streamp s, int level, int method, int bits, int mem, int strategy, const char*, int) {
  if (gz::c.init != Z_OK) return gz::c.init;
  int b = bits < 0 ? -bits : bits > 15 ? bits - 16 : bits;
  if (level < -1 || level > 9 || method != Z_DEFLATED || b < 8 || b > 15 || mem < 1 || mem > 9 || strategy < 0 || strategy > 4) return Z_STREAM_ERROR;
  gz::State* st = new gz::State();
  st->bits = bits > 15 ? 31 : bits < 0 ? 1 : 15;   // gzip, raw, zlib
  s->state = (struct internal_state*)st; s->total_in = s->total_out = 0;
  vp_env(1); gz::c.open++; vp_env(0);
  return Z_OK;
}
int deflateInit_(z_streamp s, int level, const char* v, int n) { return deflateInit2_(s, level, Z_DEFLATED, 15, 8, 0, v, n); }
int deflateEnd(z_streamp s) {
  gz::State* st = (gz::State*)s->state;
  if (!st) return Z_STREAM_ERROR;
  delete st; s->state = nullptr;
  vp_env(1); gz::c.open--; vp_env(0);
  return Z_OK;
}
uLong deflateBound(z_streamp, uLong n) { return n + 12 + gz::c.padding; }
int deflate(z_streamp s, int flush) {
  gz::State* st = (gz::State*)s->state;
  if (!st) return Z_STREAM_ERROR;
  vp_env(1); int round = gz::c.rounds++; vp_env(0);
  if (round == gz::c.fail_round) return gz::c.fail_code;
  if (st->ended) return flush == Z_FINISH ? Z_STREAM_END : Z_STREAM_ERROR;
  if (s->avail_out == 0) return Z_BUF_ERROR;
  if (s->avail_in) { st->in.append((const char*)s->next_in, s->avail_in); s->next_in += s->avail_in; s->total_in += s->avail_in; s->avail_in = 0; }
  if (flush != Z_FINISH) return Z_OK;
  if (!st->done) {
    st->out += (char)0x1f; st->out += (char)0x8b; st->out += (char)st->bits; st->out += (char)0;
    for (int i = 7; i >= 0; i--) st->out += (char)(st->in.size() >> (8 * i));
    st->out += st->in; st->out.append(gz::c.padding, 'p');
    st->done = true;
  }
  size_t n = st->out.size() - st->pos;
  bool fits = n <= s->avail_out, exact = n == s->avail_out;
  if (!fits) n = s->avail_out;
  if (n) memcpy(s->next_out, st->out.data() + st->pos, n);
  s->next_out += n; s->avail_out -= (uInt)n; s->total_out += n; st->pos += n;
  if (!fits || (exact && n && gz::c.late)) return Z_OK;
  st->ended = true;
  return Z_STREAM_END;
}
}

// ------------------------------------------------------------------ responses
namespace http {
struct Response {
  int status = 0; std::string reason, body;
  std::vector<std::pair<std::string, std::string>> headers;   // names in lower case
  const std::string* header(const std::string& n) const { for (auto& h : headers) if (h.first == n) return &h.second; return nullptr; }
  int count(const std::string& n) const { int k = 0; for (auto& h : headers) k += h.first == n; return k; }
};
// the integers in the header as text (see token.h)
static inline std::string digits(const std::string& s) {
  if (vp_native()) return s;
  std::string r; size_t i = 0;
  auto is = [&](size_t k, char c) { return k < s.size() && !vp_is_symbolic((unsigned char)s[k]) && s[k] == c; };
  while (i < s.size() && !(is(i, '\r') && is(i + 1, '\n') && is(i + 2, '\r') && is(i + 3, '\n'))) {
    if (is(i, VP_TOKEN_MARK) && i + VP_TOKEN_LEN <= s.size() && (is(i + 1, 'l') || is(i + 1, 'u'))) {
      uint64_t v = 0;
      for (int k = 7; k >= 0; k--) v = v << 8 | (unsigned char)s[i + 2 + k];
      v = vp_concretize(v);
      r += s[i + 1] == 'l' ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
      i += VP_TOKEN_LEN;
    } else r += s[i++];
  }
  return r + s.substr(i);
}
static inline Response parse(const std::string& raw) {
  const std::string s = digits(raw);
  Response r; size_t i = 0;
  auto line = [&]() { size_t e = s.find("\r\n", i); VP_CHECK(e != std::string::npos, "the response header is complete"); std::string l = s.substr(i, e - i); i = e + 2; return l; };
  std::string l = line();
  VP_CHECK(l.size() >= 12 && l.compare(0, 9, "HTTP/1.1 ") == 0, "the response begins with a status line");
  for (int k = 9; k < 12; k++) { VP_CHECK(l[k] >= '0' && l[k] <= '9', "the response begins with a status line"); r.status = r.status * 10 + (l[k] - '0'); }
  if (l.size() > 13) r.reason = l.substr(13);
  for (;;) {
    l = line();
    if (l.empty()) break;
    size_t c = l.find(':');
    VP_CHECK(c != std::string::npos && c > 0, "a header line has a name");
    std::string n = l.substr(0, c), v = l.substr(c + 1);
    for (auto& ch : n) if (ch >= 'A' && ch <= 'Z') ch = (char)(ch | 32);
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    r.headers.push_back(std::make_pair(n, v));
  }
  r.body = s.substr(i);
  return r;
}
static inline unsigned long number(const std::string& s) {
  VP_CHECK(!s.empty() && s.size() < 12, "a length is a number");
  unsigned long v = 0;
  for (char c : s) { VP_CHECK(c >= '0' && c <= '9', "a length is a number"); v = v * 10 + (unsigned long)(c - '0'); }
  return v;
}
}  // namespace http
