// A stand-in for libcurl with the documented semantics of the easy interface:
// options are recorded per handle, strings are copied when they are set, the
// body and the header list are read only while the transfer runs.  Transfers
// are logged; their outcome is chosen by the harness.  Defined in the harness,
// so that symbolic execution and native replays use the same code.
#pragma once
#include <curl/curl.h>

#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

#include "vp.h"

namespace cu {
struct Req {
  std::string method, url, body, user, password;
  bool has_body = false, has_user = false, has_password = false, finished = false;
  long httpauth = CURLAUTH_BASIC, timeout_ms = 0;
  std::vector<std::string> headers;
  std::vector<std::pair<int, long>> opts;   // all other options, in order
  CURLcode code = CURLE_OK;
  long status = 0;
  int order = -1;                           // completion order
};
struct Handle {
  uint64_t live;
  int busy;
  std::string *url, *custom, *user, *password, *copied;
  const char* postfields; bool has_post;
  long long postsize;
  curl_slist* headers;
  int method;       // 0 GET 1 HEAD 2 POST 3 PUT (upload)
  bool nobody;
  long httpauth, timeout_ms;
  std::vector<std::pair<int, long>>* opts;
  long status;
};
struct Log {
  std::vector<Req> req;
  int finished = 0;
  int globals = 0, handles = 0, lists = 0, inits = 0, calls = 0;
  int fail_at = -1;          // number of the library call that fails
  int fail_setopt = 0;       // let curl_easy_setopt fail as well
  bool balanced() const { return globals == 0 && handles == 0 && lists == 0; }
  // outcome of the i-th transfer
  CURLcode (*outcome)(int i, const Req& r, long* status) = nullptr;
};
static Log* g;
static std::atomic<int> net{0};   // transfers completed; to be read before looking at the log
static const uint64_t kLive = 0x11fe11fe11fe11feULL;

static inline void start() { vp_env(1); g = new Log(); vp_env(0); }
static inline void finish() { vp_env(1); delete g; g = nullptr; vp_env(0); }
static inline bool fault() { vp_env(1); int k = g->calls++; bool f = k == g->fail_at; vp_env(0); return f; }
static inline Handle* use(CURL* c) {
  Handle* h = (Handle*)c;
  VP_CHECK(g->globals > 0, "the HTTP library is used only while it is initialised");
  VP_CHECK(h != nullptr && h->live == kLive, "a handle is used only while it exists");
  VP_CHECK(!h->busy, "a handle is not used while a transfer runs on it");
  return h;
}
static inline void reset(Handle* h) {
  delete h->url; delete h->custom; delete h->user; delete h->password; delete h->copied; delete h->opts;
  h->url = h->custom = h->user = h->password = h->copied = nullptr;
  h->opts = new std::vector<std::pair<int, long>>();
  h->postfields = nullptr; h->has_post = false; h->postsize = -1; h->headers = nullptr;
  h->method = 0; h->nobody = false; h->httpauth = CURLAUTH_BASIC; h->timeout_ms = 0;
}
static inline void setstr(std::string*& d, const char* v) { delete d; d = v ? new std::string(v) : nullptr; }
}  // namespace cu

#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
CURLcode curl_global_init(long) { if (cu::fault()) return CURLE_FAILED_INIT; vp_env(1); cu::g->globals++; cu::g->inits++; vp_env(0); return CURLE_OK; }
void curl_global_cleanup(void) {
  VP_CHECK(cu::g->globals > 0, "the HTTP library is released once per initialisation");
  vp_env(1); cu::g->globals--; vp_env(0);
}
CURL* curl_easy_init(void) {
  VP_CHECK(cu::g->globals > 0, "the HTTP library is used only while it is initialised");
  if (cu::fault()) return nullptr;
  cu::Handle* h = (cu::Handle*)malloc(sizeof(cu::Handle));
  memset((void*)h, 0, sizeof *h);
  h->live = cu::kLive; cu::reset(h); h->status = 0;
  vp_env(1); cu::g->handles++; vp_env(0);
  return (CURL*)h;
}
void curl_easy_cleanup(CURL* c) {
  if (!c) return;
  cu::Handle* h = cu::use(c);
  cu::reset(h); delete h->opts; h->live = 0;
  free(h);
  vp_env(1); cu::g->handles--; vp_env(0);
}
void curl_easy_reset(CURL* c) { cu::reset(cu::use(c)); }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  cu::Handle* h = cu::use(c);
  va_list ap; va_start(ap, o);
  CURLcode r = CURLE_OK;
  if (cu::g->fail_setopt && cu::fault()) r = CURLE_OUT_OF_MEMORY;
  else switch ((int)o) {
    case CURLOPT_URL: cu::setstr(h->url, va_arg(ap, const char*)); break;
    case CURLOPT_CUSTOMREQUEST: cu::setstr(h->custom, va_arg(ap, const char*)); break;
    case CURLOPT_USERPWD: {
      const char* p = va_arg(ap, const char*);
      cu::setstr(h->user, nullptr); cu::setstr(h->password, nullptr);
      if (p) {
        size_t n = 0; while (p[n] && p[n] != ':') n++;
        h->user = new std::string(p, n);
        if (p[n]) h->password = new std::string(p + n + 1);
      }
      break;
    }
    case CURLOPT_USERNAME: cu::setstr(h->user, va_arg(ap, const char*)); break;
    case CURLOPT_PASSWORD: cu::setstr(h->password, va_arg(ap, const char*)); break;
    case CURLOPT_HTTPHEADER: h->headers = va_arg(ap, curl_slist*); break;
    case CURLOPT_POSTFIELDS: h->postfields = va_arg(ap, const char*); h->has_post = h->postfields != nullptr; h->method = 2; break;
    case CURLOPT_COPYPOSTFIELDS: {
      const char* p = va_arg(ap, const char*);
      delete h->copied; h->copied = nullptr;
      if (p) { h->copied = h->postsize < 0 ? new std::string(p) : new std::string(p, (size_t)h->postsize); h->postfields = h->copied->data(); }
      else h->postfields = nullptr;
      h->has_post = p != nullptr; h->method = 2; break;
    }
    case CURLOPT_POSTFIELDSIZE: h->postsize = va_arg(ap, long); break;
    case CURLOPT_POSTFIELDSIZE_LARGE: h->postsize = va_arg(ap, curl_off_t); break;
    case CURLOPT_POST: if (va_arg(ap, long)) { h->method = 2; h->nobody = false; } else h->method = 0; break;
    case CURLOPT_HTTPGET: if (va_arg(ap, long)) { h->method = 0; h->nobody = false; } break;
    case CURLOPT_NOBODY: h->nobody = va_arg(ap, long) != 0; if (h->nobody) h->method = 1; else if (h->method == 1) h->method = 0; break;
    case CURLOPT_UPLOAD: if (va_arg(ap, long)) { h->method = 3; h->nobody = false; } else h->method = 0; break;
    case CURLOPT_HTTPAUTH: h->httpauth = va_arg(ap, long); break;
    case CURLOPT_TIMEOUT: { long t = va_arg(ap, long); if ((t >= 0) & (t <= 2147483)) h->timeout_ms = t * 1000; else r = CURLE_BAD_FUNCTION_ARGUMENT; break; }
    case CURLOPT_TIMEOUT_MS: h->timeout_ms = va_arg(ap, long); break;
    default: h->opts->push_back(std::make_pair((int)o, va_arg(ap, long)));
  }
  va_end(ap);
  return r;
}
CURLcode curl_easy_perform(CURL* c) {
  cu::Handle* h = cu::use(c);
  h->busy = 1;
  cu::Req r;
  r.url = h->url ? *h->url : std::string();
  r.method = h->custom ? *h->custom : std::string(h->method == 0 ? "GET" : h->method == 1 ? "HEAD" : h->method == 2 ? "POST" : "PUT");
  if (h->method == 2) {
    VP_CHECK(cu::g->fail_setopt || h->has_post || h->postsize == 0, "the body of a request does not come from the standard input");
    r.has_body = true;
    if (h->has_post) r.body = h->postsize < 0 ? std::string(h->postfields) : std::string(h->postfields, (size_t)h->postsize);
  } else VP_CHECK(h->method != 3, "the body of a request does not come from the standard input");
  for (curl_slist* l = h->headers; l; l = l->next) r.headers.push_back(l->data);
  r.has_user = h->user != nullptr; r.has_password = h->password != nullptr;
  if (h->user) r.user = *h->user;
  if (h->password) r.password = *h->password;
  r.httpauth = h->httpauth; r.timeout_ms = h->timeout_ms; r.opts = *h->opts;
  vp_env(1);
  int i = (int)cu::g->req.size();
  r.code = CURLE_OK; r.status = 200;
  if (cu::g->outcome) r.code = cu::g->outcome(i, r, &r.status);
  h->status = r.status;
  cu::g->req.push_back(r);
  vp_env(0);
  // the transfer takes time: other threads run before it completes
  cu::net.fetch_add(1);
  vp_env(1);
  cu::g->req[i].finished = true; cu::g->req[i].order = cu::g->finished++;
  vp_env(0);
  h->busy = 0;
  return r.code;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  cu::Handle* h = cu::use(c);
  va_list ap; va_start(ap, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(ap, long*) = h->status;
  va_end(ap);
  return CURLE_OK;
}
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  if (cu::fault()) return nullptr;
  curl_slist* n = (curl_slist*)malloc(sizeof *n);
  size_t k = strlen(s) + 1;
  n->data = (char*)malloc(k); memcpy(n->data, s, k); n->next = nullptr;
  vp_env(1); cu::g->lists++; vp_env(0);
  if (!l) return n;
  curl_slist* e = l;
  while (e->next) e = e->next;
  e->next = n;
  return l;
}
void curl_slist_free_all(curl_slist* l) {
  while (l) { curl_slist* n = l->next; free(l->data); free(l); l = n; vp_env(1); cu::g->lists--; vp_env(0); }
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
char* curl_version(void) { return (char*)"libcurl/8"; }
}
