// Native implementation of the harness API: replays a list of values produced
// by the symbolic executor against the real build.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <locale>
#include <thread>
#include <unistd.h>
#include <malloc.h>
#include "vp.h"

#ifndef VP_MT
static std::map<std::string, unsigned long long>* vals;
static std::map<std::string, int>* counts;
static void fin(int c) { fflush(stdout); _exit(c); }

static uint64_t take(const char* name, unsigned bits) {
  std::string k = std::string(name) + "#" + std::to_string((*counts)[name]++);
  auto it = vals->find(k);
  uint64_t v = it == vals->end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ULL << bits) - 1);
}
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits) { return take(name, bits); }
void vp_sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)take(name, 8); }
void vp_assume(int c) { if (!c) { printf("VP_DIVERGED assumption\n"); fin(78); } }
void vp_assert(int c, const char* msg) { if (!c) { printf("VP_FAIL %s\n", msg); fin(77); } }
unsigned vp_choose(unsigned n, const char* name) { unsigned v = (unsigned)take(name, 32); if (v >= n) { printf("VP_DIVERGED choice\n"); fin(78); } return v; }
void vp_reach(const char*) {}
void vp_out(uint64_t v) { printf("OUT %llu\n", (unsigned long long)v); }
int vp_native(void) { return 1; }
void vp_yield(void) {}
int vp_tid(void) { return 0; }
int vp_is_symbolic(uint64_t) { return 0; }
uint64_t vp_concretize(uint64_t v) { return v; }
int vp_decide(int c) { return c != 0; }
uint64_t vp_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void vp_print(const char* t, uint64_t v) { fprintf(stderr, "[%s] %llu\n", t, (unsigned long long)v); }
void vp_prints(const char* t, const char* p, size_t n) { fprintf(stderr, "[%s] %.*s\n", t, (int)n, p); }
void vp_env(int) {}
void* vp_xalloc(size_t n) { static void** keep; void** p = (void**)malloc(n + 16); p[0] = keep; keep = p; return (char*)p + 16; }
int vp_spawn(void* (*)(void*), void*) { printf("VP_DIVERGED threads\n"); fin(78); return -1; }
void vp_join(int) {}
}
struct VpEntry { const char* name; void (*fn)(); };
extern VpEntry vp_entries[];
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  vals = new std::map<std::string, unsigned long long>; counts = new std::map<std::string, int>;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char n[512]; unsigned long long v;
  while (fgets(n, sizeof n, f)) { char* sp = strrchr(n, ' '); if (!sp) continue; *sp = 0; v = strtoull(sp + 1, nullptr, 10); (*vals)[n] = v; }
  fclose(f);
  for (VpEntry* e = vp_entries; e->name; e++) if (!strcmp(e->name, argv[1])) { e->fn(); printf("VP_DONE\n"); fflush(stdout); return 0; }
  return 2;
}
#endif

namespace vp {
struct vp_punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1\1"; }
};
std::locale foreign_locale() { return std::locale(std::locale::classic(), new vp_punct); }
}
