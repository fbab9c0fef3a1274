// Harness API.  Implemented by the symbolic executor (engine/handlers.h) and,
// for replays, by native.cc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <locale>
#include <ostream>
#include <string>

extern "C" {
uint64_t vp_sym(const char* name, unsigned bits);              // arbitrary value
void vp_sym_bytes(void* p, size_t n, const char* name);        // arbitrary bytes
void vp_assume(int c);
void vp_assert(int c, const char* msg);
unsigned vp_choose(unsigned n, const char* name);              // 0..n-1, one path each
void vp_reach(const char* label);
void vp_out(uint64_t v);                                       // observed output
int vp_native(void);                                           // 1 in native replays
int vp_spawn(void* (*fn)(void*), void* arg);
void vp_join(int t);
void vp_yield(void);
int vp_tid(void);
int vp_is_symbolic(uint64_t v);
uint64_t vp_concretize(uint64_t v);
int vp_decide(int c);                                          // fork on c now
uint64_t vp_ite64(int c, uint64_t a, uint64_t b);              // without forking
void vp_print(const char* tag, uint64_t v);
void vp_prints(const char* tag, const char* p, size_t n);

void vp_env(int on);   // environment code: not subject to race checks while on
void* vp_xalloc(size_t n);                                     // exempt from leak checks
}

#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
#define VP_TIER(q, t) (VP_THOROUGH ? (t) : (q))

namespace vp {
inline double bits_to_double(uint64_t v) { double d; __builtin_memcpy(&d, &v, 8); return d; }
inline uint64_t double_to_bits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
inline double sym_double(const char* name) { return bits_to_double(vp_sym(name, 64)); }
inline void out_double(double d) { vp_out(d != d ? 0x7ff8000000000000ULL : double_to_bits(d)); }
inline uint64_t sym_u64(const char* name) { return vp_sym(name, 64); }
inline int64_t sym_i64(const char* name) { return (int64_t)vp_sym(name, 64); }
inline std::string sym_string(size_t n, const char* name) {
  char buf[64]; vp_sym_bytes(buf, n, name); return std::string(buf, n);
}
// a string of arbitrary content and any length lo..hi (one path per length)
inline std::string sym_string_upto(size_t lo, size_t hi, const char* name, const char* lname) {
  size_t n = lo + vp_choose((unsigned)(hi - lo + 1), lname);
  return sym_string(n, name);
}
// n ordinary characters except for one arbitrary byte at the start, the end or in between
inline std::string long_string(size_t n, const char* name) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJK0123456789"[i % 47];
  size_t at[] = {0, n - 1, n / 2, 15};
  char c; vp_sym_bytes(&c, 1, name);
  s[at[vp_choose(n > 15 ? 4 : 3, "position")]] = c;
  return s;
}
inline bool finite(double d) { return (double_to_bits(d) & 0x7ff0000000000000ULL) != 0x7ff0000000000000ULL; }
inline bool same_bits(double a, double b) {  // equal values, all NaNs equal
  return ((a != a) & (b != b)) | (double_to_bits(a) == double_to_bits(b));
}
inline bool same_value(double a, double b) { return ((a != a) & (b != b)) | (a == b) | (double_to_bits(a) == double_to_bits(b)); }
std::locale foreign_locale();   // a locale that formats numbers differently
}  // namespace vp

#define VP_CHECK(c, msg) vp_assert((c) ? 1 : 0, msg)
// assertion without a branch on a symbolic condition (use & | instead of && ||)
#define VP_ASSERT(c, msg) vp_assert((int)(c), msg)

// Environment hooks: current clocks in nanoseconds / seconds
extern "C" {
extern int64_t (*vp_steady_hook)(void);
extern int64_t (*vp_system_hook)(void);
extern int vp_foreign_ctype;            // isalpha() also accepts bytes above 127
extern int64_t (*vp_time_hook)(void);   // time(), in seconds
}
