// Environment shared by the symbolic and the native build.
#include <chrono>
#include <cstring>
#include <ctime>
#include <vector>
#include "vp.h"

extern "C" {
// character classes: in a "foreign" locale bytes above 127 are letters
int vp_foreign_ctype = 0;
int isalpha(int c) noexcept { return (((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (vp_foreign_ctype & ((c & 0x80) != 0))) * 1024; }
int isalnum(int c) noexcept { return (isalpha(c) | ((c >= '0') & (c <= '9'))) * 8; }
int64_t (*vp_steady_hook)(void) = nullptr;
int64_t (*vp_system_hook)(void) = nullptr;
int64_t (*vp_time_hook)(void) = nullptr;
time_t time(time_t* t) {
  time_t r = vp_time_hook ? (time_t)vp_time_hook() : vp_system_hook ? (time_t)(vp_system_hook() / 1000000000) : (time_t)1600000000;
  if (t) *t = r;
  return r;
}
}
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(vp_steady_hook ? vp_steady_hook() : 1000000000LL));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(vp_system_hook ? vp_system_hook() : 1600000000000000000LL));
}
}  // namespace _V2
}  // namespace chrono

// The hash of a byte string is an arbitrary function of its content: equal
// contents get equal hashes; different contents get different ones or all the
// same one (the mode is chosen once per path).
struct VpHashEnt { VpHashEnt* next; size_t len; size_t seed; size_t h; char data[1]; };
static VpHashEnt* vp_hash_tab = nullptr;
static size_t vp_hash_n = 0;
static int vp_hash_mode = -1;
size_t _Hash_bytes(const void* p, size_t len, size_t seed) {
  vp_env(1);
  if (vp_hash_mode < 0) vp_hash_mode = (int)vp_choose(2, "hash_collisions");
  for (VpHashEnt* e = vp_hash_tab; e; e = e->next)
    if (e->len == len && e->seed == seed && vp_decide(memcmp(e->data, p, len) == 0)) { size_t h = e->h; vp_env(0); return h; }
  VpHashEnt* e = (VpHashEnt*)vp_xalloc(sizeof(VpHashEnt) + len);
  memcpy(e->data, p, len);
  e->len = len; e->seed = seed; e->next = vp_hash_tab; vp_hash_tab = e;
  vp_hash_n++;
  e->h = vp_hash_mode ? 7 : vp_hash_n * 0x9E3779B97F4A7C15ULL;
  size_t h = e->h;
  vp_env(0);
  return h;
}
}  // namespace std
