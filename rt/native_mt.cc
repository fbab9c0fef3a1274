// Native multi-thread replay: real threads run the real code compiled with
// -fsanitize=thread instrumentation, but linked against this runtime instead of
// the sanitizer's.  One thread runs at a time; at every visible operation the
// schedule recorded by the symbolic executor decides who continues.  Data races
// are detected with vector clocks, heap blocks are never reused so that any
// access to a released one is caught.
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <execinfo.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <future>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#define MAXT 8
typedef uint64_t u64;
typedef unsigned __int128 u128;
enum Kind { P_NONE, P_START, P_LOCK, P_TRYLOCK, P_ATOMIC_R, P_ATOMIC_W, P_JOIN, P_WAIT, P_YIELD, P_CVWAIT, P_UNLOCK };
struct VC { uint32_t v[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.v[i] > v[i]) v[i] = o.v[i]; } };

// everything in the runtime allocates with the real malloc
template <class T> struct RA {
  typedef T value_type; RA() {} template <class U> RA(const RA<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const RA<U>&) const { return true; } template <class U> bool operator!=(const RA<U>&) const { return false; }
};
typedef std::basic_string<char, std::char_traits<char>, RA<char>> Str;
template <class K, class V> using Map = std::map<K, V, std::less<K>, RA<std::pair<const K, V>>>;

struct Thr { bool used = false, done = false, parked = false; Kind k = P_NONE; u64 addr = 0, val = 0; VC vc; uintptr_t lo = 0, hi = 0, sp = 0; int env = 0; std::atomic<int> go{0}; void* (*fn)(void*) = nullptr; void* arg = nullptr; };
static Thr th[MAXT];
static int nth = 1;
static bool mt = false;
static thread_local int me = 0;
struct Mtx { int owner = -1; int depth = 0; VC vc; };
static Map<u64, Mtx>* mtxs; static Map<u64, VC>* relvc; static Map<u64, int>* onceOwner; static Map<u64, u64>* condSeq;
struct Shadow { uint32_t w; uint8_t wt; bool wa; uint32_t r[MAXT]; bool ra[MAXT]; };
static std::unordered_map<u64, Shadow, std::hash<u64>, std::equal_to<u64>, RA<std::pair<const u64, Shadow>>>* shadow;
static Map<Str, u64>* vals; static Map<Str, int>* counts;
static int schedPos = 0;

static void fin(int c) { fflush(stdout); _exit(c); }
static void failv(const char* m) {
  printf("VP_FAIL %s\n", m); fflush(stdout);
  if (getenv("VP_BT")) { void* b[32]; backtrace_symbols_fd(b, backtrace(b, 32), 2); }
  fin(77);
}
static void diverged(const char* m) { printf("VP_DIVERGED %s\n", m); fin(78); }

static void fwait(std::atomic<int>& a, int v) { while (a.load() == v) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(std::atomic<int>& a) { syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1000, nullptr, nullptr, 0); }

// ------------------------------------------------------------------ scheduler
static bool enabled(int t) {
  Thr& x = th[t]; if (x.done) return false; if (!x.parked) return true;
  switch (x.k) {
    case P_LOCK: { auto it = mtxs->find(x.addr); return it == mtxs->end() || it->second.owner < 0 || it->second.owner == t; }
    case P_JOIN: return th[x.addr].done;
    case P_WAIT: return *(volatile unsigned*)x.addr != (unsigned)x.val;
    case P_CVWAIT: return (*condSeq)[x.addr] != x.val;
    default: return true;
  }
}
static int pick() {
  int en[MAXT], n = 0; bool all = true;
  for (int t = 0; t < nth; t++) { if (!th[t].done) all = false; if (enabled(t)) en[n++] = t; }
  if (all) return -1;
  if (!n) failv("deadlock: no thread can proceed");
  if (n == 1) return en[0];
  char b[32]; snprintf(b, sizeof b, "sched!%d", schedPos++);
  auto it = vals->find(b);
  if (it != vals->end()) { for (int i = 0; i < n; i++) if (en[i] == (int)it->second) return en[i]; diverged("schedule"); }
  for (int i = 0; i < n; i++) if (en[i] == me) return me;
  return en[0];
}
static void switchTo(int t) {   // called by the parked thread; returns when it may run
  if (t != me) { th[me].go = 0; th[t].go = 1; fwake(th[t].go); fwait(th[me].go, 0); }
}
static void visible(Kind k, u64 a, u64 v, uintptr_t sp) {
  if (!mt && k != P_LOCK && k != P_WAIT && k != P_JOIN && k != P_CVWAIT) return;
  Thr& x = th[me]; x.parked = true; x.k = k; x.addr = a; x.val = v; x.sp = sp;
  int t = pick();
  switchTo(t);
  x.parked = false; x.k = P_NONE;
}
#define SP ((uintptr_t)__builtin_frame_address(0))

// ------------------------------------------------------------------ heap
static char *arena, *arenaEnd, *arenaCur;
struct Blk { size_t n; bool freed; };
static Map<u64, Blk>* blocks;
static void rtInit() {
  if (blocks) return;
  blocks = new (malloc(sizeof *blocks)) Map<u64, Blk>;
  mtxs = new (malloc(sizeof *mtxs)) Map<u64, Mtx>; relvc = new (malloc(sizeof *relvc)) Map<u64, VC>; onceOwner = new (malloc(sizeof *onceOwner)) Map<u64, int>; condSeq = new (malloc(sizeof *condSeq)) Map<u64, u64>;
  shadow = new (malloc(sizeof *shadow)) std::remove_reference<decltype(*shadow)>::type;
  vals = new (malloc(sizeof *vals)) Map<Str, u64>; counts = new (malloc(sizeof *counts)) Map<Str, int>;
  arena = (char*)mmap(nullptr, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arenaEnd = arena + (1ull << 30); arenaCur = arena + 64;
}
static void* arenaAlloc(size_t n) {
  rtInit();
  char* p = arenaCur; arenaCur += ((n + 15) & ~15ull) + 32;
  if (arenaCur > arenaEnd) { printf("VP_DIVERGED memory\n"); fin(78); }
  (*blocks)[(u64)p] = Blk{n, false};
  return p;
}
static bool inArena(u64 a) { return (char*)a >= arena && (char*)a < arenaEnd; }
extern "C" char __executable_start, etext, end;
static bool inImage(u64 a) { return (char*)a >= &__executable_start && (char*)a < &end; }
static bool onStack(u64 a) { for (int u = 0; u < nth; u++) if (th[u].lo && a >= th[u].lo && a < th[u].hi) return true; return false; }
static void access(u64 a, u64 n, bool write, bool atomic) {
  if (!n || !blocks) return;
  if (inArena(a)) {
    auto it = blocks->upper_bound(a); if (it == blocks->begin()) failv("memory: invalid access"); --it;
    if (a + n > it->first + it->second.n) failv("memory: out-of-bounds access");
    if (it->second.freed) failv("memory: use after free");
  } else for (int u = 0; u < nth; u++) if (u != me && th[u].lo && a >= th[u].lo && a < th[u].hi) { if (th[u].done || a + 128 < th[u].sp) failv("memory: access to a stack frame that has returned"); }
  if (!mt || th[me].env) return;
  if (!inArena(a) && !inImage(a) && !onStack(a)) return;   // memory of this runtime itself
  VC& vc = th[me].vc;
  for (u64 i = a; i < a + n; i++) {
    Shadow& b = (*shadow)[i]; bool race = false;
    if (b.w && b.wt != me && b.w > vc.v[b.wt] && !(atomic && b.wa)) race = true;
    if (write) for (int u = 0; u < MAXT; u++) if (u != me && b.r[u] > vc.v[u] && !(atomic && b.ra[u])) race = true;
    if (race) failv(write ? "data race on write" : "data race on read");
    if (write) { b.w = vc.v[me]; b.wt = me; b.wa = atomic; } else { b.r[me] = vc.v[me]; b.ra[me] = atomic; }
  }
}
static void arenaFree(void* p) {
  if (!p) return;
  auto it = blocks->find((u64)p);
  if (it == blocks->end()) failv("memory: free of something that is not a heap block");
  if (it->second.freed) failv("memory: double free");
  access((u64)p, it->second.n, true, false);
  it->second.freed = true;
}
void* operator new(size_t n) { return arenaAlloc(n); }
void* operator new[](size_t n) { return arenaAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void operator delete(void* p) noexcept { arenaFree(p); }
void operator delete[](void* p) noexcept { arenaFree(p); }
void operator delete(void* p, size_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { arenaFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arenaFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arenaFree(p); }

// only calls made by the program itself (not by libraries) are scheduled
static bool ours(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" {
// functions redirected from instrumented objects
void* vpi_malloc(size_t n) { return arenaAlloc(n); }
void* vpi_calloc(size_t a, size_t b) { void* p = arenaAlloc(a * b); memset(p, 0, a * b); return p; }
void vpi_free(void* p) { arenaFree(p); }
void* vpi_realloc(void* p, size_t n) { void* q = arenaAlloc(n); if (p) { size_t o = (*blocks)[(u64)p].n; memcpy(q, p, o < n ? o : n); arenaFree(p); } return q; }
void* vpi_memcpy(void* d, const void* s, size_t n) { access((u64)s, n, false, false); access((u64)d, n, true, false); return memcpy(d, s, n); }
void* vpi_memmove(void* d, const void* s, size_t n) { access((u64)s, n, false, false); access((u64)d, n, true, false); return memmove(d, s, n); }
void* vpi_memset(void* d, int c, size_t n) { access((u64)d, n, true, false); return memset(d, c, n); }
int vpi_memcmp(const void* a, const void* b, size_t n) { access((u64)a, n, false, false); access((u64)b, n, false, false); return memcmp(a, b, n); }
int vpi_bcmp(const void* a, const void* b, size_t n) { return vpi_memcmp(a, b, n); }
size_t vpi_strlen(const char* s) { size_t n = strlen(s); access((u64)s, n + 1, false, false); return n; }
void* vpi_memchr(const void* s, int c, size_t n) { access((u64)s, n, false, false); return (void*)memchr(s, c, n); }
int vpi_strcmp(const char* a, const char* b) { vpi_strlen(a); vpi_strlen(b); return strcmp(a, b); }
char* vpi_strstr(const char* a, const char* b) { vpi_strlen(a); vpi_strlen(b); return (char*)strstr(a, b); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return vpi_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return vpi_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return vpi_memset(d, c, n); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access((u64)p, n, false, false); } \
  void __tsan_write##n(void* p) { access((u64)p, n, true, false); } \
  void __tsan_unaligned_read##n(void* p) { access((u64)p, n, false, false); } \
  void __tsan_unaligned_write##n(void* p) { access((u64)p, n, true, false); } \
  void __tsan_read_write##n(void* p) { access((u64)p, n, false, false); access((u64)p, n, true, false); } \
  void __tsan_unaligned_read_write##n(void* p) { access((u64)p, n, false, false); access((u64)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((u64)p, n, false, false); }
void __tsan_write_range(void* p, unsigned long n) { access((u64)p, n, true, false); }
void __tsan_vptr_update(void** p, void*) { access((u64)p, 8, true, false); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
static bool acqO(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool relO(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void acquire(u64 a) { auto it = relvc->find(a); if (it != relvc->end()) th[me].vc.join(it->second); }
template <class T> static T aLoad(const volatile T* p, int mo, uintptr_t sp) {
  visible(P_ATOMIC_R, (u64)p, 0, sp); if (mt && mo != __ATOMIC_RELAXED) acquire((u64)p);
  access((u64)p, sizeof(T), false, true); return *p;
}
template <class T> static void aStore(volatile T* p, T v, int mo, uintptr_t sp) {
  visible(P_ATOMIC_W, (u64)p, 0, sp);
  if (mt) { if (mo != __ATOMIC_RELAXED) { (*relvc)[(u64)p] = th[me].vc; th[me].vc.v[me]++; } else relvc->erase((u64)p); }
  access((u64)p, sizeof(T), true, true); *p = v;
}
template <class T, class F> static T aRmw(volatile T* p, uintptr_t sp, F f) {
  visible(P_ATOMIC_W, (u64)p, 0, sp);
  if (mt) { acquire((u64)p); VC n = th[me].vc; auto it = relvc->find((u64)p); if (it != relvc->end()) n.join(it->second); (*relvc)[(u64)p] = n; th[me].vc.v[me]++; }
  access((u64)p, sizeof(T), false, true); access((u64)p, sizeof(T), true, true);
  T o = *p; *p = f(o); return o;
}
template <class T> static bool aCas(volatile T* p, T* e, T v, int so, int fo, uintptr_t sp) {
  visible(P_ATOMIC_W, (u64)p, 0, sp);
  bool ok = *p == *e;
  if (mt) { if (acqO(ok ? so : fo)) acquire((u64)p); if (ok && relO(so)) { VC n = th[me].vc; auto it = relvc->find((u64)p); if (it != relvc->end()) n.join(it->second); (*relvc)[(u64)p] = n; th[me].vc.v[me]++; } }
  access((u64)p, sizeof(T), false, true); if (ok) { access((u64)p, sizeof(T), true, true); *p = v; } else *e = *p;
  return ok;
}
extern "C" {
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int m) { return aLoad<T>(p, m, SP); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int m) { aStore<T>(p, v, m, SP); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T) { return v; }); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { return aRmw<T>(p, SP, [&](T o) { return (T) ~(o & v); }); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int m, int f) { return aCas<T>(p, e, v, m, f, SP); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int f) { return aCas<T>(p, e, v, m, f, SP); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int m, int f) { aCas<T>(p, &e, v, m, f, SP); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ------------------------------------------------------------------ pthread
static int lockM(u64 m, uintptr_t sp) {
  visible(P_LOCK, m, 0, sp);
  Mtx& x = (*mtxs)[m];
  if (x.owner == me && ((pthread_mutex_t*)m)->__data.__kind != 1) failv("deadlock: a thread locks a mutex it already holds");
  x.owner = me; x.depth++; if (mt) th[me].vc.join(x.vc); return 0;
}
static int unlockM(u64 m) {
  Mtx& x = (*mtxs)[m]; if (x.owner != me || x.depth <= 0) failv("unlock of a mutex the thread does not hold");
  if (--x.depth == 0) { x.owner = -1; x.vc = th[me].vc; if (mt) th[me].vc.v[me]++; } return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ours(__builtin_return_address(0))) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } access((u64)m, 1, false, true); return lockM((u64)m, SP); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!ours(__builtin_return_address(0))) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } if (vals->count("unlock!")) visible(P_UNLOCK, (u64)m, 0, SP); return unlockM((u64)m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!ours(__builtin_return_address(0))) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  visible(P_TRYLOCK, (u64)m, 0, SP); Mtx& x = (*mtxs)[(u64)m]; if (x.owner >= 0) return 16;
  x.owner = me; x.depth = 1; if (mt) th[me].vc.join(x.vc); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!ours(__builtin_return_address(0))) { static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return f(o, fn); }
  bool g = false;
  for (;;) {
    volatile int* p = (volatile int*)o;
    if (*p == 0) {
      if (!g) { visible(P_ATOMIC_W, (u64)o, 0, SP); g = mt; if (mt) { if (*p != 0) continue; } }
      *p = 1; (*onceOwner)[(u64)o] = me; fn(); *p = 2; if (mt) { (*relvc)[(u64)o] = th[me].vc; th[me].vc.v[me]++; } return 0;
    }
    if (*p == 1) { visible(P_WAIT, (u64)o, 1, SP); continue; }
    if (mt) acquire((u64)o);
    return 0;
  }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  unlockM((u64)m); visible(P_CVWAIT, (u64)c, (*condSeq)[(u64)c], SP); return lockM((u64)m, SP);
}
int pthread_cond_signal(pthread_cond_t* c) { (*condSeq)[(u64)c]++; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { (*condSeq)[(u64)c]++; return 0; }
int __cxa_guard_acquire(u64* g) { rtInit(); visible(P_LOCK, (u64)g, 0, SP); Mtx& x = (*mtxs)[(u64)g]; x.owner = me; x.depth = 1; if (mt) th[me].vc.join(x.vc); if (*(char*)g) { unlockM((u64)g); return 0; } return 1; }
void __cxa_guard_release(u64* g) { access((u64)g, 1, true, true); *(char*)g = 1; (*relvc)[(u64)g] = th[me].vc; unlockM((u64)g); }
void __cxa_guard_abort(u64* g) { unlockM((u64)g); }

// ------------------------------------------------------------------ harness API
static u64 take(const char* name, unsigned bits) {
  Str n = name; char b[32]; if (me) { snprintf(b, 32, "@%d", me); n += b; }
  snprintf(b, 32, "#%d", (*counts)[n]++); n += b;
  auto it = vals->find(n); u64 v = it == vals->end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ULL << bits) - 1);
}
u64 vp_sym(const char* name, unsigned bits) { return take(name, bits); }
void vp_sym_bytes(void* p, size_t n, const char* name) { access((u64)p, n, true, false); for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)take(name, 8); }
void vp_assume(int c) { if (!c) diverged("assumption"); }
void vp_assert(int c, const char* msg) { if (!c) failv(msg); }
unsigned vp_choose(unsigned n, const char* name) { unsigned v = (unsigned)take(name, 32); if (v >= n) diverged("choice"); return v; }
void vp_reach(const char*) {}
void vp_out(u64 v) { printf("OUT %llu\n", (unsigned long long)v); }
int vp_native(void) { return 1; }
void vp_yield(void) { visible(P_YIELD, 0, 0, SP); }
int vp_tid(void) { return me; }
int vp_is_symbolic(u64) { return 0; }
u64 vp_concretize(u64 v) { return v; }
int vp_decide(int c) { return c != 0; }
u64 vp_ite64(int c, u64 a, u64 b) { return c ? a : b; }
void vp_print(const char* t, u64 v) { fprintf(stderr, "[%s] %llu\n", t, (unsigned long long)v); }
void vp_prints(const char* t, const char* p, size_t n) { fprintf(stderr, "[%s] %.*s\n", t, (int)n, p); }
void vp_env(int on) { th[me].env += on ? 1 : -1; }
void* vp_xalloc(size_t n) { return malloc(n); }

static void stackOf(Thr& t) { pthread_attr_t a; void* p; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); t.lo = (uintptr_t)p; t.hi = (uintptr_t)p + n; pthread_attr_destroy(&a); }
static void* tmain(void* p) {
  me = (int)(intptr_t)p; Thr& x = th[me];
  fwait(x.go, 0);
  stackOf(x); x.sp = SP; x.parked = false; x.k = P_NONE;
  x.fn(x.arg);
  x.done = true; x.vc.v[me]++;
  int t = pick(); if (t >= 0) { th[t].go = 1; fwake(th[t].go); }
  for (;;) pause();   // keep the stack: its addresses must not be reused
}
int vp_spawn(void* (*fn)(void*), void* arg) {
  if (nth >= MAXT) diverged("too many threads");
  int t = nth++; Thr& x = th[t]; x.fn = fn; x.arg = arg; x.vc = th[me].vc; x.vc.v[t] = 1; th[me].vc.v[me]++; mt = true;
  x.parked = true; x.k = P_START; x.go = 0;
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  pthread_t h; if (f(&h, nullptr, tmain, (void*)(intptr_t)t)) diverged("pthread_create");
  pthread_detach(h);
  return t;
}
void vp_join(int t) { visible(P_JOIN, t, 0, SP); th[me].vc.join(th[t].vc); }
}
// ------------------------------------------------------------------ libstdc++ threads and futures
namespace std {
extern "C" { static void* vp_thread_main(void* p) { unique_ptr<thread::_State> st(static_cast<thread::_State*>(p)); st->_M_run(); return nullptr; } }
void thread::_M_start_thread(_State_ptr st, void (*)()) { int t = vp_spawn(vp_thread_main, st.release()); _M_id = id((native_handle_type)(t + 1)); }
void thread::join() { vp_join((int)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* p, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { visible(P_WAIT, (u64)p, v, SP); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
}  // namespace std

struct VpEntry { const char* name; void (*fn)(); };
extern VpEntry vp_entries[];
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  rtInit(); stackOf(th[0]); th[0].go = 1; th[0].vc.v[0] = 1;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char n[512]; unsigned long long v;
  while (fgets(n, sizeof n, f)) { char* sp = strrchr(n, ' '); if (!sp) continue; *sp = 0; v = strtoull(sp + 1, nullptr, 10); (*vals)[n] = v; }
  fclose(f);
  for (VpEntry* e = vp_entries; e->name; e++) if (!strcmp(e->name, argv[1])) { e->fn(); printf("VP_DONE\n"); fflush(stdout); _exit(0); }
  return 2;
}
