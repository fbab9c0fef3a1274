// Hash-consed bit-vector expressions (width 1..64) with local simplification,
// unsigned-interval tracking, concrete evaluation under a model, and
// translation to Z3.
#pragma once
#include <z3.h>

#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum EK : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FMUL, K_FDIV, K_FREM, K_FNEG, K_FABS, K_FSQRT, K_FRINT,
  K_FLT, K_FLE, K_FEQ, K_FISNAN,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC,
};

struct Expr;
typedef const Expr* E;
typedef std::vector<uint32_t> VarSet;  // sorted

struct Expr {
  EK k;
  uint8_t w;        // width
  uint16_t aux;     // extract: low bit; frint: rounding mode
  uint32_t id;
  uint64_t c;       // const value / var id
  E a, b, d;
  uint64_t umin, umax;
  bool fpa;         // contains floating-point arithmetic or conversion
  bool cmp;         // contains a floating-point comparison
  const VarSet* vars;
  mutable uint64_t evStamp;
  mutable uint64_t evVal;
  mutable Z3_ast zbv, zfp, zbool, zdef, zcd, zkey, zkn;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
inline float asF(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
inline uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
inline double fpval(uint64_t v, unsigned w) { return w == 64 ? asD(v) : (double)asF(v); }

// a model: var id -> value; immutable once published
struct Model {
  uint64_t stamp;
  std::vector<uint64_t> v;
  uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;

struct VarInfo { std::string name; unsigned w; };

struct ExprCtx {
  Z3_context z = nullptr;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, E> varByName;
  uint32_t nextId = 1;
  uint64_t nextStamp = 1;
  E T, F;
  VarSet emptySet;

  struct H { size_t operator()(E e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ULL + e->w * 131 + e->aux * 7919 + e->c * 0xC2B2AE3D27D4EB4FULL;
    h ^= (uint64_t)(e->a ? e->a->id : 0) * 0x165667B19E3779F9ULL; h = (h << 13) | (h >> 51);
    h ^= (uint64_t)(e->b ? e->b->id : 0) * 0xD6E8FEB86659FD93ULL; h = (h << 17) | (h >> 47);
    h ^= (uint64_t)(e->d ? e->d->id : 0) * 0xA0761D6478BD642FULL;
    return h ^ (h >> 29);
  } };
  struct Eq { bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
  } };
  std::unordered_set<E, H, Eq> table;
  struct VH { size_t operator()(const VarSet* s) const { size_t h = s->size(); for (auto x : *s) h = h * 1000003u ^ x; return h; } };
  struct VE { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
  std::unordered_set<const VarSet*, VH, VE> varsets;

  const VarSet* internSet(VarSet&& s) {
    auto it = varsets.find(&s);
    if (it != varsets.end()) return *it;
    auto p = new VarSet(std::move(s));
    varsets.insert(p);
    return p;
  }
  const VarSet* unite(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    VarSet r; r.reserve(a->size() + b->size());
    size_t i = 0, j = 0;
    while (i < a->size() || j < b->size()) {
      if (j >= b->size() || (i < a->size() && (*a)[i] < (*b)[j])) r.push_back((*a)[i++]);
      else if (i >= a->size() || (*b)[j] < (*a)[i]) r.push_back((*b)[j++]);
      else { r.push_back((*a)[i]); i++; j++; }
    }
    return internSet(std::move(r));
  }

  void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z = Z3_mk_context(cfg);
    Z3_set_ast_print_mode(z, Z3_PRINT_SMTLIB2_COMPLIANT);
    varsets.insert(&emptySet);
    T = cst(1, 1); F = cst(0, 1);
  }

  E intern(Expr& t) {
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    Expr* e = new Expr(t);
    e->id = nextId++;
    e->evStamp = 0; e->zbv = e->zfp = e->zbool = e->zdef = e->zcd = e->zkey = e->zkn = nullptr;
    const VarSet* vs = &emptySet;
    if (t.k == K_VAR) { VarSet s{(uint32_t)t.c}; vs = internSet(std::move(s)); }
    if (t.a) vs = unite(vs, t.a->vars);
    if (t.b) vs = unite(vs, t.b->vars);
    if (t.d) vs = unite(vs, t.d->vars);
    e->vars = vs;
    e->cmp = isCmp(t.k) || (t.a && t.a->cmp) || (t.b && t.b->cmp) || (t.d && t.d->cmp);
    e->fpa = (t.a && t.a->fpa) || (t.b && t.b->fpa) || (t.d && t.d->fpa);
    switch (t.k) { case K_FADD: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FRINT: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FPEXT: case K_FPTRUNC: e->fpa = true; break; default: break; }
    interval(e);
    table.insert(e);
    return e;
  }
  void interval(Expr* e) {
    uint64_t m = maskw(e->w), lo = 0, hi = m;
    switch (e->k) {
      case K_CONST: lo = hi = e->c; break;
      case K_ZEXT: lo = e->a->umin; hi = e->a->umax; break;
      case K_ADD: {
        unsigned __int128 h = (unsigned __int128)e->a->umax + e->b->umax;
        if (h <= m) { lo = e->a->umin + e->b->umin; hi = (uint64_t)h; }
        else {
          unsigned __int128 l = (unsigned __int128)e->a->umin + e->b->umin;
          if (l > m && h <= (unsigned __int128)m + m + 1) { lo = (uint64_t)l & m; hi = (uint64_t)h & m; }
        }
        break; }
      case K_MUL: { unsigned __int128 h = (unsigned __int128)e->a->umax * e->b->umax;
        if (h <= m) { lo = e->a->umin * e->b->umin; hi = (uint64_t)h; } break; }
      case K_AND: hi = std::min(e->a->umax, e->b->umax); break;
      case K_OR: { lo = std::max(e->a->umin, e->b->umin);
        uint64_t x = e->a->umax | e->b->umax; int bits = x ? 64 - __builtin_clzll(x) : 0; hi = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1); break; }
      case K_XOR: { uint64_t x = e->a->umax | e->b->umax; int bits = x ? 64 - __builtin_clzll(x) : 0; hi = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1); break; }
      case K_UREM: if (e->b->k == K_CONST && e->b->c) hi = std::min(e->a->umax, e->b->c - 1); break;
      case K_UDIV: if (e->b->k == K_CONST && e->b->c) { lo = e->a->umin / e->b->c; hi = e->a->umax / e->b->c; } break;
      case K_LSHR: if (e->b->k == K_CONST && e->b->c < 64) { lo = e->a->umin >> e->b->c; hi = e->a->umax >> e->b->c; } break;
      case K_SHL: if (e->b->k == K_CONST && e->b->c < 64) { unsigned __int128 h = (unsigned __int128)e->a->umax << e->b->c; if (h <= m) { hi = (uint64_t)h; lo = e->a->umin << e->b->c; } } break;
      case K_ITE: lo = std::min(e->b->umin, e->d->umin); hi = std::max(e->b->umax, e->d->umax); break;
      case K_CONCAT: lo = (e->a->umin << e->b->w); hi = (e->a->umax << e->b->w) | maskw(e->b->w); break;
      case K_EXTRACT: if (e->aux == 0 && e->a->umax <= m) { lo = e->a->umin; hi = e->a->umax; }
        else if (e->aux > 0 && (unsigned)e->aux + e->w == e->a->w) { lo = e->a->umin >> e->aux; hi = e->a->umax >> e->aux; } break;
      default: break;
    }
    e->umin = lo; e->umax = hi > m ? m : hi;
    if (e->umin > e->umax) { e->umin = 0; e->umax = m; }
  }

  E mk(EK k, unsigned w, E a, E b = nullptr, E d = nullptr, uint16_t aux = 0, uint64_t c = 0) {
    Expr t{}; t.k = k; t.w = (uint8_t)w; t.aux = aux; t.c = c; t.a = a; t.b = b; t.d = d;
    return intern(t);
  }
  E cst(uint64_t v, unsigned w) { Expr t{}; t.k = K_CONST; t.w = (uint8_t)w; t.c = v & maskw(w); return intern(t); }
  E boolc(bool b) { return b ? T : F; }
  E var(const std::string& name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = varByName.find(key);
    if (it != varByName.end()) return it->second;
    uint32_t id = vars.size();
    vars.push_back({name, w});
    Expr t{}; t.k = K_VAR; t.w = (uint8_t)w; t.c = id;
    E e = intern(t);
    varByName[key] = e;
    return e;
  }
  static bool isC(E e) { return e->k == K_CONST; }
  static bool isC(E e, uint64_t v) { return e->k == K_CONST && e->c == v; }

  static uint64_t evBin(EK k, uint64_t x, uint64_t y, unsigned w) {
    uint64_t m = maskw(w);
    switch (k) {
      case K_ADD: return (x + y) & m;
      case K_MUL: return (x * y) & m;
      case K_UDIV: return y ? x / y : m;
      case K_UREM: return y ? x % y : x;
      case K_SDIV: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (uint64_t)(0 - (uint64_t)a) & m; return (uint64_t)(a / b) & m; }
      case K_SREM: { int64_t a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
      case K_AND: return x & y;
      case K_OR: return x | y;
      case K_XOR: return x ^ y;
      case K_SHL: return y >= w ? 0 : (x << y) & m;
      case K_LSHR: return y >= w ? 0 : x >> y;
      case K_ASHR: { int64_t a = sextw(x, w); return (uint64_t)(y >= w ? (a < 0 ? -1 : 0) : (a >> y)) & m; }
      case K_EQ: return x == y;
      case K_ULT: return x < y;
      case K_ULE: return x <= y;
      case K_SLT: return sextw(x, w) < sextw(y, w);
      case K_SLE: return sextw(x, w) <= sextw(y, w);
      default: abort();
    }
  }
  static uint64_t canonNaN(unsigned w) { return w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL; }
  static uint64_t fpRes(double d, unsigned w) { return w == 64 ? ofD(d) : ofF((float)d); }
  static uint64_t evFBin(EK k, uint64_t x, uint64_t y, unsigned w) {
    if (w == 64) {
      double a = asD(x), b = asD(y), r;
      switch (k) { case K_FADD: r = a + b; break; case K_FMUL: r = a * b; break; case K_FDIV: r = a / b; break; case K_FREM: r = fmod(a, b); break;
        case K_FLT: return a < b; case K_FLE: return a <= b; case K_FEQ: return a == b; default: abort(); }
      return r != r ? canonNaN(64) : ofD(r);
    }
    float a = asF(x), b = asF(y), r;
    switch (k) { case K_FADD: r = a + b; break; case K_FMUL: r = a * b; break; case K_FDIV: r = a / b; break; case K_FREM: r = fmodf(a, b); break;
      case K_FLT: return a < b; case K_FLE: return a <= b; case K_FEQ: return a == b; default: abort(); }
    return r != r ? canonNaN(32) : ofF(r);
  }
  static uint64_t evRint(uint64_t x, unsigned w, int mode) {
    double d = fpval(x, w), r = d;
    switch (mode) { case 0: r = floor(d); break; case 1: r = ceil(d); break; case 2: r = trunc(d); break; case 3: r = round(d); break; default: r = nearbyint(d); }
    if (r != r) return canonNaN(w);
    return fpRes(r, w);
  }
  static uint64_t evToInt(uint64_t x, unsigned fw, unsigned w, bool sgn) {
    double d = fpval(x, fw);
    if (d != d) return sgn ? (1ULL << (w - 1)) : (w == 64 ? 1ULL << 63 : 0);
    if (sgn) {
      double lo = -ldexp(1.0, w - 1), hi = ldexp(1.0, w - 1);
      if (trunc(d) < lo || trunc(d) >= hi) return 1ULL << (w - 1);
      return (uint64_t)(int64_t)d & maskw(w);
    }
    if (d <= -1.0 || d >= ldexp(1.0, w)) return w == 64 ? 1ULL << 63 : 0;
    if (d < 0) return 0;
    return (uint64_t)d & maskw(w);
  }
  static uint64_t evFromInt(uint64_t x, unsigned iw, unsigned w, bool sgn) {
    if (w == 64) return ofD(sgn ? (double)sextw(x, iw) : (double)x);
    return ofF(sgn ? (float)sextw(x, iw) : (float)x);
  }

  // ---------- constructors with simplification ----------
  E add(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c + b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (isC(b)) {
      if (a->k == K_ADD && isC(a->b)) return add(a->a, cst(a->b->c + b->c, w));
      if (a->k == K_ITE && (isC(a->b) && isC(a->d))) return ite(a->a, cst(a->b->c + b->c, w), cst(a->d->c + b->c, w));
    } else {
      if (a->k == K_ADD && isC(a->b)) return add(add(a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return add(add(a, b->a), b->b);
      // x + (-1 * x) = 0
      if (b->k == K_MUL && isC(b->b, maskw(w)) && b->a == a) return cst(0, w);
      if (a->k == K_MUL && isC(a->b, maskw(w)) && a->a == b) return cst(0, w);
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(K_ADD, w, a, b);
  }
  E neg(E a) { return mul(a, cst(~0ULL, a->w)); }
  E sub(E a, E b) {
    if (a == b) return cst(0, a->w);
    if (isC(b)) return add(a, cst(0 - b->c, a->w));
    return add(a, neg(b));
  }
  E mul(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c * b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && a->k == K_MUL && isC(a->b)) return mul(a->a, cst(a->b->c * b->c, w));
    if (isC(b) && a->k == K_ADD && isC(b, maskw(w))) return add(mul(a->a, b), mul(a->b, b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_MUL, w, a, b);
  }
  E bin(EK k, E a, E b) {
    switch (k) {
      case K_ADD: return add(a, b);
      case K_MUL: return mul(a, b);
      case K_AND: return band(a, b);
      case K_OR: return bor(a, b);
      case K_XOR: return bxor(a, b);
      case K_EQ: return eq(a, b);
      case K_ULT: return ult(a, b);
      case K_ULE: return bnot(ult(b, a));
      case K_SLT: return slt(a, b);
      case K_SLE: return bnot(slt(b, a));
      default: break;
    }
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(evBin(k, a->c, b->c, w), w);
    if (k == K_SHL || k == K_LSHR || k == K_ASHR) {
      if (isC(b, 0)) return a;
      if (isC(a, 0)) return a;
      if (isC(b)) {
        uint64_t s = b->c;
        if (s >= w) { if (k != K_ASHR) return cst(0, w); s = w - 1; }
        if (k == K_SHL) return concat(extract(a, 0, w - s), cst(0, s));
        if (k == K_LSHR) return zext(extract(a, s, w - s), w);
        if (k == K_ASHR) return sext(extract(a, s, w - s), w);
      }
    }
    if ((k == K_UDIV || k == K_SDIV) && isC(b, 1)) return a;
    if (k == K_UDIV && isC(b) && b->c && !(b->c & (b->c - 1))) return bin(K_LSHR, a, cst(__builtin_ctzll(b->c), w));
    if (k == K_UREM && isC(b) && b->c && !(b->c & (b->c - 1))) return band(a, cst(b->c - 1, w));
    if (k == K_UREM && isC(b) && a->umax < b->c) return a;
    if (k == K_SDIV && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return bin(K_UDIV, a, b);
    if (k == K_SREM && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return bin(K_UREM, a, b);
    return mk(k, w, a, b);
  }
  E bnot(E a) {
    if (isC(a)) return cst(~a->c, a->w);
    if (a->k == K_XOR && isC(a->b, maskw(a->w))) return a->a;
    return mk(K_XOR, a->w, a, cst(~0ULL, a->w));
  }
  bool isNotOf(E a, E b) { return a->w == b->w && ((a->k == K_XOR && isC(a->b, maskw(a->w)) && a->a == b) || (b->k == K_XOR && isC(b->b, maskw(b->w)) && b->a == a)); }
  E band(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c & b->c, w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b, 0)) return b;
    if (isC(b, maskw(w))) return a;
    if (isNotOf(a, b)) return cst(0, w);
    if (isC(b)) {
      // low mask
      uint64_t m = b->c;
      if ((m & (m + 1)) == 0) { unsigned n = 64 - __builtin_clzll(m); if (a->umax <= m) return a; return zext(extract(a, 0, n), w); }
      // contiguous mask
      unsigned lo = __builtin_ctzll(m); uint64_t mm = m >> lo;
      if ((mm & (mm + 1)) == 0) { unsigned n = 64 - __builtin_clzll(mm); return bin(K_SHL, zext(extract(a, lo, n), w), cst(lo, w)); }
      if (a->k == K_AND && isC(a->b)) return band(a->a, cst(a->b->c & m, w));
    } else if (a->id > b->id) std::swap(a, b);
    return mk(K_AND, w, a, b);
  }
  E bor(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c | b->c, w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b, 0)) return a;
    if (isC(b, maskw(w))) return b;
    if (isNotOf(a, b)) return cst(~0ULL, w);
    // disjoint concat patterns: (x ++ 0_n) | zext(y_n)
    if (a->k == K_CONCAT && isC(a->b, 0) && b->umax <= maskw(a->b->w)) return concat(a->a, extract(b, 0, a->b->w));
    if (b->k == K_CONCAT && isC(b->b, 0) && a->umax <= maskw(b->b->w)) return concat(b->a, extract(a, 0, b->b->w));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_OR, w, a, b);
  }
  E bxor(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c ^ b->c, w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return cst(0, w);
    if (isC(b, 0)) return a;
    if (isC(b, maskw(w))) return bnot(a);
    if (isC(b) && a->k == K_XOR && isC(a->b)) return bxor(a->a, cst(a->b->c ^ b->c, w));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(K_XOR, w, a, b);
  }
  E eq(E a, E b) {
    if (a == b) return T;
    if (isC(a) && isC(b)) return boolc(a->c == b->c);
    if (isC(a)) std::swap(a, b);
    if (a->umax < b->umin || b->umax < a->umin) return F;
    unsigned w = a->w;
    if (w == 1) { if (isC(b)) return b->c ? a : bnot(a); }
    if (isC(b)) {
      switch (a->k) {
        case K_ZEXT: if (b->c > maskw(a->a->w)) return F; return eq(a->a, cst(b->c, a->a->w));
        case K_SEXT: { uint64_t t = b->c & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & maskw(w)) != b->c) return F; return eq(a->a, cst(t, a->a->w)); }
        case K_ADD: if (isC(a->b)) return eq(a->a, cst(b->c - a->b->c, w)); break;
        case K_XOR: if (isC(a->b)) return eq(a->a, cst(b->c ^ a->b->c, w)); break;
        case K_ITE:
          if (isC(a->b) || isC(a->d)) {
            E x = isC(a->b) ? boolc(a->b->c == b->c) : nullptr;
            E y = isC(a->d) ? boolc(a->d->c == b->c) : nullptr;
            if (x && y) { if (x == y) return x; return x == T ? a->a : bnot(a->a); }
            if (x) return x == T ? bor(a->a, eq(a->d, b)) : band(bnot(a->a), eq(a->d, b));
            return y == T ? bor(bnot(a->a), eq(a->b, b)) : band(a->a, eq(a->b, b));
          }
          break;
        case K_CONCAT: {
          E lo = eq(a->b, cst(b->c, a->b->w)), hi = eq(a->a, cst(b->c >> a->b->w, a->a->w));
          return band(hi, lo); }
        case K_MUL: if (isC(a->b, maskw(w))) return eq(a->a, cst(0 - b->c, w)); break;
        default: break;
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) {
        if (a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->a->w < b->a->w) return eq(zext(a->a, b->a->w), b->a);
        return eq(a->a, zext(b->a, a->a->w));
      }
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return eq(a->a, add(b->a, cst(b->b->c - a->b->c, w)));
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return band(eq(a->a, b->a), eq(a->b, b->b));
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(K_EQ, 1, a, b);
  }
  E ult(E a, E b) {
    if (a == b) return F;
    if (isC(a) && isC(b)) return boolc(a->c < b->c);
    if (a->umax < b->umin) return T;
    if (a->umin >= b->umax) return F;
    unsigned w = a->w;
    if (isC(b, 1)) return eq(a, cst(0, w));
    if (isC(a, 0)) return bnot(eq(b, cst(0, w)));
    if (isC(b, maskw(w))) return bnot(eq(a, b));
    if (w == 1) return band(bnot(a), b);
    if (a->k == K_ZEXT && isC(b)) return b->c > maskw(a->a->w) ? T : ult(a->a, cst(b->c, a->a->w));
    if (b->k == K_ZEXT && isC(a)) return a->c > maskw(b->a->w) ? F : ult(cst(a->c, b->a->w), b->a);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    if (a->k == K_ITE && isC(b) && isC(a->b) && isC(a->d)) return ite(a->a, boolc(a->b->c < b->c), boolc(a->d->c < b->c));
    return mk(K_ULT, 1, a, b);
  }
  E slt(E a, E b) {
    if (a == b) return F;
    unsigned w = a->w;
    if (isC(a) && isC(b)) return boolc(sextw(a->c, w) < sextw(b->c, w));
    uint64_t half = 1ULL << (w - 1);
    if (a->umax < half && b->umax < half) return ult(a, b);
    if (a->umin >= half && b->umin >= half) return ult(a, b);
    if (a->umin >= half && b->umax < half) return T;
    if (a->umax < half && b->umin >= half) return F;
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return slt(a->a, b->a);
    if (a->k == K_SEXT && isC(b)) {
      unsigned n = a->a->w; int64_t v = sextw(b->c, w); int64_t lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1;
      if (v > hi) return T; if (v <= lo) return F; return slt(a->a, cst((uint64_t)v, n));
    }
    if (b->k == K_SEXT && isC(a)) {
      unsigned n = b->a->w; int64_t v = sextw(a->c, w); int64_t lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1;
      if (v < lo) return T; if (v >= hi) return F; return slt(cst((uint64_t)v, n), b->a);
    }
    return mk(K_SLT, 1, a, b);
  }
  E ite(E c, E x, E y) {
    if (isC(c)) return c->c ? x : y;
    if (x == y) return x;
    if (c->k == K_XOR && isC(c->b, 1)) return ite(c->a, y, x);
    if (x->w == 1) {
      if (isC(x) && isC(y)) return x->c ? c : bnot(c);
      if (isC(x)) return x->c ? bor(c, y) : band(bnot(c), y);
      if (isC(y)) return y->c ? bor(bnot(c), x) : band(c, x);
    }
    if (x->k == K_ITE && x->a == c) return ite(c, x->b, y);
    if (y->k == K_ITE && y->a == c) return ite(c, x, y->d);
    return mk(K_ITE, x->w, c, x, y);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (hi->k == K_EXTRACT && hi->aux == lo->w && hi->a == lo) return extract(hi->a, 0, w);
    // the low part of a sum was narrowed: put the parts together again
    if (hi->k == K_EXTRACT && hi->aux >= lo->w && hi->a->k != K_VAR && lo->k != K_EXTRACT && lo->k != K_CONCAT && !isC(lo) && extract(hi->a, hi->aux - lo->w, lo->w) == lo)
      return extract(hi->a, hi->aux - lo->w, w);
    if (lo->k == K_CONCAT) return concat(concat(hi, lo->a), lo->b);
    if (hi->k == K_CONCAT) {
      // try merging hi->b with lo
      if (hi->b->k == K_EXTRACT && lo->k == K_EXTRACT && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w)
        return concat(hi->a, extract(lo->a, lo->aux, hi->b->w + lo->w));
      if (hi->b->k == K_EXTRACT && hi->b->aux >= lo->w && hi->b->a->k != K_VAR && lo->k != K_EXTRACT && !isC(lo) && extract(hi->b->a, hi->b->aux - lo->w, lo->w) == lo)
        return concat(hi->a, extract(hi->b->a, hi->b->aux - lo->w, hi->b->w + lo->w));
      if (isC(hi->b) && isC(lo)) return concat(hi->a, cst((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
    }
    if (hi->k == K_ZEXT) return zext(concat(hi->a, lo), w);
    return mk(K_CONCAT, w, hi, lo);
  }
  E extract(E a, unsigned lo, unsigned n) {
    if (lo == 0 && n == a->w) return a;
    assert(n >= 1 && lo + n <= a->w);
    switch (a->k) {
      case K_CONST: return cst(a->c >> lo, n);
      case K_EXTRACT: return extract(a->a, a->aux + lo, n);
      case K_CONCAT:
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, n);
        if (lo + n <= a->b->w) return extract(a->b, lo, n);
        return concat(extract(a->a, 0, lo + n - a->b->w), extract(a->b, lo, a->b->w - lo));
      case K_ZEXT:
        if (lo >= a->a->w) return cst(0, n);
        if (lo + n <= a->a->w) return extract(a->a, lo, n);
        return zext(extract(a->a, lo, a->a->w - lo), n);
      case K_SEXT:
        if (lo + n <= a->a->w) return extract(a->a, lo, n);
        if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), n);
        return sext(extract(a->a, a->a->w - 1, 1), n);
      case K_ITE:
        if (isC(a->b) || isC(a->d)) return ite(a->a, extract(a->b, lo, n), extract(a->d, lo, n));
        break;
      case K_AND: case K_OR: case K_XOR: {
        E x = extract(a->a, lo, n), y = extract(a->b, lo, n);
        return bin(a->k, x, y); }
      case K_ADD: case K_MUL:
        if (lo == 0) return bin(a->k, extract(a->a, 0, n), extract(a->b, 0, n));
        break;
      default: break;
    }
    return mk(K_EXTRACT, n, a, nullptr, nullptr, lo);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(a->c, w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    return mk(K_ZEXT, w, a);
  }
  E sext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst((uint64_t)sextw(a->c, a->w), w);
    if (a->umax < (1ULL << (a->w - 1))) return zext(a, w);
    if (a->k == K_SEXT) return sext(a->a, w);
    return mk(K_SEXT, w, a);
  }
  // floating point
  E smallInt(E a) {
    if (isC(a)) {
      double d = fpval(a->c, 64);
      if (!(d >= 0 && d <= 4503599627370496.0) || (a->c >> 63) || d != (double)(uint64_t)d) return nullptr;
      return cst((uint64_t)d, 64);
    }
    if (a->k == K_UITOFP && a->a->umax <= (1ULL << 52) && a->a->w <= 64) return zext(a->a, 64);
    return nullptr;
  }
  E fbin(EK k, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) { bool pred = (k == K_FLT || k == K_FLE || k == K_FEQ); return cst(evFBin(k, a->c, b->c, w), pred ? 1 : w); }
    if (k == K_FMUL) {
      if (isC(a)) std::swap(a, b);
      if (isC(b) && fpval(b->c, w) == 1.0) return a;
      if (isC(b) && fpval(b->c, w) == -1.0) return fneg(a);
    }
    if (k == K_FADD) {   // x + -0.0 == x
      if (isC(a)) std::swap(a, b);
      if (isC(b) && b->c == 1ULL << (w - 1)) return a;
    }
    if (w == 64 && (k == K_FADD || k == K_FLT || k == K_FLE || k == K_FEQ) && (a->k == K_UITOFP || b->k == K_UITOFP)) {
      // both operands are non-negative integers below 2^52: exact integer arithmetic
      E x = smallInt(a), y = x ? smallInt(b) : nullptr;
      if (x && y) switch (k) {
        case K_FADD: return fcast(K_UITOFP, bin(K_ADD, x, y), 64);
        case K_FLT: return bin(K_ULT, x, y);
        case K_FLE: return bin(K_ULE, x, y);
        default: return bin(K_EQ, x, y);
      }
    }
    if ((k == K_FADD || k == K_FMUL || k == K_FEQ) && a->id > b->id) std::swap(a, b);
    if (k == K_FEQ && a == b) return bnot(fisnan(a));
    if (k == K_FLT && a == b) return F;
    if (k == K_FLE && a == b) return bnot(fisnan(a));
    bool pred = (k == K_FLT || k == K_FLE || k == K_FEQ);
    return mk(k, pred ? 1 : w, a, b);
  }
  E fneg(E a) {
    if (isC(a)) return cst(a->c ^ (1ULL << (a->w - 1)), a->w);
    if (a->k == K_FNEG) return a->a;
    return mk(K_FNEG, a->w, a);
  }
  E fabs_(E a) { if (isC(a)) return cst(a->c & (maskw(a->w) >> 1), a->w); return mk(K_FABS, a->w, a); }
  E fisnan(E a) {
    if (isC(a)) { double d = fpval(a->c, a->w); return boolc(d != d); }
    if (a->k == K_FNEG || a->k == K_FABS) return fisnan(a->a);
    if (a->k == K_SITOFP || a->k == K_UITOFP) return F;
    return mk(K_FISNAN, 1, a);
  }
  E frint(E a, int mode) { if (isC(a)) return cst(evRint(a->c, a->w, mode), a->w); return mk(K_FRINT, a->w, a, nullptr, nullptr, mode); }
  E fsqrt(E a) { if (isC(a)) return cst(fpRes(sqrt(fpval(a->c, a->w)), a->w), a->w); return mk(K_FSQRT, a->w, a); }
  E fcast(EK k, E a, unsigned w) {
    if (isC(a)) switch (k) {
      case K_SITOFP: return cst(evFromInt(a->c, a->w, w, true), w);
      case K_UITOFP: return cst(evFromInt(a->c, a->w, w, false), w);
      case K_FPTOSI: return cst(evToInt(a->c, a->w, w, true), w);
      case K_FPTOUI: return cst(evToInt(a->c, a->w, w, false), w);
      case K_FPEXT: return cst(ofD((double)asF(a->c)), w);
      case K_FPTRUNC: return cst(ofF((float)asD(a->c)), w);
      default: abort();
    }
    // exact integer -> double -> integer round trips
    if ((k == K_FPTOUI || k == K_FPTOSI) && (a->k == K_UITOFP) && a->a->umax <= (1ULL << 53) && a->w == 64 && a->a->umax <= (maskw(w) >> 1))
      return w >= a->a->w ? zext(a->a, w) : extract(a->a, 0, w);
    if ((k == K_FPTOUI || k == K_FPTOSI) && a->k == K_UITOFP && a->w == 64 && a->a->umax <= (1ULL << 53) && w < a->a->w)   // may be out of range: as in evToInt
      return ite(ult(a->a, cst(1ULL << (k == K_FPTOSI ? w - 1 : w), a->a->w)), extract(a->a, 0, w), cst(k == K_FPTOSI ? 1ULL << (w - 1) : 0, w));
    if (k == K_SITOFP && a->umax < (1ULL << (a->w - 1))) k = K_UITOFP;
    if (k == K_UITOFP && a->k == K_ZEXT) a = a->a;
    return mk(k, w, a);
  }

  // ---------- evaluation ----------
  uint64_t eval(E e, const Model& m) {
    if (e->k == K_CONST) return e->c;
    if (e->evStamp == m.stamp) return e->evVal;
    uint64_t r;
    switch (e->k) {
      case K_VAR: r = m.get((uint32_t)e->c) & maskw(e->w); break;
      case K_ITE: r = eval(e->a, m) ? eval(e->b, m) : eval(e->d, m); break;
      case K_CONCAT: r = (eval(e->a, m) << e->b->w) | eval(e->b, m); break;
      case K_EXTRACT: r = (eval(e->a, m) >> e->aux) & maskw(e->w); break;
      case K_ZEXT: r = eval(e->a, m); break;
      case K_SEXT: r = (uint64_t)sextw(eval(e->a, m), e->a->w) & maskw(e->w); break;
      case K_FADD: case K_FMUL: case K_FDIV: case K_FREM: case K_FLT: case K_FLE: case K_FEQ:
        r = evFBin(e->k, eval(e->a, m), eval(e->b, m), e->a->w); break;
      case K_FNEG: r = eval(e->a, m) ^ (1ULL << (e->w - 1)); break;
      case K_FABS: r = eval(e->a, m) & (maskw(e->w) >> 1); break;
      case K_FSQRT: r = fpRes(sqrt(fpval(eval(e->a, m), e->w)), e->w); break;
      case K_FRINT: r = evRint(eval(e->a, m), e->w, e->aux); break;
      case K_FISNAN: { double d = fpval(eval(e->a, m), e->a->w); r = d != d; break; }
      case K_SITOFP: r = evFromInt(eval(e->a, m), e->a->w, e->w, true); break;
      case K_UITOFP: r = evFromInt(eval(e->a, m), e->a->w, e->w, false); break;
      case K_FPTOSI: r = evToInt(eval(e->a, m), e->a->w, e->w, true); break;
      case K_FPTOUI: r = evToInt(eval(e->a, m), e->a->w, e->w, false); break;
      case K_FPEXT: r = ofD((double)asF(eval(e->a, m))); break;
      case K_FPTRUNC: r = ofF((float)asD(eval(e->a, m))); break;
      default: r = evBin(e->k, eval(e->a, m), eval(e->b, m), e->a->w);
    }
    e->evStamp = m.stamp; e->evVal = r;
    return r;
  }

  // ---------- Z3 ----------
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(z) : Z3_mk_fpa_sort_single(z); }
  Z3_ast rne() { return Z3_mk_fpa_rne(z); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_ast znot(Z3_ast a) { return Z3_mk_not(z, a); }
  Z3_ast zc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z, v & maskw(w), bvs(w)); }
  Z3_ast zmag(E a) { return Z3_mk_bvand(z, zbv(a), zc(maskw(a->w - 1), a->w)); }
  Z3_ast znan(E a) { if (isC(a)) { double d = fpval(a->c, a->w); return d != d ? Z3_mk_true(z) : Z3_mk_false(z); } return Z3_mk_bvult(z, zc(a->w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL, a->w), zmag(a)); }
  Z3_ast zbothzero(E a, E b) { return Z3_mk_eq(z, Z3_mk_bvand(z, Z3_mk_bvor(z, zbv(a), zbv(b)), zc(maskw(a->w - 1), a->w)), zc(0, a->w)); }
  Z3_ast zneg(E a) { return Z3_mk_bvslt(z, zbv(a), zc(0, a->w)); }
  Z3_ast zless(E a, E b, bool orEq) {  // assuming neither is NaN
    Z3_ast na = zneg(a), nb = zneg(b), x = zbv(a), y = zbv(b);
    Z3_ast both = zbothzero(a, b);
    Z3_ast same = Z3_mk_ite(z, na, orEq ? Z3_mk_bvule(z, y, x) : Z3_mk_bvult(z, y, x), orEq ? Z3_mk_bvule(z, x, y) : Z3_mk_bvult(z, x, y));
    Z3_ast d = Z3_mk_ite(z, Z3_mk_iff(z, na, nb), same, na);
    if (orEq) { Z3_ast o[2] = {both, d}; return Z3_mk_or(z, 2, o); }
    Z3_ast o[2] = {znot(both), d}; return Z3_mk_and(z, 2, o);
  }
  Z3_ast zbool(E e) {
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case K_EQ: if (e->a->w == 1) { r = Z3_mk_iff(z, zbool(e->a), zbool(e->b)); } else r = Z3_mk_eq(z, zbv(e->a), zbv(e->b)); break;
      case K_ULT: r = Z3_mk_bvult(z, zbv(e->a), zbv(e->b)); break;
      case K_SLT: r = Z3_mk_bvslt(z, zbv(e->a), zbv(e->b)); break;
      // named; see zcdef and zodef
      case K_FLT: case K_FLE: case K_FEQ: case K_FISNAN: { std::string n = "c" + std::to_string(e->id); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bool_sort(z)); break; }
      case K_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(z, 2, x); break; }
      case K_OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(z, 2, x); break; }
      case K_XOR: if (isC(e->b, 1)) r = Z3_mk_not(z, zbool(e->a)); else r = Z3_mk_xor(z, zbool(e->a), zbool(e->b)); break;
      case K_ITE: r = Z3_mk_ite(z, zbool(e->a), zbool(e->b), zbool(e->d)); break;
      default: r = Z3_mk_eq(z, zbv(e), Z3_mk_unsigned_int64(z, 1, bvs(1)));
    }
    e->zbool = keep(r);
    return r;
  }
  // Floating-point comparisons are named by fresh booleans.  Their meaning is
  // given exactly by zcdef() on the bit patterns, or, in an order abstraction
  // that is much cheaper for queries that only compare, by zodef() on integers.
  static bool isCmp(EK k) { return k == K_FLT || k == K_FLE || k == K_FEQ || k == K_FISNAN; }
  Z3_ast zcdef(E e) {
    if (e->zcd) return e->zcd;
    Z3_ast r;
    switch (e->k) {
      case K_FLT: { Z3_ast x[3] = {znot(znan(e->a)), znot(znan(e->b)), zless(e->a, e->b, false)}; r = Z3_mk_and(z, 3, x); break; }
      case K_FLE: { Z3_ast x[3] = {znot(znan(e->a)), znot(znan(e->b)), zless(e->a, e->b, true)}; r = Z3_mk_and(z, 3, x); break; }
      case K_FEQ: { Z3_ast o[2] = {Z3_mk_eq(z, zbv(e->a), zbv(e->b)), zbothzero(e->a, e->b)}; Z3_ast x[3] = {znot(znan(e->a)), znot(znan(e->b)), Z3_mk_or(z, 2, o)}; r = Z3_mk_and(z, 3, x); break; }
      default: r = znan(e->a);
    }
    return e->zcd = keep(Z3_mk_iff(z, zbool(e), r));
  }
  // the position of a non-NaN double on the line of doubles (both zeros at 0)
  Z3_ast zkey(E e, std::vector<Z3_ast>& side) {
    if (e->zkey && (isC(e) || e->k == K_ITE || e->k == K_FNEG)) { if (!isC(e)) { if (e->k == K_ITE) { zkey(e->b, side); zkey(e->d, side); } else zkey(e->a, side); } return e->zkey; }
    Z3_sort is = Z3_mk_int_sort(z);
    if (isC(e)) {
      uint64_t mag = e->c & maskw(e->w - 1);
      return e->zkey = keep(Z3_mk_int64(z, mag > infBits(e->w) ? 0 : (e->c >> (e->w - 1)) & 1 ? -(int64_t)mag : (int64_t)mag, is));
    }
    if (e->k == K_ITE) return e->zkey = keep(Z3_mk_ite(z, zbool(e->a), zkey(e->b, side), zkey(e->d, side)));
    if (e->k == K_FNEG) return e->zkey = keep(Z3_mk_unary_minus(z, zkey(e->a, side)));
    if (!e->zkey) { std::string n = "k" + std::to_string(e->id); e->zkey = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), is)); }
    Z3_ast lim = Z3_mk_int64(z, (int64_t)infBits(e->w), is), nlim = Z3_mk_int64(z, -(int64_t)infBits(e->w), is);
    side.push_back(Z3_mk_le(z, e->zkey, lim)); side.push_back(Z3_mk_ge(z, e->zkey, nlim));
    return e->zkey;
  }
  Z3_ast zkn(E e) {
    if (e->zkn) return e->zkn;
    if (isC(e)) return e->zkn = keep(znan(e));
    if (e->k == K_ITE) return e->zkn = keep(Z3_mk_ite(z, zbool(e->a), zkn(e->b), zkn(e->d)));
    if (e->k == K_FNEG) return e->zkn = keep(zkn(e->a));
    if (e->k == K_UITOFP || e->k == K_SITOFP) return e->zkn = keep(Z3_mk_false(z));
    std::string n = "n" + std::to_string(e->id);
    return e->zkn = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bool_sort(z)));
  }
  Z3_ast zodef(E e, std::vector<Z3_ast>& side) {
    Z3_ast r;
    if (e->k == K_FISNAN) r = zkn(e->a);
    else {
      Z3_ast x = zkey(e->a, side), y = zkey(e->b, side);
      Z3_ast c = e->k == K_FLT ? Z3_mk_lt(z, x, y) : e->k == K_FLE ? Z3_mk_le(z, x, y) : Z3_mk_eq(z, x, y);
      Z3_ast a[3] = {znot(zkn(e->a)), znot(zkn(e->b)), c};
      r = Z3_mk_and(z, 3, a);
    }
    return Z3_mk_iff(z, zbool(e), r);
  }
  // Floating-point operations are named by fresh bit-vectors "f<id>".  Their
  // meaning is given by zdef(); cheap consequences of it by zlemmas().  A query
  // is first tried with the lemmas only (enough for most), see solver.h.
  static bool isFpOp(EK k) {
    switch (k) { case K_FADD: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FRINT: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FPEXT: case K_FPTRUNC: return true; default: return false; }
  }
  Z3_ast zfp(E e) {
    if (e->zfp) return e->zfp;
    return e->zfp = keep(Z3_mk_fpa_to_fp_bv(z, zbv(e), fps(e->w)));
  }
  Z3_ast zfpc(double d, unsigned w) { return w == 64 ? Z3_mk_fpa_numeral_double(z, d, fps(64)) : Z3_mk_fpa_numeral_float(z, (float)d, fps(32)); }
  Z3_ast zdef(E e) {
    if (e->zdef) return e->zdef;
    Z3_ast r;
    switch (e->k) {
      case K_FADD: r = Z3_mk_fpa_add(z, rne(), zfp(e->a), zfp(e->b)); break;
      case K_FMUL: r = Z3_mk_fpa_mul(z, rne(), zfp(e->a), zfp(e->b)); break;
      case K_FDIV: r = Z3_mk_fpa_div(z, rne(), zfp(e->a), zfp(e->b)); break;
      case K_FREM: r = Z3_mk_fpa_rem(z, zfp(e->a), zfp(e->b)); break;
      case K_FSQRT: r = Z3_mk_fpa_sqrt(z, rne(), zfp(e->a)); break;
      case K_FRINT: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(z) : e->aux == 1 ? Z3_mk_fpa_rtp(z) : e->aux == 2 ? Z3_mk_fpa_rtz(z) : e->aux == 3 ? Z3_mk_fpa_rna(z) : rne();
        r = Z3_mk_fpa_round_to_integral(z, m, zfp(e->a)); break; }
      case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(z, rne(), zbv(e->a), fps(e->w)); break;
      case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z, rne(), zbv(e->a), fps(e->w)); break;
      case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_fp_float(z, rne(), zfp(e->a), fps(e->w)); break;
      case K_FPTOSI: case K_FPTOUI: {
        // out of range: the value the evaluator uses (undefined behaviour in C++)
        bool sg = e->k == K_FPTOSI; unsigned fw = e->a->w;
        Z3_ast x = zfp(e->a), rtz = Z3_mk_fpa_rtz(z), t = Z3_mk_fpa_round_to_integral(z, rtz, x);
        Z3_ast lo = zfpc(sg ? -ldexp(1.0, e->w - 1) : 0.0, fw), hi = zfpc(ldexp(1.0, sg ? e->w - 1 : e->w), fw);
        Z3_ast in[2] = {Z3_mk_fpa_leq(z, lo, t), Z3_mk_fpa_lt(z, t, hi)};
        uint64_t out = sg ? 1ULL << (e->w - 1) : e->w == 64 ? 1ULL << 63 : 0;
        r = Z3_mk_ite(z, Z3_mk_and(z, 2, in), sg ? Z3_mk_fpa_to_sbv(z, rtz, x, e->w) : Z3_mk_fpa_to_ubv(z, rtz, x, e->w), zc(out, e->w));
        return e->zdef = keep(Z3_mk_eq(z, zbv(e), r)); }
      default: abort();
    }
    r = Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, r), zc(canonNaN(e->w), e->w), Z3_mk_fpa_to_ieee_bv(z, r));
    return e->zdef = keep(Z3_mk_eq(z, zbv(e), r));
  }
  Z3_ast zimp(std::vector<Z3_ast> p, Z3_ast c) { return Z3_mk_implies(z, Z3_mk_and(z, (unsigned)p.size(), p.data()), c); }
  Z3_ast zfeq(E a, E b) { Z3_ast o[2] = {Z3_mk_eq(z, zbv(a), zbv(b)), zbothzero(a, b)}; Z3_ast x[3] = {znot(znan(a)), znot(znan(b)), Z3_mk_or(z, 2, o)}; return Z3_mk_and(z, 3, x); }
  void zlemmas(const std::vector<E>& ops, std::vector<Z3_ast>& out) {
    for (E e : ops) {
      switch (e->k) {
        case K_FADD: {
          E a = e->a, b = e->b, zero = cst(0, e->w);
          Z3_ast ok = znot(znan(e));
          for (int i = 0; i < 2; i++, std::swap(a, b)) {
            out.push_back(zimp({ok, zless(zero, a, true)}, zless(b, e, true)));
            out.push_back(zimp({ok, zless(a, zero, true)}, zless(e, b, true)));
            out.push_back(zimp({znot(znan(b)), zbothzero(a, a)}, zfeq(e, b)));
            out.push_back(Z3_mk_implies(z, znan(a), znan(e)));
          }
          // only inf + -inf gives NaN
          Z3_ast fa[2] = {Z3_mk_bvult(z, zmag(a), zc(infBits(e->w), e->w)), Z3_mk_bvult(z, zmag(b), zc(infBits(e->w), e->w))};
          out.push_back(zimp({znot(znan(a)), znot(znan(b)), Z3_mk_or(z, 2, fa)}, ok));
          out.push_back(zimp({znot(znan(a)), znot(znan(b)), Z3_mk_iff(z, zneg(a), zneg(b))}, ok));
          break; }
        case K_UITOFP: out.push_back(znot(znan(e))); out.push_back(znot(zneg(e))); out.push_back(Z3_mk_iff(z, zbothzero(e, e), Z3_mk_eq(z, zbv(e->a), zc(0, e->a->w)))); break;
        case K_SITOFP: out.push_back(znot(znan(e))); break;
        default: break;
      }
    }
    if (ops.size() > 24) return;
    for (size_t i = 0; i < ops.size(); i++) for (size_t j = i + 1; j < ops.size(); j++) {
      E x = ops[i], y = ops[j];
      if (x->k != y->k || x->w != y->w || x->a->w != y->a->w || x->aux != y->aux) continue;
      auto same = [&](E a, E b) { return Z3_mk_eq(z, zbv(a), zbv(b)); };
      Z3_ast eq = same(x, y);
      if (x->b) {
        out.push_back(zimp({same(x->a, y->a), same(x->b, y->b)}, eq));
        if (x->k == K_FADD || x->k == K_FMUL) out.push_back(zimp({same(x->a, y->b), same(x->b, y->a)}, eq));
      } else out.push_back(zimp({same(x->a, y->a)}, eq));
      if (x->k == K_FADD) {
        // monotone in each operand
        E xs[2] = {x->a, x->b}, ys[2] = {y->a, y->b};
        for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) if (xs[p] == ys[q]) {
          E a = xs[1 - p], b = ys[1 - q];
          out.push_back(zimp({znot(znan(x)), znot(znan(y)), zless(a, b, true)}, zless(x, y, true)));
          out.push_back(zimp({znot(znan(x)), znot(znan(y)), zless(b, a, true)}, zless(y, x, true)));
        }
      }
      if (x->k == K_UITOFP && x->a->w == y->a->w) {
        out.push_back(Z3_mk_implies(z, Z3_mk_bvule(z, zbv(x->a), zbv(y->a)), zless(x, y, true)));
        out.push_back(Z3_mk_implies(z, Z3_mk_bvule(z, zbv(y->a), zbv(x->a)), zless(y, x, true)));
      }
    }
  }
  static uint64_t infBits(unsigned w) { return w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL; }
  Z3_ast zbv(E e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    if (isFpOp(e->k)) {
      std::string n = "f" + std::to_string(e->id);
      return e->zbv = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bvs(e->w)));
    }
    switch (e->k) {
      case K_CONST: r = Z3_mk_unsigned_int64(z, e->c, bvs(e->w)); break;
      case K_VAR: { std::string n = "v" + std::to_string(e->c); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bvs(e->w)); break; }
      case K_ADD: r = Z3_mk_bvadd(z, zbv(e->a), zbv(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(z, zbv(e->a), zbv(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(z, zbv(e->a), zbv(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(z, zbv(e->a), zbv(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(z, zbv(e->a), zbv(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(z, zbv(e->a), zbv(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(z, zbv(e->a), zbv(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(z, zbv(e->a), zbv(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(z, zbv(e->a), zbv(e->b)); break;
      case K_CONCAT: r = Z3_mk_concat(z, zbv(e->a), zbv(e->b)); break;
      case K_EXTRACT: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, zbv(e->a)); break;
      case K_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, zbv(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, zbv(e->a)); break;
      case K_FABS: r = zmag(e->a); break;
      case K_FNEG: { Z3_ast s = Z3_mk_unsigned_int64(z, 1ULL << (e->w - 1), bvs(e->w)); r = Z3_mk_bvxor(z, zbv(e->a), s); break; }
      default:
        if (e->w == 1) { r = Z3_mk_ite(z, zbool(e), Z3_mk_unsigned_int64(z, 1, bvs(1)), Z3_mk_unsigned_int64(z, 0, bvs(1))); break; }
        switch (e->k) {
          case K_AND: r = Z3_mk_bvand(z, zbv(e->a), zbv(e->b)); break;
          case K_OR: r = Z3_mk_bvor(z, zbv(e->a), zbv(e->b)); break;
          case K_XOR: r = Z3_mk_bvxor(z, zbv(e->a), zbv(e->b)); break;
          case K_ITE: r = Z3_mk_ite(z, zbool(e->a), zbv(e->b), zbv(e->d)); break;
          default: fprintf(stderr, "zbv: kind %d\n", e->k); abort();
        }
    }
    e->zbv = keep(r);
    return r;
  }
};
