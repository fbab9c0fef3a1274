// Semantics of functions the executor treats as primitive: harness API,
// memory allocation and block operations, exceptions, threads, intrinsics.
#pragma once

namespace hd {
typedef std::vector<Val> Args;
#define H(name) en.handlers[name] = [](Engine & en, State & s, const Inst& in, Args& a)
#define UNUSED (void)in, (void)a

inline uint64_t conc(Engine& en, State& s, const Val& v, unsigned w) { return v.e ? en.concretize(s, v, w) : v.c; }
inline Val K(uint64_t c) { return Val{c, nullptr}; }

inline std::string symKey(State& s, const std::string& base, bool bump) {
  std::string k = base; if (s.cur) k += "@" + std::to_string(s.cur);
  int& c = s.nameCount[k];
  std::string r = k + "#" + std::to_string(c);
  if (bump) c++;
  return r;
}
// make sure the state's model gives v a value satisfying c (v is not yet constrained)
inline void setModel(Engine& en, State& s, E v, uint64_t x) {
  auto m = std::make_shared<Model>(*s.model); m->stamp = en.X.nextStamp++;
  if (m->v.size() <= v->c) m->v.resize(v->c + 1); m->v[v->c] = x & maskw(v->w); s.model = m;
}
inline void assume(Engine& en, State& s, E c) {
  if (ExprCtx::isC(c)) { if (!c->c) { s.dead = true; en.infeasible++; } return; }
  int k = en.known(s, c); if (k == 1) return; if (k == 0) { s.dead = true; en.infeasible++; return; }
  if (en.X.eval(c, *s.model)) { en.addC(s, c); return; }
  ModelP m2; SatRes r = en.S.check(s.pc, c, s.model, &m2);
  if (r == R_SAT) { s.model = m2; en.addC(s, c); return; }
  if (r == R_UNKNOWN) en.incompleteMsg("solver gave no answer for an assumption at " + en.locOf(en.curInst(s).I) + " " + en.S.lastErr);
  else en.infeasible++;
  s.dead = true;
}
inline void check(Engine& en, State& s, E c, const std::string& kind, const std::string& msg) {
  en.asserts++;
  if (ExprCtx::isC(c)) { if (!c->c) en.fail(s, kind, msg); return; }
  en.assertsSym++;
  int k = en.known(s, c); if (k == 1) return;
  if (k == 0) { en.fail(s, kind, msg); return; }
  ModelP m2; SatRes r;
  if (!en.X.eval(c, *s.model)) { m2 = s.model; r = R_SAT; }
  else r = en.S.check(s.pc, en.X.bnot(c), s.model, &m2);
  if (r == R_SAT) { en.report(s, kind, msg, m2); assume(en, s, c); return; }
  if (r == R_UNKNOWN) en.incompleteMsg("solver gave no answer for assertion '" + msg + "' " + en.S.lastErr);
  en.addC(s, c);
}
inline void alloc(Engine& en, State& s, uint64_t n, int tag, bool zero) {
  if (n > (64u << 20)) { en.giveUp(s, "allocation of " + std::to_string(n) + " bytes"); return; }
  uint64_t p = en.newObj(s, n, O_HEAP, !zero);
  ObjData* o = en.find(s, p); o->tag = tag;
  if (en.leakCheck) o->site = en.siteOf(s);
  s.heapLive++;
  en.ret1(s, K(p));
}
inline bool release(Engine& en, State& s, uint64_t p, int tag) {
  if (!p) return true;
  ObjData* o = en.find(s, p);
  if (!o || o->kind != O_HEAP || o->base != p) { en.fail(s, "memory", "free of something that is not a heap block"); return false; }
  if (o->freed) { en.fail(s, "memory", "double free"); return false; }
  if (o->tag != tag) { en.fail(s, "memory", "allocation and deallocation functions do not match"); return false; }
  if (o->size) { en.raceAccess(s, o, 0, o->size, true, false); if (s.dead) return false; }
  en.freeObj(s, p); s.heapLive--;
  return true;
}
inline Val cmpBytes(Engine& en, State& s, uint64_t pa, uint64_t pb, uint64_t n, bool order, bool& ok) {
  ok = true; ExprCtx& X = en.X;
  if (!n) return K(0);
  uint64_t oa, ob;
  ObjData* A = en.range(s, K(pa), n, false, oa); if (!A) { ok = false; return K(0); }
  uint64_t ab = A->base;
  ObjData* B = en.range(s, K(pb), n, false, ob); if (!B) { ok = false; return K(0); }
  uint64_t bb = B->base;
  E r = nullptr;
  if (order) {
    r = X.cst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      E x = en.toE(en.rawLoad(s, en.find(s, ab), oa + i, 8), 8), y = en.toE(en.rawLoad(s, en.find(s, bb), ob + i, 8), 8);
      r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), X.cst(~0ULL, 32), X.cst(1, 32)));
    }
    return en.fromE(r);
  }
  r = X.T;
  for (uint64_t i = n; i-- > 0;) {
    E x = en.toE(en.rawLoad(s, en.find(s, ab), oa + i, 8), 8), y = en.toE(en.rawLoad(s, en.find(s, bb), ob + i, 8), 8);
    r = X.band(X.eq(x, y), r);
  }
  return en.fromE(X.zext(X.bnot(r), 32));
}
inline void fillMem(Engine& en, State& s, uint64_t p, const Val& v8, uint64_t n) {
  if (!n) return;
  uint64_t off; ObjData* o = en.range(s, K(p), n, true, off); if (!o) return;
  o = en.wr(s, o->base);
  if (!v8.e) { memset(&o->b[off], (int)v8.c, n); if (!o->st.empty()) std::fill(o->st.begin() + off, o->st.begin() + off + n, B_CONC); }
  else for (uint64_t i = 0; i < n; i++) en.rawStore(s, o, off + i, 8, v8);
}
inline void throwExc(Engine& en, State& s, uint64_t exc) { en.unwind(s, exc, s.th[s.cur].st.size()); }
inline bool lockMutex(Engine& en, State& s, uint64_t m) {
  if (!en.visible(s, P_LOCK, m)) return false;
  Val off; ObjData* o = en.resolve(s, K(m), 1, true, off); if (!o) return false;
  MutexSt& x = s.mtx[m];
  if (x.owner == s.cur) {
    Val o2; ObjData* ob = en.resolve(s, K(m), 40, false, o2); if (!ob) return false;
    Val kind = en.rawLoad(s, ob, o2.c + 16, 32);
    if (kind.e || kind.c != 1) { en.fail(s, "deadlock", "a thread locks a mutex it already holds"); return false; }
  }
  x.owner = s.cur; x.depth++;
  if (s.mt) vcJoin(s.th[s.cur].vc, x.vc);
  return true;
}
// with a trylock about, it matters for how long a mutex is held: then releasing it is a scheduling point as well
inline bool unlockMutex(Engine& en, State& s, uint64_t m, bool point = false) {
  if (point && en.hasTry && !en.visible(s, P_UNLOCK, m)) return false;
  Val off; ObjData* o = en.resolve(s, K(m), 1, true, off); if (!o) return false;
  MutexSt& x = s.mtx[m];
  if (x.owner != s.cur || x.depth <= 0) { en.fail(s, "mutex", "unlock of a mutex the thread does not hold"); return false; }
  if (--x.depth == 0) { x.owner = -1; x.vc = s.th[s.cur].vc; if (s.mt) s.th[s.cur].vc[s.cur]++; }
  return true;
}
inline int spawnThread(Engine& en, State& s, uint64_t fn, const Val& arg) {
  auto it = en.faddr.find(fn);
  if (it == en.faddr.end() || it->second->isDeclaration()) { en.giveUp(s, "thread start routine is not a defined function"); return -1; }
  if (s.th.size() >= MAXT) { en.giveUp(s, "too many threads"); return -1; }
  int parent = s.cur; int t = s.th.size();
  s.th.emplace_back();
  s.th[t].vc = s.th[parent].vc; s.th[t].vc[t] = 1; s.th[parent].vc[parent]++;
  s.mt = true; s.everThreads++;
  s.cur = t;
  en.pushFrame(s, en.fnOf(it->second), {arg}, 1);
  s.cur = parent;
  s.th[t].parked = true; s.th[t].pend = Pending{P_START, 0, 0};
  return t;
}
inline bool joinThread(Engine& en, State& s, uint64_t t) {
  if (t >= s.th.size() || t == 0) { en.fail(s, "thread", "join of an invalid thread"); return false; }
  if (!en.visible(s, P_JOIN, t)) return false;
  vcJoin(s.th[s.cur].vc, s.th[t].vc);
  return true;
}
inline unsigned widthOfArg(Engine& en, const Inst& in, unsigned i) { return en.widthOf(in.I->getOperand(i)->getType()); }
}  // namespace hd

uint32_t Engine::siteOf(State& s) {
  auto& st = s.th[s.cur].st; std::string r;
  for (size_t i = st.size(); i-- > 0;) { auto& f = st[i]; std::string l = locOf(f.pc < f.bb->insts.size() ? f.bb->insts[f.pc].I : nullptr); if (l != "?" && l.find("/usr/") == std::string::npos) { r = l; break; } }
  for (size_t i = 0; i < sites.size(); i++) if (sites[i] == r) return i;
  sites.push_back(r); return sites.size() - 1;
}

void Engine::installHandlers() {
  using namespace hd; Engine& en = *this;
  // ---------------------------------------------------------------- harness
  H("vp_sym") {
    std::string nm = en.cstr(s, a[0].c); unsigned w = (unsigned)a[1].c;
    E v = en.X.var(symKey(s, nm, true), w);
    s.syms.push_back({en.X.vars[v->c].name, w, v, 0, s.cur});
    en.ret1(s, en.fromE(w < 64 ? en.X.zext(v, 64) : v)); };
  H("vp_sym_bytes") {
    uint64_t p = conc(en, s, a[0], 64), n = conc(en, s, a[1], 64); if (s.dead) return;
    std::string nm = en.cstr(s, a[2].c);
    if (n) {
      uint64_t off; ObjData* o = en.range(s, K(p), n, true, off); if (!o) return; o = en.wr(s, o->base);
      for (uint64_t i = 0; i < n; i++) {
        E v = en.X.var(symKey(s, nm, true), 8); s.syms.push_back({en.X.vars[v->c].name, 8, v, 0, s.cur});
        en.rawStore(s, o, off + i, 8, Val{0, v});
      }
    }
    en.ret0(s); };
  H("vp_assume") { UNUSED; E c = en.X.bnot(en.X.eq(en.toE(a[0], 32), en.X.cst(0, 32))); assume(en, s, c); if (!s.dead) en.ret0(s); };
  H("vp_assert") {
    UNUSED; E c = en.X.bnot(en.X.eq(en.toE(a[0], 32), en.X.cst(0, 32)));
    check(en, s, c, "assert", en.cstr(s, a[1].c)); if (!s.dead) en.ret0(s); };
  H("vp_choose") {
    UNUSED; uint64_t n = a[0].c; std::string nm = en.cstr(s, a[1].c);
    E v = en.X.var(symKey(s, nm, false), 32); E lim = en.X.ult(v, en.X.cst(n, 32));
    if (en.known(s, lim) != 1 && !ExprCtx::isC(lim)) { if (!en.X.eval(lim, *s.model)) setModel(en, s, v, 0); en.addC(s, lim); }
    uint64_t c = en.concretize(s, Val{0, v}, 32);
    symKey(s, nm, true); s.syms.push_back({en.X.vars[v->c].name, 32, v, 0, s.cur});
    en.ret1(s, K(c)); };
  H("vp_reach") { UNUSED; s.reached.insert(en.cstr(s, a[0].c)); en.ret0(s); };
  H("vp_out") { UNUSED; s.outs.push_back({a[0].e, a[0].c, 64, s.cur}); en.ret0(s); };
  H("vp_env") { UNUSED; s.th[s.cur].env += a[0].c ? 1 : -1; en.ret0(s); };
  H("vp_xalloc") { UNUSED; uint64_t z = conc(en, s, a[0], 64); uint64_t p = en.newObj(s, z, O_HEAP, true); en.find(s, p)->tag = 9; en.ret1(s, K(p)); };
  H("vp_native") { UNUSED; en.ret1(s, K(0)); };
  H("vp_heap_live") { UNUSED; en.ret1(s, K(s.heapLive)); };
  H("vp_is_symbolic") { UNUSED; en.ret1(s, K(a[0].e ? 1 : 0)); };
  H("vp_concretize") { UNUSED; uint64_t c = conc(en, s, a[0], 64); en.ret1(s, K(c)); };
  H("vp_decide") { UNUSED; bool b = a[0].e ? en.decide(s, en.X.bnot(en.X.eq(a[0].e, en.X.cst(0, 32)))) : a[0].c != 0; en.ret1(s, K(b)); };
  H("vp_ite64") { UNUSED; E c = en.X.bnot(en.X.eq(en.toE(a[0], 32), en.X.cst(0, 32))); en.ret1(s, en.fromE(en.X.ite(c, en.toE(a[1], 64), en.toE(a[2], 64)))); };
  H("vp_print") { UNUSED; fprintf(stderr, "[%s] %s\n", en.cstr(s, a[0].c).c_str(), a[1].e ? "symbolic" : std::to_string(a[1].c).c_str()); en.ret0(s); };
  H("vp_prints") { UNUSED; std::string r; uint64_t n = conc(en, s, a[2], 64); ObjData* o = en.find(s, a[1].c); for (uint64_t i = 0; o && i < n; i++) { Val v = en.rawLoad(s, o, a[1].c - o->base + i, 8); r += v.e ? (char)en.X.eval(v.e, *s.model) : (char)v.c; } fprintf(stderr, "[%s] %s\n", en.cstr(s, a[0].c).c_str(), r.c_str()); en.ret0(s); };
  H("vp_spawn") { UNUSED; uint64_t fn = conc(en, s, a[0], 64); int t = spawnThread(en, s, fn, a[1]); if (t < 0) return; en.ret1(s, K(t)); };
  H("vp_join") { UNUSED; uint64_t t = conc(en, s, a[0], 64); if (!joinThread(en, s, t)) return; en.ret0(s); };
  H("vp_yield") { UNUSED; if (!en.visible(s, P_YIELD, 0)) return; en.ret0(s); };
  H("vp_tid") { UNUSED; en.ret1(s, K(s.cur)); };
  H("vp_clock") { UNUSED; en.ret1(s, K(s.steps)); };

  // ---------------------------------------------------------------- memory
  for (const char* n : {"malloc"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[0], 64); alloc(en, s, z, 1, false); };
  H("calloc") { UNUSED; uint64_t x = conc(en, s, a[0], 64), y = conc(en, s, a[1], 64); alloc(en, s, x * y, 1, true); };
  H("free") { UNUSED; uint64_t p = conc(en, s, a[0], 64); if (release(en, s, p, 1)) en.ret0(s); };
  H("realloc") {
    UNUSED; uint64_t p = conc(en, s, a[0], 64), z = conc(en, s, a[1], 64);
    uint64_t q = en.newObj(s, z, O_HEAP, true); en.find(s, q)->tag = 1; s.heapLive++;
    if (p) { ObjData* o = en.find(s, p); if (o && !o->freed) { uint64_t k = std::min(o->size, z); if (!en.copyMem(s, K(q), K(p), k)) return; } if (!release(en, s, p, 1)) return; }
    en.ret1(s, K(q)); };
  for (const char* n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[0], 64); alloc(en, s, z, 2, false); };
  for (const char* n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[0], 64); alloc(en, s, z, 3, false); };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n) { UNUSED; uint64_t p = conc(en, s, a[0], 64); if (release(en, s, p, 2)) en.ret0(s); };
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) H(n) { UNUSED; uint64_t p = conc(en, s, a[0], 64); if (release(en, s, p, 3)) en.ret0(s); };
  for (const char* n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[2], 64); if (!en.copyMem(s, a[0], a[1], z)) return; en.ret0(s); };
  for (const char* n : {"memcpy", "memmove"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[2], 64); if (!en.copyMem(s, a[0], a[1], z)) return; en.ret1(s, a[0]); };
  for (const char* n : {"llvm.memset", "llvm.memset.inline"}) H(n) { UNUSED; uint64_t z = conc(en, s, a[2], 64), p = conc(en, s, a[0], 64); fillMem(en, s, p, a[1], z); if (!s.dead) en.ret0(s); };
  H("memset") { UNUSED; uint64_t z = conc(en, s, a[2], 64), p = conc(en, s, a[0], 64); Val v = a[1].e ? en.fromE(en.X.extract(a[1].e, 0, 8)) : K(a[1].c & 255); fillMem(en, s, p, v, z); if (!s.dead) en.ret1(s, K(p)); };
  H("memcmp") { UNUSED; uint64_t x = conc(en, s, a[0], 64), y = conc(en, s, a[1], 64), z = conc(en, s, a[2], 64); bool ok; Val r = cmpBytes(en, s, x, y, z, true, ok); if (ok) en.ret1(s, r); };
  H("bcmp") { UNUSED; uint64_t x = conc(en, s, a[0], 64), y = conc(en, s, a[1], 64), z = conc(en, s, a[2], 64); bool ok; Val r = cmpBytes(en, s, x, y, z, false, ok); if (ok) en.ret1(s, r); };
  H("strlen") {
    UNUSED; uint64_t p = conc(en, s, a[0], 64), i = 0;
    for (;; i++) {
      uint64_t off; ObjData* o = en.range(s, K(p + i), 1, false, off); if (!o) return;
      Val v = en.rawLoad(s, o, off, 8);
      bool z = v.e ? en.decide(s, en.X.eq(v.e, en.X.cst(0, 8))) : v.c == 0;
      if (z) break;
    }
    en.ret1(s, K(i)); };
  // an arbitrary byte in a known text: one decision for "found", the position stays an expression
  static auto inKnown = [](Engine& en, State& s, uint64_t p, const std::vector<E>& t, E c) -> bool {
    for (auto& e : t) if (!ExprCtx::isC(e)) return false;
    E any = en.X.F, r = en.X.cst(0, 64);
    for (size_t i = t.size(); i-- > 0;) { E q = en.X.eq(t[i], c); any = en.X.bor(any, q); r = en.X.ite(q, en.X.cst(p + i, 64), r); }
    if (en.decide(s, any)) en.ret1(s, en.fromE(r)); else en.ret1(s, K(0));
    return true;
  };
  H("memchr") {
    UNUSED; uint64_t p = conc(en, s, a[0], 64), n = conc(en, s, a[2], 64);
    E c = a[1].e ? en.X.extract(a[1].e, 0, 8) : en.X.cst(a[1].c, 8);
    std::vector<E> t;
    if (a[1].e && n <= 256) {
      for (uint64_t i = 0; i < n; i++) { uint64_t off; ObjData* o = en.range(s, K(p + i), 1, false, off); if (!o) return; t.push_back(en.toE(en.rawLoad(s, o, off, 8), 8)); }
      if (inKnown(en, s, p, t, c)) return;
    }
    for (uint64_t i = 0; i < n; i++) {
      uint64_t off; ObjData* o = en.range(s, K(p + i), 1, false, off); if (!o) return;
      E v = en.toE(en.rawLoad(s, o, off, 8), 8);
      if (en.decide(s, en.X.eq(v, c))) { en.ret1(s, K(p + i)); return; }
    }
    en.ret1(s, K(0)); };
  H("strchr") {
    UNUSED; uint64_t p = conc(en, s, a[0], 64);
    E c = a[1].e ? en.X.extract(a[1].e, 0, 8) : en.X.cst(a[1].c, 8);
    if (a[1].e) {
      std::vector<E> t;
      for (uint64_t i = 0; i < 256; i++) {
        uint64_t off; ObjData* o = en.range(s, K(p + i), 1, false, off); if (!o) return;
        E v = en.toE(en.rawLoad(s, o, off, 8), 8); t.push_back(v);
        if (!ExprCtx::isC(v)) break;
        if (v->c == 0) { if (inKnown(en, s, p, t, c)) return; break; }
      }
    }
    for (uint64_t i = 0;; i++) {
      uint64_t off; ObjData* o = en.range(s, K(p + i), 1, false, off); if (!o) return;
      E v = en.toE(en.rawLoad(s, o, off, 8), 8);
      if (en.decide(s, en.X.eq(v, c))) { en.ret1(s, K(p + i)); return; }
      if (en.decide(s, en.X.eq(v, en.X.cst(0, 8)))) { en.ret1(s, K(0)); return; }
    } };

  // ---------------------------------------------------------------- exceptions
  H("__cxa_allocate_exception") { UNUSED; uint64_t z = conc(en, s, a[0], 64); uint64_t p = en.newObj(s, z, O_HEAP, true); en.find(s, p)->tag = 9; en.ret1(s, K(p)); };
  H("__cxa_free_exception") { UNUSED; en.ret0(s); };
  H("__cxa_init_primary_exception") { UNUSED; s.excType[a[0].c] = a[1].c; en.ret1(s, a[0]); };
  H("__cxa_throw") { UNUSED; s.excType[a[0].c] = a[1].c; throwExc(en, s, a[0].c); };
  H("__cxa_rethrow") { UNUSED; auto& c = s.th[s.cur].caught; if (c.empty()) { en.fail(s, "abort", "rethrow without exception"); return; } throwExc(en, s, c.back()); };
  H("_Unwind_Resume") { UNUSED; en.unwind(s, a[0].c, s.th[s.cur].st.size() - 1); };
  H("__cxa_begin_catch") { UNUSED; s.th[s.cur].caught.push_back(a[0].c); en.ret1(s, a[0]); };
  H("__cxa_end_catch") { UNUSED; auto& c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); en.ret0(s); };
  H("__cxa_get_exception_ptr") { UNUSED; en.ret1(s, a[0]); };
  H("llvm.eh.typeid.for") { UNUSED; en.ret1(s, K(en.tid(a[0].c))); };
  for (const char* n : {"_ZSt9terminatev", "abort", "__assert_fail", "__cxa_pure_virtual", "__cxa_call_unexpected", "exit", "_exit", "llvm.trap", "llvm.ubsantrap", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"})
    H(n) { UNUSED; en.fail(s, "abort", "the program is terminated (" + in.hname + ")"); };
  for (const char* n : {"_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}) H(n) { UNUSED; en.ret1(s, K(0)); };
  H("_ZSt17current_exceptionv") {
    UNUSED; auto& c = s.th[s.cur].caught; Val v = K(c.empty() ? 0 : c.back());
    std::vector<std::pair<unsigned, unsigned>> fl{{0, 64}}; if (!en.storeMem(s, a[0], fl, 8, &v)) return; en.ret0(s); };
  H("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") {
    UNUSED; Val v; std::vector<std::pair<unsigned, unsigned>> fl{{0, 64}}; if (!en.loadMem(s, a[0], fl, 8, &v)) return; throwExc(en, s, v.c); };
  for (const char* n : {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"}) H(n) { UNUSED; en.ret0(s); };
  for (const char* n : {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}) H(n) { UNUSED; if (!en.copyMem(s, a[0], a[1], 8)) return; en.ret0(s); };
  for (const char* n : {"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}) H(n) { UNUSED; std::vector<std::pair<unsigned, unsigned>> fl{{0, 64}}; if (!en.storeMem(s, a[0], fl, 8, &a[1])) return; en.ret0(s); };
  H("_ZNSt15__exception_ptr13exception_ptraSERKS0_") { UNUSED; if (!en.copyMem(s, a[0], a[1], 8)) return; en.ret1(s, a[0]); };

  // ---------------------------------------------------------------- threads
  H("pthread_mutex_lock") { UNUSED; uint64_t m = conc(en, s, a[0], 64); if (lockMutex(en, s, m)) en.ret1(s, K(0)); };
  H("pthread_mutex_unlock") { UNUSED; uint64_t m = conc(en, s, a[0], 64); if (unlockMutex(en, s, m, true)) en.ret1(s, K(0)); };
  H("pthread_mutex_trylock") {
    UNUSED; uint64_t m = conc(en, s, a[0], 64); if (!en.visible(s, P_TRYLOCK, m)) return;
    auto& x = s.mtx[m]; if (x.owner >= 0) { en.ret1(s, K(16)); return; }
    x.owner = s.cur; x.depth = 1; if (s.mt) vcJoin(s.th[s.cur].vc, x.vc); en.ret1(s, K(0)); };
  for (const char* n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy"}) H(n) { UNUSED; en.ret1(s, K(0)); };
  // reader/writer locks are treated as exclusive (sound for exclusion, may serialise readers)
  for (const char* n : {"pthread_rwlock_rdlock", "pthread_rwlock_wrlock"}) H(n) { UNUSED; uint64_t m = conc(en, s, a[0], 64); if (lockMutex(en, s, m)) en.ret1(s, K(0)); };
  H("pthread_rwlock_unlock") { UNUSED; uint64_t m = conc(en, s, a[0], 64); if (unlockMutex(en, s, m)) en.ret1(s, K(0)); };
  H("pthread_self") { UNUSED; en.ret1(s, K(s.cur + 1)); };
  H("sched_yield") { UNUSED; if (!en.visible(s, P_YIELD, 0)) return; en.ret1(s, K(0)); };
  H("pthread_once") {   // 0 not run, 1 running, 2 done
    UNUSED; uint64_t o = conc(en, s, a[0], 64), fn = conc(en, s, a[1], 64);
    Val off; ObjData* ob = en.resolve(s, K(o), 4, true, off); if (!ob) return;
    Val v = en.rawLoad(s, ob, off.c, 32);
    auto& th = s.th[s.cur]; bool g = th.granted; if (g) { th.granted = false; th.parked = false; th.pend = Pending{}; }
    if (v.c == 0) {
      if (!g && !en.visible(s, P_ATOMIC_W, o)) return;
      ob = en.wr(s, ob->base); en.rawStore(s, ob, off.c, 32, K(1)); s.onceOwner[o] = s.cur;
      auto it = en.faddr.find(fn); if (it == en.faddr.end()) { en.fail(s, "memory", "pthread_once: bad function"); return; }
      Inst tmp; en.bindCallee(tmp, it->second);
      if (!tmp.callee) { en.giveUp(s, "pthread_once: unmodelled function"); return; }
      en.pushFrame(s, tmp.callee, {}, 0); s.th[s.cur].st.back().rerun = true; return;   // then this call runs again
    }
    if (v.c == 1 && s.onceOwner[o] == s.cur) {
      ob = en.wr(s, ob->base); en.rawStore(s, ob, off.c, 32, K(2));
      if (s.mt) { s.relvc[o] = s.th[s.cur].vc; s.th[s.cur].vc[s.cur]++; }
      en.ret1(s, K(0)); return;
    }
    if (v.c == 1) { if (!en.visible(s, P_WAIT, o, 1)) return; }
    if (s.mt) { auto it = s.relvc.find(o); if (it != s.relvc.end()) vcJoin(s.th[s.cur].vc, it->second); }
    en.ret1(s, K(0)); };
  H("__cxa_guard_acquire") {
    UNUSED; uint64_t g = conc(en, s, a[0], 64); if (!lockMutex(en, s, g)) return;
    Val off; ObjData* o = en.resolve(s, K(g), 8, true, off); if (!o) return;
    Val v = en.rawLoad(s, o, off.c, 8);
    if (v.c) { unlockMutex(en, s, g); en.ret1(s, K(0)); } else en.ret1(s, K(1)); };
  H("__cxa_guard_release") {
    UNUSED; uint64_t g = a[0].c; Val off; ObjData* o = en.resolve(s, K(g), 8, true, off); if (!o) return;
    en.raceAccess(s, o, off.c, 1, true, true); if (s.dead) return;
    o = en.wr(s, g); en.rawStore(s, o, off.c, 8, K(1)); s.relvc[g] = s.th[s.cur].vc; unlockMutex(en, s, g); en.ret0(s); };
  H("__cxa_guard_abort") { UNUSED; unlockMutex(en, s, a[0].c); en.ret0(s); };
  for (const char* n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) H(n) { UNUSED; en.ret1(s, K(0)); };
  H("llvm.threadlocal.address") { UNUSED; GlobalVariable* G = en.gvAt(a[0].c); if (!G) { en.giveUp(s, "thread local"); return; } en.ret1(s, K(en.addrOfTLS(s, G))); };
  H("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE") {
    UNUSED; uint64_t p = conc(en, s, a[1], 64), v = conc(en, s, a[2], 32); Val off; if (!en.resolve(s, K(p), 4, false, off)) return;
    if (!en.visible(s, P_WAIT, p, v)) return; en.ret1(s, K(1)); };
  H("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj") { UNUSED; en.ret0(s); };
  // condition variables: pthread level and libstdc++ level
  H("pthread_cond_init") { UNUSED; en.ret1(s, K(0)); };
  H("pthread_cond_destroy") { UNUSED; en.ret1(s, K(0)); };
  for (const char* n : {"pthread_cond_signal", "pthread_cond_broadcast"}) H(n) { UNUSED; uint64_t c = conc(en, s, a[0], 64); s.condSeq[c]++; en.ret1(s, K(0)); };
  H("pthread_cond_wait") {
    UNUSED; uint64_t c = conc(en, s, a[0], 64), m = conc(en, s, a[1], 64); auto& t = s.th[s.cur];
    // three phases: release and park on the generation; then re-acquire
    if (t.cvPhase == 0) { if (!unlockMutex(en, s, m)) return; t.cvPhase = 1; t.cvVal = s.condSeq[c]; }
    if (t.cvPhase == 1) { if (!en.visible(s, P_CVWAIT, c, t.cvVal)) return; s.th[s.cur].cvPhase = 2; }
    if (!lockMutex(en, s, m)) return; s.th[s.cur].cvPhase = 0; en.ret1(s, K(0)); };

  // ---------------------------------------------------------------- varargs
  H("llvm.va_start") {
    UNUSED; Frame& f = s.th[s.cur].st.back(); std::vector<Val> va = f.varargs;
    uint64_t area = en.newObj(s, va.size() * 8 + 8, O_STACK, false); s.th[s.cur].st.back().allocas.push_back((uint32_t)Engine::idOf(area));
    ObjData* o = en.wr(s, area);
    for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.e && v.e->w < 64) v.e = en.X.zext(v.e, 64); en.rawStore(s, o, 8 * i, 64, v); }
    uint64_t off; ObjData* l = en.range(s, a[0], 24, true, off); if (!l) return; l = en.wr(s, l->base);
    en.rawStore(s, l, off, 32, K(48)); en.rawStore(s, l, off + 4, 32, K(304)); en.rawStore(s, l, off + 8, 64, K(area)); en.rawStore(s, l, off + 16, 64, K(0));
    en.ret0(s); };
  H("llvm.va_end") { UNUSED; en.ret0(s); };
  H("llvm.va_copy") { UNUSED; if (!en.copyMem(s, a[0], a[1], 24)) return; en.ret0(s); };

  // ---------------------------------------------------------------- intrinsics
#define MINMAX(nm, CP) H(nm) { for (unsigned k = 0; k < in.n; k++) {} std::vector<Val> r(in.n); for (unsigned k = 0; k < in.n; k++) { E x = en.toE(a[k], in.w), y = en.toE(a[in.n + k], in.w); r[k] = en.fromE(en.X.ite(en.icmpE(CmpInst::CP, x, y), x, y)); } en.retTo(s, r.data(), r.size()); };
  MINMAX("llvm.umin", ICMP_ULT) MINMAX("llvm.umax", ICMP_UGT) MINMAX("llvm.smin", ICMP_SLT) MINMAX("llvm.smax", ICMP_SGT)
  H("llvm.abs") { E x = en.toE(a[0], in.w); en.ret1(s, en.fromE(en.X.ite(en.X.slt(x, en.X.cst(0, in.w)), en.X.neg(x), x))); };
  H("llvm.ctpop") { E x = en.toE(a[0], in.w), r = en.X.cst(0, in.w); for (unsigned i = 0; i < in.w; i++) r = en.X.add(r, in.w > 1 ? en.X.zext(en.X.extract(x, i, 1), in.w) : x); en.ret1(s, en.fromE(r)); };
  H("llvm.ctlz") { E x = en.toE(a[0], in.w), r = en.X.cst(in.w, in.w); for (unsigned i = 0; i < in.w; i++) r = en.X.ite(en.X.extract(x, i, 1), en.X.cst(in.w - 1 - i, in.w), r); en.ret1(s, en.fromE(r)); };
  H("llvm.cttz") { E x = en.toE(a[0], in.w), r = en.X.cst(in.w, in.w); for (unsigned i = in.w; i-- > 0;) r = en.X.ite(en.X.extract(x, i, 1), en.X.cst(i, in.w), r); en.ret1(s, en.fromE(r)); };
  H("llvm.bswap") { E x = en.toE(a[0], in.w), r = en.X.extract(x, 0, 8); for (unsigned i = 8; i < in.w; i += 8) r = en.X.concat(r, en.X.extract(x, i, 8)); en.ret1(s, en.fromE(r)); };
  H("llvm.bitreverse") { E x = en.toE(a[0], in.w), r = en.X.extract(x, 0, 1); for (unsigned i = 1; i < in.w; i++) r = en.X.concat(r, en.X.extract(x, i, 1)); en.ret1(s, en.fromE(r)); };
  H("llvm.fshl") {
    unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w);
    uint64_t k = conc(en, s, a[2], w) % w; en.ret1(s, en.fromE(k == 0 ? x : en.X.concat(en.X.extract(x, 0, w - k), en.X.extract(y, w - k, k)))); };
  H("llvm.fshr") {
    unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w);
    uint64_t k = conc(en, s, a[2], w) % w; en.ret1(s, en.fromE(k == 0 ? y : en.X.concat(en.X.extract(x, 0, k), en.X.extract(y, k, w - k)))); };
#define OVF(nm, RES, OV) H(nm) { unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w); ExprCtx& X = en.X; E r = RES; E o = OV; Val v[2] = {en.fromE(r), en.fromE(o)}; (void)X; en.retTo(s, v, 2); };
#define SGN(e) X.extract(e, w - 1, 1)
  OVF("llvm.uadd.with.overflow", X.add(x, y), X.ult(r, x))
  OVF("llvm.usub.with.overflow", X.sub(x, y), X.ult(x, y))
  OVF("llvm.sadd.with.overflow", X.add(x, y), X.band(X.eq(SGN(x), SGN(y)), X.bnot(X.eq(SGN(x), SGN(r)))))
  OVF("llvm.ssub.with.overflow", X.sub(x, y), X.band(X.bnot(X.eq(SGN(x), SGN(y))), X.bnot(X.eq(SGN(x), SGN(r)))))
  H("llvm.umul.with.overflow") {
    unsigned w = in.w; ExprCtx& X = en.X; Val v[2];
    if (a[1].e && !a[0].e) std::swap(a[0], a[1]);
    E x = en.toE(a[0], w), y = en.toE(a[1], w); v[0] = en.fromE(X.mul(x, y));
    if (!a[1].e) v[1] = a[1].c == 0 ? K(0) : en.fromE(X.ult(X.cst(maskw(w) / a[1].c, w), x));
    else if (w <= 32) v[1] = en.fromE(X.bnot(X.eq(X.extract(X.mul(X.zext(x, 2 * w), X.zext(y, 2 * w)), w, w), X.cst(0, w))));
    else { en.giveUp(s, "umul.with.overflow on two symbolic 64-bit values"); return; }
    en.retTo(s, v, 2); };
  H("llvm.smul.with.overflow") {
    unsigned w = in.w; ExprCtx& X = en.X; Val v[2];
    if (!a[0].e && !a[1].e) { __int128 p = (__int128)sextw(a[0].c, w) * sextw(a[1].c, w); v[0] = K((uint64_t)p & maskw(w)); v[1] = K(p != (__int128)sextw((uint64_t)p & maskw(w), w)); }
    else if (w <= 32) { E p = X.mul(X.sext(en.toE(a[0], w), 2 * w), X.sext(en.toE(a[1], w), 2 * w)); E lo = X.extract(p, 0, w); v[0] = en.fromE(lo); v[1] = en.fromE(X.bnot(X.eq(X.sext(lo, 2 * w), p))); }
    else {
      if (a[1].e && !a[0].e) std::swap(a[0], a[1]);
      if (a[1].e || a[1].c == 0 || sextw(a[1].c, w) < 0) { en.giveUp(s, "smul.with.overflow on two symbolic 64-bit values"); return; }
      int64_t k = sextw(a[1].c, w); E x = en.toE(a[0], w); v[0] = en.fromE(X.mul(x, X.cst(k, w)));
      int64_t mx = INT64_MAX / k, mn = INT64_MIN / k; v[1] = en.fromE(X.bor(X.slt(X.cst(mx, w), x), X.slt(x, X.cst(mn, w))));
    }
    en.retTo(s, v, 2); };
  H("llvm.usub.sat") { unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w); en.ret1(s, en.fromE(en.X.ite(en.X.ult(x, y), en.X.cst(0, w), en.X.sub(x, y)))); };
  H("llvm.uadd.sat") { unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w), r = en.X.add(x, y); en.ret1(s, en.fromE(en.X.ite(en.X.ult(r, x), en.X.cst(~0ULL, w), r))); };
  // rounding modes as in expr.h: 0 floor, 1 ceil, 2 trunc, 3 round (away), 4 nearest-even
  for (const char* n : {"llvm.floor", "floor", "floorf"}) H(n) { en.ret1(s, en.fromE(en.X.frint(en.toE(a[0], in.w), 0))); };
  for (const char* n : {"llvm.ceil", "ceil", "ceilf"}) H(n) { en.ret1(s, en.fromE(en.X.frint(en.toE(a[0], in.w), 1))); };
  for (const char* n : {"llvm.trunc", "trunc", "truncf"}) H(n) { en.ret1(s, en.fromE(en.X.frint(en.toE(a[0], in.w), 2))); };
  for (const char* n : {"llvm.rint", "llvm.nearbyint", "rint", "nearbyint", "llvm.roundeven"}) H(n) { en.ret1(s, en.fromE(en.X.frint(en.toE(a[0], in.w), 4))); };
  for (const char* n : {"llvm.round", "round", "roundf"}) H(n) { en.ret1(s, en.fromE(en.X.frint(en.toE(a[0], in.w), 3))); };
  for (const char* n : {"llvm.fabs", "fabs", "fabsf"}) H(n) { en.ret1(s, en.fromE(en.X.fabs_(en.toE(a[0], in.w)))); };
  for (const char* n : {"llvm.sqrt", "sqrt"}) H(n) { en.ret1(s, en.fromE(en.X.fsqrt(en.toE(a[0], in.w)))); };
  for (const char* n : {"llvm.maxnum", "fmax"}) H(n) { E x = en.toE(a[0], in.w), y = en.toE(a[1], in.w); en.ret1(s, en.fromE(en.X.ite(en.X.fisnan(y), x, en.X.ite(en.X.fbin(K_FLT, x, y), y, en.X.ite(en.X.fisnan(x), y, x))))); };
  for (const char* n : {"llvm.minnum", "fmin"}) H(n) { E x = en.toE(a[0], in.w), y = en.toE(a[1], in.w); en.ret1(s, en.fromE(en.X.ite(en.X.fisnan(y), x, en.X.ite(en.X.fbin(K_FLT, y, x), y, en.X.ite(en.X.fisnan(x), y, x))))); };
  H("llvm.copysign") { unsigned w = in.w; E x = en.toE(a[0], w), y = en.toE(a[1], w); en.ret1(s, en.fromE(en.X.concat(en.X.extract(y, w - 1, 1), en.X.extract(x, 0, w - 1)))); };
  H("llvm.fmuladd") { unsigned w = in.w; Val p = en.binop(s, Instruction::FMul, a[0], a[1], w); en.ret1(s, en.binop(s, Instruction::FAdd, p, a[2], w)); };
  H("llvm.is.fpclass") {
    ExprCtx& X = en.X; unsigned w = widthOfArg(en, in, 0); uint64_t mask = a[1].c; E x = en.toE(a[0], w);
    unsigned mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8; E man = X.extract(x, 0, mb), ex = X.extract(x, mb, eb), sg = X.extract(x, w - 1, 1);
    E emax = X.eq(ex, X.cst(maskw(eb), eb)), e0 = X.eq(ex, X.cst(0, eb)), m0 = X.eq(man, X.cst(0, mb)), q = X.extract(man, mb - 1, 1), r = X.F;
    auto add = [&](uint64_t bit, E c) { if (mask & bit) r = X.bor(r, c); };
    if ((mask & 3) == 3) r = X.fisnan(x); else { add(1, X.band(emax, X.band(X.bnot(m0), X.bnot(q)))); add(2, X.band(emax, X.band(X.bnot(m0), q))); }
    E neg = sg, pos = X.bnot(sg), fin = X.band(X.bnot(emax), X.bnot(e0));
    add(4, X.band(neg, X.band(emax, m0))); add(8, X.band(neg, fin)); add(16, X.band(neg, X.band(e0, X.bnot(m0)))); add(32, X.band(neg, X.band(e0, m0)));
    add(64, X.band(pos, X.band(e0, m0))); add(128, X.band(pos, X.band(e0, X.bnot(m0)))); add(256, X.band(pos, fin)); add(512, X.band(pos, X.band(emax, m0)));
    en.ret1(s, en.fromE(r)); };
  for (const char* n : {"llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.annotation", "llvm.ptr.annotation"}) H(n) { UNUSED; en.ret1(s, a[0]); };
  H("llvm.is.constant") { UNUSED; en.ret1(s, K(0)); };
  H("llvm.objectsize") { UNUSED; en.ret1(s, K(a[1].c ? 0 : ~0ULL)); };
  H("llvm.stacksave") { UNUSED; en.ret1(s, K(0)); };
  H("llvm.stackrestore") { UNUSED; en.ret0(s); };
  H("llvm.prefetch") { UNUSED; en.ret0(s); };
  // libm on known arguments only (the C library's own results)
#define LIBM1(nm) for (const char* n : {#nm, "llvm." #nm}) H(n) { if (a[0].e || in.w != 64) { en.giveUp(s, #nm " of an unknown value"); return; } double d; std::memcpy(&d, &a[0].c, 8); d = std::nm(d); uint64_t c; std::memcpy(&c, &d, 8); en.ret1(s, K(c)); };
  LIBM1(log) LIBM1(log2) LIBM1(log10) LIBM1(exp) LIBM1(exp2)
#undef LIBM1
  for (const char* n : {"pow", "llvm.pow"}) H(n) { if (a[0].e || a[1].e || in.w != 64) { en.giveUp(s, "pow of an unknown value"); return; } double x, y; std::memcpy(&x, &a[0].c, 8); std::memcpy(&y, &a[1].c, 8); x = std::pow(x, y); uint64_t c; std::memcpy(&c, &x, 8); en.ret1(s, K(c)); };
  for (const char* n : {"ldexp", "scalbn", "llvm.ldexp"}) H(n) { if (a[0].e || a[1].e || in.w != 64) { en.giveUp(s, "ldexp of an unknown value"); return; } double x; std::memcpy(&x, &a[0].c, 8); x = std::ldexp(x, (int)a[1].c); uint64_t c; std::memcpy(&c, &x, 8); en.ret1(s, K(c)); };
  H("fmod") { en.ret1(s, en.binop(s, Instruction::FRem, a[0], a[1], in.w)); };
#define VRED(nm, OP) H(nm) { unsigned w = in.w; Val r = a[0]; for (size_t k = 1; k < a.size(); k++) r = OP; en.ret1(s, r); };
  VRED("llvm.vector.reduce.add", en.binop(s, Instruction::Add, r, a[k], w))
  VRED("llvm.vector.reduce.or", en.binop(s, Instruction::Or, r, a[k], w))
  VRED("llvm.vector.reduce.and", en.binop(s, Instruction::And, r, a[k], w))
  VRED("llvm.vector.reduce.xor", en.binop(s, Instruction::Xor, r, a[k], w))
#undef VRED
#undef OVF
#undef SGN
#undef MINMAX
}
