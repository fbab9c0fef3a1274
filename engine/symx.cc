// symx: symbolic executor for LLVM 18 IR.  See /verif/DESIGN.md.
#include "state.h"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <random>

using namespace llvm;

struct Violation {
  std::string kind, msg, loc, trace; bool witnessed;
  std::vector<SymLog> syms; ModelP m; std::vector<int> sched;
};
struct Sample { std::vector<SymLog> syms; std::vector<OutLog> outs; ModelP m; std::vector<int> sched; };

struct Engine {
  LLVMContext& C; Module& M; const DataLayout& DL;
  ExprCtx X; Solver S;
  std::map<Function*, std::unique_ptr<Fn>> fns;
  std::map<uint64_t, Function*> faddr;
  bool hasTry = false;   // the program uses trylock
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::vector<std::unique_ptr<State>> work;
  State* cs = nullptr;
  // limits
  double tEnd = 1e18, t0; uint64_t maxSteps = 60000000, maxPaths = ~0ULL; int maxViol = 3; unsigned nsamples = 8; uint64_t seed = 1; int maxPreempt = 1 << 30;
  int maxThreadsSeen = 1; bool leakCheck = false; uint64_t maxEnum = 4096;
  // results
  std::vector<Violation> viol; std::set<std::string> violKeys;
  uint64_t paths = 0, infeasible = 0, pruned = 0, instrs = 0, forks = 0, schedPoints = 0, asserts = 0, assertsSym = 0, races = 0, undefReads = 0;
  std::map<std::string, uint64_t> reach;
  std::vector<std::string> incomplete; std::set<std::string> usedFns;
  std::vector<Sample> samples; uint64_t sampleSeen = 0; std::mt19937_64 rng;
  std::map<uint64_t, uint32_t> typeId; uint32_t nextTypeId = 1;
  std::map<std::string, Handler> handlers;
  std::unique_ptr<State> baseState;
  uint32_t undefCount = 0;

  Engine(LLVMContext& c, Module& m) : C(c), M(m), DL(m.getDataLayout()), S(X) { X.init(); Z3_set_error_handler(X.z, [](Z3_context, Z3_error_code) {}); t0 = nowS(); installHandlers(); }
  void installHandlers();
  std::vector<std::string> sites; uint32_t siteOf(State& s);

  // ------------------------------------------------------------------ misc
  std::string locOf(const Instruction* I) {
    if (!I) return "?";
    if (const DebugLoc& d = I->getDebugLoc()) {
      auto* sc = cast<DIScope>(d.getScope());
      return (sc->getFilename() + ":" + Twine(d.getLine())).str();
    }
    return "?";
  }
  std::string trace(State& s) {
    std::string r;
    auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0 && r.size() < 3000;) {
      auto& f = st[i];
      const Instruction* I = f.pc < f.bb->insts.size() ? f.bb->insts[f.pc].I : nullptr;
      r += demangle(f.fn->F->getName().str()).substr(0, 120) + " (" + locOf(I) + ")\n";
    }
    return r;
  }
  void incompleteMsg(const std::string& m) {
    for (auto& x : incomplete) if (x == m) return;
    if (incomplete.size() < 20) incomplete.push_back(m);
  }
  void giveUp(State& s, const std::string& why) { incompleteMsg(why + " [" + (s.th[s.cur].st.empty() ? "" : trace(s).substr(0, 400)) + "]"); s.dead = true; }
  const Inst& curInst(State& s) { auto& f = s.th[s.cur].st.back(); return f.bb->insts[f.pc]; }
  void report(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
    Violation v; v.kind = kind; v.msg = msg; v.m = m; v.syms = s.syms; v.sched = s.sched; v.witnessed = true;
    auto& st = s.th[s.cur].st;
    v.loc = "?"; 
    for (size_t i = st.size(); i-- > 0;) { auto& f = st[i]; std::string l = locOf(f.pc < f.bb->insts.size() ? f.bb->insts[f.pc].I : nullptr); if (l != "?" && l.find("/usr/") == std::string::npos) { v.loc = l; break; } }
    v.trace = trace(s);
    std::string key = kind + "|" + msg + "|" + v.loc;
    if (violKeys.insert(key).second) viol.push_back(v);
    tEnd = std::min(tEnd, nowS() + 100);   // look only a little further after the first one
  }
  void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); s.dead = true; }

  // ------------------------------------------------------------------ values
  E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
  Val fromE(E e) { Val v; if (e->k == K_CONST) v.c = e->c; else v.e = e; return v; }

  // fork helpers -----------------------------------------------------------
  void addC(State& s, E c) {
    if (ExprCtx::isC(c)) return;
    if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    s.pc.push_back(c);
  }
  State* cloneOf(State& s) { auto n = std::make_unique<State>(s); n->forks++; forks++; State* p = n.get(); work.push_back(std::move(n)); return p; }
  int known(State& s, E c) {
    E nc = X.bnot(c);
    for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == nc) return 0; }
    return -1;
  }
  // Decide a symbolic condition in s; if both outcomes are possible the other
  // one is queued as a state that re-executes the current instruction.
  bool forkCmp = false;   // fork on floating-point comparisons instead of merging
  bool decide(State& s, E c) {
    if (ExprCtx::isC(c)) return c->c;
    int k = known(s, c); if (k >= 0) return k;
    bool b = X.eval(c, *s.model);
    E other = b ? X.bnot(c) : c;
    ModelP m2;
    SatRes r = S.check(s.pc, other, s.model, &m2);
    if (r == R_UNKNOWN) { incompleteMsg("solver gave no answer at " + locOf(curInst(s).I) + " " + S.lastErr); r = R_UNSAT; }
    if (r == R_SAT) {
      State* n = cloneOf(s);
      n->model = m2; addC(*n, other);
      addC(s, b ? c : X.bnot(c));
    } 
    return b;
  }
  uint64_t concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t x = X.eval(v.e, *s.model);
    E eq = X.eq(v.e, X.cst(x, w));
    if (ExprCtx::isC(eq)) return x;
    decide(s, eq);
    return x;
  }

  // ------------------------------------------------------------------ memory
  static uint64_t idOf(uint64_t a) { return a >> 20; }
  uint64_t newObj(State& s, uint64_t size, ObjKind k, bool undef) {
    uint64_t id = s.nextId; s.nextId += 1 + (size >> 20) + ((size & 0xfffff) ? 0 : 0);
    auto* o = new ObjData(); o->base = id << 20; o->size = size; o->kind = k;
    o->b.assign(size, 0); if (undef) o->st.assign(size, B_UNDEF);
    uint64_t pg = id >> 8; if (s.pages.size() <= pg) s.pages.resize(pg + 1);
    if (!s.pages[pg]) s.pages[pg] = Ref<Page>(new Page());
    if (s.pages[pg].p->rc > 1) s.pages[pg] = Ref<Page>(new Page(*s.pages[pg].p));
    s.pages[pg]->o[id & 255] = Ref<ObjData>(o);
    return o->base;
  }
  ObjData* find(State& s, uint64_t addr) {
    uint64_t id = idOf(addr);
    for (int back = 0; back < 64 && id > 0; back++, id--) {
      uint64_t pg = id >> 8; if (pg >= s.pages.size()) return nullptr;
      if (s.pages[pg]) { ObjData* o = s.pages[pg]->o[id & 255].p; if (o) { if (back == 0 || addr < o->base + o->size) return o; return nullptr; } }
      if (id >= s.nextId) return nullptr;
    }
    return nullptr;
  }
  ObjData* wr(State& s, uint64_t base) {
    uint64_t id = idOf(base), pg = id >> 8;
    if (s.pages[pg].p->rc > 1) s.pages[pg] = Ref<Page>(new Page(*s.pages[pg].p));
    auto& r = s.pages[pg]->o[id & 255];
    if (r.p->rc > 1) { auto* n = new ObjData(*r.p); n->rc = 0; r = Ref<ObjData>(n); }
    return r.p;
  }
  void freeObj(State& s, uint64_t base) {
    uint64_t id = idOf(base), pg = id >> 8;
    ObjData* o = wr(s, base);
    o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->sym.clear(); o->sh.clear(); o->sh.shrink_to_fit();
    if (o->kind == O_STACK) { s.pages[pg]->o[id & 255] = Ref<ObjData>(); }
  }
  static void ensureSt(ObjData* o) { if (o->st.empty()) o->st.assign(o->size, B_CONC); }
  static void ensureSym(ObjData* o) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); }

  E byteE(State& s, ObjData*& o, uint64_t off) {
    if (o->st.empty() || o->st[off] == B_CONC) return X.cst(o->b[off], 8);
    if (o->st[off] == B_UNDEF) {
      undefReads++;
      o = wr(s, o->base);
      E v = X.var("undef#" + std::to_string(undefCount++), 8);
      ensureSym(o); o->st[off] = B_SYM; o->sym[off] = v;
      return v;
    }
    return o->sym[off];
  }
  Val rawLoad(State& s, ObjData* o, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8; Val r;
    bool conc = o->st.empty();
    if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != B_CONC) { conc = false; break; } }
    if (conc) { uint64_t v = 0; memcpy(&v, &o->b[off], n); r.c = v & maskw(w); return r; }
    bool allUndef = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != B_UNDEF) allUndef = false;
    if (allUndef && n > 1) {
      undefReads++;
      o = wr(s, o->base); E v = X.var("undef#" + std::to_string(undefCount++), n * 8);
      ensureSym(o); for (unsigned i = 0; i < n; i++) { o->st[off + i] = B_SYM; o->sym[off + i] = X.extract(v, 8 * i, 8); }
    }
    E e = byteE(s, o, off + n - 1);
    for (int i = (int)n - 2; i >= 0; i--) { E lo = byteE(s, o, off + i); e = X.concat(e, lo); }
    if (w < n * 8) e = X.extract(e, 0, w);
    return fromE(e);
  }
  void rawStore(State& s, ObjData* o, uint64_t off, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8;
    if (!v.e) {
      uint64_t x = v.c; memcpy(&o->b[off], &x, n);
      if (!o->st.empty()) for (unsigned i = 0; i < n; i++) o->st[off + i] = B_CONC;
      return;
    }
    E e = v.e; if (w < n * 8) e = X.zext(e, n * 8);
    ensureSt(o); ensureSym(o);
    for (unsigned i = 0; i < n; i++) {
      E by = X.extract(e, 8 * i, 8);
      if (by->k == K_CONST) { o->b[off + i] = by->c; o->st[off + i] = B_CONC; }
      else { o->st[off + i] = B_SYM; o->sym[off + i] = by; }
    }
  }
  static unsigned tz(E e) {
    if (e->k == K_CONST) return e->c ? __builtin_ctzll(e->c) : e->w;
    switch (e->k) {
      case K_CONCAT: return e->b->k == K_CONST && e->b->c == 0 ? e->b->w + tz(e->a) : tz(e->b);
      case K_ZEXT: case K_SEXT: return tz(e->a);
      case K_ADD: return std::min(tz(e->a), tz(e->b));
      case K_MUL: return std::min<unsigned>(63, tz(e->a) + tz(e->b));
      case K_ITE: return std::min(tz(e->b), tz(e->d));
      default: return 0;
    }
  }
  // Find the object an access of n bytes at address a refers to.  May fork.
  // Returns nullptr after reporting a memory error.  off.e set if symbolic.
  ObjData* resolve(State& s, const Val& a, uint64_t n, bool write, Val& off) {
    uint64_t v = a.e ? X.eval(a.e, *s.model) : a.c;
    ObjData* o = find(s, v);
    auto bad = [&](const char* what) -> ObjData* { char b[160]; snprintf(b, sizeof b, "%s (%s of %llu bytes)", what, write ? "write" : "read", (unsigned long long)n); fail(s, "memory", b); return nullptr; };
    if (v < (1 << 20)) return bad("null pointer access");
    if (!o) return bad("wild pointer or dead stack access");
    if (o->freed) return bad("use after free");
    uint64_t d = v - o->base;
    if (n > o->size || d > o->size - n || o->kind == O_FUNC) return bad("out-of-bounds access");
    if (write && o->ro) return bad("write to constant");
    if (!a.e) { off = Val{d, nullptr}; return o; }
    E offE = X.sub(a.e, X.cst(o->base, 64));
    E inb = X.bnot(X.ult(X.cst(o->size - n, 64), offE));
    if (!decide(s, inb)) return bad("out-of-bounds access");
    off = fromE(offE);
    return o;
  }
  void raceAccess(State& s, ObjData* o, uint64_t off, uint64_t n, bool write, bool atomic) {
    if (!s.mt || o->ro || s.th[s.cur].env) return;
    int t = s.cur; VC& vc = s.th[t].vc;
    ObjData* w = wr(s, o->base);
    if (w->sh.empty()) w->sh.resize(w->size);
    for (uint64_t i = off; i < off + n; i++) {
      ByteShadow& b = w->sh[i];
      bool race = false;
      if (b.w && b.wt != t && b.w > vc[b.wt] && !(atomic && b.watomic)) race = true;
      if (write) for (int u = 0; u < MAXT; u++) if (u != t && b.r[u] > vc[u] && !(atomic && b.ratomic[u])) race = true;
      if (race) { races++; fail(s, "race", std::string("data race on ") + (write ? "write" : "read")); return; }
      if (write) { b.w = vc[t]; b.wt = t; b.watomic = atomic; }
      else { b.r[t] = vc[t]; b.ratomic[t] = atomic; }
    }
  }
  bool loadMem(State& s, const Val& addr, const std::vector<std::pair<unsigned, unsigned>>& fields, uint64_t total, Val* out, bool atomic = false) {
    Val off; ObjData* o = resolve(s, addr, total, false, off);
    if (!o) return false;
    if (off.e) {
      uint64_t span = o->size;
      unsigned step = 1u << std::min(3u, tz(off.e));
      uint64_t lo = off.e->umin, hi = std::min(off.e->umax, o->size - total);
      lo = (lo + step - 1) / step * step;
      if (span > 2048 || (hi - lo) / step > 300) { uint64_t c = concretize(s, off, 64); if (s.dead) return false; off = Val{c, nullptr}; o = find(s, o->base); }
      else {
        raceAccess(s, o, 0, o->size, false, atomic); if (s.dead) return false;
        for (size_t k = 0; k < fields.size(); k++) {
          E r = nullptr; unsigned w = fields[k].second;
          for (uint64_t p = lo; p <= hi; p += step) {
            Val v = rawLoad(s, find(s, o->base), p + fields[k].first, w);
            E ve = toE(v, w);
            r = r ? X.ite(X.eq(off.e, X.cst(p, 64)), ve, r) : ve;
          }
          out[k] = fromE(r);
        }
        return true;
      }
    }
    raceAccess(s, o, off.c, total, false, atomic); if (s.dead) return false;
    for (size_t k = 0; k < fields.size(); k++) { o = find(s, o->base); out[k] = rawLoad(s, o, off.c + fields[k].first, fields[k].second); }
    return true;
  }
  bool storeMem(State& s, const Val& addr, const std::vector<std::pair<unsigned, unsigned>>& fields, uint64_t total, const Val* in, bool atomic = false) {
    Val off; ObjData* o = resolve(s, addr, total, true, off);
    if (!o) return false;
    if (off.e) { uint64_t c = concretize(s, off, 64); off = Val{c, nullptr}; }
    raceAccess(s, o, off.c, total, true, atomic); if (s.dead) return false;
    o = wr(s, o->base);
    for (size_t k = 0; k < fields.size(); k++) rawStore(s, o, off.c + fields[k].first, fields[k].second, in[k]);
    return true;
  }
  // concrete-range access for intrinsics: address concretised, range checked
  ObjData* range(State& s, const Val& a, uint64_t n, bool write, uint64_t& off) {
    Val av = a;
    if (av.e) { uint64_t c = concretize(s, av, 64); av = Val{c, nullptr}; }
    Val o; ObjData* ob = resolve(s, av, n, write, o);
    if (!ob) return nullptr;
    off = o.c;
    raceAccess(s, ob, off, n, write, false);
    if (s.dead) return nullptr;
    return find(s, ob->base);
  }
  bool copyMem(State& s, const Val& d, const Val& sr, uint64_t n) {
    if (n == 0) return true;
    uint64_t so, dof;
    ObjData* so_ = range(s, sr, n, false, so); if (!so_) return false;
    uint64_t sb = so_->base;
    ObjData* d_ = range(s, d, n, true, dof); if (!d_) return false;
    uint64_t db = d_->base;
    ObjData* dd = wr(s, db); ObjData* ss = find(s, sb);
    std::vector<uint8_t> tb(ss->b.begin() + so, ss->b.begin() + so + n), tst; std::vector<E> ts;
    if (!ss->st.empty()) tst.assign(ss->st.begin() + so, ss->st.begin() + so + n);
    if (!ss->sym.empty()) ts.assign(ss->sym.begin() + so, ss->sym.begin() + so + n);
    memcpy(&dd->b[dof], tb.data(), n);
    if (tst.empty()) { if (!dd->st.empty()) std::fill(dd->st.begin() + dof, dd->st.begin() + dof + n, B_CONC); }
    else { ensureSt(dd); std::copy(tst.begin(), tst.end(), dd->st.begin() + dof); if (!ts.empty()) { ensureSym(dd); std::copy(ts.begin(), ts.end(), dd->sym.begin() + dof); } }
    return true;
  }
  // NUL-terminated concrete string from memory (for names given by harnesses)
  std::string cstr(State& s, uint64_t a) {
    std::string r; ObjData* o = find(s, a); if (!o) return r;
    for (uint64_t i = a - o->base; i < o->size && o->b[i]; i++) r += (char)o->b[i];
    return r;
  }

  // ------------------------------------------------------------------ types & constants
  void flat(Type* T, uint64_t off, std::vector<std::pair<unsigned, unsigned>>& out) {
    if (T->isIntegerTy()) out.push_back({(unsigned)off, T->getIntegerBitWidth()});
    else if (T->isPointerTy() || T->isDoubleTy()) out.push_back({(unsigned)off, 64});
    else if (T->isFloatTy()) out.push_back({(unsigned)off, 32});
    else if (auto* ST = dyn_cast<StructType>(T)) { auto* L = DL.getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) flat(ST->getElementType(i), off + L->getElementOffset(i), out); }
    else if (auto* AT = dyn_cast<ArrayType>(T)) { uint64_t es = DL.getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) flat(AT->getElementType(), off + i * es, out); }
    else if (auto* VT = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL.getTypeStoreSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) flat(VT->getElementType(), off + i * es, out); }
    else if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) {}
    else out.push_back({(unsigned)off, 80});  // unsupported width
  }
  unsigned nslotsOf(Type* T) { std::vector<std::pair<unsigned, unsigned>> f; flat(T, 0, f); return f.size(); }
  unsigned widthOf(Type* T) { std::vector<std::pair<unsigned, unsigned>> f; flat(T, 0, f); return f.empty() ? 0 : f[0].second; }

  uint64_t addrOfGV(const GlobalValue* G) {
    if (auto* GA = dyn_cast<GlobalAlias>(G)) return addrOfGV(cast<GlobalValue>(GA->getAliasee()->stripPointerCasts()));
    auto it = gaddr.find(G);
    if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", G->getName().str().c_str()); return 0; }
    return it->second;
  }
  uint64_t constInt(Constant* c) { std::vector<Val> v; constVal(c, v); return v.empty() ? 0 : v[0].c; }
  void constVal(Constant* c, std::vector<Val>& out) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back({ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().getLoBits(64).getZExtValue(), nullptr}); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back({cf->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue(), nullptr}); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back({0, nullptr}); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nslotsOf(c->getType()); for (unsigned i = 0; i < n; i++) out.push_back({0, nullptr}); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back({addrOfGV(g), nullptr}); return; }
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) constVal(ds->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constVal(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          uint64_t b = constInt(ce->getOperand(0));
          APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) b += off.getSExtValue(); else fprintf(stderr, "const gep?\n");
          out.push_back({b, nullptr}); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
          uint64_t v = constInt(ce->getOperand(0)); out.push_back({v & maskw(widthOf(ce->getType())), nullptr}); return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: case Instruction::Shl: {
          uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)), r = 0; unsigned w = widthOf(ce->getType());
          switch (ce->getOpcode()) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Xor: r = a ^ b; break; case Instruction::Mul: r = a * b; break; default: r = a << b; }
          out.push_back({r & maskw(w), nullptr}); return; }
        case Instruction::ICmp: {
          uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
          switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back({a == b}); return; case CmpInst::ICMP_NE: out.push_back({a != b}); return; default: break; } break; }
        default: break;
      }
      errs() << "unsupported constant expr " << *ce << "\n"; out.push_back({0, nullptr}); return;
    }
    errs() << "unsupported constant " << *c << "\n";
    unsigned n = nslotsOf(c->getType()); for (unsigned i = 0; i < n; i++) out.push_back({0, nullptr});
  }
  void writeConst(ObjData* o, uint64_t off, Constant* c) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* L = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + L->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i)); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { for (unsigned k = 0; k < ci->getBitWidth() / 64; k++) { uint64_t x = ci->getValue().extractBitsAsZExtValue(64, 64 * k); memcpy(&o->b[off + 8 * k], &x, 8); } return; }
    std::vector<Val> v; constVal(c, v);
    std::vector<std::pair<unsigned, unsigned>> f; flat(c->getType(), 0, f);
    for (size_t i = 0; i < v.size() && i < f.size(); i++) { uint64_t x = v[i].c; unsigned n = std::min(8u, (f[i].second + 7) / 8); memcpy(&o->b[off + f[i].first], &x, n); }
  }

  void layout() {
    baseState = std::make_unique<State>();
    State& s = *baseState;
    for (Function& F : M) { uint64_t a = newObj(s, 16, O_FUNC, false); gaddr[&F] = a; faddr[a] = &F; }
    for (GlobalVariable& G : M.globals()) {
      Type* T = G.getValueType(); uint64_t sz = T->isSized() ? (uint64_t)DL.getTypeAllocSize(T) : 8;
      if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
      gaddr[&G] = newObj(s, sz, G.isDeclaration() ? O_EXTERN : O_GLOBAL, false);
    }
    for (GlobalVariable& G : M.globals()) if (G.hasInitializer()) { ObjData* o = wr(s, gaddr[&G]); writeConst(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
  }
  uint64_t addrOfTLS(State& s, GlobalVariable* G) {
    auto& t = s.th[s.cur].tls; auto it = t.find(G);
    if (it != t.end()) return it->second;
    uint64_t sz = DL.getTypeAllocSize(G->getValueType());
    uint64_t a = newObj(s, sz, O_GLOBAL, false);
    if (G->hasInitializer()) writeConst(wr(s, a), 0, G->getInitializer());
    s.th[s.cur].tls[G] = a;
    return a;
  }

  // ------------------------------------------------------------------ decode
  Fn* fnOf(Function* F) {
    auto& p = fns[F];
    if (!p) { p = std::make_unique<Fn>(); p->F = F; }
    return p.get();
  }
  void decode(Fn* fn) {
    if (fn->decoded) return;
    fn->decoded = true;
    Function& F = *fn->F;
    std::map<Value*, int> slot; std::map<BasicBlock*, Blk*> bm;
    unsigned ns = 0;
    for (Argument& A : F.args()) { unsigned n = nslotsOf(A.getType()); slot[&A] = ns; fn->argslot.push_back(ns); fn->argn.push_back(n); ns += n; }
    for (BasicBlock& B : F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nslotsOf(I.getType()); }
    fn->nslots = ns;
    fn->blocks.resize(F.size());
    { size_t i = 0; for (BasicBlock& B : F) { fn->blocks[i].B = &B; fn->blocks[i].fn = fn; bm[&B] = &fn->blocks[i]; i++; } }
    auto opnd = [&](Value* v) { Opnd o; if (auto* c = dyn_cast<Constant>(v)) { constVal(c, o.k); } else if (slot.count(v)) o.slot = slot[v]; return o; };
    for (Blk& b : fn->blocks) {
      for (Instruction& I : *b.B) {
        if (auto* P = dyn_cast<PHINode>(&I)) {
          Phi p; p.dst = slot[P]; p.n = nslotsOf(P->getType());
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in.push_back({bm[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          b.phis.push_back(p); continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
          switch (II->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: continue; default: break; }
        }
        Inst in; in.op = I.getOpcode(); in.I = &I;
        if (!I.getType()->isVoidTy()) { in.dst = slot[&I]; in.n = nslotsOf(I.getType()); in.w = widthOf(I.getType()); } else in.n = 0;
        switch (I.getOpcode()) {
          case Instruction::Br: { auto* B = cast<BranchInst>(&I); in.t = bm[B->getSuccessor(0)]; if (B->isConditional()) { in.ops.push_back(opnd(B->getCondition())); in.f = bm[B->getSuccessor(1)]; } break; }
          case Instruction::Switch: { auto* W = cast<SwitchInst>(&I); in.ops.push_back(opnd(W->getCondition())); in.w2 = widthOf(W->getCondition()->getType()); in.t = bm[W->getDefaultDest()]; for (auto& cse : W->cases()) in.cases.push_back({cse.getCaseValue()->getZExtValue(), bm[cse.getCaseSuccessor()]}); break; }
          case Instruction::Load: in.ops.push_back(opnd(I.getOperand(0))); flat(I.getType(), 0, in.fields); in.w2 = DL.getTypeStoreSize(I.getType()); in.x = cast<LoadInst>(&I)->isAtomic(); in.pred = (unsigned)cast<LoadInst>(&I)->getOrdering(); break;
          case Instruction::Store: in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); flat(I.getOperand(0)->getType(), 0, in.fields); in.w2 = DL.getTypeStoreSize(I.getOperand(0)->getType()); in.x = cast<StoreInst>(&I)->isAtomic(); in.pred = (unsigned)cast<StoreInst>(&I)->getOrdering(); break;
          case Instruction::GetElementPtr: {
            auto* G = cast<GetElementPtrInst>(&I); in.ops.push_back(opnd(G->getPointerOperand()));
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
              Value* ix = it.getOperand();
              if (StructType* ST = it.getStructTypeOrNull()) { in.gepoff += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
              uint64_t sc = DL.getTypeAllocSize(it.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) in.gepoff += (uint64_t)ci->getSExtValue() * sc;
              else { GepTerm g; g.op = opnd(ix); g.scale = sc; g.w = widthOf(ix->getType()); in.gep.push_back(g); }
            }
            break; }
          case Instruction::ICmp: case Instruction::FCmp: in.pred = cast<CmpInst>(&I)->getPredicate(); in.w2 = widthOf(I.getOperand(0)->getType()); if (auto* dl = I.getDebugLoc().get()) in.x = dl->getFilename().contains("/harness/"); in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); break;
          case Instruction::ExtractValue: case Instruction::InsertValue: {
            in.ops.push_back(opnd(I.getOperand(0))); if (I.getOpcode() == Instruction::InsertValue) { in.ops.push_back(opnd(I.getOperand(1))); in.w2 = nslotsOf(I.getOperand(1)->getType()); }
            ArrayRef<unsigned> ix = I.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(&I)->getIndices() : cast<InsertValueInst>(&I)->getIndices();
            Type* T = I.getOperand(0)->getType(); int o = 0;
            for (unsigned k : ix) { if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < k; j++) o += nslotsOf(ST->getElementType(j)); T = ST->getElementType(k); } else { auto* AT = cast<ArrayType>(T); o += k * nslotsOf(AT->getElementType()); T = AT->getElementType(); } }
            in.x = o; break; }
          case Instruction::Alloca: { auto* A = cast<AllocaInst>(&I); in.ops.push_back(opnd(A->getArraySize())); in.w2 = DL.getTypeAllocSize(A->getAllocatedType()); break; }
          case Instruction::Call: case Instruction::Invoke: {
            auto* CB = cast<CallBase>(&I);
            for (Value* a : CB->args()) { if (isa<MetadataAsValue>(a)) in.ops.push_back(Opnd{-1, {Val{}}}); else in.ops.push_back(opnd(a)); }
            for (Value* a : CB->args()) in.cases.push_back({isa<MetadataAsValue>(a) ? 1 : nslotsOf(a->getType()), nullptr});
            if (auto* IV = dyn_cast<InvokeInst>(&I)) { in.t = bm[IV->getNormalDest()]; in.f = bm[IV->getUnwindDest()]; }
            Value* cv = CB->getCalledOperand()->stripPointerCasts();
            if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
            if (auto* FF = dyn_cast<Function>(cv)) bindCallee(in, FF);
            else if (isa<InlineAsm>(cv)) in.hname = "inline-asm";
            else { in.x = 1; in.ops.push_back(opnd(CB->getCalledOperand())); }
            break; }
          case Instruction::ShuffleVector: { auto* SV = cast<ShuffleVectorInst>(&I); for (int m : SV->getShuffleMask()) in.mask.push_back(m); in.x = nslotsOf(I.getOperand(0)->getType()); in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); break; }
          case Instruction::LandingPad: break;
          default:
            for (Value* o : I.operands()) if (!isa<BasicBlock>(o)) in.ops.push_back(opnd(o));
            if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) in.w2 = widthOf(I.getOperand(0)->getType());
            if (auto* X = dyn_cast<AtomicRMWInst>(&I)) in.pred = X->getOperation();
        }
        b.insts.push_back(std::move(in));
      }
    }
  }
  void bindCallee(Inst& in, Function* FF) {
    std::string n = FF->getName().str();
    auto it = handlers.find(n);
    if (it == handlers.end() && FF->isIntrinsic()) {
      // strip type suffix
      std::string m = n; 
      while (it == handlers.end()) { size_t p = m.rfind('.'); if (p == std::string::npos || p <= 4) break; m = m.substr(0, p); it = handlers.find(m); }
    }
    if (it != handlers.end()) { in.h = it->second; in.hname = n; }
    else if (!FF->isDeclaration()) in.callee = fnOf(FF);
    else in.hname = n;
  }

  // ------------------------------------------------------------------ execution
  Val get(Frame& f, const Opnd& o, unsigned k = 0) { return o.slot >= 0 ? f.regs[o.slot + k] : o.k[k]; }

  void pushFrame(State& s, Fn* fn, const std::vector<Val>& args, size_t nfixedSlots) {
    decode(fn);
    if (!fn->entered++) usedFns.insert(fn->F->getName().str());
    auto& th = s.th[s.cur];
    if (th.st.size() > 4000) { fail(s, "stack", "stack overflow (unbounded recursion)"); return; }
    th.st.emplace_back();
    Frame& f = th.st.back();
    f.fn = fn; f.bb = &fn->blocks[0]; f.pc = 0; f.regs.assign(fn->nslots, Val{});
    size_t k = 0;
    for (size_t i = 0; i < fn->argslot.size(); i++) for (unsigned j = 0; j < fn->argn[i]; j++) { if (k < args.size()) f.regs[fn->argslot[i] + j] = args[k]; k++; }
    for (; k < args.size(); k++) f.varargs.push_back(args[k]);
  }
  void popFrame(State& s) {
    auto& th = s.th[s.cur];
    for (auto id : th.st.back().allocas) freeObj(s, (uint64_t)id << 20);
    th.st.pop_back();
  }
  void jump(Frame& f, Blk* to) {
    Blk* from = f.bb;
    if (!to->phis.empty()) {
      Val tmp[64]; std::vector<Val> big; 
      size_t tot = 0; for (auto& p : to->phis) tot += p.n;
      Val* t = tmp; if (tot > 64) { big.resize(tot); t = big.data(); }
      size_t k = 0;
      for (auto& p : to->phis) { for (auto& in : p.in) if (in.first == from) { for (unsigned j = 0; j < p.n; j++) t[k + j] = get(f, in.second, j); break; } k += p.n; }
      k = 0;
      for (auto& p : to->phis) { for (unsigned j = 0; j < p.n; j++) f.regs[p.dst + j] = t[k + j]; k += p.n; }
    }
    f.bb = to; f.pc = 0;
  }
  // finish a call instruction of the current frame with result values
  void retTo(State& s, const Val* v, size_t n) {
    Frame& f = s.th[s.cur].st.back();
    const Inst& in = f.bb->insts[f.pc];
    if (in.dst >= 0) for (unsigned k = 0; k < in.n && k < n; k++) f.regs[in.dst + k] = v[k];
    if (in.op == Instruction::Invoke) jump(f, in.t); else f.pc++;
  }
  void ret1(State& s, Val v) { retTo(s, &v, 1); }
  void ret0(State& s) { retTo(s, nullptr, 0); }

  void threadExit(State& s) {
    auto& t = s.th[s.cur];
    t.done = true;
    if (s.cur == 0) { finishPath(s); return; }
    t.vc[s.cur]++;
    s.needSched = true;
  }
  void finishPath(State& s) {
    for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].done) { giveUp(s, "harness main returned while threads run"); return; }
    if (leakCheck) {
      // a block that a global variable still leads to is not leaked
      std::set<ObjData*> held; std::vector<ObjData*> todo;
      auto scan = [&](ObjData* o) {
        for (uint64_t k = 0; k + 8 <= o->size; k += 8) {
          uint64_t v; memcpy(&v, &o->b[k], 8);
          if (v < (1 << 20)) continue;
          if (!o->st.empty()) { bool conc = true; for (int q = 0; q < 8; q++) conc &= o->st[k + q] == B_CONC; if (!conc) continue; }
          ObjData* t = find(s, v);
          if (t && t->kind == O_HEAP && !t->freed && held.insert(t).second) todo.push_back(t);
        } };
      bool any = false;
      for (auto& pg : s.pages) if (pg) for (auto& o : pg->o) if (o && o->kind == O_HEAP && !o->freed && o->tag != 9) any = true;
      if (any) {
        for (auto& pg : s.pages) if (pg) for (auto& o : pg->o) if (o && o->kind == O_GLOBAL && !o->ro) scan(o.p);
        while (!todo.empty()) { ObjData* o = todo.back(); todo.pop_back(); scan(o); }
      }
      for (auto& pg : s.pages) if (pg) for (auto& o : pg->o) if (o && o->kind == O_HEAP && !o->freed && o->tag != 9 && !held.count(o.p)) { fail(s, "leak", "heap block of " + std::to_string(o->size) + " bytes never freed, allocated at " + (o->site < sites.size() ? sites[o->site] : std::string("?"))); return; }
    }
    paths++; s.dead = true;
    for (auto& r : s.reached) reach[r]++;
    sampleSeen++;
    Sample sm{s.syms, s.outs, s.model, s.sched};
    if (samples.size() < nsamples) samples.push_back(sm);
    else { uint64_t j = rng() % sampleSeen; if (j < nsamples) samples[j] = sm; }
  }

  E fcmpE(unsigned p, E a, E b) {
    E uno = nullptr; auto U = [&] { if (!uno) uno = X.bor(X.fisnan(a), X.fisnan(b)); return uno; };
    switch (p) {
      case CmpInst::FCMP_FALSE: return X.F; case CmpInst::FCMP_TRUE: return X.T;
      case CmpInst::FCMP_OEQ: return X.fbin(K_FEQ, a, b);
      case CmpInst::FCMP_OGT: return X.fbin(K_FLT, b, a);
      case CmpInst::FCMP_OGE: return X.fbin(K_FLE, b, a);
      case CmpInst::FCMP_OLT: return X.fbin(K_FLT, a, b);
      case CmpInst::FCMP_OLE: return X.fbin(K_FLE, a, b);
      case CmpInst::FCMP_ONE: return X.band(X.bnot(X.fbin(K_FEQ, a, b)), X.bnot(U()));
      case CmpInst::FCMP_ORD: return X.bnot(U());
      case CmpInst::FCMP_UNO: return U();
      case CmpInst::FCMP_UEQ: return X.bor(X.fbin(K_FEQ, a, b), U());
      case CmpInst::FCMP_UGT: return X.bnot(X.fbin(K_FLE, a, b));
      case CmpInst::FCMP_UGE: return X.bnot(X.fbin(K_FLT, a, b));
      case CmpInst::FCMP_ULT: return X.bnot(X.fbin(K_FLE, b, a));
      case CmpInst::FCMP_ULE: return X.bnot(X.fbin(K_FLT, b, a));
      case CmpInst::FCMP_UNE: return X.bnot(X.fbin(K_FEQ, a, b));
    }
    abort();
  }
  E icmpE(unsigned p, E a, E b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return X.eq(a, b);
      case CmpInst::ICMP_NE: return X.bnot(X.eq(a, b));
      case CmpInst::ICMP_ULT: return X.ult(a, b);
      case CmpInst::ICMP_ULE: return X.bnot(X.ult(b, a));
      case CmpInst::ICMP_UGT: return X.ult(b, a);
      case CmpInst::ICMP_UGE: return X.bnot(X.ult(a, b));
      case CmpInst::ICMP_SLT: return X.slt(a, b);
      case CmpInst::ICMP_SLE: return X.bnot(X.slt(b, a));
      case CmpInst::ICMP_SGT: return X.slt(b, a);
      case CmpInst::ICMP_SGE: return X.bnot(X.slt(a, b));
    }
    abort();
  }
  static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) {
      case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
      case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w); case CmpInst::ICMP_SLE: return sextw(a, w) <= sextw(b, w);
      case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w); case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
    }
    abort();
  }
  Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
    EK k; bool fp = false;
    switch (op) {
      case Instruction::Add: k = K_ADD; break;
      case Instruction::Sub: if (!a.e && !b.e) return Val{(a.c - b.c) & maskw(w), nullptr}; return fromE(X.sub(toE(a, w), toE(b, w)));
      case Instruction::Mul: k = K_MUL; break;
      case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break;
      case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
      case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
      case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
      case Instruction::FAdd: k = K_FADD; fp = true; break; case Instruction::FMul: k = K_FMUL; fp = true; break;
      case Instruction::FDiv: k = K_FDIV; fp = true; break; case Instruction::FRem: k = K_FREM; fp = true; break;
      case Instruction::FSub: { if (!a.e && !b.e) return Val{ExprCtx::evFBin(K_FADD, a.c, b.c ^ (1ULL << (w - 1)), w), nullptr}; return fromE(X.fbin(K_FADD, toE(a, w), X.fneg(toE(b, w)))); }
      default: giveUp(s, std::string("binop ") + Instruction::getOpcodeName(op)); return Val{};
    }
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
      if (b.e) { if (decide(s, X.eq(b.e, X.cst(0, w)))) { fail(s, "arith", "division by zero"); return Val{}; } }
      else if (b.c == 0) { fail(s, "arith", "division by zero"); return Val{}; }
    }
    if (!a.e && !b.e) return Val{fp ? ExprCtx::evFBin(k, a.c, b.c, w) : ExprCtx::evBin(k, a.c, b.c, w), nullptr};
    return fromE(fp ? X.fbin(k, toE(a, w), toE(b, w)) : X.bin(k, toE(a, w), toE(b, w)));
  }
  Val castop(State& s, unsigned op, const Val& a, unsigned wi, unsigned wo) {
    switch (op) {
      case Instruction::Trunc: return a.e ? fromE(X.extract(a.e, 0, wo)) : Val{a.c & maskw(wo), nullptr};
      case Instruction::ZExt: return a.e ? fromE(X.zext(a.e, wo)) : a;
      case Instruction::SExt: return a.e ? fromE(X.sext(a.e, wo)) : Val{(uint64_t)sextw(a.c, wi) & maskw(wo), nullptr};
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (wi == wo) return a;
        if (wo < wi) return a.e ? fromE(X.extract(a.e, 0, wo)) : Val{a.c & maskw(wo), nullptr};
        return a.e ? fromE(X.zext(a.e, wo)) : a;
      case Instruction::FPToUI: return fromE(X.fcast(K_FPTOUI, toE(a, wi), wo));
      case Instruction::FPToSI: return fromE(X.fcast(K_FPTOSI, toE(a, wi), wo));
      case Instruction::UIToFP: return fromE(X.fcast(K_UITOFP, toE(a, wi), wo));
      case Instruction::SIToFP: return fromE(X.fcast(K_SITOFP, toE(a, wi), wo));
      case Instruction::FPExt: return fromE(X.fcast(K_FPEXT, toE(a, wi), wo));
      case Instruction::FPTrunc: return fromE(X.fcast(K_FPTRUNC, toE(a, wi), wo));
    }
    giveUp(s, "cast"); return Val{};
  }

  // exceptions --------------------------------------------------------------
  uint32_t tid(uint64_t ti) { auto& x = typeId[ti]; if (!x) x = ++nextTypeId; return x; }
  GlobalVariable* gvAt(uint64_t a) { for (auto& p : gaddr) if (p.second == a) return dyn_cast<GlobalVariable>(const_cast<GlobalValue*>(p.first)); return nullptr; }
  std::map<std::pair<uint64_t, uint64_t>, bool> derivCache;
  bool derives(uint64_t t, uint64_t base) {
    if (t == base) return true;
    auto key = std::make_pair(t, base); auto it = derivCache.find(key); if (it != derivCache.end()) return it->second;
    bool r = false;
    GlobalVariable* G = gvAt(t);
    if (G && G->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(G->getInitializer())) {
      for (unsigned i = 2; i < cs->getNumOperands() && !r; i++) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI")) r = derives(addrOfGV(b), base);
    }
    derivCache[key] = r;
    return r;
  }
  // selector for landing pad given thrown type; -1: not entered, 0: cleanup
  int64_t lpSelect(LandingPadInst* lp, uint64_t ti) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) {
        Constant* c = lp->getClause(i)->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) return 1;
        uint64_t a = addrOfGV(cast<GlobalValue>(c));
        if (derives(ti, a)) return tid(a);
      } else {  // filter: matches if the type is in none of the entries
        auto* arr = lp->getClause(i); bool in = false;
        for (unsigned k = 0; k < arr->getNumOperands(); k++) { auto* g = dyn_cast<GlobalValue>(arr->getOperand(k)->stripPointerCasts()); if (!g || derives(ti, addrOfGV(g))) in = true; }
        if (!in) return (uint32_t)-1;
      }
    }
    return lp->isCleanup() ? 0 : -1;
  }
  LandingPadInst* lpOf(const Inst& in) { return cast<InvokeInst>(in.I)->getLandingPadInst(); }
  void unwind(State& s, uint64_t exc, size_t top) {  // frames [0, top) are searched
    uint64_t ti = s.excType[exc];
    auto& st = s.th[s.cur].st;
    bool handler = false;
    for (size_t i = top; i-- > 0 && !handler;) {
      const Inst& in = st[i].bb->insts[st[i].pc];
      if (in.op == Instruction::Invoke) { int64_t r = lpSelect(lpOf(in), ti); if (r != 0 && r != -1) handler = true; }
    }
    if (!handler) {
      GlobalVariable* G = gvAt(ti);
      fail(s, "exception", "exception of type " + (G ? demangle(G->getName().str()) : std::string("?")) + " escapes"); return;
    }
    while (!st.empty()) {
      if (st.size() <= top) {
        Frame& f = st.back(); const Inst& in = f.bb->insts[f.pc];
        if (in.op == Instruction::Invoke) {
          LandingPadInst* lp = lpOf(in); int64_t sel = lpSelect(lp, ti);
          if (sel != -1) {
            jump(f, in.f);
            const Inst& l = f.bb->insts[0];
            if (l.op == Instruction::LandingPad) { f.regs[l.dst] = Val{exc, nullptr}; if (l.n > 1) f.regs[l.dst + 1] = Val{(uint64_t)(uint32_t)sel, nullptr}; f.pc = 1; }
            return;
          }
        }
      }
      popFrame(s);
    }
  }

  // scheduling ----------------------------------------------------------------
  bool enabled(State& s, int t) {
    auto& th = s.th[t]; if (th.done || !th.parked) return !th.done && !th.parked;
    switch (th.pend.k) {
      case P_LOCK: { auto it = s.mtx.find(th.pend.addr); return it == s.mtx.end() || it->second.owner < 0 || it->second.owner == t; }
      case P_JOIN: return s.th[th.pend.addr].done;
      case P_WAIT: { ObjData* o = find(s, th.pend.addr); if (!o || o->freed) return true; Val v = rawLoad(s, o, th.pend.addr - o->base, 32); uint64_t x = v.e ? X.eval(v.e, *s.model) : v.c; return x != th.pend.val; }
      case P_CVWAIT: return (uint64_t)s.condSeq[th.pend.addr] != th.pend.val;
      default: return true;
    }
  }
  static bool dependent(const Pending& a, const Pending& b) {
    auto mem = [](PendKind k) { return k == P_LOCK || k == P_UNLOCK || k == P_TRYLOCK || k == P_ATOMIC_R || k == P_ATOMIC_W || k == P_WAIT; };
    if (a.k == P_YIELD || b.k == P_YIELD) return true;
    if (a.k == P_CVWAIT || b.k == P_CVWAIT || a.k == P_TRYLOCK || b.k == P_TRYLOCK) return true;
    if (!mem(a.k) || !mem(b.k)) return false;
    if (a.addr != b.addr) return false;
    return !((a.k == P_ATOMIC_R || a.k == P_WAIT) && (b.k == P_ATOMIC_R || b.k == P_WAIT));
  }
  // call at a visible operation; returns true if the thread may execute it now
  bool visible(State& s, PendKind k, uint64_t addr, uint64_t val = 0) {
    if (!s.mt && k != P_LOCK && k != P_WAIT && k != P_JOIN && k != P_CVWAIT) return true;
    auto& t = s.th[s.cur];
    if (t.granted) { t.granted = false; t.parked = false; t.pend = Pending{}; return true; }
    t.parked = true; t.pend = Pending{k, addr, val};
    s.needSched = true;
    return false;
  }
  void schedule(State& s) {
    s.needSched = false;
    std::vector<int> en;
    bool allDone = true;
    for (size_t t = 0; t < s.th.size(); t++) { if (!s.th[t].done) allDone = false; if (!s.th[t].done && enabled(s, t)) en.push_back(t); }
    if (allDone) return;
    if (en.empty()) { fail(s, "deadlock", "deadlock: no thread can proceed"); return; }
    if (s.mt) schedPoints++;
    int live = 0; for (auto& t : s.th) if (!t.done) live++;
    if (live > maxThreadsSeen) maxThreadsSeen = live;
    // sleep sets
    std::vector<int> cand;
    for (int t : en) { bool sl = false; for (auto& z : s.sleep) if (z.first == t) sl = true; if (!sl) cand.push_back(t); }
    if (cand.empty()) { pruned++; s.dead = true; return; }
    // prefer the current thread first
    for (size_t i = 0; i < cand.size(); i++) if (cand[i] == s.cur) { std::swap(cand[0], cand[i]); break; }
    bool curEnabled = std::find(en.begin(), en.end(), s.cur) != en.end();
    if (s.preempt >= maxPreempt && curEnabled && std::find(cand.begin(), cand.end(), s.cur) != cand.end()) cand.resize(1);
    std::vector<std::pair<int, Pending>> base = s.sleep;
    auto go = [&](State& z, size_t i) {
      int t = cand[i];
      if (curEnabled && t != z.cur) z.preempt++;
      z.sleep.clear();
      for (auto& p : base) if (!dependent(p.second, z.th[t].pend)) z.sleep.push_back(p);
      for (size_t j = 0; j < i; j++) if (!dependent(z.th[cand[j]].pend, z.th[t].pend)) z.sleep.push_back({cand[j], z.th[cand[j]].pend});
      if (en.size() > 1) { E v = X.var("sched#" + std::to_string(z.sched.size()), 8); addC(z, X.eq(v, X.cst(t, 8))); 
        auto m = std::make_shared<Model>(*z.model); m->stamp = X.nextStamp++; if (m->v.size() <= v->c) m->v.resize(v->c + 1); m->v[v->c] = t; z.model = m; z.sched.push_back(t); }
      z.cur = t; auto& th = z.th[t];
      if (th.pend.k == P_START) { th.parked = false; th.granted = false; th.pend = Pending{}; }
      else if (th.parked) th.granted = true;
    };
    for (size_t i = 1; i < cand.size(); i++) { State* n = cloneOf(s); go(*n, i); }
    go(s, 0);
  }

  // the interpreter loop for one state until it dies
  void run(State& s);
  void step(State& s);
  void callFn(State& s, const Inst& in, Fn* fn, std::vector<Val>& args) { pushFrame(s, fn, args, 0); }
  void doCall(State& s, Frame& f, const Inst& in);

  // is the time over, or has another entry reported a confirmed violation?
  double nextLook = 0;
  bool timeUp() {
    double n = nowS();
    if (n > nextLook) { nextLook = n + 2; if (!S.tmpdir.empty() && access((S.tmpdir + "/stop").c_str(), F_OK) == 0) tEnd = std::min(tEnd, n + 20); }
    return n > tEnd;
  }
  void explore(Function* entry) {
    auto st = std::make_unique<State>(*baseState);
    st->model = [&] { auto m = std::make_shared<Model>(); m->stamp = X.nextStamp++; return m; }();
    st->th.resize(1); st->th[0].vc[0] = 1;
    // constructors first, then entry: build the start stack so that the
    // entry runs last (ctors run in order above it)
    Fn* ef = fnOf(entry);
    pushFrame(*st, ef, {}, 0);
    std::vector<Function*> ctors;
    if (auto* G = M.getGlobalVariable("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> cs;
      for (auto& o : A->operands()) { auto* e = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(e->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) ctors.push_back(c.second);
    }
    ctorFrames = ctors.size();
    for (size_t i = ctors.size(); i-- > 0;) if (!ctors[i]->isDeclaration()) pushFrame(*st, fnOf(ctors[i]), {}, 0), ctorOnly.insert(fnOf(ctors[i]));
    if (auto* T = M.getFunction("pthread_mutex_trylock")) hasTry = !T->use_empty();
    work.push_back(std::move(st));
    while (!work.empty()) {
      if (timeUp()) { incompleteMsg("time limit: " + std::to_string(work.size()) + " states unexplored"); break; }
      if ((int)viol.size() >= maxViol) break;
      if (paths >= maxPaths) { incompleteMsg("path limit"); break; }
      std::unique_ptr<State> s = std::move(work.back()); work.pop_back();
      cs = s.get();
      run(*s);
    }
  }
  std::set<Fn*> ctorOnly; size_t ctorFrames = 0;
};

void Engine::run(State& s) {
  uint64_t cnt = 0;
  while (!s.dead) {
    if (s.needSched) { schedule(s); continue; }
    step(s);
    s.steps++; instrs++;
    if ((++cnt & 0xffff) == 0) {
      if (timeUp()) { incompleteMsg("time limit in a path"); return; }
    }
    if (s.steps > maxSteps) { fail(s, "nontermination", "path exceeds the instruction limit (possible endless loop)"); return; }
  }
}

void Engine::step(State& s) {
  Thread& th = s.th[s.cur];
  Frame& f = th.st.back();
  const Inst& in = f.bb->insts[f.pc];
  switch (in.op) {
    case Instruction::Br:
      if (!in.f) { jump(f, in.t); return; }
      { Val c = get(f, in.ops[0]); bool b = c.e ? decide(s, c.e) : (c.c & 1); Frame& g = s.th[s.cur].st.back(); jump(g, b ? in.t : in.f); return; }
    case Instruction::Switch: {
      Val c = get(f, in.ops[0]);
      if (!c.e) { for (auto& k : in.cases) if (k.first == c.c) { jump(f, k.second); return; } jump(f, in.t); return; }
      // group by target to limit forks
      std::map<Blk*, E> grp; std::vector<Blk*> order;
      for (auto& k : in.cases) { E e = X.eq(c.e, X.cst(k.first, in.w2)); if (k.second == in.t) continue; auto it = grp.find(k.second); if (it == grp.end()) { grp[k.second] = e; order.push_back(k.second); } else it->second = X.bor(it->second, e); }
      for (Blk* b : order) if (decide(s, grp[b])) { jump(f, b); return; }
      jump(f, in.t); return; }
    case Instruction::Ret: {
      std::vector<Val> rv; if (!in.ops.empty()) { unsigned n = nslotsOf(in.I->getOperand(0)->getType()); for (unsigned k = 0; k < n; k++) rv.push_back(get(f, in.ops[0], k)); }
      bool ctor = ctorOnly.count(f.fn) && th.st.size() > 1 && s.cur == 0 && s.th.size() == 1 && (th.st[th.st.size() - 2].pc == 0) && (th.st[th.st.size() - 2].fn != f.fn) && (ctorOnly.count(th.st[th.st.size() - 2].fn) || th.st.size() == 2);
      bool rerun = f.rerun;
      popFrame(s);
      if (s.th[s.cur].st.empty()) { threadExit(s); return; }
      if (ctor || rerun) return;
      retTo(s, rv.data(), rv.size());
      return; }
    case Instruction::Unreachable: fail(s, "unreachable", "reached code marked unreachable"); return;
    case Instruction::Load: {
      Val a = get(f, in.ops[0]);
      if (in.x) { uint64_t ad = concretize(s, a, 64); a = Val{ad, nullptr}; if (!visible(s, P_ATOMIC_R, ad)) return; 
        if (s.mt && in.pred != (unsigned)AtomicOrdering::Monotonic && in.pred != (unsigned)AtomicOrdering::Unordered) { auto it = s.relvc.find(ad); if (it != s.relvc.end()) vcJoin(s.th[s.cur].vc, it->second); } }
      Val out[64]; std::vector<Val> big; Val* o = out; if (in.fields.size() > 64) { big.resize(in.fields.size()); o = big.data(); }
      for (auto& fl : in.fields) if (fl.second > 64) { giveUp(s, "load of unsupported type"); return; }
      if (!loadMem(s, a, in.fields, in.w2, o, in.x)) return;
      Frame& g = s.th[s.cur].st.back();
      for (size_t k = 0; k < in.fields.size(); k++) g.regs[in.dst + k] = o[k];
      g.pc++; return; }
    case Instruction::Store: {
      Val a = get(f, in.ops[1]);
      if (in.x) { uint64_t ad = concretize(s, a, 64); a = Val{ad, nullptr}; if (!visible(s, P_ATOMIC_W, ad)) return;
        if (s.mt) { if (in.pred != (unsigned)AtomicOrdering::Monotonic && in.pred != (unsigned)AtomicOrdering::Unordered) { s.relvc[ad] = s.th[s.cur].vc; s.th[s.cur].vc[s.cur]++; } else s.relvc.erase(ad); } }
      std::vector<Val> v(in.fields.size()); for (size_t k = 0; k < v.size(); k++) { v[k] = get(f, in.ops[0], k); if (in.fields[k].second > 64) { giveUp(s, "store of unsupported type"); return; } }
      if (!storeMem(s, a, in.fields, in.w2, v.data(), in.x)) return;
      s.th[s.cur].st.back().pc++; return; }
    case Instruction::GetElementPtr: {
      Val b = get(f, in.ops[0]);
      if (!b.e && in.gep.empty()) { f.regs[in.dst] = Val{b.c + in.gepoff, nullptr}; f.pc++; return; }
      uint64_t c = in.gepoff; E e = nullptr;
      if (b.e) e = b.e; else c += b.c;
      for (auto& g : in.gep) { Val i = get(f, g.op); if (!i.e) c += (uint64_t)sextw(i.c, g.w) * g.scale; else { E t = X.mul(X.sext(i.e, 64), X.cst(g.scale, 64)); 
          if ((g.scale & (g.scale - 1)) == 0 && g.scale > 1) t = X.bin(K_SHL, X.sext(i.e, 64), X.cst(__builtin_ctzll(g.scale), 64));
          e = e ? X.add(e, t) : t; } }
      f.regs[in.dst] = e ? fromE(X.add(e, X.cst(c, 64))) : Val{c, nullptr};
      f.pc++; return; }
    case Instruction::Alloca: {
      uint64_t n = concretize(s, get(f, in.ops[0]), 64);
      uint64_t a = newObj(s, n * in.w2, O_STACK, true);
      f.allocas.push_back((uint32_t)idOf(a));
      f.regs[in.dst] = Val{a, nullptr}; f.pc++; return; }
    case Instruction::ICmp: {
      for (unsigned k = 0; k < in.n; k++) {
        Val a = get(f, in.ops[0], k), b = get(f, in.ops[1], k);
        f.regs[in.dst + k] = (!a.e && !b.e) ? Val{icmpC(in.pred, a.c, b.c, in.w2), nullptr} : fromE(icmpE(in.pred, toE(a, in.w2), toE(b, in.w2)));
      }
      f.pc++; return; }
    case Instruction::FCmp:
      if (forkCmp && in.n == 1 && !in.x) {
        E c = fcmpE(in.pred, toE(get(f, in.ops[0]), in.w2), toE(get(f, in.ops[1]), in.w2));
        bool b = decide(s, c); Frame& g = s.th[s.cur].st.back();
        g.regs[in.dst] = Val{b, nullptr}; g.pc++; return; }
      for (unsigned k = 0; k < in.n; k++) f.regs[in.dst + k] = fromE(fcmpE(in.pred, toE(get(f, in.ops[0], k), in.w2), toE(get(f, in.ops[1], k), in.w2)));
      f.pc++; return;
    case Instruction::Select: {
      Type* ct = in.I->getOperand(0)->getType(); bool vec = ct->isVectorTy(); Type* rt = in.I->getType();
      std::vector<std::pair<unsigned, unsigned>> fl; flat(rt, 0, fl);
      Val c0 = get(f, in.ops[0], 0);
      if (!vec && c0.e && rt->isPointerTy()) {
        Val a = get(f, in.ops[1]), b = get(f, in.ops[2]);
        if (!(a.e == b.e && a.c == b.c)) { bool b2 = decide(s, c0.e); c0 = Val{b2, nullptr}; } else c0 = Val{1, nullptr};
      }
      Frame& g = s.th[s.cur].st.back();
      for (unsigned k = 0; k < in.n; k++) {
        Val c = vec ? get(g, in.ops[0], k) : c0; Val a = get(g, in.ops[1], k), b = get(g, in.ops[2], k);
        g.regs[in.dst + k] = !c.e ? (c.c ? a : b) : fromE(X.ite(c.e, toE(a, fl[k].second), toE(b, fl[k].second)));
      }
      g.pc++; return; }
    case Instruction::ExtractValue: for (unsigned k = 0; k < in.n; k++) f.regs[in.dst + k] = get(f, in.ops[0], in.x + k); f.pc++; return;
    case Instruction::InsertValue: {
      std::vector<Val> v(in.n); for (unsigned k = 0; k < in.n; k++) v[k] = get(f, in.ops[0], k);
      for (unsigned k = 0; k < in.w2; k++) v[in.x + k] = get(f, in.ops[1], k);
      for (unsigned k = 0; k < in.n; k++) f.regs[in.dst + k] = v[k];
      f.pc++; return; }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, get(f, in.ops[1]), 64); Frame& g = s.th[s.cur].st.back(); g.regs[in.dst] = get(g, in.ops[0], i); g.pc++; return; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, get(f, in.ops[2]), 64); Frame& g = s.th[s.cur].st.back(); std::vector<Val> v(in.n); for (unsigned k = 0; k < in.n; k++) v[k] = get(g, in.ops[0], k); if (i < in.n) v[i] = get(g, in.ops[1]); for (unsigned k = 0; k < in.n; k++) g.regs[in.dst + k] = v[k]; g.pc++; return; }
    case Instruction::ShuffleVector: { std::vector<Val> v(in.n); for (unsigned k = 0; k < in.n; k++) { int m = in.mask[k]; if (m < 0) continue; v[k] = m < in.x ? get(f, in.ops[0], m) : get(f, in.ops[1], m - in.x); } for (unsigned k = 0; k < in.n; k++) f.regs[in.dst + k] = v[k]; f.pc++; return; }
    case Instruction::Freeze: for (unsigned k = 0; k < in.n; k++) f.regs[in.dst + k] = get(f, in.ops[0], k); f.pc++; return;
    case Instruction::FNeg: for (unsigned k = 0; k < in.n; k++) { Val a = get(f, in.ops[0], k); f.regs[in.dst + k] = fromE(X.fneg(toE(a, in.w))); } f.pc++; return;
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, in); return;
    case Instruction::Resume: {
      uint64_t exc = get(f, in.ops[0], 0).c;
      unwind(s, exc, s.th[s.cur].st.size() - 1); return; }
    case Instruction::LandingPad: giveUp(s, "landingpad reached directly"); return;
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      uint64_t ad = concretize(s, get(f, in.ops[0]), 64);
      if (!visible(s, P_ATOMIC_W, ad)) return;
      if (s.mt) { auto& vc = s.th[s.cur].vc; auto it = s.relvc.find(ad); if (it != s.relvc.end()) vcJoin(vc, it->second); VC n = vc; if (it != s.relvc.end()) vcJoin(n, it->second); s.relvc[ad] = n; vc[s.cur]++; }
      Frame& g = s.th[s.cur].st.back();
      std::vector<std::pair<unsigned, unsigned>> fl{{0, in.w}}; Val old, v = get(g, in.ops[1]), nv;
      if (!loadMem(s, Val{ad, nullptr}, fl, (in.w + 7) / 8, &old, true)) return;
      switch ((AtomicRMWInst::BinOp)in.pred) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, in.w); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, in.w); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, in.w); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, in.w); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, in.w); break;
        case AtomicRMWInst::FAdd: nv = binop(s, Instruction::FAdd, old, v, in.w); break;
        case AtomicRMWInst::FSub: nv = binop(s, Instruction::FSub, old, v, in.w); break;
        case AtomicRMWInst::Max: nv = fromE(X.ite(icmpE(CmpInst::ICMP_SGT, toE(old, in.w), toE(v, in.w)), toE(old, in.w), toE(v, in.w))); break;
        case AtomicRMWInst::Min: nv = fromE(X.ite(icmpE(CmpInst::ICMP_SLT, toE(old, in.w), toE(v, in.w)), toE(old, in.w), toE(v, in.w))); break;
        case AtomicRMWInst::UMax: nv = fromE(X.ite(icmpE(CmpInst::ICMP_UGT, toE(old, in.w), toE(v, in.w)), toE(old, in.w), toE(v, in.w))); break;
        case AtomicRMWInst::UMin: nv = fromE(X.ite(icmpE(CmpInst::ICMP_ULT, toE(old, in.w), toE(v, in.w)), toE(old, in.w), toE(v, in.w))); break;
        default: giveUp(s, "atomicrmw op"); return;
      }
      if (!storeMem(s, Val{ad, nullptr}, fl, (in.w + 7) / 8, &nv, true)) return;
      Frame& g2 = s.th[s.cur].st.back(); g2.regs[in.dst] = old; g2.pc++; return; }
    case Instruction::AtomicCmpXchg: {
      uint64_t ad = concretize(s, get(f, in.ops[0]), 64);
      if (!visible(s, P_ATOMIC_W, ad)) return;
      Frame& g = s.th[s.cur].st.back();
      unsigned w = in.w; std::vector<std::pair<unsigned, unsigned>> fl{{0, w}};
      Val old, ex = get(g, in.ops[1]), nv = get(g, in.ops[2]);
      // decide on success first (may clone: the clone repeats this step)
      Val off; ObjData* o = resolve(s, Val{ad, nullptr}, (w + 7) / 8, true, off); if (!o) return;
      old = rawLoad(s, o, off.c, w);
      E eq = X.eq(toE(old, w), toE(ex, w));
      bool ok;
      if (ExprCtx::isC(eq)) ok = eq->c; else { s.th[s.cur].granted = true; ok = decide(s, eq); s.th[s.cur].granted = false; }
      auto* CX = cast<AtomicCmpXchgInst>(in.I); auto so = CX->getSuccessOrdering(), fo = CX->getFailureOrdering();
      if (s.mt) {
        auto& vc = s.th[s.cur].vc; auto it = s.relvc.find(ad);
        auto acq = [](AtomicOrdering x) { return x == AtomicOrdering::Acquire || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; };
        if (acq(ok ? so : fo) && it != s.relvc.end()) vcJoin(vc, it->second);
        if (ok) { if (so == AtomicOrdering::Release || so == AtomicOrdering::AcquireRelease || so == AtomicOrdering::SequentiallyConsistent) { VC n = vc; if (it != s.relvc.end()) vcJoin(n, it->second); s.relvc[ad] = n; vc[s.cur]++; } }
      }
      raceAccess(s, find(s, ad), off.c, (w + 7) / 8, false, true); if (s.dead) return;
      if (ok) { if (!storeMem(s, Val{ad, nullptr}, fl, (w + 7) / 8, &nv, true)) return; }
      Frame& g2 = s.th[s.cur].st.back(); g2.regs[in.dst] = old; g2.regs[in.dst + 1] = Val{ok, nullptr}; g2.pc++; return; }
    default: break;
  }
  if (in.I->isBinaryOp()) {
    if (in.w > 64) { giveUp(s, "integer wider than 64 bits"); return; }
    for (unsigned k = 0; k < in.n; k++) { Val r = binop(s, in.op, get(f, in.ops[0], k), get(f, in.ops[1], k), in.w); if (s.dead) return; f.regs[in.dst + k] = r; }
    f.pc++; return;
  }
  if (in.I->isCast()) {
    if (in.w > 64 || in.w2 > 64) { giveUp(s, "cast wider than 64 bits"); return; }
    unsigned nin = nslotsOf(in.I->getOperand(0)->getType());
    if (nin != in.n) {  // vector <-> scalar bitcast
      std::vector<std::pair<unsigned, unsigned>> fi, fo; flat(in.I->getOperand(0)->getType(), 0, fi); flat(in.I->getType(), 0, fo);
      unsigned tot = 0; for (auto& x : fi) tot += x.second;
      if (tot > 64) { giveUp(s, "wide vector bitcast"); return; }
      E e = nullptr; for (unsigned k = nin; k-- > 0;) { E x = toE(get(f, in.ops[0], k), fi[k].second); e = e ? X.concat(e, x) : x; }
      unsigned lo = 0; for (unsigned k = 0; k < in.n; k++) { f.regs[in.dst + k] = fromE(X.extract(e, lo, fo[k].second)); lo += fo[k].second; }
      f.pc++; return;
    }
    for (unsigned k = 0; k < in.n; k++) { Val r = castop(s, in.op, get(f, in.ops[0], k), in.w2, in.w); if (s.dead) return; f.regs[in.dst + k] = r; }
    f.pc++; return;
  }
  giveUp(s, std::string("unsupported instruction ") + in.I->getOpcodeName());
}

void Engine::doCall(State& s, Frame& f, const Inst& in) {
  std::vector<Val> args;
  size_t na = in.cases.size();
  for (size_t i = 0; i < na; i++) for (unsigned k = 0; k < in.cases[i].first; k++) args.push_back(get(f, in.ops[i], k));
  Fn* callee = in.callee; Handler h = in.h; std::string nm;
  if (in.x == 1 && !callee && !h) {
    uint64_t a = concretize(s, get(f, in.ops.back()), 64);
    auto it = faddr.find(a);
    if (it == faddr.end()) { fail(s, "memory", a ? "call through an invalid function pointer" : "call through a null function pointer"); return; }
    Inst tmp; bindCallee(tmp, it->second); callee = tmp.callee; h = tmp.h; nm = tmp.hname;
  }
  if (callee) {
    // byval arguments get a private copy
    auto* CB = cast<CallBase>(in.I);
    for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) {
      uint64_t sz = DL.getTypeAllocSize(CB->getParamByValType(i));
      size_t k = 0; for (unsigned j = 0; j < i; j++) k += in.cases[j].first;
      uint64_t a = newObj(s, sz, O_STACK, true); s.th[s.cur].st.back().allocas.push_back((uint32_t)idOf(a));
      if (!copyMem(s, Val{a, nullptr}, args[k], sz)) return; args[k] = Val{a, nullptr};
    }
    pushFrame(s, callee, args, 0); return;
  }
  if (h) { h(*this, s, in, args); return; }
  giveUp(s, "call to unmodelled function " + (nm.empty() ? in.hname : nm));
}

#include "handlers.h"

// ---------------------------------------------------------------------- output
static std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
static void dumpVals(Engine& en, FILE* o, const std::vector<SymLog>& syms, const ModelP& m) {
  fprintf(o, "[");
  bool first = true;
  for (auto& x : syms) { uint64_t v = x.e ? en.X.eval(x.e, *m) : x.c; fprintf(o, "%s{\"n\":\"%s\",\"w\":%u,\"v\":\"%llu\",\"t\":%d}", first ? "" : ",", jesc(x.name).c_str(), x.w, (unsigned long long)v, x.tid); first = false; }
  if (en.hasTry) fprintf(o, "%s{\"n\":\"unlock!\",\"w\":1,\"v\":\"1\",\"t\":0}", first ? "" : ",");
  fprintf(o, "]");
}
int main(int argc, char** argv) {
  std::string mod, entry = "vp_main", out = "/dev/stdout", tmp = "/tmp"; double maxs = 600; 
  uint64_t maxSteps = 60000000; int maxViol = 3, nsamp = 8, maxPre = 1 << 30; uint64_t seed = 1; bool leak = false; int fc = 0; unsigned zt = 20000; uint64_t maxPaths = ~0ULL;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--secs") maxs = atof(nx().c_str()); else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--maxviol") maxViol = atoi(nx().c_str()); else if (a == "--samples") nsamp = atoi(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--leak") leak = true;
    else if (a == "--zt") zt = atoi(nx().c_str()); else if (a == "--preempt") maxPre = atoi(nx().c_str()); else if (a == "--tmp") tmp = nx(); else if (a == "--forkcmp") fc = atoi(nx().c_str()); else if (a == "--paths") maxPaths = strtoull(nx().c_str(), 0, 10); else mod = a;
  }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(mod, err, C);
  if (!M) { err.print("symx", errs()); return 2; }
  Engine en(C, *M);
  en.tEnd = nowS() + maxs; en.maxSteps = maxSteps; en.maxViol = maxViol; en.nsamples = nsamp; en.seed = seed; en.rng.seed(seed); en.leakCheck = leak; en.S.timeoutMs = zt; en.maxPreempt = maxPre; en.S.tmpdir = tmp; en.S.left = [&en] { en.timeUp(); return en.tEnd - nowS(); }; en.maxPaths = maxPaths; en.forkCmp = fc;
  Function* F = M->getFunction(entry);
  if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  en.layout();
  en.explore(F);
  FILE* o = fopen(out.c_str(), "w"); if (!o) return 2;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(o, "{\n\"entry\":\"%s\",\n\"status\":\"%s\",\n", entry.c_str(), !en.viol.empty() ? "violation" : !en.incomplete.empty() ? "incomplete" : "ok");
  fprintf(o, "\"paths\":%llu,\"infeasible\":%llu,\"pruned\":%llu,\"instrs\":%llu,\"forks\":%llu,\"sched_points\":%llu,\"threads\":%d,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"undef_reads\":%llu,\n", (unsigned long long)en.paths, (unsigned long long)en.infeasible, (unsigned long long)en.pruned, (unsigned long long)en.instrs, (unsigned long long)en.forks, (unsigned long long)en.schedPoints, en.maxThreadsSeen, (unsigned long long)en.asserts, (unsigned long long)en.assertsSym, (unsigned long long)en.undefReads);
  auto& st = en.S.st;
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"external\":%llu,\"model_mismatch\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\n", (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.external, (unsigned long long)st.mismatch, st.secs, nowS() - en.t0, ru.ru_maxrss / 1024);
  fprintf(o, "\"reach\":{"); { bool first = true; for (auto& r : en.reach) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; } } fprintf(o, "},\n");
  fprintf(o, "\"incomplete\":["); for (size_t i = 0; i < en.incomplete.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(en.incomplete[i]).c_str()); fprintf(o, "],\n");
  fprintf(o, "\"functions\":["); { bool first = true; for (auto& n : en.usedFns) { std::string d = demangle(n); if (d.find("prometheus::") == std::string::npos) continue; if (d.rfind("std::", 0) == 0 || d.rfind("void std::", 0) == 0) continue; fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(d.substr(0, 160)).c_str()); first = false; } } fprintf(o, "],\n");
  fprintf(o, "\"violations\":[");
  for (size_t i = 0; i < en.viol.size(); i++) { auto& v = en.viol[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"trace\":\"%s\",\"vals\":", i ? ",\n" : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.trace).c_str()); dumpVals(en, o, v.syms, v.m); fprintf(o, ",\"sched\":["); for (size_t k = 0; k < v.sched.size(); k++) fprintf(o, "%s%d", k ? "," : "", v.sched[k]); fprintf(o, "]}"); }
  fprintf(o, "],\n\"samples\":[");
  for (size_t i = 0; i < en.samples.size(); i++) { auto& v = en.samples[i]; fprintf(o, "%s{\"vals\":", i ? ",\n" : ""); dumpVals(en, o, v.syms, v.m); fprintf(o, ",\"outs\":["); for (size_t k = 0; k < v.outs.size(); k++) { auto& q = v.outs[k]; fprintf(o, "%s\"%llu\"", k ? "," : "", (unsigned long long)(q.e ? en.X.eval(q.e, *v.m) : q.c)); } fprintf(o, "],\"sched\":["); for (size_t k = 0; k < v.sched.size(); k++) fprintf(o, "%s%d", k ? "," : "", v.sched[k]); fprintf(o, "]}"); }
  fprintf(o, "]\n}\n"); fclose(o);
  return 0;
}
