// Satisfiability queries: independence slicing, caching, Z3 with a time budget,
// optional second opinion (z3-new / cvc5 binaries) when Z3 gives up.
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <functional>

#include <algorithm>
#include <chrono>

#include "expr.h"

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0, mismatch = 0;
  double secs = 0;
};

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };

inline double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
  ExprCtx& X;
  SolverStats st;
  unsigned timeoutMs = 20000;
  unsigned extTimeoutS = 60;
  std::function<double()> left = [] { return 1e9; };   // seconds until the entry's time is over
  std::string tmpdir = "/tmp";
  struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> asg; };
  struct KH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ULL + (h >> 29); return h; } };
  std::unordered_map<std::vector<uint32_t>, CacheEnt, KH> cache;
  std::string lastErr;
  explicit Solver(ExprCtx& x) : X(x) {}

  static bool inter(const VarSet* a, const std::unordered_set<uint32_t>& s) {
    for (auto x : *a) if (s.count(x)) return true;
    return false;
  }
  // constraints of pc connected to the variables of cond
  void slice(const std::vector<E>& pc, E cond, std::vector<E>& out, std::unordered_set<uint32_t>& vs) {
    for (auto x : *cond->vars) vs.insert(x);
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (used[i]) continue;
        if (inter(pc[i]->vars, vs)) {
          used[i] = 1; ch = true;
          for (auto x : *pc[i]->vars) vs.insert(x);
        }
      }
    }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
  }

  // Is pc && cond satisfiable?  base satisfies pc.  On sat, *outm is base updated.
  SatRes check(const std::vector<E>& pc, E cond, const ModelP& base, ModelP* outm) {
    if (ExprCtx::isC(cond)) { if (cond->c) { if (outm) *outm = base; return R_SAT; } return R_UNSAT; }
    if (base && X.eval(cond, *base)) { st.modelHits++; if (outm) *outm = base; return R_SAT; }
    std::vector<E> cs; std::unordered_set<uint32_t> vs;
    slice(pc, cond, cs, vs);
    cs.push_back(cond);
    std::vector<uint32_t> key; key.reserve(cs.size());
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it == cache.end()) {
      CacheEnt ce; ce.r = solve(cs, vs, ce.asg);
      it = cache.emplace(std::move(key), std::move(ce)).first;
    } else st.cacheHits++;
    if (it->second.r == R_SAT && outm) {
      auto m = std::make_shared<Model>();
      if (base) m->v = base->v;
      m->stamp = X.nextStamp++;
      m->v.resize(std::max(m->v.size(), X.vars.size()));
      for (auto& p : it->second.asg) m->v[p.first] = p.second;
      *outm = m;
    }
    return it->second.r;
  }

  SatRes solve(const std::vector<E>& cs, const std::unordered_set<uint32_t>& vs, std::vector<std::pair<uint32_t, uint64_t>>& asg) {
    double t0 = nowS();
    st.queries++;
    SatRes r = R_UNKNOWN;
    bool fpa = false; for (E e : cs) fpa |= e->fpa;
    std::vector<E> ops; std::vector<Z3_ast> lem; std::vector<char> refined;
    bool all = !fpa;   // all definitions of floating-point operations are asserted
    if (fpa) { std::unordered_set<E> seen; for (E e : cs) collect(e, seen, ops); X.zlemmas(ops, lem); for (Z3_ast a : lem) Z3_inc_ref(X.z, a); refined.assign(ops.size(), 0); }
    std::vector<E> cmps; { std::unordered_set<E> seen; for (E e : cs) collectCmp(e, seen, cmps); }
    if (cmps.size() >= 2) r = order(cs, vs, cmps, asg);
    unsigned budget[2] = {std::min(2000u, timeoutMs), timeoutMs};
    int refinements = 0;
    for (int round = 0; round < 2 && r == R_UNKNOWN;) {
      double l = round == 0 && !refinements ? 1e9 : left();   // the first attempt is short anyway
      if (l < 1) break;
      Z3_solver s;
      const char* logic = fpa && (all || refinements) ? "QF_FPBV" : "QF_BV";
      if (round == 0) s = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, logic));
      else s = Z3_mk_simple_solver(X.z);
      Z3_solver_inc_ref(X.z, s);
      Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p);
      Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), (unsigned)std::min((double)budget[round], l * 1000));
      Z3_solver_set_params(X.z, s, p); Z3_params_dec_ref(X.z, p);
      for (E e : cs) Z3_solver_assert(X.z, s, X.zbool(e));
      for (E e : cmps) Z3_solver_assert(X.z, s, X.zcdef(e));
      for (Z3_ast a : lem) Z3_solver_assert(X.z, s, a);
      for (size_t i = 0; i < ops.size(); i++) if (all || refined[i]) Z3_solver_assert(X.z, s, X.zdef(ops[i]));
      Z3_lbool b = Z3_solver_check(X.z, s);
      bool again = false;
      if (b == Z3_L_TRUE) {
        r = R_SAT; asg.clear();
        Z3_model m = Z3_solver_get_model(X.z, s); Z3_model_inc_ref(X.z, m);
        Model chk; chk.stamp = X.nextStamp++; chk.v.assign(X.vars.size(), 0);
        for (uint32_t v : vs) {
          Z3_ast out; uint64_t val = 0;
          std::string n = "v" + std::to_string(v);
          Z3_ast c = Z3_mk_const(X.z, Z3_mk_string_symbol(X.z, n.c_str()), X.bvs(X.vars[v].w));
          if (Z3_model_eval(X.z, m, c, true, &out)) { Z3_inc_ref(X.z, out); Z3_get_numeral_uint64(X.z, out, &val); Z3_dec_ref(X.z, out); }
          asg.push_back({v, val}); chk.v[v] = val;
        }
        for (E e : cs) if (!X.eval(e, chk)) {
          r = R_UNKNOWN;
          if (all) { st.mismatch++; lastErr = "solver model does not satisfy a constraint under concrete evaluation"; }
          break;
        }
        if (r == R_UNKNOWN && !all) {
          // refine the operations whose value in the model is wrong
          again = true; unsigned n = 0;
          for (size_t i = 0; i < ops.size(); i++) if (!refined[i]) {
            Z3_ast out; uint64_t val = 0;
            if (Z3_model_eval(X.z, m, X.zbv(ops[i]), true, &out)) { Z3_inc_ref(X.z, out); Z3_get_numeral_uint64(X.z, out, &val); Z3_dec_ref(X.z, out); }
            // arguments as the model has them
            if (val != X.eval(ops[i], chk)) { if (n < 2 || refinements > 3) refined[i] = 1; n++; }
          }
          if (!n || ++refinements > 8) all = true;
        }
        Z3_model_dec_ref(X.z, m);
      } else if (b == Z3_L_FALSE) r = R_UNSAT;
      else if (!all) { all = true; again = true; }
      Z3_solver_dec_ref(X.z, s);
      if (Z3_get_error_code(X.z) != Z3_OK) { lastErr = Z3_get_error_msg(X.z, Z3_get_error_code(X.z)); Z3_set_error_handler(X.z, nullptr); }
      if (!again) round++;
    }
    for (Z3_ast a : lem) Z3_dec_ref(X.z, a);
    if (r == R_UNKNOWN && left() >= 1) r = external(cs, vs, asg);
    if (r == R_SAT) st.sat++; else if (r == R_UNSAT) st.unsat++; else st.unknown++;
    double dt = nowS() - t0; st.secs += dt;
    static const char* slow = getenv("SYMX_SLOW");
    if (slow && dt > atof(slow)) { fprintf(stderr, "--- query %.2fs result %d\n%s\n", dt, (int)r, smt2(cs, vs).c_str()); }
    return r;
  }

  // The query with floating-point comparisons read as comparisons of positions
  // on the line of doubles: a relaxation when the doubles are used otherwise.
  SatRes order(const std::vector<E>& cs, const std::unordered_set<uint32_t>& vs, const std::vector<E>& cmps, std::vector<std::pair<uint32_t, uint64_t>>& asg) {
    SatRes r = R_UNKNOWN;
    Z3_solver s = Z3_mk_simple_solver(X.z); Z3_solver_inc_ref(X.z, s);
    Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p);
    Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), 1000);
    Z3_solver_set_params(X.z, s, p); Z3_params_dec_ref(X.z, p);
    for (E e : cs) Z3_solver_assert(X.z, s, X.zbool(e));
    std::vector<Z3_ast> side;
    for (E e : cmps) Z3_solver_assert(X.z, s, X.zodef(e, side));
    for (Z3_ast a : side) Z3_solver_assert(X.z, s, a);
    Z3_lbool b = Z3_solver_check(X.z, s);
    if (b == Z3_L_FALSE) r = R_UNSAT;
    else if (b == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(X.z, s); Z3_model_inc_ref(X.z, m);
      Model chk; chk.stamp = X.nextStamp++; chk.v.assign(X.vars.size(), 0);
      std::unordered_map<uint32_t, E> leaf; std::unordered_set<E> seen;
      for (E e : cmps) { leaves(e->a, leaf, seen); leaves(e->b, leaf, seen); }
      asg.clear();
      for (uint32_t v : vs) {
        Z3_ast out; uint64_t val = 0; auto it = leaf.find(v);
        if (it != leaf.end() && it->second->zkey) {
          E e = it->second; int64_t k = 0;
          if (Z3_model_eval(X.z, m, e->zkey, true, &out)) { Z3_inc_ref(X.z, out); Z3_get_numeral_int64(X.z, out, &k); Z3_dec_ref(X.z, out); }
          val = k >= 0 ? (uint64_t)k : (1ULL << (e->w - 1)) | (uint64_t)-k;
          if (e->zkn && Z3_model_eval(X.z, m, e->zkn, true, &out) && Z3_get_bool_value(X.z, out) == Z3_L_TRUE) val = X.infBits(e->w) | 1ULL << (e->w == 64 ? 51 : 22);
        } else {
          std::string n = "v" + std::to_string(v);
          Z3_ast c = Z3_mk_const(X.z, Z3_mk_string_symbol(X.z, n.c_str()), X.bvs(X.vars[v].w));
          if (Z3_model_eval(X.z, m, c, true, &out)) { Z3_inc_ref(X.z, out); Z3_get_numeral_uint64(X.z, out, &val); Z3_dec_ref(X.z, out); }
        }
        asg.push_back({v, val}); chk.v[v] = val;
      }
      r = R_SAT;
      for (E e : cs) if (!X.eval(e, chk)) { r = R_UNKNOWN; break; }
      Z3_model_dec_ref(X.z, m);
    }
    Z3_solver_dec_ref(X.z, s);
    return r;
  }
  static void leaves(E e, std::unordered_map<uint32_t, E>& out, std::unordered_set<E>& seen) {
    if (!e || !seen.insert(e).second) return;
    if (e->k == K_VAR) { out[(uint32_t)e->c] = e; return; }
    if (e->k == K_ITE) { leaves(e->b, out, seen); leaves(e->d, out, seen); }
    if (e->k == K_FNEG) leaves(e->a, out, seen);
  }
  static void collectCmp(E e, std::unordered_set<E>& seen, std::vector<E>& cmps) {
    if (!e || !e->cmp || !seen.insert(e).second) return;
    collectCmp(e->a, seen, cmps); collectCmp(e->b, seen, cmps); collectCmp(e->d, seen, cmps);
    if (ExprCtx::isCmp(e->k)) cmps.push_back(e);
  }
  static void collect(E e, std::unordered_set<E>& seen, std::vector<E>& ops) {
    if (!e || !e->fpa || !seen.insert(e).second) return;
    collect(e->a, seen, ops); collect(e->b, seen, ops); collect(e->d, seen, ops);
    if (ExprCtx::isFpOp(e->k)) ops.push_back(e);
  }
  std::string smt2(const std::vector<E>& cs, const std::unordered_set<uint32_t>& vs) {
    std::vector<Z3_ast> as;
    std::unordered_set<E> seen; std::vector<E> ops;
    for (E e : cs) collect(e, seen, ops);
    for (E e : ops) as.push_back(X.zdef(e));
    { std::unordered_set<E> sc; std::vector<E> cmps; for (E e : cs) collectCmp(e, sc, cmps); for (E e : cmps) as.push_back(X.zcdef(e)); }
    for (E e : cs) as.push_back(X.zbool(e));
    Z3_ast last = as.back(); as.pop_back();
    std::string s = Z3_benchmark_to_smtlib_string(X.z, "q", "", "unknown", "", (unsigned)as.size(), as.data(), last);
    return s;
  }
  // ask the newer solvers; used only when the linked Z3 gave no answer
  SatRes external(const std::vector<E>& cs, const std::unordered_set<uint32_t>& vs, std::vector<std::pair<uint32_t, uint64_t>>& asg) {
    st.external++;
    std::string f = tmpdir + "/q" + std::to_string(getpid()) + ".smt2";
    std::string txt = smt2(cs, vs);
    std::string gv = "(get-value (";
    for (auto v : vs) gv += "v" + std::to_string(v) + " ";
    gv += "))\n";
    FILE* o = fopen(f.c_str(), "w"); if (!o) return R_UNKNOWN;
    fputs(txt.c_str(), o); if (!vs.empty()) fputs(gv.c_str(), o); fclose(o);
    std::string lim = std::to_string((int)std::max(1.0, std::min((double)extTimeoutS, left())));
    std::string cmd = "timeout " + lim + " z3-new -T:" + lim + " " + f + " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r"); if (!p) return R_UNKNOWN;
    std::string out; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, n);
    pclose(p); unlink(f.c_str());
    if (out.compare(0, 5, "unsat") == 0) return R_UNSAT;
    if (out.compare(0, 3, "sat") != 0) return R_UNKNOWN;
    asg.clear(); Model chk; chk.stamp = X.nextStamp++; chk.v.assign(X.vars.size(), 0);
    size_t pos = 3;
    while ((pos = out.find("(v", pos)) != std::string::npos) {
      uint32_t id = (uint32_t)strtoul(out.c_str() + pos + 2, nullptr, 10);
      size_t q = out.find('#', pos); if (q == std::string::npos) break;
      uint64_t val = out[q + 1] == 'x' ? strtoull(out.c_str() + q + 2, nullptr, 16) : strtoull(out.c_str() + q + 2, nullptr, 2);
      if (id < X.vars.size()) { asg.push_back({id, val}); chk.v[id] = val; }
      pos = q;
    }
    for (E e : cs) if (!X.eval(e, chk)) { st.mismatch++; return R_UNKNOWN; }
    return R_SAT;
  }
};
