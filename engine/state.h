#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <array>
#include <deque>
#include <functional>
#include <set>

#include "expr.h"
#include "solver.h"

struct Val { uint64_t c = 0; E e = nullptr; };  // e==nullptr: concrete c

template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  explicit Ref(T* q) : p(q) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref& operator=(const Ref& o) { Ref t(o); std::swap(p, t.p); return *this; }
  Ref& operator=(Ref&& o) { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p; }
};

static const int MAXT = 8;
typedef std::array<uint32_t, MAXT> VC;
inline void vcJoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }

struct ByteShadow { uint32_t w = 0; uint8_t wt = 0; bool watomic = false; uint32_t r[MAXT] = {}; bool ratomic[MAXT] = {}; };

enum ObjKind : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_EXTERN };
enum : uint8_t { B_CONC = 0, B_SYM = 1, B_UNDEF = 2 };

struct ObjData {
  int rc = 0;
  uint64_t base = 0, size = 0;
  ObjKind kind = O_HEAP;
  uint8_t tag = 0;   // allocation family: 1 malloc, 2 new, 3 new[]
  bool ro = false, freed = false;
  uint32_t site = 0;
  std::vector<uint8_t> b;
  std::vector<uint8_t> st;  // empty: all concrete
  std::vector<E> sym;       // empty unless some byte symbolic
  std::vector<ByteShadow> sh;
};
struct Page { int rc = 0; Ref<ObjData> o[256]; Page() {} Page(const Page& q) { for (int i = 0; i < 256; i++) o[i] = q.o[i]; } };

struct Opnd { int slot = -1; std::vector<Val> k; };
struct GepTerm { Opnd op; uint64_t scale; unsigned w; };
struct Fn; struct Blk;

struct Engine; struct State; struct Inst;
typedef void (*Handler)(Engine&, State&, const Inst&, std::vector<Val>&);

struct Inst {
  unsigned op = 0;
  llvm::Instruction* I = nullptr;
  int dst = -1;
  unsigned n = 1;   // slots of result
  unsigned w = 0;   // width of (element of) result / operand, per opcode
  unsigned w2 = 0;
  unsigned pred = 0;
  std::vector<Opnd> ops;
  std::vector<GepTerm> gep; uint64_t gepoff = 0;
  std::vector<std::pair<unsigned, unsigned>> fields;  // offset,width for load/store
  Blk* t = nullptr; Blk* f = nullptr;
  std::vector<std::pair<uint64_t, Blk*>> cases;
  Fn* callee = nullptr; Handler h = nullptr; std::string hname;
  int x = 0; // extractvalue index etc
  std::vector<int> mask;
};
struct Phi { int dst; unsigned n; std::vector<std::pair<Blk*, Opnd>> in; };
struct Blk { llvm::BasicBlock* B; Fn* fn; std::vector<Phi> phis; std::vector<Inst> insts; bool visited = false; };
struct Fn {
  llvm::Function* F; std::vector<Blk> blocks; unsigned nslots = 0; std::vector<int> argslot; std::vector<unsigned> argn;
  bool decoded = false; uint64_t entered = 0;
};

struct Frame {
  Fn* fn = nullptr; Blk* bb = nullptr; uint32_t pc = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<Val> varargs;
  bool rerun = false;   // on return, re-execute the caller's instruction
};

enum PendKind : uint8_t { P_NONE, P_START, P_LOCK, P_TRYLOCK, P_ATOMIC_R, P_ATOMIC_W, P_JOIN, P_WAIT, P_YIELD, P_CVWAIT, P_UNLOCK };
struct Pending { PendKind k = P_NONE; uint64_t addr = 0, val = 0; };

struct Thread {
  std::vector<Frame> st;
  bool done = false, parked = false, granted = false;
  Pending pend;
  VC vc{};
  std::vector<uint64_t> caught;   // exception objects being handled
  std::map<llvm::GlobalVariable*, uint64_t> tls;
  uint64_t nsym = 0;
  int env = 0; int cvPhase = 0; uint64_t cvVal = 0;
};

struct MutexSt { int owner = -1; int depth = 0; VC vc{}; };
struct SymLog { std::string name; unsigned w; E e; uint64_t c; int tid; };
struct OutLog { E e; uint64_t c; unsigned w; int tid; };

struct State {
  std::vector<Ref<Page>> pages;
  uint64_t nextId = 1;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<E> pc;
  ModelP model;
  std::map<uint64_t, MutexSt> mtx;
  std::map<uint64_t, VC> relvc;    // release clocks of atomic locations
  std::map<uint64_t, uint64_t> excType;
  std::map<uint64_t, int> onceOwner;
  std::map<uint64_t, int> condSeq; // condition variable generation
  std::vector<SymLog> syms;
  std::vector<OutLog> outs;
  std::vector<int> sched;
  std::vector<std::pair<int, Pending>> sleep;
  std::map<std::string, int> nameCount;
  std::set<std::string> reached;
  uint64_t steps = 0; int forks = 0; int preempt = 0; int everThreads = 1;
  bool needSched = false; bool mt = false;
  uint64_t heapLive = 0;
  bool dead = false;
};
