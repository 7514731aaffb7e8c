#pragma once
#include "state.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include <chrono>
#include <functional>

namespace irx {

enum Model : int {
  M_None = 0, M_Inline, M_Noise, M_Skip, M_Bool, M_Int, M_Long, M_Assume, M_Assert, M_Reach, M_MayTerminate, M_Generalize,
  M_Kind, M_ElemPtr, M_AssumeKinds, M_Landmark, M_Locks, M_Guard, M_Token, M_Text, M_Vague, M_Stop, M_Merge,
  M_New, M_Delete, M_VecInit, M_VecMove, M_VecCreateStorage, M_VecAllocate, M_VecDeallocate,
  M_ExcAlloc, M_ExcFree, M_Throw, M_BeginCatch, M_EndCatch, M_Rethrow, M_CurrentException, M_RethrowPtr, M_InitException, M_ExceptionPtr, M_Terminate,
  M_UncaughtExceptions, M_UncaughtException, M_Lock, M_Unlock, M_TryLock, M_AssertFail, M_Unreachable, M_GuardAcquire, M_GuardRelease,
  M_TypeEq, M_ReadLock, M_TypeName, M_Strlen, M_Strcmp, M_Memcmp, M_StrCopy, M_StrMove, M_StrNew, M_StrVoid, M_StrSelf, M_StrEq, M_SingleThreaded, M_Atexit, M_StdThrow, M_Sort
};

struct Obligation {
  std::string id, file, func; unsigned line = 0;
  long checked = 0; bool violated = false, approx = false; std::vector<std::string> trace; std::string detail;
};

struct FnInfo {
  bool live_done = false;
  std::unordered_map<const BasicBlock *, std::set<const Value *>> liveIn;
  std::unordered_map<const Instruction *, std::set<const Value *>> liveAfter, before;
  std::unordered_map<const Value *, int> num;
  std::unique_ptr<DominatorTree> dt;
  std::unique_ptr<LoopInfo> li;
};

struct HoleLoc {
  enum K : uint8_t { None, Reg, Flat, ElemCell, ElemIdx, SumHi, RangeLo, RangeHi } k = None;
  int r = -1, i = -1; i64 off = 0; const Value *v = nullptr;
  std::vector<int> path;
  Lin base; i64 scale = 1;
};
struct Canon {
  std::string skel;
  std::vector<Lin> holes;
  std::vector<HoleLoc> loc;
  std::vector<Sym> rigid;
  // holes that are a small linear combination of other holes: hole -> (other hole, coefficient), constant
  std::map<size_t, std::pair<std::vector<std::pair<size_t, i64>>, i64>> aff;
};

struct Stored { std::vector<i64> m; int joins = 0; };
struct LoopRec { std::vector<i64> m; std::string skel; int iters = 0; std::map<std::string, std::vector<Stored>> back; };

void rewriteCellsPublic(Cells &c, const std::function<void(Val &)> &f);

struct Engine {
  Module &M;
  const DataLayout &DL;
  std::string repoDir, harnessFile;
  Sym nextSym = 1;
  int nextRegion = 1, nextTmpl = 1;
  std::unordered_map<Sym, int> symRegion;           // address symbols
  std::unordered_map<int, Sym> regionSym;
  std::unordered_map<const GlobalVariable *, int> globalRegion;
  std::unordered_map<int, const GlobalVariable *> regionGlobal;
  std::unordered_map<const Function *, int> models;
  std::unordered_map<const Function *, std::string> demangled;
  std::unordered_map<const Function *, FnInfo> finfo;
  std::unordered_map<const Function *, int> interestingMemo;
  std::unordered_map<std::string, std::vector<std::pair<std::vector<i64>, int>>> loopEntries; // skel -> (matrix, record)
  std::vector<std::unique_ptr<LoopRec>> recs;
  std::unordered_map<std::string, std::vector<std::vector<i64>>> mergeSeen;

  std::map<std::string, Obligation> obligations;
  std::map<std::string, long> reached;
  std::set<std::string> declaredReach;
  std::vector<Obligation> violations;
  std::map<std::string, long> incompletes;
  std::map<std::string, std::vector<std::string>> incompleteTrace;
  std::map<std::string, long> externals;
  std::set<std::string> functionsSeen, repoFunctions;
  long steps = 0, paths = 0, splits = 0, joins = 0, widenings = 0, subsumed = 0, accesses = 0, guardedAccesses = 0;
  long maxSteps = 60000000; double maxSeconds = 600;
  bool verbose = false, budgetHit = false;
  std::chrono::steady_clock::time_point t0;
  std::vector<State> work;
  // states that left a loop wait until everything inside it has been explored: the most general one then covers the others
  struct Deferred { State s; std::string skel; std::vector<i64> m; const BasicBlock *from; };
  std::map<std::tuple<size_t, unsigned, long>, Deferred> deferred;
  long deferSeq = 0;
  std::unordered_map<std::string, std::vector<std::vector<i64>>> exitSeen;
  void defer(State &s, const BasicBlock *from);
  bool resume(State &s);

  Engine(Module &m) : M(m), DL(m.getDataLayout()) {}

  // symbols
  Sym fresh() { return nextSym++; }
  Lin freshIn(State &s, i64 lo, i64 hi) {
    Sym y = fresh();
    s.z.constrain(y, 0, hi); s.z.constrain(0, y, -lo);
    return Lin::sym(y);
  }
  Lin freshBits(State &s, unsigned bits) {
    if (bits == 1) return choose(s, 2) ? Lin(1) : Lin(0);
    if (bits >= 64) { Sym y = fresh(); s.z.add(y); return Lin::sym(y); }
    return freshIn(s, -((i64)1 << (bits - 1)), ((i64)1 << (bits - 1)) - 1);
  }
  // results of operations the domain can not express: decisions on them may be wrong
  std::set<Sym> vague;
  Lin vagueIn(State &s, i64 lo, i64 hi) { Lin l = freshIn(s, lo, hi); blur(s, l); return l; }
  Lin vagueBits(State &s, unsigned bits) { Lin l = freshBits(s, bits); blur(s, l); return l; }
  void blur(State &s, const Lin &l) { if (l.isConst() || refute < 0) s.approx = true; for (auto &p : l.t) vague.insert(p.first); }
  void decide(State &s, const Lin &l) { if (!vague.empty()) for (auto &p : l.t) if (vague.count(p.first)) s.approx = true; }
  bool pin(State &s, Lin &l);               // bounded search: go on with some values of the symbols
  Lin quotient(State &s, const Lin &x, i64 k);
  // decisions
  int sign(State &s, Lin l);
  bool le0(State &s, Lin l);
  Lin named(State &s, const Lin &l);
  i64 choose(State &s, int n);
  void commit(State &s) { s.choices.erase(s.choices.begin(), s.choices.begin() + s.choicePos); s.choicePos = 0; }
  // memory
  struct Loc { int r; int elem; i64 off; };
  int newRegion(State &s, Region::K k, i64 size, const Value *origin);
  std::map<std::string, std::pair<i64, Val>> literals;
  bool fromLiteral(const Function *f);
  int globalId(const GlobalVariable *g);
  void ensureGlobal(State &s, int id);
  void initCells(State &s, Cells &c, i64 off, const Constant *k);
  Loc resolve(State &s, const Val &p);
  int materialise(State &s, int r, const Lin &q);
  Elem instantiate(State &s, const Proto &p, int arr, const Lin &q);
  void setStride(Region &R, i64 stride);
  Val readCells(State &s, Cells &c, i64 off, i64 size, bool isPtr, const Region &R);
  void writeCells(Cells &c, i64 off, i64 size, const Val &v, bool zfill = false, bool wide = false);
  Val load(State &s, const Val &p, Type *t);
  void store(State &s, const Val &p, const Val &v, Type *t);
  void storeRaw(State &s, const Val &p, const Val &v, i64 size, bool zfill = false, bool wide = false);
  void copyBytes(State &s, const Val &d, const Val &src, i64 n);
  Val resolveElemRef(State &s, const Val &v);
  void checkGuard(State &s, int r, i64 off, bool write);
  Cells &cellsOf(State &s, const Loc &l) { Region &R = s.wr(l.r); return l.elem < 0 ? R.flat : R.elems[l.elem].cells; }
  std::pair<int, i64> flatAddr(State &s, const Val &p);
  std::vector<int> findVecArrays(State &s, const Val &p, i64 size, std::vector<std::pair<int, i64>> *where);

  // values
  Val get(State &s, const Value *v);
  Val constant(State &s, const Constant *c);
  Lin toInt(State &s, const Val &v, unsigned bits);
  Lin norm(const Lin &l, unsigned bits);
  bool compare(State &s, CmpInst::Predicate p, const Val &a, const Val &b, Type *t);
  Val gep(State &s, const GEPOperator *g);
  Val binop(State &s, const BinaryOperator *b);
  Val castOp(State &s, const CastInst *c);

  // control
  void step(State &s);
  void goTo(State &s, const BasicBlock *to);
  void advance(State &s) { Frame &f = s.top(); f.pc = f.pc->getNextNode(); }
  void finishCall(State &s, const CallBase *cb, const Val *ret);
  void call(State &s, const CallBase *cb);
  void pushFrame(State &s, const Function *f, std::vector<Val> args, const CallBase *cb);
  void ret(State &s, const Val *v);
  void unwind(State &s);
  void doThrow(State &s, int exc);
  void modelCall(State &s, const CallBase *cb, const Function *f, int m, std::vector<Val> &a);
  bool intrinsic(State &s, const CallBase *cb, const Function *f, std::vector<Val> &a);
  bool typeMatches(const GlobalVariable *thrown, const GlobalVariable *caught);
  int typeId(const GlobalVariable *g);
  int classify(const Function *f);
  bool interesting(const Function *f);
  bool boring(const Function *f) { return !interesting(f); }
  std::string name(const Function *f);
  void noise(State &s, const CallBase *cb, const Function *f, std::vector<Val> &a);
  Val noiseResult(State &s, Type *t, const std::vector<Val> &a);

  // fixpoint
  FnInfo &info(const Function *f);
  void liveness(const Function *f);
  const std::set<const Value *> &liveAfterCall(const CallBase *cb);
  void prune(State &s);
  void fold(State &s);
  Canon canon(State &s, int level);
  std::set<int> reachable(State &s);
  void collect(State &s);
  const std::set<const Value *> &liveBefore(const Instruction *i);
  ProtoP makeProto(State &s, int arr, const Elem &e, std::vector<int> &owned);
  std::string protoCanon(const Proto &p, bool shape);
  void addProto(State &s, int arr, ProtoP p);
  bool rigidOnly(const Lin &l) const { if (l.t.empty()) return false; for (auto &p : l.t) if (!rigid.count(p.first)) return false; return true; }
  std::set<Sym> rigid;
  std::map<std::pair<const Instruction *, int>, Sym> tokenSyms;
  std::map<std::pair<const Value *, i64>, int> tmplOf;
  std::set<int> landmarkGlobals;            // constants whose holders are tracked individually
  int maxDisj = 2, maxEntries = 24, unroll = 1;
  std::vector<i64> matrix(State &s, const Canon &c);
  void rebuild(State &s, const Canon &c, const std::vector<i64> &m, bool close);
  void loopHook(State &s, const BasicBlock *h, bool back);
  bool mergePoint(State &s, const std::string &where);

  // driver
  void run(const Function *entry);
  bool drive(State s0);
  void compact(State &s);
  int maxViolations = 20;
  bool refuted = false;
  int refute = -1;                          // >= 0: bounded search for a violation without any join, widening or folding; arrays have up to so many elements
  void note(State &s, const std::string &t);
  std::string where(State &s, std::string *file = nullptr, unsigned *line = nullptr, std::string *func = nullptr, bool repoOnly = false);
  void violation(State &s, const std::string &kind, const std::string &msg);
  std::vector<std::string> traceOf(State &s);
};
}
