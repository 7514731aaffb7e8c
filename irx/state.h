// Abstract values, memory regions and states of the analysis.
#pragma once
#include "lin.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include <memory>
#include <unordered_map>

namespace irx {
using namespace llvm;

struct Piece;
struct Val {
  enum K : uint8_t { Undef, Int, Ptr, Fn, Agg, Concat, Top, ElemRef } k = Undef;
  int r = -1;                                // Ptr: region, ElemRef: array region
  int tm = -1;                               // ElemRef: template id
  Lin e;                                     // Int: value, Ptr: byte offset, ElemRef: byte offset
  const Function *fn = nullptr;
  std::shared_ptr<std::vector<Val>> el;      // Agg
  std::shared_ptr<std::vector<Piece>> pc;    // Concat
  static Val integer(Lin l) { Val v; v.k = Int; v.e = std::move(l); return v; }
  static Val ptr(int r, Lin off) { Val v; v.k = Ptr; v.r = r; v.e = std::move(off); return v; }
  static Val top() { Val v; v.k = Top; return v; }
  bool isConstInt() const { return k == Int && e.isConst(); }
  bool isNull() const { return isConstInt() && e.c == 0; }
};
struct Piece { i64 off; i64 size; Val v; };

struct Cell { i64 size = 0; Val v; bool zfill = false; bool wide = false; };
using Cells = std::map<i64, Cell>;

struct Region;
using RegionP = std::shared_ptr<Region>;

struct Elem { Lin idx; Cells cells; int kind = -1; bool modified = false; };

constexpr int SUBBASE = 1 << 28;             // region ids inside a prototype
struct Proto {
  int kind = -1;
  Cells cells;
  std::vector<RegionP> subs;                 // owned regions, referenced as SUBBASE+i
  std::map<Sym, std::pair<i64, i64>> locals; // symbols local to the element, with bounds
  std::vector<std::tuple<Sym, Sym, i64>> rel; // x - y <= c between local symbols
  std::string shape;                         // canon without bounds and constants
  std::vector<int> ext;                      // external regions in order of mention
  std::string canon;
};
using ProtoP = std::shared_ptr<const Proto>;

struct KindRange { Lin lo, hi; unsigned mask; };

struct Region {
  enum K : uint8_t { Global, Stack, Heap, Opaque } kind = Heap;
  bool alive = true, vec = false, modified = false, zero = false;
  i64 size = -1;
  i64 stride = 0;
  Cells flat;
  std::vector<Elem> elems;
  std::vector<ProtoP> protos;
  bool hasSum = false; Lin sumHi; bool sumHiKnown = false;
  bool generalized = false;                  // pre-state array: untouched elements are arbitrary prototypes
  int ownerArr = -1, tmpl = -1;
  std::vector<KindRange> ranges;
  const Value *origin = nullptr;
  const GlobalVariable *excType = nullptr;
  int depth = 0;
};

struct Frame {
  const Function *f = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  const Instruction *pc = nullptr;
  std::unordered_map<const Value *, Val> regs;
  std::vector<int> allocas;
  const CallBase *call = nullptr;            // call site in the caller
  std::map<const BasicBlock *, std::pair<int, int>> lineage; // loop header -> entry record, iterations
};

struct Trace {
  std::shared_ptr<Trace> prev;
  std::string text;
  int depth = 0;
  ~Trace() { // avoid deep recursion
    auto p = std::move(prev);
    while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); }
  }
};

constexpr i64 ReadMark = (i64)1 << 50;       // a lock that is only held for reading
struct Guard { int r; i64 off, size; int lockR; i64 lockOff; };

struct State {
  std::vector<std::shared_ptr<Frame>> st;
  std::map<int, RegionP> mem;
  Zone z;
  std::map<Lin, Sym> defs;                   // non-zone expressions given a name (c == 0)
  std::vector<int> caught;                   // exception regions, innermost last
  int uncaught = 0;
  int inflight = -1;                         // exception being unwound
  std::vector<Lin> landmarks;
  std::vector<std::pair<int, i64>> locks;
  std::vector<Guard> guards;
  std::set<std::pair<int, int>> order;       // decided order of the addresses of two regions
  std::vector<std::pair<int, i64>> choices;  // pending choices of the current instruction
  size_t choicePos = 0;
  int zoneKept = 0;
  bool mayTerminate = false, folding = false;
  bool approx = false;                       // the state was joined, widened or folded: a violation may be spurious
  std::map<const Instruction *, int> tokens; // executions of each irx_token call
  std::vector<const Function *> pending;     // functions to run after the current ones (global ctors, entry)
  std::shared_ptr<Trace> trace;

  Frame &top() {
    auto &p = st.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }
  const Frame &ctop() const { return *st.back(); }
  Region &wr(int id) {
    auto &p = mem.at(id);
    if (p.use_count() > 1) p = std::make_shared<Region>(*p);
    return *p;
  }
  const Region *rd(int id) const { auto it = mem.find(id); return it == mem.end() ? nullptr : it->second.get(); }
};

struct SplitSign { Lin l; };                 // split into l<0, l==0, l>0
struct SplitLE { Lin l; };                   // split into l<=0, l>0
struct SplitChoice { int n; };               // split into n alternatives
struct PathEnd {};                           // infeasible or finished
struct Violation { std::string kind, msg; };
struct Incomplete { std::string what; };
struct DeferExit { const BasicBlock *from; };   // the state has left a loop
struct ThrowExc { int region; };
}
