// Transfer functions: instructions, calls, exceptions, models.
#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

namespace irx {

static bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }

// ---------------------------------------------------------------- decisions
Lin Engine::named(State &s, const Lin &l0) {
  if (l0.isConst() || s.z.representable(l0)) return l0;
  decide(s, l0);
  if (refute >= 0) {
    Lin l = l0;
    std::vector<std::pair<Sym, i64>> t = l0.t;
    for (size_t i = 0; i < t.size() && !s.z.representable(l) && !l.isConst(); i++) {
      Lin x = Lin::sym(t[i].first);
      if (pin(s, x)) l = l - Lin::sym(t[i].first).times(t[i].second) + x.times(t[i].second);
    }
    if (l.isConst() || s.z.representable(l)) return l;
  }
  s.approx = true;
  Lin key = l0; key.c = 0;
  bool neg = key.t[0].second < 0;
  if (neg) key = key.times(-1);
  auto it = s.defs.find(key);
  Sym d;
  if (it != s.defs.end()) d = it->second;
  else {
    i64 hi = s.z.ub(key), lo = s.z.lb(key);
    d = fresh(); s.z.add(d);
    if (hi < INF) s.z.constrain(d, 0, hi);
    if (lo > -INF) s.z.constrain(0, d, -lo);
    s.defs[key] = d;
  }
  Lin r = Lin::sym(d).times(neg ? -1 : 1); r.c += l0.c;
  return r;
}

// in the bounded search a symbol stands for each of a few values; false if the expression can not be made a constant
bool Engine::pin(State &s, Lin &l) {
  if (l.isConst()) return true;
  if (refute < 0) { i64 u = s.z.ub(l); if (u == s.z.lb(l)) { l = Lin(u); return true; } return false; }
  for (auto &p : l.t) if (symRegion.count(p.first) || vague.count(p.first)) return false;
  Lin r(l.c);
  for (auto &p : l.t) {
    Lin y = Lin::sym(p.first);
    i64 u = s.z.ub(y), b = s.z.lb(y), v = 0;
    if (u == b) v = u;
    else {
      bool found = false;
      if (u < INF && b > -INF && u - b < 16) { for (v = b; v < u && sign(s, y - Lin(v)) != 0; v++) {} found = true; }
      else for (i64 k : {0ll, 1ll, 2ll, 3ll, 5ll, -1ll, (i64)INT32_MAX, (i64)UINT32_MAX}) if (!found && k >= b && k <= u && sign(s, y - Lin(k)) == 0) { v = k; found = true; }
      if (!found) throw PathEnd{};
    }
    r = r + Lin(v * p.second);
  }
  l = r;
  return true;
}

// x / k rounded towards minus infinity
Lin Engine::quotient(State &s, const Lin &x0, i64 k) {
  auto fdiv = [](i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; };
  Lin x = x0;
  if (x.isConst()) return Lin(fdiv(x.c, k));
  i64 lo = s.z.lb(x), hi = s.z.ub(x);
  if (hi < INF && lo > -INF && fdiv(hi, k) - fdiv(lo, k) < 16) {
    i64 q = fdiv(lo, k), e = fdiv(hi, k);
    while (q < e && !le0(s, x - Lin(q * k + k - 1))) q++;
    return Lin(q);
  }
  if (refute >= 0 && pin(s, x)) return Lin(fdiv(x.c, k));
  return vagueIn(s, lo <= -INF ? -INF + 1 : fdiv(lo, k), hi >= INF ? INF - 1 : fdiv(hi, k));
}

int Engine::sign(State &s, Lin l) {
  if (l.isConst()) return l.c < 0 ? -1 : l.c > 0 ? 1 : 0;
  i64 u = s.z.ub(l), b = s.z.lb(l);
  if (u < 0) return -1;
  if (b > 0) return 1;
  if (u == 0 && b == 0) return 0;
  l = named(s, l);
  if (l.isConst()) return l.c < 0 ? -1 : l.c > 0 ? 1 : 0;
  u = s.z.ub(l); b = s.z.lb(l);
  if (u < 0) return -1;
  if (b > 0) return 1;
  if (u == 0 && b == 0) return 0;
  decide(s, l);
  throw SplitSign{l};
}

bool Engine::le0(State &s, Lin l) {
  if (l.isConst()) return l.c <= 0;
  if (s.z.ub(l) <= 0) return true;
  if (s.z.lb(l) > 0) return false;
  l = named(s, l);
  if (l.isConst()) return l.c <= 0;
  if (s.z.ub(l) <= 0) return true;
  if (s.z.lb(l) > 0) return false;
  decide(s, l);
  throw SplitLE{l};
}

i64 Engine::choose(State &s, int n) {
  if (n <= 1) return 0;
  if (s.choicePos < s.choices.size()) return s.choices[s.choicePos++].second;
  throw SplitChoice{n};
}

// ---------------------------------------------------------------- values
Lin Engine::norm(const Lin &l, unsigned bits) {
  if (!l.isConst() || bits >= 64 || bits == 0) return l;
  uint64_t m = ((uint64_t)1 << bits) - 1, v = (uint64_t)l.c & m;
  if (bits == 1) return Lin((i64)v);
  if (v >> (bits - 1) & 1) v |= ~m;
  return Lin((i64)v);
}

Val Engine::constant(State &s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return Val::integer(ci->getValue().getActiveBits() <= 64 ? (i64)ci->getValue().getZExtValue() : 0);
    if (ci->getBitWidth() == 1) return Val::integer(ci->isZero() ? 0 : 1);
    return Val::integer(ci->getSExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val::integer(0);
  if (isa<UndefValue>(c)) {
    if (auto *st = dyn_cast<StructType>(c->getType())) { Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>(st->getNumElements()); return a; }
    return Val();
  }
  if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::ptr(globalId(g), Lin(0));
  if (auto *f = dyn_cast<Function>(c)) { Val v; v.k = Val::Fn; v.fn = f; return v; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constant(s, ga->getAliasee());
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cs->getNumOperands(); i++) a.el->push_back(constant(s, cs->getOperand(i)));
    return a;
  }
  if (isa<ConstantAggregateZero>(c)) {
    Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>();
    if (auto *st = dyn_cast<StructType>(c->getType())) for (unsigned i = 0; i < st->getNumElements(); i++) a.el->push_back(constant(s, Constant::getNullValue(st->getElementType(i))));
    else return Val::integer(0);
    return a;
  }
  if (isa<ConstantFP>(c)) return Val::integer(freshBits(s, 64));
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gep(s, g);
    if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) {
      Val v = constant(s, cast<Constant>(ce->getOperand(0)));
      if (ce->getOpcode() == Instruction::PtrToInt && v.k == Val::Ptr) return Val::integer(toInt(s, v, 64));
      return v;
    }
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
      Val a = constant(s, cast<Constant>(ce->getOperand(0))), b = constant(s, cast<Constant>(ce->getOperand(1)));
      Lin x = toInt(s, a, 64), y = toInt(s, b, 64);
      return Val::integer(ce->getOpcode() == Instruction::Sub ? x - y : x + y);
    }
  }
  return Val::top();
}

Val Engine::get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(s, c);
  auto it = s.ctop().regs.find(v);
  if (it == s.ctop().regs.end()) throw Incomplete{"value without definition"};
  return it->second;
}

Lin Engine::toInt(State &s, const Val &v, unsigned bits) {
  switch (v.k) {
  case Val::Int: return v.e;
  case Val::Ptr: {
    auto it = regionSym.find(v.r);
    Sym y;
    if (it == regionSym.end()) { y = fresh(); regionSym[v.r] = y; symRegion[y] = v.r; } else y = it->second;
    s.z.constrain(0, y, -65536); s.z.constrain(y, 0, (i64)1 << 47);
    return Lin::sym(y) + v.e;
  }
  case Val::Undef: throw Violation{"uninitialised-value", "behaviour depends on an uninitialised value"};
  case Val::Concat: {
    bool ok = true; uint64_t r = 0; i64 pos = 0;
    for (auto &p : *v.pc) {
      if (!p.v.isConstInt() || p.off != pos) { ok = false; break; }
      uint64_t x = (uint64_t)p.v.e.c; if (p.size < 8) x &= ((uint64_t)1 << (8 * p.size)) - 1;
      r |= x << (8 * p.off); pos += p.size;
    }
    if (ok && pos * 8 >= bits) return norm(Lin((i64)r), bits);
    return vagueBits(s, bits);
  }
  default: return vagueBits(s, bits);
  }
}

static unsigned bitsOf(Type *t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }

bool Engine::compare(State &s, CmpInst::Predicate p, const Val &a, const Val &b, Type *t) {
  if (a.k == Val::Fn || b.k == Val::Fn) {
    bool eq = a.k == Val::Fn && b.k == Val::Fn && a.fn == b.fn;
    if (p == CmpInst::ICMP_EQ) return eq;
    if (p == CmpInst::ICMP_NE) return !eq;
  }
  unsigned bits = bitsOf(t);
  if (a.k == Val::Ptr && b.k == Val::Ptr && a.r == b.r) {
    int sg;
    Lin d = a.e - b.e;
    // the storage of a vector is never exhausted (growing is the standard library's business)
    auto big = [](const Lin &l) { return l.isConst() && l.c >= ((i64)1 << 43); };
    if (big(a.e) != big(b.e)) d = Lin(big(a.e) ? 1 : -1);
    switch (p) {
    case CmpInst::ICMP_EQ: return sign(s, d) == 0;
    case CmpInst::ICMP_NE: return sign(s, d) != 0;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: sg = sign(s, d); return sg < 0;
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return le0(s, d);
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return !le0(s, d);
    default: return le0(s, d.times(-1));
    }
  }
  if (a.k == Val::Ptr && b.k == Val::Ptr && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return p == CmpInst::ICMP_NE;
  if (a.k == Val::Ptr && b.k == Val::Ptr) {    // addresses of different objects: any order, but always the same one
    auto before = [&](int x, int y) {
      std::vector<int> q{x}; std::set<int> seen{x};
      while (!q.empty()) { int u = q.back(); q.pop_back(); if (u == y) return true; for (auto &o : s.order) if (o.first == u && seen.insert(o.second).second) q.push_back(o.second); }
      return false;
    };
    bool less;
    if (before(a.r, b.r)) less = true; else if (before(b.r, a.r)) less = false;
    else { less = choose(s, 2) == 0; s.order.insert(less ? std::make_pair(a.r, b.r) : std::make_pair(b.r, a.r)); }
    switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return less; default: return !less; }
  }
  if ((a.k == Val::Ptr && b.isNull()) || (b.k == Val::Ptr && a.isNull())) {
    bool aIsPtr = a.k == Val::Ptr;
    switch (p) {
    case CmpInst::ICMP_EQ: return false;
    case CmpInst::ICMP_NE: return true;
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return aIsPtr;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return !aIsPtr;
    default: break;
    }
  }
  if (a.k == Val::Top || b.k == Val::Top) { s.approx = true; return choose(s, 2) == 1; }
  auto opaque = [&](const Val &v) { if (v.k != Val::Concat) return false; i64 pos = 0; for (auto &q : *v.pc) { if (!q.v.isConstInt() || q.off != pos) return true; pos += q.size; } return pos * 8 < bits; };
  if (opaque(a) || opaque(b)) { s.approx = true; return choose(s, 2) == 1; }
  Lin x = toInt(s, a, bits), y = toInt(s, b, bits);
  Lin d = x - y;
  switch (p) {
  case CmpInst::ICMP_EQ: return sign(s, d) == 0;
  case CmpInst::ICMP_NE: return sign(s, d) != 0;
  case CmpInst::ICMP_SLT: return le0(s, d + Lin(1));
  case CmpInst::ICMP_SLE: return le0(s, d);
  case CmpInst::ICMP_SGT: return !le0(s, d);
  case CmpInst::ICMP_SGE: return !le0(s, d + Lin(1));
  default: break;
  }
  if (bits == 1) {
    i64 u = x.c & 1, v = y.c & 1;
    switch (p) { case CmpInst::ICMP_ULT: return u < v; case CmpInst::ICMP_ULE: return u <= v; case CmpInst::ICMP_UGT: return u > v; default: return u >= v; }
  }
  bool xn = le0(s, x + Lin(1)), yn = le0(s, y + Lin(1));
  if (xn != yn) {
    bool less = !xn && yn;                    // x non-negative, y huge
    return (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) ? less : !less;
  }
  switch (p) {
  case CmpInst::ICMP_ULT: return le0(s, d + Lin(1));
  case CmpInst::ICMP_ULE: return le0(s, d);
  case CmpInst::ICMP_UGT: return !le0(s, d);
  default: return !le0(s, d + Lin(1));
  }
}

Val Engine::gep(State &s, const GEPOperator *g) {
  Val base = get(s, g->getPointerOperand());
  unsigned bw = DL.getIndexSizeInBits(0);
  MapVector<Value *, APInt> var; APInt cst(bw, 0);
  if (!g->collectOffset(DL, bw, var, cst)) throw Incomplete{"address computation"};
  Lin off(cst.getSExtValue());
  for (auto &p : var) {
    Val v = get(s, p.first);
    if (v.k != Val::Int && v.k != Val::Concat) { if (v.k == Val::Undef) throw Violation{"uninitialised-value", "index is uninitialised"}; }
    off.addScaled(toInt(s, v, 64), p.second.getSExtValue());
  }
  if (base.k == Val::Int) { if (off.isConst() && off.c == 0) return base; return Val::integer(base.e + off); }
  if (base.k != Val::Ptr) return base;
  if (g->getNumIndices() == 1) {
    const Region *R = s.rd(base.r);
    if (R && R->vec && R->stride == 0) {
      i64 es = (i64)DL.getTypeAllocSize(g->getSourceElementType());
      if (es > 1) setStride(s.wr(base.r), es);
    }
  }
  base.e = base.e + off;
  return base;
}

Val Engine::binop(State &s, const BinaryOperator *b) {
  Type *t = b->getType();
  if (t->isFloatingPointTy() || t->isVectorTy()) { return Val::integer(vagueBits(s, 64)); }
  unsigned bits = bitsOf(t);
  Val va = get(s, b->getOperand(0)), vb = get(s, b->getOperand(1));
  if (b->getOpcode() == Instruction::And && va.k == Val::Fn && vb.isConstInt() && vb.e.c == 1) return Val::integer(0);   // member pointers tell functions from virtual slots by this bit
  Lin x = toInt(s, va, bits), y = toInt(s, vb, bits);
  auto single = [&](Lin &l) { if (!l.isConst() && l.t.size() <= 2) { i64 u = s.z.ub(l); if (u < INF && s.z.lb(l) == u) l = Lin(u); } };
  switch (b->getOpcode()) { case Instruction::Add: case Instruction::Sub: break; default: single(x); single(y); }
  bool pinned = false;
again:
  auto unknown = [&]() { return Val::integer(vagueBits(s, bits)); };
  auto retry = [&]() { if (refute < 0 || pinned || (x.isConst() && y.isConst())) return false; pinned = true; return pin(s, x) && pin(s, y); };
  switch (b->getOpcode()) {
  case Instruction::Add: return Val::integer(norm(x + y, bits));
  case Instruction::Sub: return Val::integer(norm(x - y, bits));
  case Instruction::Mul:
    if (x.isConst()) return Val::integer(norm(y.times(x.c), bits));
    if (y.isConst()) return Val::integer(norm(x.times(y.c), bits));
    { if (retry()) goto again; return unknown(); }
  case Instruction::SDiv: case Instruction::UDiv:
    if (y.isConst() && y.c != 0) {
      if (x.isConst()) {
        if (b->getOpcode() == Instruction::UDiv) { uint64_t m = bits < 64 ? ((uint64_t)1 << bits) - 1 : ~0ull; return Val::integer(norm(Lin((i64)(((uint64_t)x.c & m) / ((uint64_t)y.c & m))), bits)); }
        return Val::integer(x.c / y.c);
      }
      if (x.divisible(y.c)) return Val::integer(x.divBy(y.c));
      if (y.c > 0 && s.z.lb(x) >= 0) return Val::integer(quotient(s, x, y.c));
    }
    { if (retry()) goto again; return unknown(); }
  case Instruction::SRem: case Instruction::URem:
    if (y.isConst() && y.c > 0) {
      if (x.isConst() && x.c >= 0) return Val::integer(x.c % y.c);
      if (x.isConst() && b->getOpcode() == Instruction::SRem) return Val::integer(x.c % y.c);
      if (s.z.lb(x) >= 0) {
        if (s.z.ub(x) < INF && s.z.ub(x) / y.c - s.z.lb(x) / y.c < 16) { Lin q = quotient(s, x, y.c); return Val::integer(x - q.times(y.c)); }
        if (retry()) goto again;
      }
      return Val::integer(vagueIn(s, s.z.lb(x) >= 0 || b->getOpcode() == Instruction::URem ? 0 : -(y.c - 1), y.c - 1));
    }
    { if (retry()) goto again; return unknown(); }
  case Instruction::Shl:
    if (y.isConst() && y.c >= 0 && y.c < 63) return Val::integer(norm(x.times((i64)1 << y.c), bits));
    { if (retry()) goto again; return unknown(); }
  case Instruction::AShr: case Instruction::LShr:
    if (y.isConst() && y.c >= 0 && y.c < 63) {
      if (x.isConst()) {
        if (b->getOpcode() == Instruction::AShr) return Val::integer(x.c >> y.c);
        uint64_t m = bits < 64 ? ((uint64_t)1 << bits) - 1 : ~0ull; return Val::integer(norm(Lin((i64)(((uint64_t)x.c & m) >> y.c)), bits));
      }
      if (x.divisible((i64)1 << y.c) && (b->getOpcode() == Instruction::AShr || s.z.lb(x) >= 0)) return Val::integer(x.divBy((i64)1 << y.c));
      if (s.z.lb(x) >= 0 || (b->getOpcode() == Instruction::AShr && s.z.lb(x) > -INF && s.z.ub(x) < INF)) return Val::integer(quotient(s, x, (i64)1 << y.c));
    }
    { if (retry()) goto again; return unknown(); }
  case Instruction::And:
    if (x.isConst() && y.isConst()) return Val::integer(norm(Lin(x.c & y.c), bits));
    if (y.isConst() && y.c == 0) return Val::integer(0);
    if (x.isConst() && x.c == 0) return Val::integer(0);
    if (y.isConst() && y.c == -1) return Val::integer(x);
    if (y.isConst() && y.c > 0) {
      i64 k = y.c + 1;
      if ((k & y.c) == 0 && s.z.lb(x) > -INF && s.z.ub(x) < INF) {
        if (s.z.lb(x) >= 0 && s.z.ub(x) < k) return Val::integer(x);
        if ((s.z.ub(x) - s.z.lb(x)) / k < 15) { Lin q = quotient(s, x, k); return Val::integer(x - q.times(k)); }
      }
      if (retry()) goto again;
      return Val::integer(vagueIn(s, 0, y.c));
    }
    { if (retry()) goto again; return unknown(); }
  case Instruction::Or:
    if (x.isConst() && y.isConst()) return Val::integer(norm(Lin(x.c | y.c), bits));
    if (x.isConst() && x.c == 0) return Val::integer(y);
    if (y.isConst() && y.c == 0) return Val::integer(x);
    { if (retry()) goto again; return unknown(); }
  case Instruction::Xor:
    if (x.isConst() && y.isConst()) return Val::integer(norm(Lin(x.c ^ y.c), bits));
    if (y.isConst() && y.c == -1) return Val::integer(x.times(-1) - Lin(1));
    if (y.isConst() && y.c == 0) return Val::integer(x);
    if (y.isConst() && y.c == 1 && s.z.lb(x) >= 0 && s.z.ub(x) <= 1) return Val::integer(Lin(1) - x);
    { if (retry()) goto again; return unknown(); }
  default: { if (retry()) goto again; return unknown(); }
  }
}

Val Engine::castOp(State &s, const CastInst *c) {
  Val v = get(s, c->getOperand(0));
  unsigned from = bitsOf(c->getSrcTy()), to = bitsOf(c->getDestTy());
  switch (c->getOpcode()) {
  case Instruction::PtrToInt:
    if (v.k == Val::Int) return v;
    if (v.k == Val::Top || v.k == Val::Fn) return Val::integer(vagueBits(s, 64));
    return Val::integer(toInt(s, v, 64));
  case Instruction::IntToPtr: {
    if (v.k != Val::Int) return v;
    for (auto &p : v.e.t) if (p.second == 1 && symRegion.count(p.first)) return Val::ptr(symRegion[p.first], v.e - Lin::sym(p.first));
    return v;
  }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  case Instruction::ZExt: {
    Lin x = toInt(s, v, from);
    if (x.isConst()) { uint64_t m = from < 64 ? ((uint64_t)1 << from) - 1 : ~0ull; return Val::integer((i64)((uint64_t)x.c & m)); }
    if (le0(s, x + Lin(1))) { if (from < 63) return Val::integer(x + Lin((i64)1 << from)); return Val::integer(vagueBits(s, to)); }
    return Val::integer(x);
  }
  case Instruction::SExt: {
    Lin x = toInt(s, v, from);
    if (from == 1) return Val::integer(x.times(-1));
    return Val::integer(x);
  }
  case Instruction::Trunc: {
    if (v.k == Val::Undef) return v;
    if (v.k == Val::Concat) {
      for (auto &p : *v.pc) if (p.off == 0 && p.size * 8 == (i64)to) return p.v;
      return Val::integer(toInt(s, v, to));
    }
    Lin x = toInt(s, v, from);
    if (x.isConst()) return Val::integer(norm(x, to));
    if (to == 1) {
      if (s.z.lb(x) >= 0 && s.z.ub(x) <= 1) return Val::integer(sign(s, x) == 0 ? 0 : 1);
      return Val::integer(choose(s, 2));
    }
    if (to < 64 && s.z.lb(x) >= -((i64)1 << (to - 1)) && s.z.ub(x) < ((i64)1 << (to - 1))) return Val::integer(x);
    if (refute >= 0 && pin(s, x)) return Val::integer(norm(x, to));
    return Val::integer(vagueBits(s, to));
  }
  default: return Val::integer(vagueBits(s, to));
  }
}

// ---------------------------------------------------------------- names and classification
std::string Engine::name(const Function *f) {
  auto it = demangled.find(f);
  if (it != demangled.end()) return it->second;
  std::string d = demangle(f->getName().str());
  demangled[f] = d;
  return d;
}

static std::string fileOf(const Function *f) {
  if (auto *sp = f->getSubprogram()) { std::string d = sp->getDirectory().str(), n = sp->getFilename().str(); return n.empty() || n[0] == '/' ? n : d + "/" + n; }
  return "";
}

bool Engine::interesting(const Function *f) {
  auto it = interestingMemo.find(f);
  if (it != interestingMemo.end()) return it->second != 0;
  // iterative closure over the call graph
  std::set<const Function *> seen{f}; std::vector<const Function *> todo{f};
  bool res = false;
  while (!todo.empty() && !res) {
    const Function *g = todo.back(); todo.pop_back();
    std::string n = g->getName().str();
    if (starts(n, "irx_") || starts(n, "pthread_mutex") || starts(n, "pthread_rwlock") || n == "__cxa_throw") { res = true; break; }
    if (g->isDeclaration()) continue;
    if (!harnessFile.empty() && fileOf(g) == harnessFile) { res = true; break; }
    bool inRepo = !repoDir.empty() && starts(fileOf(g), repoDir.c_str());
    for (auto &bb : *g) for (auto &in : bb) {
      if (auto *cb = dyn_cast<CallBase>(&in)) {
        const Function *c = cb->getCalledFunction();
        if (!c) { if (!cb->isInlineAsm()) res = true; continue; }
        if (c->isIntrinsic()) continue;
        int m = classify(c);
        if (m == M_Noise || m == M_Skip || m == M_Terminate || (m >= M_StrCopy && m <= M_StrEq)) continue;
        if (seen.insert(c).second) todo.push_back(c);
      } else if (isa<StoreInst>(in) && inRepo) res = true;
    }
  }
  interestingMemo[f] = res;
  return res;
}

int Engine::classify(const Function *f) {
  auto it = models.find(f);
  if (it != models.end()) return it->second;
  std::string n = f->getName().str();
  static const std::map<std::string, int> exact = {
    {"irx_bool", M_Bool}, {"irx_int", M_Int}, {"irx_long", M_Long}, {"irx_assume", M_Assume}, {"irx_assert", M_Assert}, {"irx_reach", M_Reach},
    {"irx_may_terminate", M_MayTerminate}, {"irx_generalize", M_Generalize}, {"irx_kind", M_Kind}, {"irx_elem", M_ElemPtr},
    {"irx_assume_kinds", M_AssumeKinds}, {"irx_landmark", M_Landmark}, {"irx_locks", M_Locks}, {"irx_guard", M_Guard}, {"irx_token", M_Token}, {"irx_text", M_Text}, {"irx_vague", M_Vague}, {"irx_stop", M_Stop},
    {"irx_merge", M_Merge}, {"irx_keep", M_Skip}, {"irx_keepi", M_Skip},
    {"_Znwm", M_New}, {"_Znam", M_New}, {"_ZnwmSt11align_val_t", M_New}, {"malloc", M_New}, {"_ZnwmRKSt9nothrow_t", M_New},
    {"_ZdlPv", M_Delete}, {"_ZdlPvm", M_Delete}, {"_ZdaPv", M_Delete}, {"_ZdaPvm", M_Delete}, {"_ZdlPvSt11align_val_t", M_Delete}, {"_ZdlPvmSt11align_val_t", M_Delete}, {"free", M_Delete},
    {"__cxa_allocate_exception", M_ExcAlloc}, {"__cxa_free_exception", M_ExcFree}, {"__cxa_throw", M_Throw}, {"__cxa_begin_catch", M_BeginCatch},
    {"__cxa_end_catch", M_EndCatch}, {"__cxa_rethrow", M_Rethrow}, {"_ZSt17current_exceptionv", M_CurrentException},
    {"__cxa_init_primary_exception", M_InitException}, {"_ZNSt15__exception_ptr13exception_ptrC1EPv", M_ExceptionPtr}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", M_ExceptionPtr},
    {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", M_RethrowPtr},
    {"_ZSt9terminatev", M_Terminate}, {"abort", M_Terminate}, {"__clang_call_terminate", M_Terminate}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", M_Terminate}, {"__cxa_pure_virtual", M_Terminate},
    {"_ZSt19uncaught_exceptionsv", M_UncaughtExceptions}, {"_ZSt18uncaught_exceptionv", M_UncaughtException},
    {"pthread_mutex_lock", M_Lock}, {"pthread_mutex_unlock", M_Unlock}, {"pthread_mutex_trylock", M_TryLock},
    {"pthread_rwlock_wrlock", M_Lock}, {"pthread_rwlock_unlock", M_Unlock}, {"pthread_rwlock_rdlock", M_ReadLock}, {"__assert_fail", M_AssertFail},
    {"__cxa_guard_acquire", M_GuardAcquire}, {"__cxa_guard_release", M_GuardRelease}, {"__cxa_guard_abort", M_GuardRelease},
    {"_ZNKSt9type_infoeqERKS_", M_TypeEq}, {"_ZNKSt9type_info4nameEv", M_TypeName},
    {"strlen", M_Strlen}, {"strcmp", M_Strcmp}, {"memcmp", M_Memcmp}, {"bcmp", M_Memcmp}, {"__cxa_atexit", M_Atexit},
    {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", M_Skip}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", M_Skip},
    {"_ZNSt9exceptionD2Ev", M_Skip}, {"_ZNSt9exceptionD1Ev", M_Skip}, {"_ZNSt13runtime_errorD2Ev", M_Skip}, {"_ZNSt13runtime_errorD1Ev", M_Skip},
    {"_ZNSt8ios_base4InitC1Ev", M_Skip}, {"_ZNSt8ios_base4InitD1Ev", M_Skip},
  };
  int m = M_None;
  auto e = exact.find(n);
  if (e != exact.end()) m = !f->isDeclaration() && !harnessFile.empty() && fileOf(f) == harnessFile ? (int)M_Inline : e->second;   // a harness may define what a C function does
  else {
    ItaniumPartialDemangler d;
    std::string ctx, base, params;
    if (!d.partialDemangle(n.c_str()) && d.isFunction()) {
      size_t sz = 0; char *p;
      if ((p = d.getFunctionDeclContextName(nullptr, &sz))) { ctx = p; free(p); }
      sz = 0; if ((p = d.getFunctionBaseName(nullptr, &sz))) { base = p; free(p); }
      sz = 0; if ((p = d.getFunctionParameters(nullptr, &sz))) { params = p; free(p); }
    } else {
      // names the demangler cannot handle (constrained templates): use the raw encoding
      static const std::pair<const char *, const char *> raw[] = {
        {"_ZNSt6ranges", "std::ranges"}, {"_ZNKSt6ranges", "std::ranges"}, {"_ZNSt8__format", "std::__format"}, {"_ZNKSt8__format", "std::__format"},
        {"_ZNSt16basic_format_arg", "std::basic_format_arg"}, {"_ZN3fmt", "fmt::"}, {"_ZNK3fmt", "fmt::"}};
      for (auto &r : raw) if (starts(n, r.first)) ctx = r.second;
    }
    bool harness = !harnessFile.empty() && fileOf(f) == harnessFile;
    // entities local to a function template: the context begins with the return type of that function
    if (starts(n, "_ZZ")) { size_t q = n.find_first_not_of("Z", 1); if (q != std::string::npos && n[q] == 'N') q = n.find_first_not_of("KOR", q + 1); if (q != std::string::npos) { if (!n.compare(q, 8, "7mimicpp")) ctx = "mimicpp"; else if (!n.compare(q, 4, "3fmt")) ctx = "fmt::"; } }
    // a formatting backend which is part of a harness is interpreted, together with what the library adds to it
    if (starts(ctx, "fmt::")) { std::string file = fileOf(f); if (has(file, "/stubs_fmt/") || (!repoDir.empty() && starts(file, repoDir.c_str()))) ctx = "fmt"; }
    if (starts(ctx, "std::__cxx11::basic_string<") && has(ctx, "irx_real_allocator")) m = M_Inline;
    else if (starts(ctx, "std::__cxx11::basic_string<")) {
      bool isConst = starts(n, "_ZNK");
      if (!base.empty() && base[0] == '~') m = M_Skip;
      else if (has(base, "basic_string")) {
        if (starts(params, "(char const*")) m = M_StrNew;
        else if (has(params, "> const&)")) m = M_StrCopy;
        else if (has(params, ">&&)")) m = M_StrMove;
        else m = M_StrNew;
      } else if (base == "operator=") m = has(params, "> const&)") ? M_StrCopy : has(params, ">&&)") ? M_StrMove : M_StrSelf;
      else if (isConst) m = M_Noise;
      else m = f->getReturnType()->isPointerTy() && (base == "append" || base == "operator+=" || base == "assign" || base == "insert" || base == "replace" || base == "erase") ? M_StrSelf : base == "swap" || f->getReturnType()->isVoidTy() ? M_StrVoid : M_Noise;
    } else if (starts(ctx, "std::basic_ostream") || starts(ctx, "std::basic_ios") || starts(ctx, "std::ios_base") || starts(ctx, "std::basic_istream") || starts(ctx, "std::basic_iostream") ||
               starts(ctx, "std::__cxx11::basic_ostringstream") || starts(ctx, "std::__cxx11::basic_stringstream") || starts(ctx, "std::__cxx11::basic_istringstream") || starts(ctx, "std::locale") || starts(ctx, "std::basic_streambuf") ||
               starts(ctx, "std::__cxx11::basic_stringbuf") || starts(ctx, "std::ostreambuf_iterator") || starts(ctx, "std::__format") || starts(ctx, "std::basic_format") || starts(ctx, "std::formatter") ||
               starts(ctx, "fmt::") || starts(ctx, "std::runtime_error") || starts(ctx, "std::invalid_argument") || starts(ctx, "std::logic_error") || starts(ctx, "std::out_of_range")) {
      m = !base.empty() && base[0] == '~' ? M_Skip : M_Noise;
    } else if (ctx == "std" || ctx.empty()) {
      static const std::set<std::string> free_noise = {"format", "format_to", "format_to_n", "formatted_size", "vformat", "vformat_to", "make_format_args", "endl", "flush", "to_string", "getline"};
      std::string b0 = base.substr(0, base.find('<'));
      if (ctx == "std" && (free_noise.count(b0) || (starts(base, "operator<<") && has(params, "ostream")))) m = M_Noise;
      if (ctx == "std" && has(n, "basic_string") && starts(base, "operator") && has(params, "basic_string<")) m = has(base, "operator+") ? M_StrNew : (starts(base, "operator==") ? M_StrEq : M_Noise);
      if (ctx == "std" && starts(base, "__throw_")) m = M_StdThrow;
    }
    if (has(ctx, "_Vector_impl_data") && (base == "_Vector_impl_data")) m = f->arg_size() == 1 ? M_VecInit : M_VecMove;
    if (starts(ctx, "std::_Vector_base<")) {
      if (base == "_M_create_storage") m = M_VecCreateStorage;
      if (base == "_M_allocate") m = M_VecAllocate;
      if (base == "_M_deallocate") m = M_VecDeallocate;
    }
    if (ctx == "__gnu_cxx" && base == "__is_single_threaded") m = M_SingleThreaded;
    if (ctx == "mimicpp" && base == "unreachable") m = M_Unreachable;
    if (harness) m = M_Inline;
    if (m == M_None && !f->isDeclaration()) {
      m = M_Inline;
      models[f] = m;                           // breaks recursion in interesting()
      if (!base.empty() && base[0] == '~' && starts(ctx, "std::") && boring(f)) m = M_Skip;
      else if (f->arg_size() && f->getArg(0)->hasStructRetAttr()) {
        Type *t = f->getArg(0)->getParamStructRetType();
        if (t && t->isStructTy() && cast<StructType>(t)->hasName() && starts(cast<StructType>(t)->getName().str(), "class.std::__cxx11::basic_string") && boring(f) && !harness) m = M_StrNew;
      }
    }
  }
  models[f] = m;
  return m;
}

// ---------------------------------------------------------------- positions and reports
std::string Engine::where(State &s, std::string *file, unsigned *line, std::string *func, bool repoOnly) {
  for (int pass = 0; pass < 2; pass++) {
    for (size_t i = s.st.size(); i-- > 0;) {
      const Frame &f = *s.st[i];
      std::string fn = fileOf(f.f);
      bool inRepo = !repoDir.empty() && starts(fn, repoDir.c_str());
      bool inHarness = fn == harnessFile;
      if (!(inRepo || (!repoOnly && inHarness) || (pass == 1))) continue;
      const Instruction *pc = f.pc;
      unsigned ln = 0;
      if (pc) { if (auto &dl = pc->getDebugLoc()) { ln = dl.getLine(); if (auto *sc = dl.getScope()) { auto *sf = dyn_cast<DIScope>(sc); if (sf) { std::string nn = sf->getFilename().str(); if (!nn.empty()) fn = nn[0] == '/' ? nn : sf->getDirectory().str() + "/" + nn; } } } }
      if (!ln && f.f->getSubprogram()) ln = f.f->getSubprogram()->getLine();
      if (file) *file = fn;
      if (line) *line = ln;
      if (func) *func = name(f.f);
      return fn + ":" + std::to_string(ln);
    }
    if (pass == 0 && repoOnly) { return where(s, file, line, func, false); }
  }
  return "?";
}

void Engine::note(State &s, const std::string &t) {
  auto n = std::make_shared<Trace>();
  n->prev = s.trace; n->depth = s.trace ? s.trace->depth + 1 : 0;
  n->text = where(s) + ": " + t;
  s.trace = n;
}

std::vector<std::string> Engine::traceOf(State &s) {
  std::vector<std::string> r;
  int k = 0;
  for (auto p = s.trace; p && k < 60; p = p->prev, k++) r.push_back(p->text);
  std::reverse(r.begin(), r.end());
  for (size_t i = s.st.size(); i-- > 0;) {
    std::string fn = fileOf(s.st[i]->f);
    if ((!repoDir.empty() && starts(fn, repoDir.c_str())) || fn == harnessFile) {
      unsigned ln = 0; if (s.st[i]->pc && s.st[i]->pc->getDebugLoc()) ln = s.st[i]->pc->getDebugLoc().getLine();
      r.push_back("in " + name(s.st[i]->f).substr(0, 300) + " (" + fn + ":" + std::to_string(ln) + ")");
    }
  }
  return r;
}

void Engine::violation(State &s, const std::string &kind, const std::string &msg) {
  std::string file, func; unsigned line = 0;
  where(s, &file, &line, &func, true);
  for (auto &v : violations) if (v.id == kind && v.file == file && v.line == line && v.detail == msg) { v.approx = v.approx && s.approx; refuted = refuted || !s.approx; return; }
  refuted = refuted || !s.approx;
  Obligation o; o.approx = s.approx; o.id = kind; o.file = file; o.line = line; o.func = func; o.violated = true; o.detail = msg; o.trace = traceOf(s);
  violations.push_back(o);
}

// ---------------------------------------------------------------- calls
void Engine::pushFrame(State &s, const Function *f, std::vector<Val> args, const CallBase *cb) {
  if (s.st.size() > 400) throw Incomplete{"call depth"};
  auto fr = std::make_shared<Frame>();
  fr->f = f; fr->bb = &f->getEntryBlock(); fr->pc = &*fr->bb->begin(); fr->call = cb;
  unsigned i = 0;
  for (auto &a : f->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (a.hasByValAttr()) {
      Type *t = a.getParamByValType();
      int r = newRegion(s, Region::Stack, (i64)DL.getTypeAllocSize(t), &a);
      fr->allocas.push_back(r);
      copyBytes(s, Val::ptr(r, Lin(0)), v, (i64)DL.getTypeAllocSize(t));
      v = Val::ptr(r, Lin(0));
    }
    fr->regs[&a] = v; i++;
  }
  std::string fn = fileOf(f);
  functionsSeen.insert(f->getName().str());
  if (!repoDir.empty() && starts(fn, repoDir.c_str())) { repoFunctions.insert(name(f)); }
  s.st.push_back(fr);
  if (!repoDir.empty() && (starts(fn, repoDir.c_str()) || fn == harnessFile) && f->getSubprogram()) {
    auto n = std::make_shared<Trace>(); n->prev = s.trace; n->depth = s.trace ? s.trace->depth + 1 : 0;
    n->text = fn + ":" + std::to_string(f->getSubprogram()->getLine()) + ": enter " + name(f).substr(0, 160);
    s.trace = n;
  }
  // entering a block that is a loop header cannot happen: entry blocks have no predecessors
}

void Engine::finishCall(State &s, const CallBase *cb, const Val *v) {
  Frame &f = s.top();
  if (v && !cb->getType()->isVoidTy()) f.regs[cb] = *v;
  if (auto *inv = dyn_cast<InvokeInst>(cb)) goTo(s, inv->getNormalDest());
  else advance(s);
}

void Engine::ret(State &s, const Val *v) {
  Frame &f = s.top();
  for (int a : f.allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) s.mem.erase(it); }
  const CallBase *cb = f.call;
  s.st.pop_back();
  if (s.st.empty()) {
    if (s.pending.empty()) { paths++; throw PathEnd{}; }
    const Function *n = s.pending.front(); s.pending.erase(s.pending.begin());
    pushFrame(s, n, {}, nullptr);
    return;
  }
  finishCall(s, cb, v);
}

void Engine::call(State &s, const CallBase *cb) {
  if (cb->isInlineAsm()) { Val v = noiseResult(s, cb->getType(), {}); finishCall(s, cb, &v); return; }
  const Function *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!f) {
    if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  }
  if (!f) {
    Val c = get(s, cb->getCalledOperand());
    if (c.k == Val::Fn) f = c.fn;
    else if (c.k == Val::Undef) throw Violation{"uninitialised-pointer", "call through an uninitialised pointer"};
    else if (c.isNull()) throw Violation{"null-dereference", "call through a null function pointer"};
    else throw Incomplete{"indirect call to an unknown function"};
  }
  std::vector<Val> a;
  for (auto &u : cb->args()) a.push_back(u->getType()->isMetadataTy() ? Val() : get(s, u.get()));
  if (f->isIntrinsic()) { if (intrinsic(s, cb, f, a)) return; }
  int m = classify(f);
  if (m == M_Inline) { pushFrame(s, f, std::move(a), cb); return; }
  if (m == M_None) {
    if (!f->isDeclaration()) { pushFrame(s, f, std::move(a), cb); return; }
    externals[name(f)]++;
    noise(s, cb, f, a);
    return;
  }
  modelCall(s, cb, f, m, a);
}

Val Engine::noiseResult(State &s, Type *t, const std::vector<Val> &a) {
  if (t->isVoidTy()) return Val();
  if (auto *st = dyn_cast<StructType>(t)) {
    Val g; g.k = Val::Agg; g.el = std::make_shared<std::vector<Val>>();
    for (auto *e : st->elements()) g.el->push_back(noiseResult(s, e, a));
    return g;
  }
  if (t->isPointerTy()) { return Val::top(); }
  if (t->isIntegerTy()) return Val::integer(freshBits(s, t->getIntegerBitWidth()));
  return Val::integer(freshBits(s, 64));
}

void Engine::noise(State &s, const CallBase *cb, const Function *f, std::vector<Val> &a) {
  Val r = noiseResult(s, cb->getType(), a);    // may split: no effects before
  if (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet)) {
    Type *t = cb->getParamStructRetType(0);
    i64 n = (i64)DL.getTypeAllocSize(t);
    bool str = t->isStructTy() && cast<StructType>(t)->hasName() && starts(cast<StructType>(t)->getName().str(), "class.std::__cxx11::basic_string");
    Lin tok = Lin::sym(fresh());
    Loc l = resolve(s, a[0]);
    writeCells(cellsOf(s, l), l.off, n, str ? Val::integer(tok) : Val::integer(tok), false, true);
  } else {
    // objects handed to unmodelled code by mutable pointer become opaque when they have no known content
    for (unsigned i = 0; i < a.size(); i++) {
      if (a[i].k != Val::Ptr || !a[i].e.isConst()) continue;
      auto it = s.mem.find(a[i].r);
      if (it != s.mem.end() && it->second->kind == Region::Stack && it->second->flat.empty() && it->second->stride == 0) s.wr(a[i].r).kind = Region::Opaque;
    }
  }
  finishCall(s, cb, &r);
}

int Engine::typeId(const GlobalVariable *g) { return 100 + globalId(g); }

bool Engine::typeMatches(const GlobalVariable *thrown, const GlobalVariable *caught) {
  if (thrown == caught) return true;
  if (!thrown || !thrown->hasInitializer()) {
    // standard library types: known hierarchy of the exceptions used here
    if (!thrown) return false;
    static const std::map<std::string, std::vector<std::string>> bases = {
      {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}}, {"_ZTISt11logic_error", {"_ZTISt9exception"}},
      {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
      {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt18bad_variant_access", {"_ZTISt9exception"}}, {"_ZTISt19bad_optional_access", {"_ZTISt9exception"}}};
    auto it = bases.find(thrown->getName().str());
    if (it == bases.end()) return false;
    for (auto &b : it->second) if (b == caught->getName()) return true;
    return false;
  }
  auto *cs = dyn_cast<ConstantStruct>(thrown->getInitializer());
  if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++)
    if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI") && typeMatches(b, caught)) return true;
  return false;
}

void Engine::doThrow(State &s, int exc) {
  s.inflight = exc; s.uncaught++;
  unwind(s);
}

// continue unwinding from the current top frame (whose pc is the throwing call)
void Engine::unwind(State &s) {
  const Region *E = s.rd(s.inflight);
  const GlobalVariable *ty = E ? E->excType : nullptr;
  for (;;) {
    if (s.st.empty()) { violation(s, "uncaught-exception", "exception leaves the analysed entry"); throw PathEnd{}; }
    Frame &f = s.top();
    if (auto *inv = dyn_cast<InvokeInst>(f.pc)) {
      const LandingPadInst *lp = inv->getLandingPadInst();
      int sel = 0; bool take = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && true; i++) {
        if (!lp->isCatch(i)) { take = true; sel = -1; break; }
        Constant *c = lp->getClause(i)->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) { take = true; sel = 1; break; }
        auto *g = dyn_cast<GlobalVariable>(c);
        if (g && typeMatches(ty, g)) { take = true; sel = typeId(g); break; }
      }
      if (take) {
        Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>();
        a.el->push_back(Val::ptr(s.inflight, Lin(0))); a.el->push_back(Val::integer(sel));
        f.regs[lp] = a;
        goTo(s, inv->getUnwindDest());
        return;
      }
    }
    if (f.f->doesNotThrow() && !f.f->hasFnAttribute("irx-throws")) {
      if (!s.mayTerminate) violation(s, "terminate", "exception leaves a noexcept function: std::terminate");
      else reached["terminated"]++;
      throw PathEnd{};
    }
    for (int a : f.allocas) s.mem.erase(a);
    s.st.pop_back();
  }
}

static std::string constString(const Value *v) {
  StringRef r;
  if (auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts())) if (g->hasInitializer()) if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) if (cd->isString()) { r = cd->getAsString(); std::string s = r.str(); while (!s.empty() && s.back() == 0) s.pop_back(); return s; }
  return "";
}

bool Engine::fromLiteral(const Function *f) {
  std::string d = name(f);
  auto p = d.rfind("(char const*");
  return p != std::string::npos && d.find("basic_string") != std::string::npos && (d.compare(p, std::string::npos, "(char const*)") == 0 || d.compare(p, std::string::npos, "(char const*, std::allocator<char> const&)") == 0);
}

static bool stringAt(Engine &E, const Val &v, std::string &out) {
  if (v.k != Val::Ptr || !v.e.isConst()) return false;
  auto it = E.regionGlobal.find(v.r);
  if (it == E.regionGlobal.end() || !it->second->isConstant() || !it->second->hasInitializer()) return false;
  if (it->second->getInitializer()->isNullValue()) { out = ""; return true; }
  auto *cd = dyn_cast<ConstantDataSequential>(it->second->getInitializer());
  if (!cd || !cd->isString()) return false;
  std::string s = cd->getAsString().str();
  if (v.e.c < 0 || v.e.c > (i64)s.size()) return false;
  out = std::string(s.c_str() + v.e.c);
  return true;
}

void Engine::modelCall(State &s, const CallBase *cb, const Function *f, int m, std::vector<Val> &a) {
  auto done = [&](Val v = Val()) { finishCall(s, cb, &v); };
  auto vecField = [&](int i, i64 d) { Val q = a[i]; q.e.c += d; return q; };
  Type *P = PointerType::get(M.getContext(), 0);
  const i64 BIG = (i64)1 << 44;
  switch (m) {
  case M_Noise: noise(s, cb, f, a); return;
  case M_Skip: {
    Val r = cb->getType()->isVoidTy() ? Val() : (cb->getType()->isPointerTy() && !a.empty() ? a[0] : noiseResult(s, cb->getType(), a));
    done(r); return;
  }
  case M_Bool: done(Val::integer(choose(s, 2))); return;
  case M_Int: { Lin lo = toInt(s, a[0], 32), hi = toInt(s, a[1], 32); Sym y = fresh(); Lin l = Lin::sym(y);
    s.z.constrain(y, 0, INT32_MAX); s.z.constrain(0, y, -(i64)INT32_MIN);
    if (!s.z.assumeLE0(lo - l) || !s.z.assumeLE0(l - hi)) throw PathEnd{};
    done(Val::integer(l)); return; }
  case M_Long: { Lin lo = toInt(s, a[0], 64), hi = toInt(s, a[1], 64); Sym y = fresh(); Lin l = Lin::sym(y);
    if (!s.z.assumeLE0(lo - l) || !s.z.assumeLE0(l - hi)) throw PathEnd{};
    done(Val::integer(l)); return; }
  case M_Token: {
    auto key = std::make_pair((const Instruction *)cb, s.tokens[cb]++);
    auto it = tokenSyms.find(key);
    if (it == tokenSyms.end()) { it = tokenSyms.insert({key, fresh()}).first; rigid.insert(it->second); }
    Sym y = it->second;
    s.z.constrain(y, 0, INT32_MAX); s.z.constrain(0, y, -(i64)INT32_MIN); done(Val::integer(Lin::sym(y))); return; }
  case M_Vague: s.approx = true; done(Val()); return;   // from here on the harness no longer knows what happens
  case M_Text: {                                // the literal a string has been made from, if known
    Val r = Val::integer(0);
    if (a[0].k == Val::Ptr) {
      Loc l = resolve(s, a[0]); Cells &c = cellsOf(s, l); auto it = c.find(l.off);
      if (it != c.end() && it->second.wide && it->second.v.isConstInt()) for (auto &x : literals) if (x.second.first == it->second.v.e.c) r = x.second.second;
    }
    done(r); return; }
  case M_Assume: { Lin l = toInt(s, a[0], 32); if (sign(s, l) == 0) throw PathEnd{}; done(); return; }
  case M_Assert: {
    Lin l = toInt(s, a[0], 32);
    std::string id = constString(cb->getArgOperand(1));
    bool ok = sign(s, l) != 0;
    Obligation &o = obligations[id];
    if (o.id.empty()) { o.id = id; if (cb->getDebugLoc()) o.line = cb->getDebugLoc().getLine(); }
    o.checked++;
    if (!ok && o.violated && !s.approx) { o.approx = false; refuted = true; }
    if (!ok && !o.violated) { o.violated = true; refuted = refuted || !s.approx; o.approx = s.approx; where(s, &o.file, nullptr, &o.func, true); o.trace = traceOf(s); if (getenv("IRX_DUMP")) { Canon c = canon(s, 0); for (auto &f : s.st) for (auto &r : f->regs) if (r.second.k == Val::Int) errs() << f->f->getName().substr(0, 30) << " " << *r.first << " = " << r.second.e.str() << "\n"; for (auto &m : s.mem) for (auto &q : m.second->flat) errs() << "M" << m.first << "+" << q.first << ":" << q.second.size << " k" << (int)q.second.v.k << (q.second.zfill ? "z" : "") << " = " << q.second.v.e.str() << "\n"; for (auto &d : s.defs) errs() << "def s" << d.second << " = " << d.first.str() << "\n"; for (int i = 0; i < s.z.n(); i++) for (int j = 0; j < s.z.n(); j++) if (i != j && s.z.at(i, j) < INF) errs() << "s" << s.z.ids[i] << "-s" << s.z.ids[j] << "<=" << s.z.at(i, j) << " "; errs() << "\n"; } }
    if (!ok) throw PathEnd{};
    done(); return;
  }
  case M_Reach: reached[constString(cb->getArgOperand(0))]++; done(); return;
  case M_MayTerminate: s.mayTerminate = toInt(s, a[0], 32).c != 0; done(); return;
  case M_Stop: paths++; throw PathEnd{};
  case M_Merge: {
    // finish the call first so that the merge point is after it
    done(); if (refute >= 0) return;
    prune(s); fold(s);
    if (!mergePoint(s, "merge")) { subsumed++; throw PathEnd{}; }
    return;
  }
  case M_Locks: done(Val::integer((i64)s.locks.size())); return;
  case M_Guard: {
    auto g = flatAddr(s, a[0]); i64 n = toInt(s, a[1], 64).c;
    // without a mutex of its own: any mutex inside the object
    std::pair<int, i64> l{-1, 0};
    if (!a[2].isNull()) l = flatAddr(s, a[2]);
    Guard q{g.first, g.second, n, l.first, l.second};
    s.guards.push_back(q); done(); return;
  }
  case M_Generalize: {
    i64 n = toInt(s, a[1], 64).c;
    i64 pick = refute > 0 ? choose(s, refute + 1) : 0;
    if (pick) pick = refute + 1 - pick;                // smallest first
    std::vector<std::pair<int, i64>> ends;
    auto v = findVecArrays(s, a[0], n, &ends);
    if (v.size() != 1) throw Incomplete{"generalize: expected exactly one array in the object, found " + std::to_string(v.size())};
    int r = v[0];
    if (!s.rd(r)->stride || s.rd(r)->elems.empty()) throw Incomplete{"generalize: the array has no prototype element"};
    // build prototypes from the elements, in index order
    std::vector<Elem> el = s.rd(r)->elems;
    std::sort(el.begin(), el.end(), [](const Elem &x, const Elem &y) { return x.idx.c < y.idx.c; });
    const Val endv = s.rd(ends[0].first)->flat.at(ends[0].second).v;
    i64 count = (endv.e.c) / s.rd(r)->stride;
    int kind = 0;
    std::set<int> gone;
    for (auto &e : el) {
      if (!e.idx.isConst()) throw Incomplete{"generalize: symbolic element"};
      if (e.idx.c >= count) continue;
      Elem e2 = e; e2.kind = kind++;
      std::vector<int> todo; std::set<int> seen;
      std::function<void(const Cells &)> scan = [&](const Cells &c) {
        for (auto &q : c) {
          const Val &x = q.second.v;
          if (x.k != Val::Ptr || x.r == r) continue;
          auto it = s.mem.find(x.r);
          if (it == s.mem.end() || it->second->kind != Region::Heap || it->second->depth == 78) continue;
          if (seen.insert(x.r).second) todo.push_back(x.r);
        }
      };
      scan(e2.cells);
      for (size_t i = 0; i < todo.size(); i++) {
        if (s.rd(todo[i])->tmpl < 0) s.wr(todo[i]).tmpl = nextTmpl++;
        scan(s.rd(todo[i])->flat);
        for (auto &x : s.rd(todo[i])->elems) scan(x.cells);
        gone.insert(todo[i]);
      }
      ProtoP p = makeProto(s, r, e2, todo);
      s.wr(r).protos.push_back(p);
    }
    for (int g : gone) s.mem.erase(g);
    { Region &R = s.wr(r); R.elems.clear(); }
    Region &R2 = s.wr(r);
    R2.hasSum = true; R2.generalized = true; R2.sumHiKnown = true; s.folding = refute < 0;
    Sym ns = fresh(); Lin N = Lin::sym(ns);
    s.z.constrain(0, ns, 0); s.z.constrain(ns, 0, (i64)1 << 30);
    if (refute > 0) N = Lin(pick);
    R2.sumHi = N;
    i64 st = R2.stride;
    Region &O = s.wr(ends[0].first);
    O.flat[ends[0].second].v = Val::ptr(r, N.times(st));
    done(Val::integer(N)); return;
  }
  case M_Kind: case M_ElemPtr: {
    i64 n = toInt(s, a[1], 64).c;
    auto v = findVecArrays(s, a[0], n, nullptr);
    if (v.size() != 1) throw Incomplete{"kind: array not found"};
    Val p = Val::ptr(v[0], toInt(s, a[2], 64).times(s.rd(v[0])->stride));
    Loc l = resolve(s, p);
    if (m == M_ElemPtr) { done(p); return; }
    done(Val::integer(s.rd(l.r)->elems[l.elem].kind)); return;
  }
  case M_AssumeKinds: {
    i64 n = toInt(s, a[1], 64).c;
    auto v = findVecArrays(s, a[0], n, nullptr);
    if (v.size() != 1) throw Incomplete{"kinds: array not found"};
    KindRange k{toInt(s, a[2], 32), toInt(s, a[3], 32), (unsigned)toInt(s, a[4], 32).c};
    s.wr(v[0]).ranges.push_back(k);
    // elements already present must satisfy it
    size_t cnt = s.rd(v[0])->elems.size();
    for (size_t i = 0; i < cnt; i++) {
      Elem e = s.rd(v[0])->elems[i];
      if (e.kind < 0) continue;
      // (decisions may split; the range is then pushed again on the retry of a fresh copy)
      i64 lo = s.z.ub(k.lo - e.idx), hi = s.z.ub(e.idx + Lin(1) - k.hi);
      bool in = lo <= 0 && hi <= 0;
      if (in && !(k.mask >> e.kind & 1)) throw PathEnd{};
    }
    done(); return;
  }
  case M_Landmark: {
    // argument: address of an object inside a cloned prototype
    if (a[0].k != Val::Ptr) throw Incomplete{"landmark"};
    ensureGlobal(s, a[0].r);
    if (regionGlobal.count(a[0].r)) landmarkGlobals.insert(a[0].r); else s.wr(a[0].r).depth = 77;
    done(); return;
  }
  case M_New: {
    Lin n = toInt(s, a[0], 64);
    int r = newRegion(s, Region::Heap, n.isConst() ? n.c : -1, cb);
    done(Val::ptr(r, Lin(0))); return;
  }
  case M_Delete: {
    if (a[0].isNull()) { done(); return; }
    if (a[0].k == Val::Ptr) {
      const Region *R = s.rd(a[0].r);
      if (!R) throw Incomplete{"delete of a vanished object"};
      if (!R->alive) throw Violation{"double-free", "memory released twice"};
      Region &W = s.wr(a[0].r); W.alive = false; W.flat.clear(); W.elems.clear(); W.modified = true;
    }
    done(); return;
  }
  case M_VecInit: case M_VecMove: {
    int r = newRegion(s, Region::Heap, -1, cb); s.wr(r).vec = true;
    if (m == M_VecInit) {
      storeRaw(s, a[0], Val::ptr(r, Lin(0)), 8); storeRaw(s, vecField(0, 8), Val::ptr(r, Lin(0)), 8); storeRaw(s, vecField(0, 16), Val::ptr(r, Lin(BIG)), 8);
    } else {
      for (int i = 0; i < 3; i++) {
        Val v = load(s, vecField(1, 8 * i), P); storeRaw(s, vecField(0, 8 * i), v, 8);
        storeRaw(s, vecField(1, 8 * i), Val::ptr(r, Lin(i == 2 ? BIG : 0)), 8);
      }
    }
    done(); return;
  }
  case M_VecCreateStorage: {
    int r = newRegion(s, Region::Heap, -1, cb); s.wr(r).vec = true;
    storeRaw(s, a[0], Val::ptr(r, Lin(0)), 8); storeRaw(s, vecField(0, 8), Val::ptr(r, Lin(0)), 8); storeRaw(s, vecField(0, 16), Val::ptr(r, Lin(BIG)), 8);
    done(); return;
  }
  case M_VecAllocate: { int r = newRegion(s, Region::Heap, -1, cb); s.wr(r).vec = true; done(Val::ptr(r, Lin(0))); return; }
  case M_VecDeallocate: done(); return;
  case M_ExcAlloc: { int r = newRegion(s, Region::Heap, toInt(s, a[0], 64).c, cb); done(Val::ptr(r, Lin(0))); return; }
  case M_ExcFree: done(); return;
  case M_Throw: {
    if (a[0].k != Val::Ptr) throw Incomplete{"throw"};
    s.wr(a[0].r).excType = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts());
    note(s, "throw");
    doThrow(s, a[0].r); return;
  }
  case M_StdThrow: {
    int r = newRegion(s, Region::Heap, 16, cb);
    static const std::map<std::string, std::string> ty = {{"__throw_length_error", "_ZTISt12length_error"}, {"__throw_out_of_range", "_ZTISt12out_of_range"}, {"__throw_bad_variant_access", "_ZTISt18bad_variant_access"}};
    const GlobalVariable *g = nullptr; std::string n = name(f);
    for (auto &p : ty) if (has(n, p.first.c_str())) g = M.getNamedGlobal(p.second);
    if (has(n, "bad_variant_access") || has(n, "bad_optional_access") || has(n, "out_of_range")) { s.mem.erase(r); throw Violation{"library-misuse", "reaches " + n}; }
    s.wr(r).excType = g;
    note(s, "throw " + n);
    doThrow(s, r); return;
  }
  case M_BeginCatch: {
    if (a[0].k != Val::Ptr) throw Incomplete{"begin_catch"};
    s.caught.push_back(a[0].r); s.uncaught--; s.inflight = -1;
    done(a[0]); return;
  }
  case M_EndCatch: if (!s.caught.empty()) s.caught.pop_back(); done(); return;
  case M_Rethrow: {
    if (s.caught.empty()) { violation(s, "terminate", "rethrow without a current exception"); throw PathEnd{}; }
    int e = s.caught.back();
    // the handler's end_catch runs during unwinding as a cleanup
    note(s, "rethrow");
    doThrow(s, e); return;
  }
  case M_CurrentException: {
    Val v = s.caught.empty() ? Val::integer(0) : Val::ptr(s.caught.back(), Lin(0));
    storeRaw(s, a[0], v, 8); done(); return;
  }
  case M_InitException:                          // make_exception_ptr
    if (a[0].k == Val::Ptr) s.wr(a[0].r).excType = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts());
    done(a[0]); return;
  case M_ExceptionPtr: storeRaw(s, a[0], a[1], 8); done(); return;
  case M_RethrowPtr: {
    Val v = load(s, a[0], P);
    if (v.k != Val::Ptr) throw Violation{"null-dereference", "rethrow of a null exception pointer"};
    note(s, "rethrow_exception");
    doThrow(s, v.r); return;
  }
  case M_Terminate:
    if (!s.mayTerminate) violation(s, "terminate", "std::terminate/abort is reached (" + name(f) + ")");
    else reached["terminated"]++;
    throw PathEnd{};
  case M_AssertFail:
    violation(s, "assertion", "library assertion can fail: " + constString(cb->getArgOperand(0)));
    throw PathEnd{};
  case M_Unreachable:
    violation(s, "unreachable", "code marked unreachable can be reached");
    throw PathEnd{};
  case M_UncaughtExceptions: done(Val::integer((i64)s.uncaught)); return;
  case M_UncaughtException: done(Val::integer(s.uncaught ? 1 : 0)); return;
  case M_Lock: {
    auto l = flatAddr(s, a[0]);
    for (auto &x : s.locks) if (x == l || x == std::make_pair(l.first, l.second | ReadMark)) { throw Violation{"double-lock", "mutex acquired while already held by this thread"}; }
    s.locks.push_back(l); note(s, "lock"); done(Val::integer(0)); return;
  }
  case M_ReadLock: {
    auto l = flatAddr(s, a[0]);
    for (auto &x : s.locks) if (x == l || x == std::make_pair(l.first, l.second | ReadMark)) { throw Violation{"double-lock", "mutex acquired while already held by this thread"}; }
    s.locks.push_back({l.first, l.second | ReadMark}); note(s, "lock (shared)"); done(Val::integer(0)); return;
  }
  case M_TryLock: {
    auto l = flatAddr(s, a[0]);
    bool ok = choose(s, 2) == 1;
    if (ok) { for (auto &x : s.locks) if (x == l) throw Violation{"double-lock", "mutex acquired while already held"}; s.locks.push_back(l); }
    done(Val::integer(ok ? 0 : 16)); return;
  }
  case M_Unlock: {
    auto l = flatAddr(s, a[0]);
    auto it = std::find(s.locks.begin(), s.locks.end(), l);
    if (it == s.locks.end()) it = std::find(s.locks.begin(), s.locks.end(), std::make_pair(l.first, l.second | ReadMark));
    if (it == s.locks.end()) throw Violation{"unlock-not-held", "mutex released without being held"};
    s.locks.erase(it); note(s, "unlock"); done(Val::integer(0)); return;
  }
  case M_GuardAcquire: {
    Val v = load(s, a[0], Type::getInt8Ty(M.getContext()));
    done(Val::integer(v.isConstInt() && v.e.c == 0 ? 1 : 0)); return;
  }
  case M_GuardRelease: store(s, a[0], Val::integer(1), Type::getInt8Ty(M.getContext())); done(); return;
  case M_Atexit: done(Val::integer(0)); return;
  case M_SingleThreaded: done(Val::integer(1)); return;
  case M_Strlen: {
    std::string x;
    if (a[0].isNull()) throw Violation{"null-dereference", "strlen(nullptr)"};
    if (stringAt(*this, a[0], x)) { done(Val::integer((i64)x.size())); return; }
    done(Val::integer(vagueIn(s, 0, (i64)1 << 30))); return;
  }
  case M_Strcmp: {
    std::string x, y;
    if (stringAt(*this, a[0], x) && stringAt(*this, a[1], y)) { done(Val::integer(x < y ? -1 : x > y ? 1 : 0)); return; }
    done(Val::integer(vagueBits(s, 32))); return;
  }
  case M_Memcmp: done(Val::integer(vagueBits(s, 32))); return;
  case M_StrCopy: case M_StrMove: {
    if (a.size() < 2 || a[0].k != Val::Ptr) { done(a.empty() ? Val() : a[0]); return; }
    Val tok = Val::integer(Lin::sym(fresh()));
    if (a[1].k == Val::Ptr) { Loc l = resolve(s, a[1]); Cells &c = cellsOf(s, l); auto it = c.find(l.off); if (it != c.end() && it->second.wide) tok = it->second.v; else writeCells(c, l.off, 32, tok, false, true); }
    storeRaw(s, a[0], tok, 32, false, true);
    if (m == M_StrMove && a[1].k == Val::Ptr) storeRaw(s, a[1], Val::integer(Lin::sym(fresh())), 32, false, true);
    done(a[0]); return;
  }
  case M_StrNew: {
    // text given as literal: the content is its identity
    std::string x;
    if (a.size() >= 2 && a[0].k == Val::Ptr && a[1].k == Val::Ptr && fromLiteral(f) && stringAt(*this, a[1], x)) {
      auto it = literals.insert({x, {(i64)1 << 40 | (i64)literals.size(), a[1]}}).first;
      storeRaw(s, a[0], Val::integer(Lin(it->second.first)), 32, false, true);
      done(cb->getType()->isPointerTy() ? a[0] : Val()); return;
    }
  }
  [[fallthrough]];
  case M_StrSelf: case M_StrVoid:
    if (!a.empty() && a[0].k == Val::Ptr) storeRaw(s, a[0], Val::integer(Lin::sym(fresh())), 32, false, true);
    done(a.empty() ? Val() : cb->getType()->isPointerTy() ? a[0] : noiseResult(s, cb->getType(), a)); return;
  case M_TypeName: done(a[0]); return;          // some text owned by the type's description
  case M_TypeEq: {                               // one type_info object per type
    if (a.size() >= 2 && a[0].k == Val::Ptr && a[1].k == Val::Ptr) {
      Loc l = resolve(s, a[0]), k = resolve(s, a[1]);
      done(Val::integer(l.r == k.r ? 1 : 0)); return;
    }
    done(Val::integer(choose(s, 2))); return;
  }
  case M_StrEq: {
    if (a.size() >= 2 && a[0].k == Val::Ptr && a[1].k == Val::Ptr) {
      Loc l = resolve(s, a[0]), k = resolve(s, a[1]);
      Cells c1 = cellsOf(s, l), c2 = cellsOf(s, k);
      auto i = c1.find(l.off), j = c2.find(k.off);
      if (i != c1.end() && j != c2.end() && i->second.wide && j->second.wide && i->second.v.k == Val::Int && j->second.v.k == Val::Int && i->second.v.e == j->second.v.e) { done(Val::integer(1)); return; }
      auto lit = [](const Val &v) { return v.isConstInt() && v.e.c >> 40 == 1; };
      if (i != c1.end() && j != c2.end() && i->second.wide && j->second.wide && lit(i->second.v) && lit(j->second.v)) { done(Val::integer(0)); return; }
    }
    done(Val::integer(choose(s, 2))); return;
  }
  default: break;
  }
  throw Incomplete{"model " + std::to_string(m)};
}

bool Engine::intrinsic(State &s, const CallBase *cb, const Function *f, std::vector<Val> &a) {
  auto done = [&](Val v = Val()) { finishCall(s, cb, &v); return true; };
  unsigned bits = bitsOf(cb->getType());
  switch (f->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::lifetime_start:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
    return done();
  case Intrinsic::lifetime_end: {
    Val p = a[1];
    if (p.k == Val::Ptr) { auto it = s.mem.find(p.r); if (it != s.mem.end()) { Region &R = s.wr(p.r); R.flat.clear(); R.elems.clear(); R.zero = false; R.stride = 0; R.protos.clear(); R.hasSum = false; R.kind = Region::Stack; } }
    return done();
  }
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    Lin n = toInt(s, a[2], 64);
    if (!n.isConst()) {
      i64 u = s.z.ub(n), l = s.z.lb(n);
      if (u == l) n = Lin(u);
      else {
        // symbolic length: only the trivial case of an empty copy can be separated
        if (le0(s, n)) return done();
        throw Incomplete{"copy of symbolic length"};
      }
    }
    if (a[0].k == Val::Top || a[1].k == Val::Top) return done();
    copyBytes(s, a[0], a[1], n.c); return done();
  }
  case Intrinsic::memset: {
    Lin n = toInt(s, a[2], 64);
    if (!n.isConst()) { if (le0(s, n)) return done(); throw Incomplete{"memset of symbolic length"}; }
    if (n.c == 0) return done();
    Val v = a[1];
    if (v.isConstInt() && v.e.c == 0) storeRaw(s, a[0], Val::integer(0), n.c, true);
    else storeRaw(s, a[0], Val::integer(Lin::sym(fresh())), n.c, false, true);
    return done();
  }
  case Intrinsic::eh_typeid_for: {
    auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
    return done(Val::integer(g ? typeId(g) : 1));
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: {
    Lin x = toInt(s, a[0], bits);
    if (x.isConst()) {
      uint64_t u = (uint64_t)x.c; if (bits < 64) u &= ((uint64_t)1 << bits) - 1;
      i64 n = u == 0 ? bits : f->getIntrinsicID() == Intrinsic::ctlz ? __builtin_clzll(u) - (64 - (int)bits) : __builtin_ctzll(u);
      return done(Val::integer(Lin(n)));
    }
    return done(Val::integer(vagueIn(s, 0, bits)));
  }
  case Intrinsic::smax: case Intrinsic::umax: { Lin x = toInt(s, a[0], bits), y = toInt(s, a[1], bits); bool le = compare(s, f->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SLE : CmpInst::ICMP_ULE, Val::integer(x), Val::integer(y), cb->getType()); return done(Val::integer(le ? y : x)); }
  case Intrinsic::smin: case Intrinsic::umin: { Lin x = toInt(s, a[0], bits), y = toInt(s, a[1], bits); bool le = compare(s, f->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLE : CmpInst::ICMP_ULE, Val::integer(x), Val::integer(y), cb->getType()); return done(Val::integer(le ? x : y)); }
  case Intrinsic::abs: { Lin x = toInt(s, a[0], bits); return done(Val::integer(le0(s, x + Lin(1)) ? x.times(-1) : x)); }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: case Intrinsic::ptrmask: case Intrinsic::ssa_copy:
    return done(a[0]);
  case Intrinsic::is_constant: return done(Val::integer(0));
  case Intrinsic::objectsize: return done(Val::integer(-1));
  case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "trap", "trap instruction reached"); throw PathEnd{};
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    unsigned b = bitsOf(cb->getType()->getStructElementType(0));
    Val r; r.k = Val::Agg; r.el = std::make_shared<std::vector<Val>>();
    s.approx = true;
    r.el->push_back(Val::integer(freshBits(s, b))); r.el->push_back(Val::integer(choose(s, 2)));
    return done(r);
  }
  case Intrinsic::stacksave: return done(Val::top());
  case Intrinsic::stackrestore: return done();
  case Intrinsic::type_test: return done(Val::integer(1));
  default: {
    externals[f->getName().str()]++;
    Val v = noiseResult(s, cb->getType(), a); return done(v);
  }
  }
}

// ---------------------------------------------------------------- one instruction
void Engine::goTo(State &s, const BasicBlock *to) {
  Frame &f = s.top();
  const BasicBlock *from = f.bb;
  std::vector<std::pair<const Value *, Val>> vals;
  const Instruction *it = &*to->begin();
  for (; isa<PHINode>(it); it = it->getNextNode()) {
    auto *phi = cast<PHINode>(it);
    vals.push_back({phi, get(s, phi->getIncomingValueForBlock(from))});
  }
  Frame &g = s.top();
  g.prev = from; g.bb = to; g.pc = it;
  for (auto &p : vals) g.regs[p.first] = p.second;
  FnInfo &fi = info(g.f);
  if (s.folding) { if (Loop *l = fi.li->getLoopFor(from)) if (!l->contains(to)) throw DeferExit{from}; }
  if (Loop *l = fi.li->getLoopFor(to)) {
    if (l->getHeader() == to) loopHook(s, to, l->contains(from));
  }
}

void Engine::step(State &s) {
  const Instruction *I = s.ctop().pc;
  steps++;
  auto set = [&](Val v) { Frame &f = s.top(); f.regs[I] = std::move(v); advance(s); };
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    // re-executed allocas (loops) get the same region anew
    int r = newRegion(s, Region::Stack, (i64)DL.getTypeAllocSize(ai->getAllocatedType()), ai);
    s.top().allocas.push_back(r);
    set(Val::ptr(r, Lin(0))); return;
  }
  case Instruction::Load: {
    auto *li = cast<LoadInst>(I);
    set(load(s, get(s, li->getPointerOperand()), li->getType())); return;
  }
  case Instruction::Store: {
    auto *si = cast<StoreInst>(I);
    store(s, get(s, si->getPointerOperand()), get(s, si->getValueOperand()), si->getValueOperand()->getType());
    advance(s); return;
  }
  case Instruction::GetElementPtr: set(gep(s, cast<GEPOperator>(I))); return;
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(I);
    Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1));
    bool r = compare(s, c->getPredicate(), a, b, c->getOperand(0)->getType());
    set(Val::integer(r ? 1 : 0)); return;
  }
  case Instruction::FCmp: s.approx = true; set(Val::integer(choose(s, 2))); return;
  case Instruction::Select: {
    Val c = get(s, I->getOperand(0));
    bool t = sign(s, toInt(s, c, 1)) != 0;
    set(get(s, I->getOperand(t ? 1 : 2))); return;
  }
  case Instruction::PHI: advance(s); return;
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { goTo(s, b->getSuccessor(0)); return; }
    bool t = sign(s, toInt(s, get(s, b->getCondition()), 1)) != 0;
    goTo(s, b->getSuccessor(t ? 0 : 1)); return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    Lin v = toInt(s, get(s, sw->getCondition()), bitsOf(sw->getCondition()->getType()));
    for (auto &c : sw->cases()) {
      Lin d = v - Lin(c.getCaseValue()->getBitWidth() == 1 ? (i64)c.getCaseValue()->getZExtValue() : c.getCaseValue()->getSExtValue());
      if (sign(s, d) == 0) { goTo(s, c.getCaseSuccessor()); return; }
    }
    goTo(s, sw->getDefaultDest()); return;
  }
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(I);
    if (r->getReturnValue()) { Val v = get(s, r->getReturnValue()); ret(s, &v); } else ret(s, nullptr);
    return;
  }
  case Instruction::Unreachable:
    violation(s, "unreachable", "control reaches a point the compiler assumes unreachable");
    throw PathEnd{};
  case Instruction::Call: case Instruction::Invoke: call(s, cast<CallBase>(I)); return;
  case Instruction::Resume: {
    // continue unwinding in the caller
    Val v = get(s, I->getOperand(0));
    if (v.k == Val::Agg && (*v.el)[0].k == Val::Ptr) s.inflight = (*v.el)[0].r;
    Frame &f = s.top();
    bool nothrow = f.f->doesNotThrow();
    if (nothrow) { if (!s.mayTerminate) violation(s, "terminate", "exception leaves a noexcept function"); else reached["terminated"]++; throw PathEnd{}; }
    for (int a : f.allocas) s.mem.erase(a);
    s.st.pop_back();
    unwind(s); return;
  }
  case Instruction::LandingPad: advance(s); return;
  case Instruction::ExtractValue: {
    auto *e = cast<ExtractValueInst>(I);
    Val v = get(s, e->getAggregateOperand());
    for (unsigned i : e->indices()) { if (v.k != Val::Agg) { v = Val(); break; } Val t = (*v.el)[i]; v = t; }
    set(v); return;
  }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(I);
    Val v = get(s, e->getAggregateOperand()), x = get(s, e->getInsertedValueOperand());
    std::function<Val(Val, unsigned, Type *)> ins = [&](Val c, unsigned d, Type *t) -> Val {
      if (d == e->getNumIndices()) return x;
      Val n; n.k = Val::Agg;
      if (c.k == Val::Agg) n.el = std::make_shared<std::vector<Val>>(*c.el);
      else n.el = std::make_shared<std::vector<Val>>(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
      unsigned i = e->getIndices()[d];
      (*n.el)[i] = ins((*n.el)[i], d + 1, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
      return n;
    };
    set(ins(v, 0, e->getType())); return;
  }
  case Instruction::Freeze: set(get(s, I->getOperand(0))); return;
  case Instruction::AtomicRMW: {
    auto *r = cast<AtomicRMWInst>(I);
    Val p = get(s, r->getPointerOperand()), v = get(s, r->getValOperand());
    Val old = load(s, p, r->getType());
    Lin o = toInt(s, old, bitsOf(r->getType())), x = toInt(s, v, bitsOf(r->getType()));
    Lin n;
    switch (r->getOperation()) { case AtomicRMWInst::Add: n = o + x; break; case AtomicRMWInst::Sub: n = o - x; break; case AtomicRMWInst::Xchg: n = x; break; default: n = vagueBits(s, bitsOf(r->getType())); }
    store(s, p, Val::integer(n), r->getType());
    set(old); return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *r = cast<AtomicCmpXchgInst>(I);
    Val p = get(s, r->getPointerOperand());
    Type *t = r->getCompareOperand()->getType();
    Val old = load(s, p, t);
    bool eq = compare(s, CmpInst::ICMP_EQ, old, get(s, r->getCompareOperand()), t);
    if (eq) store(s, p, get(s, r->getNewValOperand()), t);
    Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>(); a.el->push_back(old); a.el->push_back(Val::integer(eq));
    set(a); return;
  }
  case Instruction::Fence: advance(s); return;
  case Instruction::FNeg: set(Val::integer(vagueBits(s, 64))); return;
  default: break;
  }
  if (auto *b = dyn_cast<BinaryOperator>(I)) { set(binop(s, b)); return; }
  if (auto *c = dyn_cast<CastInst>(I)) { set(castOp(s, c)); return; }
  throw Incomplete{std::string("instruction ") + I->getOpcodeName()};
}
}
