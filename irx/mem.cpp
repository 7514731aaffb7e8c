// Memory model: regions, array elements, prototypes.
#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"

namespace irx {

int Engine::newRegion(State &s, Region::K k, i64 size, const Value *origin) {
  int id = nextRegion++;
  auto r = std::make_shared<Region>();
  r->kind = k; r->size = size; r->origin = origin;
  s.mem[id] = r;
  return id;
}

int Engine::globalId(const GlobalVariable *g) {
  auto it = globalRegion.find(g);
  if (it != globalRegion.end()) return it->second;
  int id = nextRegion++;
  globalRegion[g] = id; regionGlobal[id] = g;
  return id;
}

void Engine::ensureGlobal(State &s, int id) {
  if (s.mem.count(id)) return;
  auto it = regionGlobal.find(id);
  if (it == regionGlobal.end()) throw Incomplete{"reference to a region that no longer exists"};
  const GlobalVariable *g = it->second;
  auto r = std::make_shared<Region>();
  r->kind = Region::Global; r->origin = g;
  r->size = (i64)DL.getTypeAllocSize(g->getValueType());
  if (g->hasInitializer()) { r->zero = g->getInitializer()->isNullValue(); }
  else { r->kind = Region::Opaque; }
  s.mem[id] = r;
  if (g->hasInitializer() && !r->zero) {
    Cells c; initCells(s, c, 0, g->getInitializer());
    s.wr(id).flat = std::move(c);
  }
}

void Engine::initCells(State &s, Cells &c, i64 off, const Constant *k) {
  Type *t = k->getType();
  i64 size = (i64)DL.getTypeStoreSize(t);
  if (isa<UndefValue>(k)) return;
  if (k->isNullValue()) { if (size) { Cell z; z.size = size; z.zfill = true; z.v = Val::integer(0); c[off] = z; } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(k)) {
    const StructLayout *sl = DL.getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initCells(s, c, off + (i64)sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(k)) {
    i64 es = (i64)DL.getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initCells(s, c, off + es * i, ca->getOperand(i));
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(k)) {
    i64 es = (i64)cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) initCells(s, c, off + es * i, cd->getElementAsConstant(i));
    return;
  }
  Cell z; z.size = size; z.v = constant(s, k); c[off] = z;
}

static void rewriteVal(Val &v, const std::function<void(Val &)> &f) {
  f(v);
  if (v.k == Val::Agg && v.el) { auto n = std::make_shared<std::vector<Val>>(*v.el); for (auto &x : *n) rewriteVal(x, f); v.el = n; }
  if (v.k == Val::Concat && v.pc) { auto n = std::make_shared<std::vector<Piece>>(*v.pc); for (auto &x : *n) rewriteVal(x.v, f); v.pc = n; }
}
void rewriteCellsPublic(Cells &c, const std::function<void(Val &)> &f) { for (auto &p : c) rewriteVal(p.second.v, f); }
static void rewriteCells(Cells &c, const std::function<void(Val &)> &f) { for (auto &p : c) rewriteVal(p.second.v, f); }

static Lin renameLin(const Lin &l, const std::map<Sym, Sym> &m) {
  Lin r(l.c);
  for (auto &p : l.t) { auto it = m.find(p.first); r.addScaled(Lin::sym(it == m.end() ? p.first : it->second), p.second); }
  return r;
}

Elem Engine::instantiate(State &s, const Proto &p, int arr, const Lin &q) {
  std::map<Sym, Sym> ren;
  for (auto &l : p.locals) {
    Sym y = fresh(); ren[l.first] = y;
    if (l.second.second < INF) s.z.constrain(y, 0, l.second.second);
    if (l.second.first > -INF) s.z.constrain(0, y, -l.second.first);
  }
  for (auto &r : p.rel) s.z.constrain(ren[std::get<0>(r)], ren[std::get<1>(r)], std::get<2>(r));
  std::vector<int> ids;
  for (auto &sub : p.subs) { (void)sub; ids.push_back(nextRegion++); }
  auto fix = [&](Val &v) {
    if ((v.k == Val::Ptr || v.k == Val::ElemRef) && v.r >= SUBBASE) v.r = ids[v.r - SUBBASE];
    if (v.k == Val::Int || v.k == Val::Ptr) v.e = renameLin(v.e, ren);
  };
  for (size_t i = 0; i < p.subs.size(); i++) {
    auto r = std::make_shared<Region>(*p.subs[i]);
    r->ownerArr = arr; r->modified = false;
    rewriteCells(r->flat, fix);
    for (auto &e : r->elems) { e.idx = renameLin(e.idx, ren); rewriteCells(e.cells, fix); }
    if (r->sumHiKnown) r->sumHi = renameLin(r->sumHi, ren);
    s.mem[ids[i]] = r;
  }
  Elem e; e.idx = q; e.kind = p.kind; e.cells = p.cells;
  rewriteCells(e.cells, fix);
  return e;
}

void Engine::setStride(Region &R, i64 stride) {
  if (R.stride || stride <= 0) return;
  R.stride = stride;
  Cells old; old.swap(R.flat);
  for (auto &p : old) {
    i64 q = p.first / stride, inner = p.first % stride;
    if (inner < 0) { inner += stride; q--; }
    // split a cell that covers several elements (zero fill)
    i64 size = p.second.size; i64 o = p.first;
    while (size > 0) {
      i64 qq = o / stride, in = o % stride;
      i64 take = std::min(size, stride - in);
      Elem *e = nullptr;
      for (auto &x : R.elems) if (x.idx.isConst() && x.idx.c == qq) e = &x;
      if (!e) { Elem n; n.idx = Lin(qq); n.modified = true; R.elems.push_back(n); e = &R.elems.back(); }
      Cell c = p.second; c.size = take;
      e->cells[in] = c;
      o += take; size -= take;
      if (!p.second.zfill) break;
    }
  }
}

int Engine::materialise(State &s, int r, const Lin &q) {
  const Region *R = s.rd(r);
  bool blank = true;
  if (R->hasSum) {
    blank = false;
    if (R->sumHiKnown) {
      if (le0(s, R->sumHi - q)) { blank = true; if (R->generalized) throw Violation{"out-of-bounds", "array access at or beyond the end"}; }
    }
    if (!blank && s.z.ub(q) < 0) throw Violation{"out-of-bounds", "array access before the beginning"};
    if (!blank && s.z.lb(q) < 0) { if (le0(s, q + Lin(1))) throw Violation{"out-of-bounds", "array access before the beginning"}; }
  }
  Elem e; e.idx = q; e.modified = true;
  if (!blank) {
    R = s.rd(r);
    unsigned mask = ~0u;
    for (auto &k : R->ranges) {
      if (le0(s, k.lo - q) && le0(s, q + Lin(1) - k.hi)) mask &= k.mask;
    }
    R = s.rd(r);
    std::vector<ProtoP> cand;
    for (auto &p : R->protos) if (p->kind < 0 || (mask >> p->kind & 1)) cand.push_back(p);
    if (cand.empty()) throw PathEnd{};
    i64 c = cand.size() == 1 ? 0 : choose(s, (int)cand.size());
    e = instantiate(s, *cand[c], r, q);
    e.modified = false;
  }
  Region &W = s.wr(r);
  W.elems.push_back(e);
  commit(s);
  return (int)W.elems.size() - 1;
}

Engine::Loc Engine::resolve(State &s, const Val &p) {
  if (p.k == Val::Int) {
    if (p.e.isConst() && p.e.c >= 0 && p.e.c < 4096) throw Violation{"null-dereference", "access through a null pointer"};
    throw Incomplete{"access through an integer address"};
  }
  if (p.k == Val::Undef) throw Violation{"uninitialised-pointer", "access through an uninitialised pointer"};
  if (p.k != Val::Ptr) throw Incomplete{"access through an unknown pointer"};
  if (!s.mem.count(p.r)) ensureGlobal(s, p.r);
  const Region *R = s.rd(p.r);
  if (!R->alive) throw Violation{"use-after-free", "access to memory after its lifetime ended"};
  if (R->stride == 0) {
    if (p.e.isConst()) return {p.r, -1, p.e.c};
    i64 g = 0;
    for (auto &t : p.e.t) { i64 a = t.second < 0 ? -t.second : t.second; g = g ? std::__gcd(g, a) : a; }
    setStride(s.wr(p.r), g);
    R = s.rd(p.r);
  }
  i64 st = R->stride;
  if (!p.e.coefsDivisible(st)) {
    // a strided object accessed with a finer symbolic offset
    throw Incomplete{"array access with a stride that does not fit"};
  }
  i64 inner = p.e.c % st; if (inner < 0) inner += st;
  Lin q = (p.e - Lin(inner)).divBy(st);
  for (size_t i = 0; i < R->elems.size(); i++) { Lin d = q - R->elems[i].idx; if (d.isConst() && d.c == 0) return {p.r, (int)i, inner}; }
  for (size_t i = 0; i < R->elems.size(); i++) {
    Lin d = q - R->elems[i].idx;
    if (d.isConst()) continue;
    int sg = sign(s, d);
    R = s.rd(p.r);
    if (sg == 0) return {p.r, (int)i, inner};
  }
  int e = materialise(s, p.r, q);
  return {p.r, e, inner};
}

Val Engine::readCells(State &s, Cells &c, i64 off, i64 size, bool isPtr, const Region &R) {
  auto defaultVal = [&]() -> Val {
    if (R.zero) return Val::integer(0);
    if (R.kind == Region::Opaque) return isPtr ? Val::top() : Val::integer(vagueBits(s, (unsigned)std::min<i64>(size * 8, 64)));
    return Val();
  };
  auto it = c.find(off);
  if (it != c.end() && it->second.size == size && !it->second.zfill && !it->second.wide) return it->second.v;
  // collect overlapping cells
  std::vector<std::pair<i64, Cell>> ov;
  auto lo = c.upper_bound(off);
  if (lo != c.begin()) { --lo; if (lo->first + lo->second.size <= off) ++lo; }
  for (auto j = lo; j != c.end() && j->first < off + size; ++j) ov.push_back(*j);
  if (ov.empty()) return defaultVal();
  for (auto &p : ov) if (p.second.wide) return isPtr ? Val::top() : Val::integer(vagueBits(s, (unsigned)std::min<i64>(size * 8, 64)));
  if (ov.size() == 1 && ov[0].first <= off && ov[0].first + ov[0].second.size >= off + size) {
    const Cell &k = ov[0].second; i64 d = off - ov[0].first;
    if (k.zfill) return Val::integer(0);
    if (k.v.k == Val::Undef) return Val();
    if (k.v.isConstInt()) {
      uint64_t v = (uint64_t)k.v.e.c >> (8 * d);
      if (size < 8) { v &= ((uint64_t)1 << (8 * size)) - 1; return Val::integer(norm(Lin((i64)v), (unsigned)(8 * size))); }
      return Val::integer((i64)v);
    }
    if (k.v.k == Val::Concat) {
      for (auto &p : *k.v.pc) if (p.off == d && p.size == size) return p.v;
      Cells sub; for (auto &p : *k.v.pc) { Cell x; x.size = p.size; x.v = p.v; sub[p.off] = x; }
      Region Z; return readCells(s, sub, d, size, isPtr, Z);
    }
    if (k.v.k == Val::Int && d == 0 && size < 8) {
      if (s.z.lb(k.v.e) >= 0 && s.z.ub(k.v.e) < ((i64)1 << (8 * size - 1))) return k.v;
    }
    return isPtr ? Val::top() : Val::integer(vagueBits(s, (unsigned)(size * 8)));
  }
  // gather
  auto pcs = std::make_shared<std::vector<Piece>>();
  bool allConst = true; i64 pos = off; bool gap = false;
  for (auto &p : ov) {
    i64 b = std::max(off, p.first), e = std::min(off + size, p.first + p.second.size);
    if (b > pos) { gap = true; if (R.zero) { pcs->push_back({pos - off, b - pos, Val::integer(0)}); } }
    Cells one; one[p.first] = p.second; Region Z;
    Val v = readCells(s, one, b, e - b, false, Z);
    if (!v.isConstInt()) allConst = false;
    pcs->push_back({b - off, e - b, v});
    pos = e;
  }
  if (pos < off + size) { gap = true; if (R.zero) pcs->push_back({pos - off, off + size - pos, Val::integer(0)}); }
  if (allConst && (!gap || R.zero) && size <= 8) {
    uint64_t r = 0;
    for (auto &p : *pcs) { uint64_t v = (uint64_t)p.v.e.c; if (p.size < 8) v &= ((uint64_t)1 << (8 * p.size)) - 1; r |= v << (8 * p.off); }
    return Val::integer(norm(Lin((i64)r), (unsigned)(8 * size)));
  }
  Val v; v.k = Val::Concat; v.pc = pcs;
  return v;
}

void Engine::writeCells(Cells &c, i64 off, i64 size, const Val &v, bool zfill, bool wide) {
  auto lo = c.upper_bound(off);
  if (lo != c.begin()) { --lo; if (lo->first + lo->second.size <= off) ++lo; }
  std::vector<std::pair<i64, Cell>> keep;
  while (lo != c.end() && lo->first < off + size) {
    i64 b = lo->first, e = b + lo->second.size;
    if (lo->first == off && lo->second.size == size) { lo = c.erase(lo); continue; }
    auto part = [&](i64 pb, i64 pe) {
      if (pb >= pe) return;
      Cell k = lo->second;
      if (k.wide) return;
      if (k.zfill) { k.size = pe - pb; keep.push_back({pb, k}); return; }
      if (k.v.isConstInt() && pe - pb <= 8) {
        uint64_t x = (uint64_t)k.v.e.c >> (8 * (pb - b));
        if (pe - pb < 8) x &= ((uint64_t)1 << (8 * (pe - pb))) - 1;
        k.v = Val::integer(norm(Lin((i64)x), (unsigned)(8 * (pe - pb)))); k.size = pe - pb; keep.push_back({pb, k}); return;
      }
      if (k.v.k == Val::Concat) for (auto &p : *k.v.pc) if (b + p.off >= pb && b + p.off + p.size <= pe) { Cell y; y.size = p.size; y.v = p.v; keep.push_back({b + p.off, y}); }
    };
    part(b, std::min(e, off)); part(std::max(b, off + size), e);
    lo = c.erase(lo);
  }
  for (auto &p : keep) c[p.first] = p.second;
  if (v.k == Val::Concat) {
    for (auto &p : *v.pc) { Cell k; k.size = p.size; k.v = p.v; c[off + p.off] = k; }
    return;
  }
  if (v.k == Val::Undef && !zfill && !wide) return;
  Cell k; k.size = size; k.v = v; k.zfill = zfill; k.wide = wide;
  c[off] = k;
}

Val Engine::resolveElemRef(State &s, const Val &v) {
  const Region *A = s.rd(v.r);
  if (!A) throw Incomplete{"element reference into a vanished array"};
  std::vector<int> cand;
  for (auto &p : s.mem) if (p.second->ownerArr == v.r && p.second->tmpl == v.tm && p.second->alive && p.second->depth != 77) cand.push_back(p.first);
  i64 c = choose(s, (int)cand.size() + 1);
  if (c < (i64)cand.size()) return Val::ptr(cand[c], v.e);
  // a fresh element
  if (!A->hasSum) throw PathEnd{};
  Sym j = fresh(); Lin q = Lin::sym(j);
  s.z.constrain(0, j, 0);
  if (A->sumHiKnown) { Lin l = q + Lin(1) - A->sumHi; if (!s.z.assumeLE0(l)) throw PathEnd{}; }
  size_t n = A->elems.size();
  for (size_t i = 0; i < n; i++) {
    Lin d = q - s.rd(v.r)->elems[i].idx;
    bool lt = choose(s, 2) == 0;
    if (!s.z.representable(d)) continue;
    if (!s.z.assumeLE0(lt ? d + Lin(1) : Lin(1) - d)) throw PathEnd{};
  }
  std::vector<ProtoP> pc;
  for (auto &p : s.rd(v.r)->protos) for (auto &sub : p->subs) if (sub->tmpl == v.tm) { pc.push_back(p); break; }
  if (pc.empty()) throw PathEnd{};
  i64 k = pc.size() == 1 ? 0 : choose(s, (int)pc.size());
  int before = nextRegion;
  Elem e = instantiate(s, *pc[k], v.r, q);
  s.wr(v.r).elems.push_back(e);
  for (int id = before; id < nextRegion; id++) { auto it = s.mem.find(id); if (it != s.mem.end() && it->second->tmpl == v.tm) return Val::ptr(id, v.e); }
  throw PathEnd{};
}

void Engine::checkGuard(State &s, int r, i64 off, bool write) {
  if (s.guards.empty()) return;
  for (auto &g : s.guards) {
    bool in = false;
    if (r == g.r && off >= g.off && off < g.off + g.size) in = !(r == g.lockR && off >= g.lockOff && off < g.lockOff + 40);
    else if (r != g.r) {
      // arrays reachable from the guarded object through vector-like fields
      const Region *G = s.rd(g.r);
      if (G) for (auto it = G->flat.lower_bound(g.off); it != G->flat.end() && it->first < g.off + g.size; ++it)
        if (it->second.v.k == Val::Ptr && it->second.v.r == r) { const Region *T = s.rd(r); if (T && T->vec) in = true; break; }
    }
    if (!in) continue;
    guardedAccesses++;
    bool held = false;
    for (auto &l : s.locks) {
      i64 lo = l.second & ~ReadMark; bool rd = l.second & ReadMark;
      if (rd && write) continue;
      if (g.lockR < 0 ? l.first == g.r && lo >= g.off && lo < g.off + g.size : l.first == g.lockR && lo == g.lockOff) held = true;
    }
    if (!held) throw Violation{"unguarded-access", "shared expectation storage accessed without holding its mutex"};
  }
}

Val Engine::load(State &s, const Val &p, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>();
    const StructLayout *sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.e.c += (i64)sl->getElementOffset(i); a.el->push_back(load(s, q, st->getElementType(i))); }
    return a;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    Val a; a.k = Val::Agg; a.el = std::make_shared<std::vector<Val>>();
    i64 es = (i64)DL.getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) { Val q = p; q.e.c += es * i; a.el->push_back(load(s, q, at->getElementType())); }
    return a;
  }
  i64 size = (i64)DL.getTypeStoreSize(t);
  Loc l = resolve(s, p);
  checkGuard(s, l.r, l.elem < 0 ? l.off : 0, false);
  accesses++;
  const Region *R = s.rd(l.r);
  Cells &c = cellsOf(s, l);
  R = s.rd(l.r);
  Val v = readCells(s, c, l.off, size, t->isPointerTy(), *R);
  if (v.k == Val::ElemRef) {
    v = resolveElemRef(s, v);
    writeCells(cellsOf(s, l), l.off, size, v);
  }
  if (v.k == Val::Concat && t->isIntegerTy() == false && t->isPointerTy()) v = Val::top();
  if (v.k == Val::Undef && (l.elem >= 0) && s.rd(l.r)->hasSum) v = t->isPointerTy() ? Val::top() : Val::integer(vagueBits(s, t->getScalarSizeInBits()));
  return v;
}

void Engine::storeRaw(State &s, const Val &p, const Val &v, i64 size, bool zfill, bool wide) {
  Loc l = resolve(s, p);
  checkGuard(s, l.r, l.elem < 0 ? l.off : 0, true);
  accesses++;
  Cells &c = cellsOf(s, l);
  writeCells(c, l.off, size, v, zfill, wide);
  Region &R = s.wr(l.r);
  R.modified = true;
  if (l.elem >= 0) R.elems[l.elem].modified = true;
}

void Engine::store(State &s, const Val &p, const Val &v, Type *t) {
  if (v.k == Val::Agg) {
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.e.c += (i64)sl->getElementOffset(i); store(s, q, (*v.el)[i], st->getElementType(i)); }
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      i64 es = (i64)DL.getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) { Val q = p; q.e.c += es * i; store(s, q, (*v.el)[i], at->getElementType()); }
      return;
    }
  }
  storeRaw(s, p, v, (i64)DL.getTypeStoreSize(t));
}

void Engine::copyBytes(State &s, const Val &d, const Val &src, i64 n) {
  if (n == 0) return;
  Loc a = resolve(s, src);
  checkGuard(s, a.r, a.elem < 0 ? a.off : 0, false);
  Loc b = resolve(s, d);
  a = resolve(s, src);
  checkGuard(s, b.r, b.elem < 0 ? b.off : 0, true);
  const Region *A = s.rd(a.r);
  if ((a.elem >= 0 && a.off + n > A->stride) || (b.elem >= 0 && b.off + n > s.rd(b.r)->stride)) {
    // copy several elements one by one
    i64 st = a.elem >= 0 ? A->stride : s.rd(b.r)->stride;
    if (n % st || n / st > 64) throw Incomplete{"bulk copy of array elements"};
    for (i64 o = 0; o < n; o += st) { Val x = d, y = src; x.e.c += o; y.e.c += o; copyBytes(s, x, y, st); }
    return;
  }
  Cells srcCells = cellsOf(s, a);
  Cells out;
  bool zero = s.rd(a.r)->zero, opaque = s.rd(a.r)->kind == Region::Opaque;
  auto lo = srcCells.upper_bound(a.off);
  if (lo != srcCells.begin()) { --lo; if (lo->first + lo->second.size <= a.off) ++lo; }
  for (auto j = lo; j != srcCells.end() && j->first < a.off + n; ++j) {
    i64 pb = std::max(j->first, a.off), pe = std::min(j->first + j->second.size, a.off + n);
    Cell k = j->second;
    if (pb != j->first || pe != j->first + k.size) {
      if (k.zfill) k.size = pe - pb;
      else { Cells one; one[j->first] = j->second; Region Z; k.v = readCells(s, one, pb, pe - pb, false, Z); k.size = pe - pb; k.wide = false; }
    }
    out[pb - a.off] = k;
  }
  Cells &dc = cellsOf(s, b);
  writeCells(dc, b.off, n, Val(), false, false);                // clear
  if (zero) { Cell z; z.size = n; z.zfill = true; z.v = Val::integer(0); dc[b.off] = z; }
  for (auto &p : out) {
    if (p.second.zfill || p.second.wide) writeCells(dc, b.off + p.first, p.second.size, p.second.v, p.second.zfill, p.second.wide);
    else writeCells(dc, b.off + p.first, p.second.size, p.second.v);
  }
  Region &B = s.wr(b.r);
  if (opaque && out.empty() && b.elem < 0 && B.flat.empty()) B.kind = B.kind == Region::Global ? Region::Global : Region::Opaque;
  B.modified = true;
  if (b.elem >= 0) B.elems[b.elem].modified = true;
}

std::pair<int, i64> Engine::flatAddr(State &s, const Val &p) {
  if (p.k != Val::Ptr || !p.e.isConst()) throw Incomplete{"object address is not a fixed location"};
  if (!s.mem.count(p.r)) ensureGlobal(s, p.r);
  return {p.r, p.e.c};
}

// all vector-like arrays reachable from an object: consecutive (begin,end,cap) pointers into one vector region
std::vector<int> Engine::findVecArrays(State &s, const Val &p, i64 size, std::vector<std::pair<int, i64>> *whereEnd) {
  auto a = flatAddr(s, p);
  std::vector<int> found; std::set<int> seen; std::vector<std::tuple<int, i64, i64>> todo{{a.first, a.second, a.second + size}};
  while (!todo.empty()) {
    auto [r, lo, hi] = todo.back(); todo.pop_back();
    const Region *R = s.rd(r);
    if (!R) continue;
    for (auto it = R->flat.begin(); it != R->flat.end(); ++it) {
      if (it->first < lo || it->first >= hi || it->second.v.k != Val::Ptr) continue;
      int t = it->second.v.r;
      const Region *T = s.rd(t);
      if (!T) continue;
      if (T->vec) {
        auto e = R->flat.find(it->first + 8), c = R->flat.find(it->first + 16);
        if (e != R->flat.end() && c != R->flat.end() && e->second.v.k == Val::Ptr && e->second.v.r == t && c->second.v.k == Val::Ptr && c->second.v.r == t && seen.insert(t).second) {
          found.push_back(t);
          if (whereEnd) whereEnd->push_back({r, it->first + 8});
        }
      } else if (T->kind == Region::Heap && seen.insert(t).second) todo.push_back({t, INT64_MIN / 2, INT64_MAX / 2});
    }
  }
  return found;
}
}
