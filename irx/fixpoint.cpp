// Joins, widening, array folding, garbage collection.
#include "engine.h"
#include "llvm/IR/CFG.h"

namespace irx {
static bool has(const std::string &a, const char *b) { return a.find(b) != std::string::npos; }

// ---------------------------------------------------------------- per function facts
FnInfo &Engine::info(const Function *f) {
  FnInfo &fi = finfo[f];
  if (!fi.dt) {
    fi.dt = std::make_unique<DominatorTree>(*const_cast<Function *>(f));
    fi.li = std::make_unique<LoopInfo>(*fi.dt);
    int n = 0;
    for (auto &a : f->args()) fi.num[&a] = n++;
    for (auto &bb : *f) { fi.num[&bb] = n++; for (auto &i : bb) fi.num[&i] = n++; }
  }
  return fi;
}

static bool tracked(const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); }

// liveIn[bb]: values live right before the first non-phi instruction
void Engine::liveness(const Function *f) {
  FnInfo &fi = info(f);
  if (fi.live_done) return;
  fi.live_done = true;
  bool ch = true;
  std::vector<const BasicBlock *> order;
  for (auto &bb : *f) order.push_back(&bb);
  std::reverse(order.begin(), order.end());
  while (ch) {
    ch = false;
    for (auto *bb : order) {
      std::set<const Value *> live;
      for (auto *su : successors(bb)) {
        for (auto *v : fi.liveIn[su]) { auto *ph = dyn_cast<PHINode>(v); if (!ph || ph->getParent() != su) live.insert(v); }
        for (auto &ph : su->phis()) { auto *v = ph.getIncomingValueForBlock(bb); if (tracked(v)) live.insert(v); }
      }
      for (auto it = bb->rbegin(); it != bb->rend(); ++it) {
        if (isa<PHINode>(*it)) break;
        live.erase(&*it);
        for (auto &u : it->operands()) if (tracked(u.get())) live.insert(u.get());
      }
      auto &old = fi.liveIn[bb];
      if (old.size() != live.size()) { old.swap(live); ch = true; }
    }
  }
}

static void outOf(FnInfo &fi, const BasicBlock *bb, std::set<const Value *> &live) {
  for (auto *su : successors(bb)) {
    for (auto *v : fi.liveIn[su]) { auto *ph = dyn_cast<PHINode>(v); if (!ph || ph->getParent() != su) live.insert(v); }
    for (auto &ph : su->phis()) { auto *v = ph.getIncomingValueForBlock(bb); if (tracked(v)) live.insert(v); }
  }
}

const std::set<const Value *> &Engine::liveBefore(const Instruction *i) {
  liveness(i->getFunction());
  FnInfo &fi = info(i->getFunction());
  auto it = fi.before.find(i);
  if (it != fi.before.end()) return it->second;
  std::set<const Value *> live;
  const BasicBlock *bb = i->getParent();
  outOf(fi, bb, live);
  for (auto k = bb->rbegin(); k != bb->rend(); ++k) {
    if (isa<PHINode>(*k)) break;
    live.erase(&*k);
    for (auto &u : k->operands()) if (tracked(u.get())) live.insert(u.get());
    if (&*k == i) break;
  }
  return fi.before[i] = live;
}

const std::set<const Value *> &Engine::liveAfterCall(const CallBase *cb) {
  liveness(cb->getFunction());
  FnInfo &fi = info(cb->getFunction());
  auto it = fi.liveAfter.find(cb);
  if (it != fi.liveAfter.end()) return it->second;
  std::set<const Value *> live;
  if (isa<InvokeInst>(cb)) outOf(fi, cb->getParent(), live);
  else live = liveBefore(cb->getNextNode());
  live.erase(cb);
  return fi.liveAfter[cb] = live;
}

void Engine::prune(State &s) {
  for (size_t i = 0; i < s.st.size(); i++) {
    const Frame &f = *s.st[i];
    const std::set<const Value *> &live = i + 1 < s.st.size() ? liveAfterCall(cast<CallBase>(f.pc)) : liveBefore(f.pc);
    bool drop = false;
    for (auto &r : f.regs) if (!live.count(r.first)) { drop = true; break; }
    if (!drop) continue;
    if (s.st[i].use_count() > 1) s.st[i] = std::make_shared<Frame>(*s.st[i]);
    Frame &g = *s.st[i];
    for (auto it = g.regs.begin(); it != g.regs.end();) if (!live.count(it->first)) it = g.regs.erase(it); else ++it;
  }
}

// ---------------------------------------------------------------- traversal
static void eachVal(const Val &v, const std::function<void(const Val &)> &f) {
  f(v);
  if (v.k == Val::Agg && v.el) for (auto &x : *v.el) eachVal(x, f);
  if (v.k == Val::Concat && v.pc) for (auto &x : *v.pc) eachVal(x.v, f);
}
static void eachCell(const Cells &c, const std::function<void(const Val &)> &f) { for (auto &p : c) eachVal(p.second.v, f); }

static void eachRoot(State &s, Engine &E, const std::function<void(int)> &reg, const std::function<void(const Val &)> &val) {
  for (auto &f : s.st) for (auto &r : f->regs) eachVal(r.second, val);
  for (int c : s.caught) reg(c);
  if (s.inflight >= 0) reg(s.inflight);
  for (auto &g : s.guards) { reg(g.r); if (g.lockR >= 0) reg(g.lockR); }
  for (auto &l : s.locks) reg(l.first);
  for (auto &m : s.mem) if (E.regionGlobal.count(m.first) && m.second->modified) reg(m.first);
}

std::set<int> Engine::reachable(State &s) {
  std::set<int> seen; std::vector<int> todo;
  auto reg = [&](int r) { if (r >= 0 && r < SUBBASE && s.mem.count(r) && seen.insert(r).second) todo.push_back(r); };
  std::function<void(const Val &)> val = [&](const Val &v) {
    if (v.k == Val::Ptr || v.k == Val::ElemRef) reg(v.r);
    if (v.k == Val::Int || v.k == Val::Ptr) for (auto &t : v.e.t) { auto it = symRegion.find(t.first); if (it != symRegion.end()) reg(it->second); }
  };
  eachRoot(s, *this, reg, val);
  while (!todo.empty()) {
    int r = todo.back(); todo.pop_back();
    const Region *R = s.rd(r);
    eachCell(R->flat, val);
    for (auto &e : R->elems) eachCell(e.cells, val);
    for (auto &p : R->protos) { eachCell(p->cells, val); for (auto &sub : p->subs) { eachCell(sub->flat, val); for (auto &e : sub->elems) eachCell(e.cells, val); for (auto &q : sub->protos) for (int x : q->ext) reg(x); } }
    if (R->ownerArr >= 0) reg(R->ownerArr);
  }
  return seen;
}

void Engine::collect(State &s) {
  auto keep = reachable(s);
  for (auto it = s.mem.begin(); it != s.mem.end();) if (!keep.count(it->first)) it = s.mem.erase(it); else ++it;
}

// ---------------------------------------------------------------- prototypes
static std::string linStr(const Lin &l, const std::map<Sym, int> &loc) {
  std::string r = std::to_string(l.c);
  for (auto &t : l.t) { auto it = loc.find(t.first); r += "+" + std::to_string(t.second) + (it == loc.end() ? "r" + std::to_string(t.first) : "L" + std::to_string(it->second)); }
  return r;
}

std::string Engine::protoCanon(const Proto &p, bool shape) {
  std::map<Sym, int> loc; std::map<int, int> ext;
  std::string o = "k" + std::to_string(p.kind) + ";";
  auto locId = [&](const Lin &l) { for (auto &t : l.t) if (p.locals.count(t.first) && !loc.count(t.first)) { int k = (int)loc.size(); loc[t.first] = k; } };
  std::function<void(const Val &, i64, bool)> val = [&](const Val &v, i64 size, bool wide) {
    o += char('a' + v.k);
    auto lin = [&](const Lin &l) {
      if (shape && (v.k == Val::Int)) { if (wide || !l.isConst() || size > 4 || l.c < 0 || l.c > 3) { o += "#"; return; } }
      locId(l); o += linStr(l, loc);
    };
    switch (v.k) {
    case Val::Int: lin(v.e); break;
    case Val::Ptr: case Val::ElemRef:
      if (v.r >= SUBBASE) o += "S" + std::to_string(v.r - SUBBASE);
      else { auto it = ext.find(v.r); if (it == ext.end()) { int k = (int)ext.size(); it = ext.insert({v.r, k}).first; const_cast<Proto &>(p).ext.resize(0); } o += "X" + std::to_string(it->second); }
      o += "." + std::to_string(v.tm) + "@"; lin(v.e); break;
    case Val::Fn: o += std::to_string((uintptr_t)v.fn); break;
    case Val::Agg: for (auto &x : *v.el) val(x, 8, false); break;
    case Val::Concat: for (auto &x : *v.pc) { o += std::to_string(x.off) + ":" + std::to_string(x.size); val(x.v, x.size, false); } break;
    default: break;
    }
    o += ",";
  };
  auto cells = [&](const Cells &c) { for (auto &q : c) { o += std::to_string(q.first) + ":" + std::to_string(q.second.size) + (q.second.zfill ? "z" : q.second.wide ? "w" : "="); if (!q.second.zfill) val(q.second.v, q.second.size, q.second.wide); } };
  cells(p.cells);
  for (auto &sub : p.subs) {
    o += "[" + std::to_string(sub->kind) + (sub->alive ? "" : "dead") + (sub->vec ? "v" : "") + (sub->zero ? "0" : "") + " st" + std::to_string(sub->stride) + " t" + std::to_string(sub->tmpl) + (sub->hasSum ? "S" : "") + (sub->generalized ? "G" : "") + std::to_string((uintptr_t)sub->excType);
    if (sub->sumHiKnown) { Val h = Val::integer(sub->sumHi); val(h, 8, false); }
    cells(sub->flat);
    for (auto &e : sub->elems) { o += "e"; Val h = Val::integer(e.idx); val(h, 8, false); o += "k" + std::to_string(e.kind); cells(e.cells); }
    for (auto &q : sub->protos) o += "<" + (shape ? q->shape : q->canon) + ">";
    o += "]";
  }
  if (!shape) {
    for (auto &l : p.locals) { auto it = loc.find(l.first); if (it != loc.end()) o += " L" + std::to_string(it->second) + "[" + std::to_string(l.second.first) + "," + std::to_string(l.second.second) + "]"; }
    std::set<std::string> rs;
    for (auto &r : p.rel) { auto a = loc.find(std::get<0>(r)), b = loc.find(std::get<1>(r)); if (a != loc.end() && b != loc.end()) rs.insert(std::to_string(a->second) + "-" + std::to_string(b->second) + "<=" + std::to_string(std::get<2>(r))); }
    for (auto &x : rs) o += " " + x;
  }
  std::vector<int> ev(ext.size());
  for (auto &x : ext) ev[x.second] = x.first;
  const_cast<Proto &>(p).ext = ev;
  return o;
}

ProtoP Engine::makeProto(State &s, int arr, const Elem &e, std::vector<int> &owned) {
  auto p = std::make_shared<Proto>();
  p->kind = e.kind;
  std::map<int, int> sub;
  for (size_t i = 0; i < owned.size(); i++) sub[owned[i]] = (int)i;
  auto symRef = [&](Lin &l) {
    bool local = false;
    for (auto &t : l.t) if (!rigid.count(t.first)) local = true;
    if (!local) return;
    for (auto &t : l.t) {
      if (symRegion.count(t.first)) { // an address inside an element: forget the exact value
        Sym y = fresh(); l = Lin::sym(y); p->locals[y] = {-INF, INF}; return;
      }
    }
    if (l.t.size() > 1 || l.t[0].second != 1) {
      i64 lo = s.z.lb(l), hi = s.z.ub(l); Sym y = fresh(); l = Lin::sym(y); p->locals[y] = {lo, hi}; return;
    }
    Sym y = l.t[0].first;
    if (!p->locals.count(y)) p->locals[y] = {s.z.lb(Lin::sym(y)), s.z.ub(Lin::sym(y))};
  };
  std::function<void(Val &)> fix = [&](Val &v) {
    if (v.k == Val::Ptr || v.k == Val::ElemRef) {
      auto it = sub.find(v.r);
      if (it != sub.end()) { v.r = SUBBASE + it->second; }
      else if (v.k == Val::Ptr) {
        const Region *R = s.rd(v.r);
        if (R && R->ownerArr >= 0 && R->ownerArr != arr && R->tmpl >= 0 && R->depth != 77) { v.k = Val::ElemRef; v.tm = R->tmpl; v.r = R->ownerArr; }
      }
      if (!v.e.isConst()) symRef(v.e);
    } else if (v.k == Val::Int) symRef(v.e);
  };
  auto wideFix = [&](Cells &c) {
    for (auto &q : c) if (q.second.wide && q.second.v.k == Val::Int && !rigidOnly(q.second.v.e) && q.second.v.e.t.size() == 1) { Sym y = q.second.v.e.t[0].first; p->locals.insert({y, {-INF, INF}}); }
  };
  p->cells = e.cells;
  wideFix(p->cells);
  rewriteCellsPublic(p->cells, fix);
  for (size_t i = 0; i < owned.size(); i++) {
    auto rr = std::make_shared<Region>(*s.rd(owned[i]));
    rr->ownerArr = -1; rr->modified = false;
    if (rr->tmpl < 0) {
      auto key = std::make_pair((const Value *)rr->origin, (i64)i);
      auto it = tmplOf.find(key);
      if (it == tmplOf.end()) it = tmplOf.insert({key, nextTmpl++}).first;
      rr->tmpl = it->second;
    }
    wideFix(rr->flat);
    rewriteCellsPublic(rr->flat, fix);
    for (auto &x : rr->elems) { symRef(x.idx); wideFix(x.cells); rewriteCellsPublic(x.cells, fix); x.modified = false; }
    if (rr->sumHiKnown) symRef(rr->sumHi);
    rr->ranges.clear();
    p->subs.push_back(rr);
  }
  for (auto &a : p->locals) for (auto &b : p->locals) if (a.first != b.first) { i64 c = s.z.ub(a.first, b.first); if (c < INF && c < sat_add(a.second.second, b.second.first <= -INF ? INF : -b.second.first)) p->rel.push_back({a.first, b.first, c}); }
  p->canon = protoCanon(*p, false); p->shape = protoCanon(*p, true);
  return p;
}

static i64 widenUp(i64 v) { for (i64 t : {-1LL, 0LL, 1LL, (long long)INT32_MAX}) if (v <= t) return t; return INF; }
static i64 widenDown(i64 v) { for (i64 t : {1LL, 0LL, -1LL, (long long)INT32_MIN}) if (v >= t) return t; return -INF; }

void Engine::addProto(State &s, int arr, ProtoP p) {
  Region &R = s.wr(arr);
  int same = 0; std::vector<size_t> alike;
  for (size_t i = 0; i < R.protos.size(); i++) {
    auto &q = R.protos[i];
    if (q->canon == p->canon && q->ext == p->ext) return;
    if (q->shape == p->shape && q->ext == p->ext) { same++; alike.push_back(i); }
  }
  if (same < 4) { R.protos.push_back(p); return; }
  // hull: walk both prototypes in step, turn differing numbers into bounded locals
  auto h = std::make_shared<Proto>(*p); h->rel.clear();
  for (auto &sub : h->subs) sub = std::make_shared<Region>(*sub);
  std::vector<Lin *> slots; std::vector<std::pair<i64, i64>> bnd;
  auto gather = [&](Proto &q, std::vector<Lin *> &out) {
    std::function<void(Val &)> f = [&](Val &v) { if (v.k == Val::Int) out.push_back(&v.e); };
    // in-place walk (aggregates do not occur in memory cells)
    auto cells = [&](Cells &c) { for (auto &x : c) { if (x.second.zfill) continue; if (x.second.v.k == Val::Concat) { x.second.v.pc = std::make_shared<std::vector<Piece>>(*x.second.v.pc); for (auto &y : *x.second.v.pc) f(y.v); } else f(x.second.v); } };
    cells(q.cells);
    for (auto &sub : q.subs) { cells(sub->flat); for (auto &e : sub->elems) { out.push_back(&e.idx); cells(e.cells); } if (sub->sumHiKnown) out.push_back(&sub->sumHi); }
  };
  gather(*h, slots);
  auto bounds = [&](const Proto &q, const Lin &l) -> std::pair<i64, i64> {
    i64 lo = l.c, hi = l.c;
    for (auto &t : l.t) { auto it = q.locals.find(t.first); if (it == q.locals.end()) return {-INF, INF}; lo = it->second.first <= -INF ? -INF : sat_add(lo, it->second.first); hi = sat_add(hi, it->second.second); }
    return {lo, hi};
  };
  std::vector<std::vector<Lin>> all;
  for (auto i : alike) { Proto q = *R.protos[i]; for (auto &sub : q.subs) sub = std::make_shared<Region>(*sub); std::vector<Lin *> o; gather(q, o); std::vector<Lin> v; for (auto *x : o) v.push_back(*x); if (v.size() != slots.size()) { R.protos.push_back(p); return; } all.push_back(v); }
  std::map<Sym, std::pair<i64, i64>> locals;
  for (size_t k = 0; k < slots.size(); k++) {
    bool eq = true;
    for (auto &v : all) if (v[k] != *slots[k]) eq = false;
    if (eq && (slots[k]->isConst() || rigidOnly(*slots[k]))) continue;
    auto b = bounds(*p, *slots[k]); i64 lo = b.first, hi = b.second;
    for (size_t j = 0; j < all.size(); j++) { auto c = bounds(*R.protos[alike[j]], all[j][k]); lo = std::min(lo, c.first); hi = std::max(hi, c.second); }
    if (lo != b.first || hi != b.second || !eq) { lo = widenDown(lo); hi = widenUp(hi); }
    Sym y = fresh(); *slots[k] = Lin::sym(y); locals[y] = {lo, hi};
  }
  h->locals = locals;
  h->canon = protoCanon(*h, false); h->shape = protoCanon(*h, true);
  for (size_t j = alike.size(); j-- > 0;) R.protos.erase(R.protos.begin() + alike[j]);
  R.protos.push_back(h);
}

// ---------------------------------------------------------------- array folding
void Engine::fold(State &s) {
  collect(s);
  if (!s.folding) return;
  for (int round = 0; round < 50; round++) {
    bool changed = false;
    // referrers: region -> holders; holder (-1,-1) root, (r,-1) flat of r, (r,i) element i
    using H = std::pair<int, int>;
    std::map<int, std::set<H>> refs;
    std::map<int, std::vector<std::pair<H, Lin>>> into;    // pointers into arrays
    auto addVal = [&](H h, const Val &v, bool triple) {
      if (v.k == Val::Ptr) { refs[v.r].insert(h); if (!triple) { const Region *R = s.rd(v.r); if (R && R->vec) into[v.r].push_back({h, v.e}); } }
      if (v.k == Val::ElemRef) refs[v.r].insert(h);
      if (v.k == Val::Int) for (auto &t : v.e.t) { auto it = symRegion.find(t.first); if (it != symRegion.end()) refs[it->second].insert(h); }
    };
    auto addCells = [&](H h, const Cells &c) {
      for (auto it = c.begin(); it != c.end(); ++it) {
        bool triple = false;
        if (it->second.v.k == Val::Ptr) {
          int r = it->second.v.r;
          for (int d = 0; d <= 2; d++) {
            auto a = c.find(it->first - 8 * d), b = c.find(it->first - 8 * d + 8), e = c.find(it->first - 8 * d + 16);
            if (a != c.end() && b != c.end() && e != c.end() && a->second.v.k == Val::Ptr && b->second.v.k == Val::Ptr && e->second.v.k == Val::Ptr && a->second.v.r == r && b->second.v.r == r && e->second.v.r == r &&
                e->second.v.e.isConst() && e->second.v.e.c >= ((i64)1 << 43)) triple = true;
          }
        }
        eachVal(it->second.v, [&](const Val &v) { addVal(h, v, triple); });
      }
    };
    eachRoot(s, *this, [&](int r) { refs[r].insert({-1, -1}); }, [&](const Val &v) { addVal({-1, -1}, v, false); });
    for (auto &m : s.mem) {
      addCells({m.first, -1}, m.second->flat);
      for (size_t i = 0; i < m.second->elems.size(); i++) addCells({m.first, (int)i}, m.second->elems[i].cells);
      for (auto &p : m.second->protos) for (int x : p->ext) refs[x].insert({m.first, -2});
    }
    // elements kept individually right behind the summary are covered by its bound
    for (auto &m : s.mem) {
      if (!m.second->vec || !m.second->alive || m.second->generalized) continue;
      for (bool again = true; again;) {
        again = false;
        const Region *R = m.second.get();
        if (!R->hasSum || !R->sumHiKnown) break;
        for (auto &e : R->elems) { Lin d = e.idx - R->sumHi; if (!e.cells.empty() && (d.isConst() ? d.c == 0 : (s.z.lb(d) == 0 && s.z.ub(d) == 0))) { Lin t = e.idx + Lin(1); s.wr(m.first).sumHi = t; again = true; break; } }
      }
    }
    for (auto &m : s.mem) {
      int r = m.first;
      const Region *R = m.second.get();
      if (!R->vec || !R->alive || R->elems.empty() || !R->stride) continue;
      for (size_t i = 0; i < R->elems.size() && !changed; i++) {
        const Elem &e = R->elems[i];
        // owned heap regions: referenced only from this element or from each other
        std::set<int> cand; std::vector<int> order;
        std::vector<const Cells *> todo{&e.cells};
        bool pinned = false;
        while (!todo.empty()) {
          const Cells *c = todo.back(); todo.pop_back();
          eachCell(*c, [&](const Val &v) {
            if (v.k != Val::Ptr || v.r >= SUBBASE) return;
            if (landmarkGlobals.count(v.r)) { pinned = true; return; }
            const Region *T = s.rd(v.r);
            if (!T) return;
            if (T->depth == 77) { pinned = true; return; }
            if (T->kind != Region::Heap || regionGlobal.count(v.r)) return;
            if (T->ownerArr >= 0 && T->ownerArr != r) return;      // belongs to another array
            if (cand.insert(v.r).second) { order.push_back(v.r); todo.push_back(&T->flat); for (auto &x : T->elems) todo.push_back(&x.cells); }
          });
        }
        if (pinned) continue;
        bool again = true;
        while (again) {
          again = false;
          for (auto it = cand.begin(); it != cand.end();) {
            bool ext = false, root = false;
            for (auto &h : refs[*it]) {
              bool in = h == H{r, (int)i} || cand.count(h.first);
              if (!in) { ext = true; if (h.first < 0) root = true; else if (s.rd(h.first) && s.rd(h.first)->kind == Region::Stack) root = true; }
            }
            if (ext) {
              const Region *T = s.rd(*it);
              if (T->ownerArr == r) { pinned = true; (void)root; }
              it = cand.erase(it); again = true;
            } else ++it;
          }
        }
        if (pinned) continue;
        for (auto &q : into[r]) {
          Lin d = q.second - e.idx.times(R->stride);
          if (d.isConst() ? (d.c >= 0 && d.c < R->stride) : (s.z.lb(d) >= 0 && s.z.ub(d) < R->stride)) { pinned = true; break; }
        }
        if (pinned) continue;
        std::vector<int> owned;
        for (int o : order) if (cand.count(o)) owned.push_back(o);
        bool inner = false;
        for (int o : owned) { const Region *T = s.rd(o); if (T->vec && T->alive && T->stride && !T->elems.empty()) inner = true; }
        if (inner) continue;
        bool mod = e.modified;
        for (int o : owned) if (s.rd(o)->modified || s.rd(o)->ownerArr != r) mod = true;
        bool droppable = R->generalized && !mod;
        Elem ec = e;
        if (!droppable) {
          ProtoP p = makeProto(s, r, ec, owned);
          addProto(s, r, p);
          Region &W = s.wr(r);
          Lin top = ec.idx + Lin(1);
          if (!W.hasSum) { W.hasSum = true; W.sumHi = top; W.sumHiKnown = true; }
          else if (W.sumHiKnown) {
            Lin d = top - W.sumHi;
            if (d.isConst() ? d.c <= 0 : s.z.ub(d) <= 0) {}
            else if (d.isConst() || s.z.lb(d) >= 0) W.sumHi = top;
            else { // join of two incomparable bounds: a fresh upper bound
              Sym y = fresh(); s.z.add(y); Lin Y = Lin::sym(y);
              if (top.t.size() <= 1) s.z.assumeLE0(top - Y);
              if (W.sumHi.t.size() <= 1) s.z.assumeLE0(W.sumHi - Y);
              W.sumHi = Y;
            }
          }
        }
        Region &W = s.wr(r);
        s.approx = true;
        W.elems.erase(W.elems.begin() + i);
        for (int o : owned) s.mem.erase(o);
        changed = true;
      }
      if (changed) break;
    }
    if (!changed) break;
    collect(s);
  }
}

// ---------------------------------------------------------------- canonical form
Canon Engine::canon(State &s, int level) {
  Canon C; std::string &o = C.skel;
  std::map<int, int> num; std::vector<int> queue;
  std::map<Lin, int> wideId; std::set<Sym> rig;
  auto rn = [&](int r) -> std::string {
    auto g = regionGlobal.find(r);
    auto it = num.find(r);
    if (it == num.end()) { int k = (int)num.size(); it = num.insert({r, k}).first; queue.push_back(r); if (g != regionGlobal.end()) o += "g" + std::to_string(r) + "="; }
    return std::to_string(it->second);
  };
  auto hole = [&](const Lin &h, HoleLoc loc) { o += "#"; C.holes.push_back(h); C.loc.push_back(std::move(loc)); };
  auto lin = [&](const Lin &l, bool discrete, HoleLoc loc) {
    Lin rest(l.c), base;
    for (auto &t : l.t) {
      auto it = symRegion.find(t.first);
      if (it != symRegion.end()) { std::string n = rn(it->second); o += "A" + n + "*" + std::to_string(t.second); base.addScaled(Lin::sym(t.first), t.second); }
      else rest.addScaled(Lin::sym(t.first), t.second);
    }
    if (rigidOnly(rest)) { for (auto &t : rest.t) { o += "R" + std::to_string(t.first) + "*" + std::to_string(t.second); rig.insert(t.first); } o += "c" + std::to_string(rest.c); return; }
    if (rest.isConst() && (discrete || !base.isConst())) { o += "c" + std::to_string(rest.c); return; }
    loc.base = base; loc.scale = 1;
    hole(rest, loc);
  };
  std::function<void(const Val &, i64, bool, HoleLoc)> val = [&](const Val &v, i64 size, bool mem, HoleLoc loc) {
    switch (v.k) {
    case Val::Undef: o += "U"; break;
    case Val::Top: o += "T"; break;
    case Val::Fn: o += "F" + std::to_string((uintptr_t)v.fn); break;
    case Val::Int: o += "i"; lin(v.e, level == 0 || size <= 1 || (mem && size <= 4 && v.e.isConst() && v.e.c >= 0 && v.e.c <= 3), loc); break;
    case Val::Ptr: {
      std::string n = rn(v.r); o += "P" + n;
      const Region *R = s.rd(v.r);
      i64 st = R ? R->stride : 0;
      if (st && v.e.coefsDivisible(st) && !(v.e.isConst() && v.e.c >= ((i64)1 << 43))) {
        i64 inner = v.e.c % st; if (inner < 0) inner += st;
        Lin q = (v.e - Lin(inner)).divBy(st);
        o += "+" + std::to_string(inner) + "*";
        loc.base = Lin(inner); loc.scale = st;
        if (q.isConst() && level == 0 && !R->hasSum) o += "c" + std::to_string(q.c);
        else hole(q, loc);
      } else if (v.e.isConst()) o += "+" + std::to_string(v.e.c);
      else { loc.base = Lin(); loc.scale = 1; hole(v.e, loc); }
      break;
    }
    case Val::ElemRef: o += "E" + rn(v.r); o += "." + std::to_string(v.tm) + "+" + v.e.str(); break;
    case Val::Agg: { o += "{"; int k = 0; for (auto &x : *v.el) { HoleLoc l = loc; l.path.push_back(k++); val(x, 8, mem, l); o += ","; } o += "}"; break; }
    case Val::Concat: { o += "("; int k = 0; for (auto &x : *v.pc) { HoleLoc l = loc; l.path.push_back(k++); o += std::to_string(x.off) + ":" + std::to_string(x.size); val(x.v, x.size, mem, l); o += ","; } o += ")"; break; }
    }
  };
  auto cells = [&](const Cells &c, int r, int elem) {
    for (auto &q : c) {
      o += std::to_string(q.first) + ":" + std::to_string(q.second.size);
      if (q.second.zfill) { o += "z"; continue; }
      if (q.second.wide) {
        if (q.second.v.k == Val::Int && rigidOnly(q.second.v.e)) o += "wR" + q.second.v.e.str();
        else { auto it = wideId.find(q.second.v.e); if (it == wideId.end()) { int k = (int)wideId.size(); it = wideId.insert({q.second.v.e, k}).first; } o += "w" + std::to_string(it->second); }
        continue;
      }
      HoleLoc l; l.k = elem < 0 ? HoleLoc::Flat : HoleLoc::ElemCell; l.r = r; l.i = elem; l.off = q.first;
      val(q.second.v, q.second.size, true, l);
      o += ";";
    }
  };
  for (size_t i = 0; i < s.st.size(); i++) {
    const Frame &f = *s.st[i];
    FnInfo &fi = info(f.f);
    o += "\nF" + std::to_string((uintptr_t)f.f) + "@" + std::to_string(fi.num[f.pc]) + "<" + std::to_string((uintptr_t)f.call) + ":";
    std::vector<std::pair<int, const Value *>> rs;
    for (auto &r : f.regs) rs.push_back({fi.num[r.first], r.first});
    std::sort(rs.begin(), rs.end());
    for (auto &p : rs) {
      o += std::to_string(p.first) + "=";
      HoleLoc l; l.k = HoleLoc::Reg; l.r = (int)i; l.v = p.second;
      Type *t = p.second->getType();
      i64 size = t->isIntegerTy() ? (t->getIntegerBitWidth() == 1 ? 1 : (t->getIntegerBitWidth() + 7) / 8) : 8;
      val(f.regs.at(p.second), size, false, l);
      o += ";";
    }
  }
  for (int c : s.caught) o += " c" + rn(c);
  if (s.inflight >= 0) o += " x" + rn(s.inflight);
  o += " u" + std::to_string(s.uncaught) + (s.mayTerminate ? "T" : "") + (s.folding ? "f" : "");
  for (auto &l : s.locks) { o += " l"; o += rn(l.first) + "." + std::to_string(l.second); }
  for (auto &g : s.guards) { o += " g"; o += rn(g.r) + "." + std::to_string(g.off) + "." + std::to_string(g.size); o += (g.lockR < 0 ? std::string("*") : rn(g.lockR)) + "." + std::to_string(g.lockOff); }
  for (auto *f : s.pending) o += " p" + std::to_string((uintptr_t)f);
  for (auto &m : s.mem) if (m.second->modified && regionGlobal.count(m.first)) rn(m.first);
  for (size_t qi = 0; qi < queue.size(); qi++) {
    int r = queue[qi];
    const Region *R = s.rd(r);
    o += "\nM";
    if (!R) { o += "-"; continue; }
    if (regionGlobal.count(r) && !R->modified) { o += "G"; continue; }
    o += std::to_string(R->kind) + (R->alive ? "" : "D") + (R->vec ? "V" : "") + (R->modified && R->ownerArr >= 0 ? "m" : "") + (R->zero ? "Z" : "") + (R->generalized ? "g" : "") + (R->hasSum ? "S" : "") + " " + std::to_string(R->size) + "/" + std::to_string(R->stride) + " t" + std::to_string(R->tmpl) + " d" + std::to_string(R->depth) + (R->excType ? "x" + std::to_string((uintptr_t)R->excType) : "");
    if (R->ownerArr >= 0) { o += "o"; o += rn(R->ownerArr); }
    if (R->sumHiKnown) { o += "h"; HoleLoc l; l.k = HoleLoc::SumHi; l.r = r; lin(R->sumHi, false, l); }
    for (size_t k = 0; k < R->ranges.size(); k++) {
      o += "k" + std::to_string(R->ranges[k].mask);
      HoleLoc l; l.r = r; l.i = (int)k; l.k = HoleLoc::RangeLo; lin(R->ranges[k].lo, false, l); l.k = HoleLoc::RangeHi; lin(R->ranges[k].hi, false, l);
    }
    cells(R->flat, r, -1);
    std::vector<int> ord(R->elems.size());
    for (size_t k = 0; k < ord.size(); k++) ord[k] = (int)k;
    std::vector<int> less(R->elems.size(), 0);
    for (size_t a = 0; a < ord.size(); a++) for (size_t b = 0; b < ord.size(); b++) if (a != b) {
      Lin d = R->elems[b].idx - R->elems[a].idx;
      if (d.isConst() ? d.c < 0 : s.z.ub(d) < 0) less[a]++;
    }
    std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return less[a] < less[b]; });
    for (int k : ord) {
      const Elem &e = R->elems[k];
      o += "e" + std::to_string(e.kind) + (e.modified ? "m" : "");
      HoleLoc l; l.k = HoleLoc::ElemIdx; l.r = r; l.i = k;
      lin(e.idx, level == 0 && !R->hasSum, l);
      cells(e.cells, r, k);
    }
    std::vector<const Proto *> ps;
    for (auto &p : R->protos) ps.push_back(p.get());
    std::sort(ps.begin(), ps.end(), [](const Proto *a, const Proto *b) { return a->canon != b->canon ? a->canon < b->canon : a->ext < b->ext; });
    for (auto *p : ps) { o += "<" + p->canon; for (int x : p->ext) { o += " X"; o += rn(x); } for (auto &sub : p->subs) for (auto &q : sub->protos) for (int x : q->ext) { o += " Y"; o += rn(x); } o += ">"; }
  }
  // sums and differences of two or three quantities are kept as such
  std::map<Sym, size_t> rep;
  for (size_t i = 0; i < C.holes.size(); i++) { const Lin &l = C.holes[i]; if (l.t.size() == 1 && l.t[0].second == 1 && !rigid.count(l.t[0].first)) rep.insert({l.t[0].first, i}); }
  for (size_t i = 0, n = C.holes.size(); i < n; i++) {
    Lin l = C.holes[i];
    if (l.t.empty() || (l.t.size() == 1 && l.t[0].second == 1) || l.t.size() > 3 || !((l.c >= -4 && l.c <= 4) || (l.c >= INT32_MAX - 2 && l.c <= (i64)INT32_MAX + 4))) continue;
    bool ok = true;
    for (auto &t : l.t) if (t.second > 1 || t.second < -1 || rigid.count(t.first) || symRegion.count(t.first)) ok = false;
    if (!ok) continue;
    auto &A = C.aff[i]; A.second = l.c;
    o += "=" + std::to_string(i) + ":" + std::to_string(l.c);
    std::vector<std::pair<size_t, i64>> parts;
    for (auto &t : l.t) {
      auto it = rep.find(t.first);
      if (it == rep.end()) { it = rep.insert({t.first, C.holes.size()}).first; C.holes.push_back(Lin::sym(t.first)); C.loc.push_back(HoleLoc()); }
      parts.push_back({it->second, t.second});
    }
    std::sort(parts.begin(), parts.end());
    for (auto &q : parts) o += "," + std::to_string(q.second) + "*" + std::to_string(q.first);
    A.first = parts;
  }
  for (auto &q : s.order) {
    auto a = num.find(q.first), b = num.find(q.second);
    if (a != num.end() && b != num.end()) o += "\nO" + std::to_string(a->second) + "<" + std::to_string(b->second);
  }
  for (Sym y : rig) { C.rigid.push_back(y); C.holes.push_back(Lin::sym(y)); C.loc.push_back(HoleLoc()); }
  return C;
}

std::vector<i64> Engine::matrix(State &s, const Canon &c) {
  size_t n = c.holes.size() + 1;
  std::vector<i64> m(n * n, 0);
  // rows: symbol and constant for the common case
  struct Row { int row; i64 c; bool simple; };
  std::vector<Row> r(n);
  r[0] = {0, 0, true};
  for (size_t i = 1; i < n; i++) {
    const Lin &l = c.holes[i - 1];
    if (l.t.empty()) r[i] = {0, l.c, true};
    else if (l.t.size() == 1 && l.t[0].second == 1) r[i] = {s.z.find(l.t[0].first), l.c, true};
    else r[i] = {-1, 0, false};
  }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
    if (i == j) continue;
    if (r[i].simple && r[j].simple) {
      i64 u;
      if (i && j && c.holes[i - 1].t == c.holes[j - 1].t) u = 0;
      else if (r[i].row < 0 || r[j].row < 0) u = INF;
      else u = s.z.at(r[i].row, r[j].row);
      m[i * n + j] = u >= INF ? INF : u + r[i].c - r[j].c;
    } else {
      Lin a = i ? c.holes[i - 1] : Lin(), b = j ? c.holes[j - 1] : Lin();
      m[i * n + j] = s.z.ub(a - b);
    }
  }
  return m;
}

static Val *follow(Val *v, const std::vector<int> &path) {
  for (int k : path) {
    if (v->k == Val::Agg) { v->el = std::make_shared<std::vector<Val>>(*v->el); v = &(*v->el)[k]; }
    else { v->pc = std::make_shared<std::vector<Piece>>(*v->pc); v = &(*v->pc)[k].v; }
  }
  return v;
}

// replace the numbers of a state by what the matrix says about them
void Engine::rebuild(State &s, const Canon &c, const std::vector<i64> &m0, bool close) {
  size_t n = c.holes.size() + 1;
  std::vector<i64> m = m0;
  if (close || !s.defs.empty()) s.approx = true;
  if (close) {
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) { i64 ik = m[i * n + k]; if (ik >= INF) continue; for (size_t j = 0; j < n; j++) { i64 v = sat_add(ik, m[k * n + j]); if (v < m[i * n + j]) m[i * n + j] = v; } }
    for (size_t i = 0; i < n; i++) m[i * n + i] = 0;
  }
  std::vector<Lin> nv(n);
  std::vector<int> reps{0}; std::vector<Sym> repSym{0}; std::vector<i64> repOff{0};   // hole = sym + off
  std::set<Sym> used;
  size_t firstRigid = n - c.rigid.size();
  // rigid symbols keep their name
  for (size_t i = firstRigid; i < n; i++) { used.insert(c.rigid[i - firstRigid]); }
  for (size_t i = n; i-- > 1;) {
    // rigid ones first, then in order
    size_t idx = i >= firstRigid ? i : firstRigid - i;
    bool rigidHole = idx >= firstRigid;
    if (c.aff.count(idx - 1)) continue;
    i64 hi = m[idx * n], lo = m[0 * n + idx];
    if (!rigidHole && hi < INF && lo < INF && hi == -lo) { nv[idx] = Lin(hi); continue; }
    bool done = false;
    if (!rigidHole) for (size_t k = 1; k < reps.size(); k++) {
      i64 a = m[idx * n + reps[k]], b = m[reps[k] * n + idx];
      if (a < INF && b < INF && a == -b) { nv[idx] = Lin::sym(repSym[k]) + Lin(repOff[k] + a); done = true; break; }
    }
    if (done) continue;
    const Lin &old = c.holes[idx - 1];
    Sym y; i64 off = 0;
    if (rigidHole) { y = c.rigid[idx - firstRigid]; }
    else if (old.t.size() == 1 && old.t[0].second == 1 && !rigid.count(old.t[0].first) && used.insert(old.t[0].first).second) { y = old.t[0].first; off = old.c; }
    else y = fresh();
    nv[idx] = Lin::sym(y) + Lin(off);
    reps.push_back((int)idx); repSym.push_back(y); repOff.push_back(off);
  }
  for (auto &a : c.aff) {
    Lin l(a.second.second);
    for (auto &q : a.second.first) { const Lin &h = c.holes[q.first]; l = l + (nv[q.first + 1] - Lin(h.c)).times(q.second); }
    nv[a.first + 1] = l;
  }
  Zone z; size_t k = reps.size();
  z.ids.clear(); z.row.clear(); z.m.assign(k * k, 0);
  for (size_t a = 0; a < k; a++) { z.ids.push_back(repSym[a]); z.row[repSym[a]] = (int)a; }
  for (size_t a = 0; a < k; a++) for (size_t b = 0; b < k; b++) {
    if (a == b) continue;
    i64 u = m[reps[a] * n + reps[b]];
    z.m[a * k + b] = u >= INF ? INF : u - repOff[a] + repOff[b];
  }
  s.z = std::move(z);
  s.defs.clear();
  for (size_t i = 1; i < firstRigid; i++) {
    if (nv[i] == c.holes[i - 1]) continue;
    const HoleLoc &l = c.loc[i - 1];
    Lin x = l.base + nv[i].times(l.scale);
    switch (l.k) {
    case HoleLoc::Reg: { auto &p = s.st[l.r]; if (p.use_count() > 1) p = std::make_shared<Frame>(*p); follow(&p->regs[l.v], l.path)->e = x; break; }
    case HoleLoc::Flat: follow(&s.wr(l.r).flat[l.off].v, l.path)->e = x; break;
    case HoleLoc::ElemCell: follow(&s.wr(l.r).elems[l.i].cells[l.off].v, l.path)->e = x; break;
    case HoleLoc::ElemIdx: s.wr(l.r).elems[l.i].idx = x; break;
    case HoleLoc::SumHi: s.wr(l.r).sumHi = x; break;
    case HoleLoc::RangeLo: s.wr(l.r).ranges[l.i].lo = x; break;
    case HoleLoc::RangeHi: s.wr(l.r).ranges[l.i].hi = x; break;
    default: break;
    }
  }
}

static bool included(const std::vector<i64> &a, const std::vector<i64> &b) {
  for (size_t i = 0; i < a.size(); i++) if (a[i] > b[i]) return false;
  return true;
}

static void dumpSkel(const Canon &c, const std::vector<i64> &m) { errs() << "SKEL " << c.skel << "\nMAT"; size_t n = c.holes.size() + 1; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && m[i*n+j] < INF) errs() << " h" << i << "-h" << j << "<=" << m[i*n+j]; errs() << "\n"; }

void Engine::loopHook(State &s, const BasicBlock *h, bool back) {
  prune(s); fold(s);
  Frame &f0 = s.top();
  auto lin = f0.lineage.find(h);
  int iters = 0;
  if (back && lin != f0.lineage.end()) iters = ++lin->second.second;
  if (refute >= 0) {
    if (!back || lin == f0.lineage.end()) f0.lineage[h] = {0, 0};
    if (iters > unroll) throw PathEnd{};
    return;
  }
  int level = iters <= unroll ? 0 : 1;
  Canon c = canon(s, level);
  auto m = matrix(s, c);
  static const char *skf = getenv("IRX_SKELF");
  if (skf && has(name(f0.f).substr(0, 120), skf)) { errs() << (back ? "BACK " : "ENTRY ") << iters << "\n"; dumpSkel(c, m); }
  if (!back || lin == f0.lineage.end()) {
    auto &L = loopEntries[c.skel];
    for (auto &e : L) if (included(m, e.first)) { subsumed++; throw PathEnd{}; }
    bool close = false;
    if ((int)L.size() >= maxEntries) {
      auto &o = L.back().first;
      bool w = (int)L.size() >= maxEntries + 3;
      for (size_t i = 0; i < m.size(); i++) if (m[i] > o[i]) { if (w) m[i] = widenUp(m[i]); } else m[i] = o[i];
      joins++; s.approx = true; if (w) { widenings++; close = true; }
    }
    int id = (int)recs.size();
    recs.push_back(std::make_unique<LoopRec>()); recs.back()->m = m; recs.back()->skel = c.skel;
    L.push_back({m, id});
    rebuild(s, c, m, close);
    s.top().lineage[h] = {id, 0};
    return;
  }
  LoopRec &rec = *recs[lin->second.first];
  if (level == 0 && rec.skel == c.skel && included(m, rec.m)) { subsumed++; throw PathEnd{}; }
  auto &V = rec.back[c.skel];
  for (auto &x : V) if (included(m, x.m)) { subsumed++; throw PathEnd{}; }
  bool close = false;
  if ((int)V.size() < maxDisj) V.push_back({m, 0});
  else {
    Stored &x = V.back();
    joins++; x.joins++; s.approx = true;
    bool w = x.joins > 2;
    for (size_t i = 0; i < m.size(); i++) if (m[i] > x.m[i]) { if (w) m[i] = widenUp(m[i]); } else m[i] = x.m[i];
    if (w) { widenings++; close = true; }
    x.m = m;
  }
  rebuild(s, c, m, close);
}

// among the stored matrices the one a join with m loses least against
template <class V, class F> static size_t partner(const V &L, const std::vector<i64> &m, F get) {
  size_t best = L.size() - 1; long cost = -1;
  size_t n = 1; while (n * n < m.size()) n++;
  for (size_t k = L.size(); k-- > 0;) {
    const std::vector<i64> &o = get(L[k]);
    long c = 0;
    for (size_t i = 0; i < m.size(); i++) if (m[i] > o[i]) c++;
    for (size_t i = 1; i < n; i++) if (m[i * n] == -m[i] && o[i * n] == -o[i] && m[i] != o[i]) c += 50;
    if (cost < 0 || c < cost) { cost = c; best = k; }
  }
  return best;
}

void Engine::defer(State &s, const BasicBlock *from) {
  prune(s); fold(s);
  Canon c = canon(s, 0);
  auto m = matrix(s, c);
  Deferred d{std::move(s), c.skel, std::move(m), from};
  FnInfo &fi = info(d.s.ctop().f);
  Loop *l = fi.li->getLoopFor(d.s.ctop().bb);
  deferred.emplace(std::make_tuple(d.s.st.size(), l ? l->getLoopDepth() : 0u, ++deferSeq), std::move(d));
}

bool Engine::resume(State &s) {
  while (!deferred.empty()) {
    auto it = std::prev(deferred.end());
    Deferred d = std::move(it->second);
    deferred.erase(it);
    auto &L = exitSeen[d.skel];
    bool in = false;
    for (auto &e : L) if (included(d.m, e)) { in = true; break; }
    if (in) { subsumed++; continue; }
    s = std::move(d.s);
    if ((int)L.size() >= maxEntries) {
      joins++; s.approx = true;
      size_t k = partner(L, d.m, [](const std::vector<i64> &x) -> const std::vector<i64> & { return x; });
      bool w = (int)L.size() >= 3 * maxEntries + 3;
      for (size_t i = 0; i < d.m.size(); i++) if (d.m[i] > L[k][i]) { if (w) d.m[i] = widenUp(d.m[i]); } else d.m[i] = L[k][i];
      Canon c = canon(s, 0);
      L.push_back(d.m);
      rebuild(s, c, d.m, w);
    } else L.push_back(d.m);
    const BasicBlock *to = s.ctop().bb;
    FnInfo &fi = info(s.ctop().f);
    if (Loop *l = fi.li->getLoopFor(to)) if (l->getHeader() == to) {
      try { loopHook(s, to, l->contains(d.from)); } catch (PathEnd &) { continue; }
    }
    return true;
  }
  return false;
}

bool Engine::mergePoint(State &s, const std::string &) {
  Canon c = canon(s, 0);
  auto m = matrix(s, c);
  if (getenv("IRX_SKEL")) dumpSkel(c, m);
  auto &L = mergeSeen[c.skel];
  for (auto &e : L) if (included(m, e)) return false;
  bool close = false;
  if ((int)L.size() >= maxEntries) {
    auto &o = L.back();
    bool w = (int)L.size() >= maxEntries + 3;
    s.approx = true;
    for (size_t i = 0; i < m.size(); i++) if (m[i] > o[i]) { if (w) m[i] = widenUp(m[i]); } else m[i] = o[i];
    close = w;
  }
  L.push_back(m);
  rebuild(s, c, m, close);
  return true;
}
}
