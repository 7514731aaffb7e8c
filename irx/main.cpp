// Driver: runs the analysis of one or more entries of a module and writes a JSON report.
#include "engine.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

namespace irx {
bool Engine::drive(State s0) {
  work.push_back(std::move(s0));
  while (!work.empty() || !deferred.empty()) {
    State s;
    if (!work.empty()) { s = std::move(work.back()); work.pop_back(); }
    else if (!resume(s)) break;
    for (;;) {
      if ((steps & 1023) == 0) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (steps > maxSteps || el > maxSeconds) { budgetHit = true; work.clear(); return false; }
        if (verbose && (steps & 0x3ffff) == 0) errs() << "steps " << steps << " work " << work.size() << " joins " << joins << " sub " << subsumed << " zone " << s.z.n() << " mem " << s.mem.size() << " depth " << s.st.size() << " at " << where(s) << "\n";
      }
      try {
        static const bool tellVague = getenv("IRX_VAGUE");
        std::string at; bool was = s.approx; if (tellVague && !was) { raw_string_ostream o(at); o << where(s) << " " << *s.ctop().pc; }
        step(s);
        if (tellVague && s.approx && !was) { errs() << "vague at " << at << "\n"; for (auto &f : s.st) errs() << "   in " << f->f->getName() << "\n"; }
        s.choices.clear(); s.choicePos = 0;
        if (s.z.n() > 96 && s.z.n() > 2 * s.zoneKept) compact(s);
        continue;
      } catch (SplitSign &sp) {
        splits++;
        s.choicePos = 0;
        std::vector<State> alt;
        bool addrDiff = sp.l.t.size() == 2 && symRegion.count(sp.l.t[0].first) && symRegion.count(sp.l.t[1].first);
        bool rep = s.z.representable(sp.l);
        for (int k = 0; k < 3; k++) {
          if (k == 0 && addrDiff) continue;
          State c = s; bool ok = true;
          if (rep) {
            if (k == 0) ok = c.z.assumeLE0(sp.l) && c.z.assumeLE0(sp.l.times(-1));
            if (k == 1) ok = c.z.assumeLE0(sp.l + Lin(1));
            if (k == 2) ok = c.z.assumeLE0(Lin(1) - sp.l);
          }
          if (ok && !c.z.bottom) alt.push_back(std::move(c));
        }
        if (alt.empty()) break;
        for (size_t i = 1; i < alt.size(); i++) work.push_back(std::move(alt[i]));
        s = std::move(alt[0]);
      } catch (SplitLE &sp) {
        splits++;
        s.choicePos = 0;
        State c = s;
        bool a = s.z.assumeLE0(sp.l) && !s.z.bottom, b = c.z.assumeLE0(Lin(1) - sp.l) && !c.z.bottom;
        if (a && b) work.push_back(std::move(c));
        else if (b) s = std::move(c);
        else if (!a) break;
      } catch (SplitChoice &sp) {
        splits++;
        s.choicePos = 0;
        for (int k = 1; k < sp.n; k++) { State c = s; c.choices.push_back({sp.n, k}); work.push_back(std::move(c)); }
        s.choices.push_back({sp.n, 0});
      } catch (PathEnd &) {
        break;
      } catch (DeferExit &d) {
        s.choices.clear(); s.choicePos = 0;
        defer(s, d.from); break;
      } catch (Violation &v) {
        violation(s, v.kind, v.msg); break;
      } catch (std::out_of_range &) {
        std::string k = "internal: vanished region at " + (s.st.empty() ? std::string("?") : where(s));
        if (!incompletes[k]++) incompleteTrace[k] = traceOf(s);
        break;
      } catch (Incomplete &i) {
        std::string file, func; unsigned line = 0;
        std::string w = s.st.empty() ? "?" : where(s, &file, &line, &func);
        std::string k = i.what + " at " + w;
        if (!incompletes[k]++) incompleteTrace[k] = traceOf(s);
        break;
      }
    }
    if (maxViolations && (int)violations.size() >= maxViolations) { work.clear(); return true; }
    if (refute >= 0 && refuted) { work.clear(); return true; }
  }
  return true;
}

void Engine::compact(State &s) {
  std::set<Sym> keep(rigid.begin(), rigid.end());
  auto lin = [&](const Lin &l) { for (auto &t : l.t) keep.insert(t.first); };
  std::function<void(const Val &)> val = [&](const Val &v) {
    lin(v.e);
    if (v.el) for (auto &x : *v.el) val(x);
    if (v.pc) for (auto &x : *v.pc) val(x.v);
  };
  for (auto &f : s.st) for (auto &r : f->regs) val(r.second);
  for (auto &m : s.mem) {
    for (auto &c : m.second->flat) if (!c.second.wide) val(c.second.v);
    for (auto &e : m.second->elems) { lin(e.idx); for (auto &c : e.cells) if (!c.second.wide) val(c.second.v); }
    lin(m.second->sumHi);
    for (auto &k : m.second->ranges) { lin(k.lo); lin(k.hi); }
    for (auto &p : m.second->protos) for (auto &sub : p->subs) { for (auto &c : sub->flat) if (!c.second.wide) val(c.second.v); }
  }
  for (auto it = s.defs.begin(); it != s.defs.end();) {
    bool all = true;
    for (auto &t : it->first.t) if (!keep.count(t.first)) all = false;
    if (all) { keep.insert(it->second); ++it; } else it = s.defs.erase(it);
  }
  s.z.keepOnly(keep);
  s.zoneKept = s.z.n();
}

void Engine::run(const Function *entry) {
  State s;
  if (auto *g = M.getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto &op : ca->operands()) if (auto *cs = dyn_cast<ConstantStruct>(op)) if (auto *f = dyn_cast<Function>(cs->getOperand(1))) s.pending.push_back(f);
  s.pending.push_back(entry);
  const Function *first = s.pending.front(); s.pending.erase(s.pending.begin());
  pushFrame(s, first, {}, nullptr);
  drive(std::move(s));
}
}

using namespace irx;
int main(int argc, char **argv) {
  std::string repo, harness, out, file; std::vector<std::string> entries; bool verbose = false; double secs = 600; long maxSteps = 0; int unroll = -1, disj = -1, maxV = 20, entries_ = -1, refute = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--repo") repo = next(); else if (a == "--harness") harness = next(); else if (a == "--out") out = next(); else if (a == "--entry") entries.push_back(next());
    else if (a == "-v") verbose = true; else if (a == "--seconds") secs = std::stod(next()); else if (a == "--steps") maxSteps = std::stol(next());
    else if (a == "--refute") refute = std::stoi(next()); else if (a == "--entries") entries_ = std::stoi(next());
    else if (a == "--unroll") unroll = std::stoi(next()); else if (a == "--disj") disj = std::stoi(next()); else if (a == "--maxv") maxV = std::stoi(next()); else file = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("irx", errs()); return 2; }
  // a harness may say what a library function does, which it can not define itself
  for (auto &f : *mod) if (f.getName().starts_with("irx_override_") && !f.isDeclaration())
    if (auto *o = mod->getFunction(f.getName().drop_front(13))) o->replaceAllUsesWith(&f);
  std::vector<Function *> fs;
  for (auto &f : *mod) if (f.getName().starts_with("irx_entry_") && !f.isDeclaration()) { if (entries.empty() || std::find(entries.begin(), entries.end(), f.getName().str()) != entries.end()) fs.push_back(&f); }
  if (entries.size() == 1 && entries[0] == "list") { for (auto &f : *mod) if (f.getName().starts_with("irx_entry_") && !f.isDeclaration()) outs() << f.getName() << "\n"; return 0; }
  json::Array res;
  for (auto *f : fs) {
    Engine E(*mod);
    E.repoDir = repo; E.harnessFile = harness; E.verbose = verbose; E.maxSeconds = secs; E.maxViolations = maxV;
    if (maxSteps) E.maxSteps = maxSteps;
    if (unroll >= 0) E.unroll = unroll;
    if (disj >= 0) E.maxDisj = disj;
    E.refute = refute;
    if (entries_ >= 0) E.maxEntries = entries_;
    E.t0 = std::chrono::steady_clock::now();
    E.run(f);
    json::Object o;
    o["entry"] = f->getName().str();
    json::Array ob;
    auto tr = [](const std::vector<std::string> &t) { json::Array a; for (auto &x : t) a.push_back(x); return a; };
    for (auto &p : E.obligations) { json::Object x; x["id"] = p.first; x["checked"] = (int64_t)p.second.checked; x["violated"] = p.second.violated; x["approx"] = p.second.approx; if (p.second.violated) { x["func"] = p.second.func; x["file"] = p.second.file; x["trace"] = tr(p.second.trace); } ob.push_back(std::move(x)); }
    o["obligations"] = std::move(ob);
    json::Array vi;
    for (auto &v : E.violations) { json::Object x; x["kind"] = v.id; x["approx"] = v.approx; x["msg"] = v.detail; x["file"] = v.file; x["line"] = (int64_t)v.line; x["func"] = v.func; x["trace"] = tr(v.trace); vi.push_back(std::move(x)); }
    o["violations"] = std::move(vi);
    json::Object rc; for (auto &p : E.reached) rc[p.first] = (int64_t)p.second;
    o["reached"] = std::move(rc);
    json::Object ic; for (auto &p : E.incompletes) { json::Object y; y["count"] = (int64_t)p.second; y["trace"] = tr(E.incompleteTrace[p.first]); ic[p.first] = std::move(y); }
    o["incomplete"] = std::move(ic);
    json::Object ex; for (auto &p : E.externals) ex[p.first] = (int64_t)p.second;
    o["externals"] = std::move(ex);
    json::Array rf; for (auto &x : E.repoFunctions) rf.push_back(x);
    o["repo_functions"] = std::move(rf);
    o["functions"] = (int64_t)E.functionsSeen.size(); o["steps"] = (int64_t)E.steps; o["paths"] = (int64_t)E.paths; o["splits"] = (int64_t)E.splits; o["joins"] = (int64_t)E.joins;
    o["widenings"] = (int64_t)E.widenings; o["subsumed"] = (int64_t)E.subsumed; o["loop_heads"] = (int64_t)E.recs.size(); o["accesses"] = (int64_t)E.accesses; o["guarded"] = (int64_t)E.guardedAccesses; o["budget_hit"] = E.budgetHit;
    o["seconds"] = std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count();
    res.push_back(std::move(o));
  }
  std::error_code ec;
  if (out.empty()) outs() << formatv("{0:2}", json::Value(std::move(res))) << "\n";
  else { raw_fd_ostream os(out, ec); os << formatv("{0:2}", json::Value(std::move(res))) << "\n"; }
  return 0;
}
