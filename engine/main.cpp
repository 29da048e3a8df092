// v: runs the drivers of one harness module and writes what it found as JSON.
#include "engine.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <chrono>
using namespace llvm;
int main(int argc, char **argv) {
  std::string in, cfg = "debug", out, only; int verbose = 0; bool list = false; long maxStates = 400000; double maxSeconds = 1e9;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-v") verbose = 1; else if (a == "-list") list = true; else if (a == "-cfg") cfg = argv[++i]; else if (a == "-o") out = argv[++i]; else if (a == "-only") only = argv[++i]; else if (a == "-t") maxSeconds = atof(argv[++i]); else if (a == "-max") maxStates = atol(argv[++i]); else in = a; }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(in, err, C);
  if (!M) { err.print("v", errs()); return 2; }
  extern std::set<std::string> TrackedCounts;
  if (auto *vc = M->getFunction("__v_count")) for (auto *u : vc->users()) if (auto *cb = dyn_cast<CallBase>(u)) if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (auto *ca = dyn_cast<ConstantDataArray>(g->getInitializer())) TrackedCounts.insert(ca->getAsCString().str());
  const char *envRepo = getenv("V_REPO"); std::string repo = std::string(envRepo ? envRepo : "/repo") + "/";
  if (list) {
    json::Object drs, marks;
    json::Array dl;
    for (auto &F : *M) {
      if (F.isDeclaration() || !F.getName().starts_with("__drv_")) continue;
      std::string dn = F.getName().substr(6).str(); dl.push_back(dn);
      std::set<const Function *> seen{&F}; std::vector<const Function *> todo{&F}; std::set<std::string> ms;
      while (!todo.empty()) {
        auto *f = todo.back(); todo.pop_back();
        for (auto &bb : *f) for (auto &i : bb) {
          auto *cb = dyn_cast<CallBase>(&i);
          if (cb && cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_reach") if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (auto *ca = dyn_cast<ConstantDataArray>(g->getInitializer())) ms.insert(ca->getAsCString().str());
          // only the client's own code: markers in callbacks are anchored by the driver that names them
          for (auto &op : i.operands()) if (auto *g = dyn_cast<Function>(op.get())) if (!g->isDeclaration() && seen.insert(g).second) todo.push_back(g);
        }
      }
      json::Array a; for (auto &m : ms) a.push_back(m); marks[dn] = std::move(a);
    }
    json::Object o; o["drivers"] = std::move(dl); o["markers"] = std::move(marks);
    outs() << formatv("{0}", json::Value(std::move(o))) << "\n"; return 0;
  }
  json::Array drivers; bool incomplete = false;
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with("__drv_")) continue;
    std::string dn = F.getName().substr(6).str();
    if (!only.empty() && only != dn && ("," + only + ",").find("," + dn + ",") == std::string::npos) continue;
    Engine E; E.M = M.get(); E.DL = &M->getDataLayout(); E.driverName = dn; E.cfgName = cfg; E.verbose = verbose; E.maxStates = maxStates; E.maxSeconds = maxSeconds; Engine::clockReset();
    for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_precise") if (auto *c = dyn_cast<ConstantInt>(cb->getArgOperand(0))) E.exitCap = c->getZExtValue();
    SmashMode = ExactMode = false;
    NarrowMode = false; for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_narrow") NarrowMode = true;
    AlgebraMode = false; for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_algebra") AlgebraMode = true;
    if (AlgebraMode) algReset();
    for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_exact") ExactMode = true; else if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_reliable_malloc") E.reliableMalloc = true; else if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_overflow") E.checkOverflow = true;
    for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_heads") if (auto *c = dyn_cast<ConstantInt>(cb->getArgOperand(0))) { long h = c->getSExtValue(); E.smash = h < 0; SmashMode = E.smash; E.headCap = (size_t)(h < 0 ? -h : h); }
    E.loopCap = 3; for (auto &bb : F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__v_unroll") if (auto *c = dyn_cast<ConstantInt>(cb->getArgOperand(0))) E.loopCap = (int)c->getSExtValue();
    Thresholds.clear(); {
      std::set<const Function *> seen{&F}; std::vector<const Function *> todo{&F}; std::set<I> all;
      while (!todo.empty()) {
        auto *f = todo.back(); todo.pop_back();
        for (auto &bb : *f) for (auto &i : bb) {
          auto put = [&](const Value *x) { if (auto *k = dyn_cast<ConstantInt>(x)) if (k->getBitWidth() <= 64) { I v = (I)k->getSExtValue(); if (v >= 0 && v <= ((I)1 << 33)) all.insert(v); } };
          if (isa<BinaryOperator>(&i) && i.getOpcode() == Instruction::Sub) put(i.getOperand(0));
          if (isa<ICmpInst>(&i)) for (auto &op : i.operands()) if (auto *k = dyn_cast<ConstantInt>(op.get())) if (k->getBitWidth() <= 64 && k->getValue().ugt(255)) put(k);
          for (auto &op : i.operands()) if (auto *g = dyn_cast<Function>(op.get())) if (!g->isDeclaration() && !E.opaqueName(g) && seen.insert(g).second) todo.push_back(g);
        }
      }
      Thresholds.insert(0); Thresholds.insert((I)1 << 48); for (auto it = all.rbegin(); it != all.rend() && Thresholds.size() < 12; ++it) Thresholds.insert(*it);
    }
    auto t0 = std::chrono::steady_clock::now();
    Exits ex = E.runDriver(&F);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    json::Object d; d["driver"] = dn; d["cfg"] = cfg; d["states"] = (int64_t)E.nStates; d["exits"] = (int64_t)ex.size(); d["wall_s"] = dt; d["complete"] = !E.giveUp; incomplete |= E.giveUp;
    if (getenv("VPROF")) { std::vector<std::pair<long, const Function *>> v; for (auto &p : E.prof) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8ld %s\n", v[i].first, E.dem(v[i].second).substr(0, 150).c_str()); }
    json::Array al; for (auto &a : E.alarms) al.push_back(json::Object{{"kind", a.kind}, {"msg", a.msg}, {"file", a.file}, {"line", a.line}, {"func", a.func}, {"stack", a.stack}, {"trace", a.trace}});
    d["alarms"] = std::move(al);
    json::Object ob; for (auto &o : E.obl) { json::Array sites; std::set<std::string> w; for (auto &p : o.second) { auto *i = (const Instruction *)p.first; if (i) w.insert(E.where(i)); } ob[o.first] = json::Object{{"sites", (int64_t)o.second.size()}, {"failed", (int64_t)(E.oblBad.count(o.first) ? E.oblBad[o.first].size() : 0)}}; }
    d["obligations"] = std::move(ob);
    std::set<std::string> fns; for (auto *f : E.entered) { auto *sp = f->getSubprogram(); std::string file = sp ? sp->getFilename().str() : ""; if (file.find(repo) == 0) { fns.insert(file.substr(repo.size()) + ": " + E.dem(f)); } }
    json::Array fa; for (auto &f : fns) fa.push_back(f); d["functions"] = std::move(fa);
    json::Array re; for (auto &r : E.reached) re.push_back(r); d["reached"] = std::move(re);
    json::Array un; for (auto &u : E.unmodelled) un.push_back(u.first); d["unmodelled"] = std::move(un);
    json::Object mc; for (auto &m : E.modelCalls) if (m.first.compare(0, 4, "__v_") != 0) mc[m.first] = (int64_t)m.second.size(); d["model_calls"] = std::move(mc);
    if (verbose) fprintf(stderr, "driver %s [%s]: %ld states, %zu exits, %zu alarms, %.2fs%s\n", dn.c_str(), cfg.c_str(), E.nStates, ex.size(), E.alarms.size(), dt, E.giveUp ? " INCOMPLETE" : "");
    drivers.push_back(std::move(d));
  }
  json::Value v(std::move(drivers));
  if (out.empty()) outs() << formatv("{0:2}", v) << "\n";
  else { std::error_code ec; raw_fd_ostream os(out, ec); os << formatv("{0:2}", v) << "\n"; }
  return 0;
}
