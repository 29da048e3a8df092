#include <chrono>
// Control flow: blocks, joins, loops, calls, exceptions.
#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
using namespace llvm;

struct SplitReq { Val c; };
static const std::string &repoPrefix() { static std::string p = std::string(getenv("V_REPO") ? getenv("V_REPO") : "/repo") + "/"; return p; }
static bool repoFile(const std::string &f) { return f.find(repoPrefix()) == 0 || f.find("ecl_") != std::string::npos; }

const std::string &Engine::dem(const Function *F) {
  auto it = dems.find(F); if (it != dems.end()) return it->second;
  return dems[F] = llvm::demangle(F->getName().str());
}
FnInfo &Engine::info(const Function *F) {
  auto it = infos.find(F); if (it != infos.end()) return it->second;
  FnInfo &fi = infos[F]; int n = 0;
  fi.dem = dem(F);
  fi.driver = fi.dem.compare(0, 5, "drv::") == 0 || F->getName().contains("__drv_");
  for (auto &a : F->args()) fi.num[&a] = n++;
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) fi.num[&i] = n++;
  // reverse post order
  std::vector<const BasicBlock *> post; std::set<const BasicBlock *> seen;
  std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
    if (!seen.insert(b).second) return; std::vector<const BasicBlock *> su(succ_begin(b), succ_end(b));
    for (auto i = su.rbegin(); i != su.rend(); ++i) dfs(*i); post.push_back(b); };
  dfs(&F->getEntryBlock());
  // loop-exiting order: blocks outside a loop must come after the blocks inside it
  DominatorTree DT(*const_cast<Function *>(F)); LoopInfo LI(DT);
  std::vector<const BasicBlock *> rp(post.rbegin(), post.rend());
  // stable arrangement: emit loop bodies contiguously
  std::vector<const BasicBlock *> order; std::set<const BasicBlock *> done;
  std::function<void(const BasicBlock *)> emit = [&](const BasicBlock *b) {
    if (done.count(b)) return; done.insert(b); order.push_back(b);
    Loop *L = LI.getLoopFor(b);
    if (L && L->getHeader() == b) for (auto *x : rp) if (L->contains(x)) emit(x);
  };
  for (auto *b : rp) emit(b);
  int k = 0; for (auto *b : order) fi.rpo[b] = k++;
  std::map<const BasicBlock *, int> rr; k = 0; for (auto *b : rp) rr[b] = k++;
  for (auto *b : rp) for (auto *q : successors(b)) if (rr[q] <= rr[b]) fi.heads.insert(q);
  // liveness
  auto id = [&](const Value *v) { auto f = fi.num.find(v); return f == fi.num.end() ? -1 : f->second; };
  std::map<const BasicBlock *, std::set<int>> out; bool ch = true;
  for (auto *b : rp) fi.liveIn[b];
  while (ch) {
    ch = false;
    for (auto b = rp.rbegin(); b != rp.rend(); ++b) {
      std::set<int> live;
      for (auto *q : successors(*b)) {
        for (int x : fi.liveIn[q]) live.insert(x);
        for (auto &ph : q->phis()) { live.erase(id(&ph)); }
      }
      for (auto *q : successors(*b)) for (auto &ph : q->phis()) { int x = id(ph.getIncomingValueForBlock(*b)); if (x >= 0) live.insert(x); }
      for (auto i = (*b)->rbegin(); i != (*b)->rend(); ++i) {
        if (isa<PHINode>(*i)) break;
        live.erase(id(&*i));
        if (isa<CallBase>(*i)) fi.liveAfter[&*i] = live;
        for (auto &o : i->operands()) { int x = id(o); if (x >= 0) live.insert(x); }
      }
      if (live != fi.liveIn[*b]) { fi.liveIn[*b] = live; ch = true; }
    }
  }
  for (auto *b : rp) for (auto &i : *b) if (auto *sw = dyn_cast<SwitchInst>(&i)) if (sw->getNumCases() >= 6) fi.bigSwitch = true;
  return fi;
}
std::string Engine::where(const Instruction *at) {
  if (!at) return "?";
  if (auto *d = at->getDebugLoc().get()) return d->getFilename().str() + ":" + std::to_string(d->getLine());
  return "?";
}
std::string Engine::stackOf(State &s, const Instruction *at) {
  std::string r; const Instruction *i = at;
  for (int k = (int)s.fr.size() - 1; k >= 0; k--) {
    r += "  at " + dem(s.fr[k].F) + " (" + where(i) + ")\n"; i = s.fr[k].call;
  }
  return r;
}
void Engine::alarm(State &s, const std::string &kind, const std::string &msg, const Instruction *at) {
  // attribute to the innermost frame whose code belongs to the repository
  std::string file = "?", func; int line = 0; const Instruction *i = at; bool got = false;
  for (int k = (int)s.fr.size() - 1; k >= 0; k--) {
    if (i) if (auto *d = i->getDebugLoc().get()) {
      std::string f = d->getFilename().str(); if (!d->getDirectory().empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
      if (file == "?" ) { file = f; line = d->getLine(); func = dem(s.fr[k].F); }
      if (!got && f.find(repoPrefix()) == 0) { file = f; line = d->getLine(); func = dem(s.fr[k].F); got = true; }
    }
    if (got) break; i = s.fr[k].call;
  }
  obl[kind].insert({at, 0}); oblBad[kind].insert({at, 0});
  std::string key = kind + "|" + (kind == "LEAK" ? std::string() : func) + "|" + msg + "|" + driverName;
  if (!alarmKeys.insert(key).second) return;
  Alarm a; a.kind = kind; a.msg = msg; a.file = file; a.line = line; a.func = func; a.driver = driverName; a.cfg = cfgName;
  a.stack = stackOf(s, at);
  std::vector<std::string> t; for (auto n = s.trace; n && t.size() < 40; n = n->p) t.push_back(n->s);
  for (auto x = t.rbegin(); x != t.rend(); ++x) a.trace += "  " + *x + "\n";
  alarms.push_back(a);
  if (verbose) fprintf(stderr, "ALARM %s %s:%d %s: %s\n%s%s", kind.c_str(), file.c_str(), line, func.c_str(), msg.c_str(), a.stack.c_str(), a.trace.c_str());
}
std::function<void(State &, const std::string &, const std::string &)> Engine::leaker(const Instruction *at) {
  return [this, at](State &s, const std::string &kind, const std::string &d) {
    const Instruction *i = at; if (!i) for (int k = (int)s.fr.size() - 1; k >= 0 && !i; k--) i = s.fr[k].call;
    alarm(s, "LEAK", kind + " never released: " + d, i);
  };
}
void Engine::prune(State &s, const BasicBlock *bb) {
  auto &live = info(bb->getParent()).liveIn[bb];
  auto &regs = s.fr.back().regs;
  for (auto it = regs.begin(); it != regs.end();) if (!live.count(it->first)) it = regs.erase(it); else ++it;
}
static std::chrono::steady_clock::time_point Start = std::chrono::steady_clock::now();
void Engine::clockReset() { Start = std::chrono::steady_clock::now(); }
void Engine::clockCheck() {  // out of time, or a violation is at hand and the rest takes long
  if (giveUp) return;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - Start).count();
  if (dt > maxSeconds || (dt > maxSeconds / 6 && !alarms.empty())) giveUp = true;
  static int tick = 0;
  if ((++tick & 15) == 0) if (FILE *f = fopen("/proc/self/statm", "r")) { long v = 0, r = 0; if (fscanf(f, "%ld %ld", &v, &r) == 2 && r > 3300L * 256) giveUp = true; fclose(f); }  // more than its share of the memory
}
void Engine::reduce(std::vector<State> &v, const BasicBlock *bb, size_t cap) {
  if (v.size() < 2) return;
  std::map<std::string, std::vector<size_t>> by; std::vector<Canon> cs(v.size()); std::vector<bool> dead(v.size());
  for (size_t i = 0; i < v.size(); i++) { canonicalise(v[i], {}, cs[i], leaker(&bb->front())); by[cs[i].shape].push_back(i); }
  for (auto &g : by) for (size_t x = 0; x < g.second.size(); x++) {
    if (dead[g.second[x]]) continue;
    if ((x & 15) == 15) clockCheck();
    if (giveUp) return;
    for (size_t y = 0; y < g.second.size(); y++) if (x != y && !dead[g.second[y]] && subsumed(v[g.second[x]], cs[g.second[x]], v[g.second[y]], cs[g.second[y]])) dead[g.second[y]] = true;
  }
  if (cap) for (auto &g : by) {
    std::vector<size_t> al; for (auto i : g.second) if (!dead[i]) al.push_back(i);
    while (al.size() > cap) { size_t i = al[al.size() - 2], j = al.back(); al.pop_back(); joinInto(v[i], cs[i], v[j], cs[j], false, "join"); dead[j] = true; Canon c; canonicalise(v[i], {}, c, leaker(&bb->front())); cs[i] = std::move(c); }
  }
  std::vector<State> r; for (size_t i = 0; i < v.size(); i++) if (!dead[i]) r.push_back(std::move(v[i]));
  v.swap(r);
}
void Engine::reduceExits(Exits &v, const Instruction *site, size_t cap) {
  std::map<std::string, std::vector<size_t>> by; std::vector<Canon> cs(v.size()); std::vector<bool> dead(v.size());
  for (size_t i = 0; i < v.size(); i++) { canonicalise(v[i].s, {&v[i].ret}, cs[i], leaker(site)); cs[i].shape += v[i].thrown ? "T" : "N"; by[cs[i].shape].push_back(i); }
  for (auto &g : by) for (size_t x = 0; x < g.second.size(); x++) {
    if (dead[g.second[x]]) continue;
    if ((x & 15) == 15) clockCheck();
    if (giveUp) return;
    for (size_t y = 0; y < g.second.size(); y++) if (x != y && !dead[g.second[y]] && subsumed(v[g.second[x]].s, cs[g.second[x]], v[g.second[y]].s, cs[g.second[y]])) dead[g.second[y]] = true;
  }
  for (auto &g : by) {
    std::vector<size_t> al; for (auto i : g.second) if (!dead[i]) al.push_back(i);
    while (al.size() > cap) {
      size_t i = al[al.size() - 2], j = al.back(); al.pop_back(); joinInto(v[i].s, cs[i], v[j].s, cs[j], false, "exit"); dead[j] = true;
      Canon c; canonicalise(v[i].s, {&v[i].ret}, c, leaker(site)); cs[i] = std::move(c);
    }
  }
  Exits r; for (size_t i = 0; i < v.size(); i++) if (!dead[i]) r.push_back(std::move(v[i]));
  v.swap(r);
}
bool Engine::headFilter(State &s, std::map<std::string, std::vector<Stored>> &tab, const BasicBlock *bb, bool driver, int unroll) {
  auto &hv = s.fr.back().hv[bb];
  bool det = hv.second == 0 || hv.first == s.forks;
  hv.first = s.forks; hv.second = det ? hv.second + 1 : 1;
  if (!det && tab.size() > 16) {  // a loop that writes ever more elements of an array of unknown size: forget their values
    std::vector<int> rs; for (auto &m : s.mem) if (!m.second->constant && !m.second->freed && m.second->sizeKnown && !m.second->size.isConst() && !(m.second->loose && m.second->cells.size() <= 2)) rs.push_back(m.first);
    for (int r : rs) { Region &R = s.wr(r); R.loose = true; for (auto it = R.cells.begin(); it != R.cells.end();) if (it->second.v.k == Val::Int || it->second.v.k == Val::Flt || it->second.v.k == Val::None || it->second.v.k == Val::Undef) it = R.cells.erase(it); else ++it; R.weakInit = true; }
  }
  if (driver && smash) {  // forget the bytes of character arrays
    std::vector<int> rs; for (auto &m : s.mem) { auto &R = *m.second; if (!R.constant && !R.freed && (R.rel == "delete[]" || !R.size.isConst() || R.size.c >= 256)) rs.push_back(m.first); }
    for (int r : rs) { Region &R = s.wr(r); for (auto it = R.cells.begin(); it != R.cells.end();) if (it->second.sz == 1 || it->second.v.k == Val::None || it->second.v.k == Val::Undef) it = R.cells.erase(it); else ++it; R.weakInit = true; }
  }
  Canon c; canonicalise(s, {}, c, leaker(&bb->front()));
  if (getenv("VDBG") && !driver) fprintf(stderr, "INNER %s %s same=%zu det=%d steps=%d slots=%zu\n", dem(bb->getParent()).c_str(), bb->getName().str().c_str(), tab[c.shape].size(), det, hv.second, c.slots.size());
  if (getenv("VDBG") && driver) { bool n = !tab.count(c.shape); fprintf(stderr, "HEAD %s shapes=%zu same=%zu det=%d slots=%zu\n", dem(bb->getParent()).c_str(), tab.size(), n ? 0 : tab[c.shape].size(), det, c.slots.size()); if (n && tab.size() > 30 && tab.size() < 34) fprintf(stderr, "SHAPE %s\n", c.shape.c_str()); }
  auto &L = tab[c.shape];
  for (auto &o : L) if (subsumed(*o.s, o.c, s, c)) return false;
  size_t K = driver ? headCap : det ? 300 : (size_t)unroll;
  Stored st;
  if (L.size() >= K) {
    Stored &last = L.back();
    auto j = std::make_unique<State>(*last.s); Canon jc; canonicalise(*j, {}, jc, leaker(&bb->front()));
    if (jc.shape == c.shape) {
      joinInto(*j, jc, s, c, L.size() > K, driver ? "head" : "loop");
      auto keepFr = s.fr.back().hv; s = *j; s.fr.back().hv = keepFr;
      Canon nc; canonicalise(s, {}, nc, leaker(&bb->front()));
      for (auto &o : L) if (subsumed(*o.s, o.c, s, nc)) { if (&o != &last) {} }
      c = std::move(nc);
      st.s = std::make_unique<State>(s); canonicalise(*st.s, {}, st.c, leaker(&bb->front()));
      auto &L2 = tab[st.c.shape]; L2.push_back(std::move(st));
      return true;
    }
  }
  st.s = std::make_unique<State>(s); canonicalise(*st.s, {}, st.c, leaker(&bb->front()));
  L.push_back(std::move(st));
  return true;
}
void Engine::edge(State s, const BasicBlock *from, const BasicBlock *to, FnInfo &fi, Work &w) {
  std::vector<std::pair<int, Val>> ph;
  for (auto &p : to->phis()) ph.push_back({fi.num[&p], operand(s, p.getIncomingValueForBlock(from))});
  for (auto &p : ph) s.fr.back().regs[p.first] = p.second;
  prune(s, to);
  w.w[fi.rpo[to]].push_back(std::move(s));
}
Exits Engine::run(State s0, const Function *F) {
  FnInfo &fi = info(F); Exits ex; Work w;
  std::vector<const BasicBlock *> blocks(fi.rpo.size()); for (auto &p : fi.rpo) blocks[p.second] = p.first;
  std::map<const BasicBlock *, std::map<std::string, std::vector<Stored>>> tabs;
  w.w[fi.rpo[&F->getEntryBlock()]].push_back(std::move(s0));
  while (!w.w.empty() && !giveUp) {
    auto it = w.w.begin(); const BasicBlock *bb = blocks[it->first]; std::vector<State> v = std::move(it->second); w.w.erase(it);
    bool head = fi.heads.count(bb);
    if (v.size() > 300 && getenv("VDBG")) fprintf(stderr, "BATCH %zu %s head=%d\n", v.size(), dem(F).c_str(), head);
    if (v.size() > 1) reduce(v, bb, head ? 0 : fi.driver ? 0 : 60);
    for (auto &s : v) {
      if (head && !headFilter(s, tabs[bb], bb, fi.driver, loopCap)) continue;
      if (++nStates > maxStates) { giveUp = true; break; }
      if ((nStates & 15) == 0) clockCheck();
      if (getenv("VPROF")) prof[F]++;
      execBlock(std::move(s), bb, fi, w, ex);
    }
  }
  return ex;
}
void Engine::execBlock(State s0, const BasicBlock *bb, FnInfo &fi, Work &w, Exits &ex) {
  nBlocks++;
  std::vector<std::pair<State, BasicBlock::const_iterator>> q;
  q.push_back({std::move(s0), bb->getFirstNonPHI()->getIterator()});
  while (!q.empty()) {
    State s = std::move(q.back().first); auto it = q.back().second; q.pop_back();
    bool stop = false;
    while (!stop) {
      const Instruction *in = &*it;
      if (s.dead || s.cons.bot || giveUp) break;
      try {
        if (in->isTerminator()) {
          stop = true;
          if (auto *br = dyn_cast<BranchInst>(in)) {
            if (br->isUnconditional()) { edge(std::move(s), bb, br->getSuccessor(0), fi, w); continue; }
            Val c = operand(s, br->getCondition()); std::vector<State> t, f; split(std::move(s), c, t, f, in);
            for (auto &x : t) edge(std::move(x), bb, br->getSuccessor(0), fi, w);
            for (auto &x : f) edge(std::move(x), bb, br->getSuccessor(1), fi, w);
          } else if (auto *sw = dyn_cast<SwitchInst>(in)) {
            Val c = operand(s, sw->getCondition());
            if (c.k == Val::Undef) { alarm(s, "UNINIT", "switch depends on " + UndefOrigin[c.id], in); c = freshOf(s, sw->getCondition()->getType(), "undef"); }
            if (c.k == Val::Cmp) { Val d = decide(s, c); if (d.k == Val::Cmp) throw SplitReq{c}; c = d; }
            unsigned wd = sw->getCondition()->getType()->getIntegerBitWidth();
            for (auto &cs : sw->cases()) {
              Val e = icmp(s, CmpInst::ICMP_EQ, c, Val::mkInt(Lin((I)cs.getCaseValue()->getSExtValue()), wd), wd, in);
              State x = s; if (assume(x, e, true)) { x.forks++; edge(std::move(x), bb, cs.getCaseSuccessor(), fi, w); }
              if (!assume(s, e, false)) break;
            }
            if (!s.cons.bot) { for (auto &p : c.l.t) if (c.k == Val::Int && ST.v[p.first].stale) alarm(s, "ERRNO_STALE", "decision on an errno value that no failing call produced", in); s.forks++; edge(std::move(s), bb, sw->getDefaultDest(), fi, w); }
          } else if (auto *rt = dyn_cast<ReturnInst>(in)) {
            Exit e; if (rt->getReturnValue()) e.ret = operand(s, rt->getReturnValue());
            e.s = std::move(s); ex.push_back(std::move(e));
          } else if (isa<ResumeInst>(in)) {
            Exit e; e.thrown = true; e.s = std::move(s); ex.push_back(std::move(e));
          } else if (auto *iv = dyn_cast<InvokeInst>(in)) {
            Exits es = dispatch(std::move(s), iv);
            for (auto &e : es) {
              if (!e.thrown) { if (!iv->getType()->isVoidTy()) e.s.fr.back().regs[fi.num[iv]] = e.ret; edge(std::move(e.s), bb, iv->getNormalDest(), fi, w); }
              else {
                auto *lp = iv->getUnwindDest()->getLandingPadInst(); bool in2 = lp->isCleanup();
                for (unsigned k = 0; k < lp->getNumClauses() && !in2; k++) { if (lp->isCatch(k)) in2 = typeMatches(e.s.inflightType, lp->getClause(k)); else in2 = true; }
                if (in2) edge(std::move(e.s), bb, iv->getUnwindDest(), fi, w); else ex.push_back(std::move(e));
              }
            }
          }
          continue;  // unreachable and others: path ends
        }
        if (auto *cb = dyn_cast<CallBase>(in)) {
          if (isa<DbgInfoIntrinsic>(in)) { ++it; continue; }
          Exits es = dispatch(std::move(s), cb);
          auto nx = std::next(it); stop = true; bool first = true; State keep;
          for (auto &e : es) {
            if (e.thrown) { ex.push_back(std::move(e)); continue; }
            if (!cb->getType()->isVoidTy()) e.s.fr.back().regs[fi.num[cb]] = e.ret;
            if (first) { keep = std::move(e.s); first = false; } else q.push_back({std::move(e.s), nx});
          }
          if (!first) { s = std::move(keep); it = nx; stop = false; }
          continue;
        }
        std::vector<State> more;
        step(s, in, fi, more);
        ++it;
      } catch (SplitReq &r) {
        std::vector<State> t, f; split(s, r.c, t, f, in);
        auto fix = [&](State &x, int v) { for (auto &g : x.fr.back().regs) if (g.second.k == Val::Cmp && g.second.pred == r.c.pred && g.second.l == r.c.l) g.second = Val::mkInt(Lin((I)v), g.second.w ? g.second.w : 1); };
        for (auto &x : t) { fix(x, 1); q.push_back({std::move(x), it}); }
        for (auto &x : f) { fix(x, 0); q.push_back({std::move(x), it}); }
        stop = true; s.dead = true;
      }
    }
  }
}
Lin normC(const Lin &l, unsigned w) {
  if (!l.isConst() || w == 0 || w > 100) return l; I m = (I)1 << w, c = l.c % m; if (c < 0) c += m; if (w > 1 && c > smax(w)) c -= m; return Lin(c);
}
// a variadic body can be interpreted as long as it does not look at its extra arguments
static bool usesVaArgs(const Function *F) { for (auto &bb : *F) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName().starts_with("llvm.va_")) return true; return false; }
// objects declared as shared between threads that do not hold a lock
static void raceCheck(Engine &E, State &s, const Val &p, const Instruction *in, const char *what) {
  if (p.k != Val::Ptr || p.reg < 0) return; 
  if (!s.rd(p.reg).ghost.count("shared")) return;
  E.check("RACE", in); E.alarm(s, "RACE", std::string(what) + " memory that other threads access at the same time without synchronisation", in);
}
static bool impLin(const Lin &l) { for (auto &p : l.t) if (ST.v[p.first].imprecise) return true; return false; }
// a = k*q + r with 0 <= r < k, when the shape of a shows it
static bool euclid(State &s, const Lin &a, I k, Lin &q, Lin &r) {
  q = Lin(); r = Lin(a.c);
  for (auto &p : a.t) { I m = ((p.second % k) + k) % k; if (m > k / 2) m -= k; if (p.second != m) q.t.push_back({p.first, (p.second - m) / k}); if (m) r.t.push_back({p.first, m}); }
  I lo = s.cons.lb(r), hi = s.cons.ub(r); if (isInf(lo) || isInf(hi)) return false;
  auto fl = [&](I v) { I d = v / k; if (v % k != 0 && v < 0) d--; return d; };
  if (fl(lo) != fl(hi)) return false;
  q.c = fl(lo); r.c -= q.c * k; return true;
}
static bool pow2(I m) { return m > 0 && (m & (m - 1)) == 0; }
Val Engine::binop(State &s, const BinaryOperator *b, bool &, Val &) {
  Type *t = b->getType();
  auto need = [&](const Value *v) { Val x = operand(s, v); if (x.k == Val::Cmp) { Val d = decide(s, x); if (d.k == Val::Cmp) throw SplitReq{x}; return d; } return x; };
  unsigned op = b->getOpcode();
  if (t->isFPOrFPVectorTy()) {
    Val x = operand(s, b->getOperand(0)), y = operand(s, b->getOperand(1));
    if (x.k == Val::Undef) return x; if (y.k == Val::Undef) return y;
    if (x.k != Val::Flt || y.k != Val::Flt) return freshOf(s, t, "f");
    if (AlgebraMode) return Val::flt(algOp(op == Instruction::FAdd ? '+' : op == Instruction::FSub ? '-' : op == Instruction::FMul ? '*' : op == Instruction::FDiv ? '/' : '%', x.id, y.id));
    if (FT[x.id].isConst && FT[y.id].isConst) { double p = FT[x.id].cv, q = FT[y.id].cv; bool fl = t->isFloatTy(); auto R = [&](double d) { return Val::flt(fltConst(fl ? (double)(float)d : d)); };
      switch (op) { case Instruction::FAdd: return R(p + q); case Instruction::FSub: return R(p - q); case Instruction::FMul: return R(p * q); case Instruction::FDiv: if (q != 0) return R(p / q); } }
    return Val::flt(fltMemo("(" + std::to_string(x.id) + b->getOpcodeName() + std::to_string(y.id) + ")"));
  }
  if (!t->isIntegerTy()) return freshOf(s, t, "vec");
  unsigned w = t->getIntegerBitWidth();
  if (op == Instruction::And && operand(s, b->getOperand(0)).k == Val::Fn) { Val y = operand(s, b->getOperand(1)); if (y.isConst() && y.l.c == 1) return Val::mkInt(Lin(0), w); }  // functions are at even addresses
  // logic on booleans
  if (op == Instruction::Xor) {
    Val x = operand(s, b->getOperand(0)), y = operand(s, b->getOperand(1));
    if (x.k == Val::Undef) return x; if (y.k == Val::Undef) return y;
    if (w == 1 && x.k == Val::Cmp && y.isConst()) { Val d = decide(s, x); if (d.k == Val::Int) return Val::mkInt(Lin((I)((d.l.c & 1) ^ (y.l.c & 1))), 1); if (y.l.c == 0) return x; if (x.pred == Val::EQ) x.pred = Val::NE; else if (x.pred == Val::NE) x.pred = Val::EQ; else x.l = Lin(1) - x.l; return x; }
  }
  if ((op == Instruction::And || op == Instruction::Or) && w == 1) {
    Val x = operand(s, b->getOperand(0)), y = operand(s, b->getOperand(1));
    if (x.k == Val::Undef) return x; if (y.k == Val::Undef) return y;
    for (int k = 0; k < 2; k++) { x = decide(s, x); if (x.isConst()) { bool v = x.l.c != 0; if (op == Instruction::And) return v ? y : Val::mkInt(Lin(0), 1); return v ? Val::mkInt(Lin(1), 1) : y; } std::swap(x, y); }
  }
  Val x = need(b->getOperand(0)), y = need(b->getOperand(1));
  if (x.k == Val::Undef) {
    // masking part of an undefined word is still undefined, except where the mask clears everything
    return Val::undef(x.id, w);
  }
  if (y.k == Val::Undef) return Val::undef(y.id, w);
  if (op == Instruction::Sub && x.k == Val::Ptr && y.k == Val::Ptr && x.reg == y.reg) return Val::mkInt(x.l - y.l, w);
  if ((op == Instruction::Add || op == Instruction::Sub) && x.k == Val::Ptr && y.k == Val::Int) { x.l = op == Instruction::Add ? x.l + y.l : x.l - y.l; return x; }
  if (x.k != Val::Int || y.k != Val::Int) {
    if (op == Instruction::Sub && x.k == Val::Ptr && y.k == Val::Int && y.l.t.size() == 1) { auto it = s.derefs.find(y.l.t[0].first); if (it != s.derefs.end() && it->second == x.reg) return Val::mkInt(x.l - Lin(y.l.c), w); }
    int m = ST.memoSym(std::string("op") + b->getOpcodeName() + x.str() + y.str(), w); ST.v[m].imprecise = true; return Val::mkInt(Lin::sym(m), w);
  }
  auto memo = [&](const std::string &n) { int m = ST.memoSym(n + std::to_string(w) + "(" + x.l.str() + "," + y.l.str() + ")", w); if (impLin(x.l) || impLin(y.l)) ST.v[m].imprecise = true; return m; };
  auto fit = [&](Lin r, bool nsw) -> Val {
    if (nsw && checkOverflow && !impLin(r)) { check("OVERFLOW", b); if (s.cons.ub(r) > smax(w) || s.cons.lb(r) < smin(w)) alarm(s, "OVERFLOW", "the result of signed arithmetic may not fit its type", b); }
    if (r.isConst()) return Val::mkInt(normC(r, w), w);
    if (nsw) return Val::mkInt(r, w);
    I lo = s.cons.lb(r), hi = s.cons.ub(r);
    if (lo >= smin(w) && hi <= umax(w)) return Val::mkInt(r, w);
    I m = (I)1 << w;
    if (lo > umax(w) && hi - m <= umax(w)) return Val::mkInt(r - Lin(m), w);
    if (hi < smin(w) && lo + m >= smin(w)) return Val::mkInt(r + Lin(m), w);
    int k = ST.memoSym("wrap" + std::to_string(w) + "(" + r.str() + ")", w); if (impLin(r)) ST.v[k].imprecise = true;
    return Val::mkInt(Lin::sym(k), w);
  };
  bool nsw = false; if (auto *o = dyn_cast<OverflowingBinaryOperator>(b)) nsw = o->hasNoSignedWrap();
  switch (op) {
    case Instruction::Add: { if (nsw) { x.l = toS(s, x, w); y.l = toS(s, y, w); } else if (y.isConst() && y.l.c < 0) { Val u = x; u.l = x.l; I lo = s.cons.lb(x.l); if (lo >= -y.l.c) return Val::mkInt(x.l + y.l, w); } return fit(x.l + y.l, nsw); }
    case Instruction::Sub: { if (nsw) { x.l = toS(s, x, w); y.l = toS(s, y, w); } return fit(x.l - y.l, nsw); }
    case Instruction::Mul: {
      if (nsw) { x.l = toS(s, x, w); y.l = toS(s, y, w); }
      if (y.isConst()) return fit(x.l * y.l.c, nsw); if (x.isConst()) return fit(y.l * x.l.c, nsw);
      Lin xs = s.cons.simplify(x.l), ys = s.cons.simplify(y.l); if (ys.isConst()) return fit(xs * ys.c, nsw); if (xs.isConst()) return fit(ys * xs.c, nsw);
      return Val::mkInt(Lin::sym(memo("mul")), w);
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      bool sg = op == Instruction::SDiv || op == Instruction::SRem, div = op == Instruction::UDiv || op == Instruction::SDiv;
      Lin a = sg ? toS(s, x, w) : toU(s, x, w), k = s.cons.simplify(sg ? toS(s, y, w) : toU(s, y, w));
      check("DIV0", b);
      if (!s.cons.proveNe(k)) {
        if (!impLin(k) || s.cons.proveEq(k)) alarm(s, "DIV0", "divisor may be zero", b); else obl["DIV0_UNDECIDED"].insert({b, 0});
        s.cons.addNe(k); if (s.cons.bot) { s.dead = true; return Val(); }
      }
      if (a.isConst() && k.isConst()) return Val::mkInt(normC(Lin(div ? a.c / k.c : a.c % k.c), w), w);
      I alo = s.cons.lb(a), ahi = s.cons.ub(a), klo = s.cons.lb(k), khi = s.cons.ub(k);
      Lin eq, er; if (k.isConst() && k.c > 1 && alo >= 0 && euclid(s, a, k.c, eq, er)) return Val::mkInt(div ? eq : er, w);
      if (k.isConst() && k.c > 1 && !isInf(alo) && !isInf(ahi) && !impLin(a)) {  // few quotients: one case each
        I ql = alo / k.c, qh = ahi / k.c;
        if (ql == qh) return Val::mkInt(div ? Lin(ql) : a - Lin(k.c * ql), w);
        if (qh - ql == 1 || (k.c >= 1000 && qh - ql <= 3)) {
          I top = ql < 0 ? k.c * ql : k.c * (ql + 1) - 1; Val c = decide(s, Val::mkCmp(Val::LE, a - Lin(top)));
          if (c.k == Val::Cmp) throw SplitReq{c};
        }
      }
      if (div) {
        if (k.isConst() && k.c == 1) return Val::mkInt(a, w);
        if (k.isConst() && k.c > 0) { bool ex = a.c % k.c == 0; for (auto &p : a.t) if (p.second % k.c) ex = false; if (ex) { Lin r; r.c = a.c / k.c; for (auto &p : a.t) r.t.push_back({p.first, p.second / k.c}); return Val::mkInt(r, w); } }
        int q = memo(sg ? "sdiv" : "udiv"); ST.v[q].sgn = sg ? 1 : 2;
        if (alo >= 0 && klo > 0) { s.cons.addLe(Lin::sym(q).neg()); s.cons.addLe(Lin::sym(q) - a); if (!isInf(ahi)) s.cons.addLe(Lin::sym(q) - Lin(ahi / klo)); if (!isInf(khi)) s.cons.addLe(Lin(alo / khi) - Lin::sym(q)); if (k.isConst()) { s.cons.addLe(Lin::sym(q, k.c) - a); s.cons.addLe(a - Lin::sym(q, k.c) - Lin(k.c - 1)); } }
        else if (sg && k.isConst() && k.c > 0 && !isInf(alo) && !isInf(ahi)) { s.cons.addLe(Lin::sym(q) - Lin(ahi / k.c)); s.cons.addLe(Lin(alo / k.c) - Lin::sym(q)); }
        return Val::mkInt(Lin::sym(q), w);
      }
      if (alo >= 0 && s.cons.le0(a - k + Lin(1))) return Val::mkInt(a, w);
      if (k.isConst() && k.c > 1 && alo >= 0) {  // a - k * (a / k)
        int q = memo(sg ? "sdiv" : "udiv"); ST.v[q].sgn = sg ? 1 : 2;
        s.cons.addLe(Lin::sym(q).neg()); s.cons.addLe(Lin::sym(q) - a); if (!isInf(ahi)) s.cons.addLe(Lin::sym(q) - Lin(ahi / k.c)); s.cons.addLe(Lin(alo / k.c) - Lin::sym(q)); s.cons.addLe(Lin::sym(q, k.c) - a); s.cons.addLe(a - Lin::sym(q, k.c) - Lin(k.c - 1));
        return Val::mkInt(a - Lin::sym(q, k.c), w);
      }
      int r = memo(sg ? "srem" : "urem"); ST.v[r].sgn = sg ? 1 : 2;
      if (alo >= 0 || !sg) { s.cons.addLe(Lin::sym(r).neg()); s.cons.addLe(Lin::sym(r) - a); if (klo > 0) s.cons.addLe(Lin::sym(r) - k + Lin(1)); }
      else if (k.isConst()) { I m = (k.c < 0 ? -k.c : k.c) - 1; s.cons.addLe(Lin::sym(r) - Lin(m)); s.cons.addLe(Lin(-m) - Lin::sym(r)); if (ahi <= 0) s.cons.addLe(Lin::sym(r)); }
      return Val::mkInt(Lin::sym(r), w);
    }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Lin k = s.cons.simplify(toU(s, y, w));
      check("SHIFT", b);
      if (s.cons.lb(k) >= (I)w) { alarm(s, "SHIFT", "shift amount is not smaller than the width of the shifted value", b); return freshOf(s, t, "shift"); }
      if (s.cons.ub(k) >= (I)w) { if (!impLin(k)) alarm(s, "SHIFT", "shift amount may reach the width of the shifted value", b); }
      if (k.isConst()) {
        I m = (I)1 << (int)k.c;
        if (op == Instruction::Shl) { if (x.isConst()) { unsigned __int128 u = (unsigned __int128)(x.l.c) << (int)k.c; if (w < 128) u &= (((unsigned __int128)1) << w) - 1; return Val::mkInt(normC(Lin((I)u), w), w); } return fit((nsw ? toS(s, x, w) : x.l) * m, nsw); }
        Lin a = op == Instruction::LShr ? toU(s, x, w) : toS(s, x, w);
        if (a.isConst()) { I q = a.c / m; if (a.c % m != 0 && a.c < 0) q--; return Val::mkInt(normC(Lin(q), w), w); }
        if (k.c == 0) return Val::mkInt(a, w);
        { Lin eq, er; if (euclid(s, a, m, eq, er)) return Val::mkInt(eq, w); }
        int q = memo("shr"); ST.v[q].sgn = op == Instruction::LShr ? 2 : 1;
        I lo = s.cons.lb(a), hi = s.cons.ub(a);
        if (!isInf(lo) && !isInf(hi)) { auto fd = [&](I v) { I r = v / m; if (v % m != 0 && v < 0) r--; return r; }; s.cons.addLe(Lin::sym(q) - Lin(fd(hi))); s.cons.addLe(Lin(fd(lo)) - Lin::sym(q)); if (lo >= 0) s.cons.addLe(Lin::sym(q) - a); }
        return Val::mkInt(Lin::sym(q), w);
      }
      return Val::mkInt(Lin::sym(memo("shift" + std::to_string(op))), w);
    }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      if (x.isConst() && y.isConst()) { I r = op == Instruction::And ? x.l.c & y.l.c : op == Instruction::Or ? x.l.c | y.l.c : x.l.c ^ y.l.c; return Val::mkInt(normC(Lin(r), w), w); }
      if (x.isConst()) std::swap(x, y);
      if (y.isConst()) {
        if (op == Instruction::And && y.l.c == 0) return Val::mkInt(Lin(0), w);
        if (op == Instruction::And && (y.l.c == -1)) return x;
        if (op != Instruction::And && y.l.c == 0) return x;
        if (op == Instruction::Or && y.l.c == -1) return y;
        if (op == Instruction::Xor && y.l.c == -1) { decideSign(x.l, w, 1); return Val::mkInt(Lin(-1) - toS(s, x, w), w); }
        if (op == Instruction::And && y.l.c > 0) {
          I lo = s.cons.lb(x.l), hi = s.cons.ub(x.l); I m = y.l.c;
          if ((m & (m + 1)) == 0 && lo >= 0 && hi <= m) return x;
          { I low = m & -m, top = m + low; Lin q1, r1, q2, r2; if (pow2(top) && euclid(s, x.l, top, q1, r1) && (low == 1 || euclid(s, x.l, low, q2, r2))) return Val::mkInt(low == 1 ? r1 : r1 - r2, w); }  // a run of bits
          int r = memo("and"); ST.v[r].ranged = true; ST.v[r].lo = 0; ST.v[r].hi = m;
          if (lo >= 0) s.cons.addLe(Lin::sym(r) - x.l);
          return Val::mkInt(Lin::sym(r), w);
        }
        { Lin q2, r2; if (op == Instruction::And && pow2(-y.l.c) && euclid(s, x.l, -y.l.c, q2, r2)) return Val::mkInt(x.l - r2, w); }
        if (op == Instruction::And) { Lin u = toU(s, x, w); int r = memo("and"); if (!ST.v[r].sgn) ST.v[r].sgn = 2; s.cons.addLe(Lin::sym(r) - u); return Val::mkInt(Lin::sym(r), w); }
      }
      if (op == Instruction::And && x.l == y.l) return x;
      if (op == Instruction::Or && x.l == y.l) return x;
      if (op == Instruction::Xor && x.l == y.l) return Val::mkInt(Lin(0), w);
      if (op != Instruction::And) for (int k = 0; k < 2; k++) {  // no common bits: a multiple of 2^n and a number below 2^n
        I lo = s.cons.lb(y.l), hi = s.cons.ub(y.l), m = 1; 
        if (lo >= 0 && !isInf(hi) && hi <= umax(w)) { while (m <= hi) m *= 2; bool ok = x.l.c % m == 0; for (auto &p : x.l.t) if (p.second % m) ok = false; if (ok) return Val::mkInt(x.l + y.l, w); }
        std::swap(x, y);
      }
      if (y.l < x.l) std::swap(x, y);
      int r = memo(b->getOpcodeName());
      I hx = s.cons.ub(x.l), hy = s.cons.ub(y.l);
      if (s.cons.lb(x.l) >= 0 && s.cons.lb(y.l) >= 0 && !isInf(hx) && !isInf(hy)) {
        I h = std::max(hx, hy), m = 1; while (m <= h) m *= 2; ST.v[r].sgn = 2;
        s.cons.addLe(Lin::sym(r) - Lin(m - 1)); s.cons.addLe(Lin::sym(r).neg());
        if (op == Instruction::And) { s.cons.addLe(Lin::sym(r) - x.l); s.cons.addLe(Lin::sym(r) - y.l); }
        if (op == Instruction::Or) { s.cons.addLe(x.l - Lin::sym(r)); s.cons.addLe(y.l - Lin::sym(r)); }
      }
      return Val::mkInt(Lin::sym(r), w);
    }
  }
  return freshOf(s, t, "binop");
}
bool Engine::step(State &s, const Instruction *in, FnInfo &fi, std::vector<State> &) {
  auto set = [&](const Val &v) { s.fr.back().regs[fi.num[in]] = v; };
  auto need = [&](const Value *v) { Val x = operand(s, v); if (x.k == Val::Cmp) { Val d = decide(s, x); if (d.k == Val::Cmp) throw SplitReq{x}; return d; } return x; };
  if (auto *a = dyn_cast<AllocaInst>(in)) {
    Region r; r.kind = Region::Alloca; r.sizeKnown = true; r.size = Lin((I)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType()));
    if (a->isArrayAllocation()) { Val n = need(a->getArraySize()); if (n.k == Val::Int) { if (n.isConst()) r.size = r.size * n.l.c; else r.size = toU(s, n, n.w) * r.size.c; } else r.sizeKnown = false; }
    r.desc = "local " + (a->hasName() ? a->getName().str() : std::string("object")); r.site = "a" + std::to_string(fi.num[in]);
    int id = s.addRegion(r); s.fr.back().allocas.push_back(id); set(Val::mkPtr(id, Lin(0))); return true;
  }
  if (auto *l = dyn_cast<LoadInst>(in)) { Val p = need(l->getPointerOperand()); if (!l->isAtomic() && !l->getType()->isPointerTy()) raceCheck(*this, s, p, in, "reads"); Val v = load(s, p, l->getType(), in); set(v); return true; }
  if (auto *st = dyn_cast<StoreInst>(in)) { Val p = need(st->getPointerOperand()); if (!st->isAtomic() && !st->getValueOperand()->getType()->isPointerTy()) raceCheck(*this, s, p, in, "writes"); Val v = operand(s, st->getValueOperand()); store(s, p, v, st->getValueOperand()->getType(), in); return true; }
  if (auto *g = dyn_cast<GetElementPtrInst>(in)) {
    Val b = need(g->getPointerOperand());
    if (b.k == Val::Undef) { set(b); return true; }
    if (g->getType()->isVectorTy()) { set(freshOf(s, g->getType(), "gep")); return true; }
    Lin off;
    for (auto ti = gep_type_begin(g); ti != gep_type_end(g); ++ti) {
      const Value *ix = ti.getOperand();
      if (auto *sty = ti.getStructTypeOrNull()) { off = off + Lin((I)(uint64_t)DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())); continue; }
      Val i = need(ix); I es = (I)(uint64_t)DL->getTypeAllocSize(ti.getIndexedType());
      if (i.k == Val::Undef) { alarm(s, "UNINIT", "index depends on " + UndefOrigin[i.id], in); i = freshOf(s, ix->getType(), "undef", true); }
      if (i.k == Val::Ptr) { i = freshOf(s, ix->getType(), "ptrdiff", true); }
      if (i.k != Val::Int) { i = freshOf(s, ix->getType(), "idx", true); }
      off = off + toS(s, i, ix->getType()->getIntegerBitWidth()) * es;
    }
    if (b.k == Val::Int && b.l.isConst() && b.l.c == 0 && !(off == Lin(0))) { // offset from null: keep it null-like so that a dereference is reported
      set(b); return true; }
    if (b.k == Val::Ptr || b.k == Val::Int) { b.l = b.l + off; b.isPtr = true; b.w = 64; set(b); return true; }
    set(freshOf(s, g->getType(), "gep")); return true;
  }
  if (auto *b = dyn_cast<BinaryOperator>(in)) { bool ns = false; Val so; Val v = binop(s, b, ns, so); set(v); return true; }
  if (auto *c = dyn_cast<ICmpInst>(in)) {
    Type *t = c->getOperand(0)->getType();
    if (t->isVectorTy()) { set(freshOf(s, c->getType(), "vcmp")); return true; }
    Val a = operand(s, c->getOperand(0)), b = operand(s, c->getOperand(1)); unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    if (a.k == Val::Cmp && !(b.isConst() && c->isEquality())) a = need(c->getOperand(0));
    if (b.k == Val::Cmp) { if (a.isConst() && c->isEquality()) std::swap(a, b); else b = need(c->getOperand(1)); }
    if (a.k == Val::Cmp && !b.isConst()) a = need(c->getOperand(0));
    // an unsigned comparison of a value that may be negative: take the signs apart
    if (CmpInst::isUnsigned(c->getPredicate()) && a.k == Val::Int && b.k == Val::Int && !t->isPointerTy())
      for (const Val *v : {&a, &b}) if (v->l.t.size() == 1 && !ST.v[v->l.t[0].first].imprecise) { decideSign(v->l, w, 2); I lo = s.cons.lb(v->l), hi = s.cons.ub(v->l); if (lo < 0 && hi >= 0) throw SplitReq{Val::mkCmp(Val::LE, v->l + Lin(1))}; if (hi > umax(w) && lo <= umax(w)) throw SplitReq{Val::mkCmp(Val::LE, v->l - Lin(umax(w)))}; }
    Val r = icmp(s, c->getPredicate(), a, b, w, in); r.w = 1; set(r); return true;
  }
  if (auto *c = dyn_cast<FCmpInst>(in)) {
    Val a = operand(s, c->getOperand(0)), b = operand(s, c->getOperand(1));
    if (a.k == Val::Undef) { set(Val::undef(a.id, 1)); return true; } if (b.k == Val::Undef) { set(Val::undef(b.id, 1)); return true; }
    if (a.k != Val::Flt || b.k != Val::Flt || c->getType()->isVectorTy()) { set(freshOf(s, c->getType(), "fcmp")); return true; }
    if (FT[a.id].isConst && FT[b.id].isConst) {
      double x = FT[a.id].cv, y = FT[b.id].cv; bool r = FCmpInst::compare(APFloat(x), APFloat(y), c->getPredicate()); set(Val::mkInt(Lin(r), 1)); return true;
    }
    auto p = c->getPredicate(); int ia = a.id, ib = b.id; bool neg = false;
    if (AlgebraMode) {  // over the reals: no operand is not a number
      if (p == FCmpInst::FCMP_ORD || p == FCmpInst::FCMP_UNO) { set(Val::mkInt(Lin(p == FCmpInst::FCMP_ORD), 1)); return true; }
      p = (FCmpInst::Predicate)(p & 7); Lin l = algOrder(ia, ib);  // kept as order constraints
      if (!l.isConst()) { int k = p == FCmpInst::FCMP_OLT ? algLess(ia, ib, false) : p == FCmpInst::FCMP_OLE ? algLess(ia, ib, true) : p == FCmpInst::FCMP_OGT ? algLess(ib, ia, false) : p == FCmpInst::FCMP_OGE ? algLess(ib, ia, true) : 0; if (k) { set(Val::mkInt(Lin(k > 0), 1)); return true; } }
      Val r; switch (p) {
        case FCmpInst::FCMP_OEQ: r = Val::mkCmp(Val::EQ, l); break; case FCmpInst::FCMP_ONE: r = Val::mkCmp(Val::NE, l); break;
        case FCmpInst::FCMP_OLT: r = Val::mkCmp(Val::LE, l + Lin(1)); break; case FCmpInst::FCMP_OLE: r = Val::mkCmp(Val::LE, l); break;
        case FCmpInst::FCMP_OGT: r = Val::mkCmp(Val::LE, Lin(1) - l); break; default: r = Val::mkCmp(Val::LE, Lin(0) - l); }
      if (l.isConst()) { bool t = r.pred == Val::EQ ? r.l.c == 0 : r.pred == Val::NE ? r.l.c != 0 : r.l.c <= 0; set(Val::mkInt(Lin(t), 1)); return true; }
      set(r); return true;
    }
    // canonical form: strict/ordered pairs share one symbol with their negation
    if (p == FCmpInst::FCMP_OGT || p == FCmpInst::FCMP_OGE || p == FCmpInst::FCMP_UGT || p == FCmpInst::FCMP_UGE) { std::swap(ia, ib); p = FCmpInst::getSwappedPredicate(p); }
    if (p == FCmpInst::FCMP_ULE || p == FCmpInst::FCMP_ULT || p == FCmpInst::FCMP_UNE || p == FCmpInst::FCMP_UEQ) { p = FCmpInst::getInversePredicate(p); neg = true; if (p == FCmpInst::FCMP_OGT || p == FCmpInst::FCMP_OGE) { std::swap(ia, ib); p = FCmpInst::getSwappedPredicate(p); } }
    if ((p == FCmpInst::FCMP_OEQ || p == FCmpInst::FCMP_ONE) && ib < ia) std::swap(ia, ib);
    int m = ST.memoSym("fcmp" + std::to_string(p) + "(" + std::to_string(ia) + "," + std::to_string(ib) + ")", 1); ST.v[m].ranged = true; ST.v[m].lo = 0; ST.v[m].hi = 1;
    set(Val::mkCmp(neg ? Val::EQ : Val::NE, Lin::sym(m))); return true;
  }
  if (auto *c = dyn_cast<CastInst>(in)) {
    Val v = operand(s, c->getOperand(0)); Type *t = c->getType(); Type *ft = c->getOperand(0)->getType();
    if (t->isVectorTy() || ft->isVectorTy()) { set(freshOf(s, t, "vcast")); return true; }
    if (v.k == Val::Undef) { set(Val::undef(v.id, t->isIntegerTy() ? t->getIntegerBitWidth() : 0)); return true; }
    switch (c->getOpcode()) {
      case Instruction::Trunc: {
        unsigned w = t->getIntegerBitWidth(), fw = ft->getIntegerBitWidth();
        if (v.k == Val::Cmp) { v.w = w; set(v); return true; }
        if (v.k == Val::Int) {
          if (v.isConst()) { if (w == 1) set(Val::mkInt(Lin(v.l.c & 1), 1)); else set(Val::mkInt(normC(v.l, w), w)); return true; }
          if (w == 1) { set(decide(s, Val::mkCmp(Val::NE, v.l))); return true; }
          I lo = s.cons.lb(v.l), hi = s.cons.ub(v.l);
          if (lo >= smin(w) && hi <= umax(w)) { Val r = Val::mkInt(v.l, w); set(r); return true; }
          { Lin q, r; if (euclid(s, v.l, (I)1 << w, q, r)) { set(Val::mkInt(r, w)); return true; } }
          (void)fw; int m = ST.memoSym("trunc" + std::to_string(w) + "(" + v.l.str() + ")", w); if (impLin(v.l)) ST.v[m].imprecise = true; set(Val::mkInt(Lin::sym(m), w)); return true;
        }
        set(freshOf(s, t, "trunc", true)); return true;
      }
      case Instruction::ZExt: case Instruction::SExt: {
        unsigned w = t->getIntegerBitWidth(), fw = ft->getIntegerBitWidth();
        if (v.k == Val::Cmp) {
          if (c->getOpcode() == Instruction::SExt && fw == 1) { Val d = need(c->getOperand(0)); set(Val::mkInt(Lin(d.l.c ? -1 : 0), w)); return true; }
          v.w = w; set(v); return true; }
        if (v.k == Val::Int) {
          if (fw == 1) { set(Val::mkInt(Lin(v.l.c ? (c->getOpcode() == Instruction::SExt ? -1 : 1) : 0), w)); return true; }
          if (fw == 8 && !impLin(v.l) && !(v.l.t.size() == 1 && v.l.t[0].second == 1 && v.l.c == 0)) {  // a computed character: one case per sign
            I lo = s.cons.lb(v.l), hi = s.cons.ub(v.l), edge = c->getOpcode() == Instruction::ZExt ? -1 : smax(fw);
            if (lo >= smin(fw) && hi <= umax(fw) && lo <= edge && hi > edge) { Val q = decide(s, Val::mkCmp(Val::LE, v.l - Lin(edge))); if (q.k == Val::Cmp) throw SplitReq{q}; }
          }
          Lin l = c->getOpcode() == Instruction::ZExt ? toU(s, v, fw) : toS(s, v, fw); set(Val::mkInt(normC(l, w), w)); return true;
        }
        set(freshOf(s, t, "ext")); return true;
      }
      case Instruction::PtrToInt: { unsigned w = t->getIntegerBitWidth(); if (w == 64) { set(v); return true; } set(freshOf(s, t, "p2i")); return true; }
      case Instruction::IntToPtr: { if (v.k == Val::Int) v.isPtr = true; set(v); return true; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (t->isFloatingPointTy() && v.k == Val::Int) { set(Val::flt(fltMemo("bits" + v.str()))); return true; }
        if (t->isIntegerTy() && v.k == Val::Flt) { int m = ST.memoSym("fbits" + std::to_string(v.id), t->getIntegerBitWidth()); set(Val::mkInt(Lin::sym(m), t->getIntegerBitWidth())); return true; }
        set(v); return true;
      case Instruction::FPExt: case Instruction::FPTrunc: {
        if (v.k != Val::Flt) { set(freshOf(s, t, "fp")); return true; }
        if (AlgebraMode && NarrowMode && c->getOpcode() == Instruction::FPTrunc && !(FT[v.id].isConst && (double)(float)FT[v.id].cv == FT[v.id].cv)) { set(Val::flt(algNarrow(v.id))); return true; }
        if (AlgebraMode) { set(v); return true; }
        if (FT[v.id].isConst) { double d = FT[v.id].cv; if (t->isFloatTy()) d = (float)d; set(Val::flt(fltConst(d))); return true; }
        if (c->getOpcode() == Instruction::FPExt) { set(v); return true; }
        if (AlgebraMode) { set(v); return true; }
        set(Val::flt(fltMemo("fptrunc(" + std::to_string(v.id) + ")"))); return true;
      }
      case Instruction::SIToFP: case Instruction::UIToFP: {
        v = need(c->getOperand(0));
        if (v.k != Val::Int) { set(freshOf(s, t, "itof")); return true; }
        unsigned fw = ft->getIntegerBitWidth(); Lin l = c->getOpcode() == Instruction::UIToFP ? toU(s, v, fw) : toS(s, v, fw); l = s.cons.simplify(l);
        if (l.isConst()) { double d = (double)l.c; if (t->isFloatTy()) d = (float)d; set(Val::flt(fltConst(d))); return true; }
        if (AlgebraMode) { set(Val::flt(algLin(l))); return true; }
        set(Val::flt(fltMemo("itof(" + l.str() + ")"))); return true;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        if (v.k == Val::Flt && FT[v.id].isConst && FT[v.id].cv > -9e18 && FT[v.id].cv < 9e18) { set(Val::mkInt(normC(Lin((I)(long long)FT[v.id].cv), t->getIntegerBitWidth()), t->getIntegerBitWidth())); return true; }
        int m = ST.memoSym("ftoi" + std::to_string(v.id) + "_" + std::to_string(t->getIntegerBitWidth()), t->getIntegerBitWidth(), c->getOpcode() == Instruction::FPToSI ? 1 : 2); ST.v[m].imprecise = true;
        set(Val::mkInt(Lin::sym(m), t->getIntegerBitWidth())); return true;
      }
      default: set(freshOf(s, t, "cast")); return true;
    }
  }
  if (auto *se = dyn_cast<SelectInst>(in)) {
    if (se->getCondition()->getType()->isVectorTy()) { set(freshOf(s, se->getType(), "vsel")); return true; }
    Val c = operand(s, se->getCondition()); if (c.k == Val::Undef) { alarm(s, "UNINIT", "choice depends on " + UndefOrigin[c.id], in); set(operand(s, se->getTrueValue())); return true; }
    Val d = decide(s, c); if (d.k == Val::Cmp) throw SplitReq{c};
    set(operand(s, d.l.c ? se->getTrueValue() : se->getFalseValue())); return true;
  }
  if (auto *e = dyn_cast<ExtractValueInst>(in)) {
    Val v = operand(s, e->getAggregateOperand());
    for (unsigned i : e->indices()) { if (v.k == Val::Agg && i < v.a.size()) { Val q = v.a[i]; v = q; } else { v = v.k == Val::Undef ? v : freshOf(s, in->getType(), "ev"); break; } }
    set(v); return true;
  }
  if (auto *e = dyn_cast<InsertValueInst>(in)) {
    Val v = operand(s, e->getAggregateOperand());
    if (v.k != Val::Agg) { v = Val(); v.k = Val::Agg; Type *t = e->getType(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.a.push_back(Val::undef(undefOrigin("aggregate"))); }
    if (e->getNumIndices() == 1 && e->getIndices()[0] < v.a.size()) v.a[e->getIndices()[0]] = operand(s, e->getInsertedValueOperand());
    set(v); return true;
  }
  if (isa<LandingPadInst>(in)) {
    auto *lp = cast<LandingPadInst>(in); I sel = 0; bool found = false;
    for (unsigned k = 0; k < lp->getNumClauses() && !found; k++) {
      if (lp->isCatch(k)) { if (typeMatches(s.inflightType, lp->getClause(k))) { auto *g = dyn_cast<GlobalVariable>(lp->getClause(k)->stripPointerCasts()); sel = typeId(g ? g->getName().str() : "null"); found = true; } }
      else { auto *ca = dyn_cast<ConstantArray>(lp->getClause(k)); bool ok = false; if (ca) for (auto &o : ca->operands()) if (typeMatches(s.inflightType, cast<Constant>(o))) ok = true; if (!ok) { sel = -1; found = true; } }
    }
    Val a; a.k = Val::Agg; a.a.push_back(s.inflight); a.a.push_back(Val::mkInt(Lin(sel), 32)); set(a); return true;
  }
  if (auto *rm = dyn_cast<AtomicRMWInst>(in)) {
    Val p = need(rm->getPointerOperand()); Val o = load(s, p, rm->getType(), in); if (s.dead) return true;
    Val n = operand(s, rm->getValOperand()); Val nv = freshOf(s, rm->getType(), "rmw");
    if (o.k == Val::Int && n.k == Val::Int) { if (rm->getOperation() == AtomicRMWInst::Add) nv = Val::mkInt(normC(o.l + n.l, o.w), o.w); if (rm->getOperation() == AtomicRMWInst::Sub) nv = Val::mkInt(normC(o.l - n.l, o.w), o.w); }
    if (rm->getOperation() == AtomicRMWInst::Xchg) nv = n;
    store(s, p, nv, rm->getType(), in); set(o); return true;
  }
  if (auto *fz = dyn_cast<FreezeInst>(in)) { set(operand(s, fz->getOperand(0))); return true; }
  if (auto *un = dyn_cast<UnaryOperator>(in)) { Val v = operand(s, un->getOperand(0)); if (AlgebraMode && v.k == Val::Flt) set(Val::flt(algOp('-', fltConst(0), v.id))); else if (v.k == Val::Flt && FT[v.id].isConst) set(Val::flt(fltConst(-FT[v.id].cv))); else if (v.k == Val::Flt) set(Val::flt(fltMemo("neg(" + std::to_string(v.id) + ")"))); else set(v.k == Val::Undef ? v : freshOf(s, un->getType(), "un")); return true; }
  if (isa<FenceInst>(in)) return true;
  if (!in->getType()->isVoidTy()) set(freshOf(s, in->getType(), "other"));
  return true;
}
Exits Engine::callFunction(State s, const Function *F, const std::vector<Val> &args, const Instruction *site) {
  FnInfo &fi = info(F); entered.insert(F);
  Frame f; f.F = F; f.call = site;
  unsigned i = 0;
  for (auto &a : F->args()) {
    Val v = i < args.size() ? args[i] : Val::undef(undefOrigin("argument"));
    if (a.hasByValAttr() && v.k == Val::Ptr) {
      Region r; r.kind = Region::Alloca; r.sizeKnown = true; r.size = Lin((I)(uint64_t)DL->getTypeAllocSize(a.getParamByValType())); r.desc = "argument copy"; r.site = "byval" + std::to_string(i);
      int id = s.addRegion(r); copyMem(s, id, Lin(0), v.reg, v.l, r.size); f.allocas.push_back(id); v = Val::mkPtr(id, Lin(0));
    }
    f.regs[fi.num[&a]] = v; i++;
  }
  s.fr.push_back(std::move(f));
  size_t depth = s.fr.size();
  active[F]++; curDepth++;
  Exits ex = run(std::move(s), F);
  active[F]--; curDepth--;
  Exits out;
  for (auto &e : ex) {
    if (e.s.dead || e.s.cons.bot) continue;
    if (e.s.fr.size() != depth) { fprintf(stderr, "frame mismatch in %s\n", dem(F).c_str()); abort(); }
    for (int r : e.s.fr.back().allocas) { auto m = e.s.mem.find(r); if (m != e.s.mem.end()) {
        e.s.wr(r).freed = true; e.s.wr(r).cells.clear();
        for (auto l = e.s.locks.lower_bound({r, -1L << 60}); l != e.s.locks.end() && l->first.first == r;) {
          if (l->second.count > 0) alarm(e.s, "LOCK_LOST", "a locked mutex goes out of scope", site);
          l = e.s.locks.erase(l); } } }
    e.s.fr.pop_back();
    out.push_back(std::move(e));
  }
  static bool trace = getenv("VTRACE"); if (trace) for (auto &e : out) fprintf(stderr, "%*sEXIT %s%s -> %s\n", (int)depth, "", dem(F).substr(0, 90).c_str(), e.thrown ? " [throws]" : "", e.ret.str().c_str());
  if (out.size() > 1) reduceExits(out, site, fi.driver ? 200 : fi.bigSwitch && exitCap <= 6 ? 1 : exitCap);
  return out;
}
Exits Engine::dispatch(State s, const CallBase *cb) {
  Exits out;
  std::vector<Val> args; for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) args.push_back(Val()); else args.push_back(operand(s, a)); }
  const Function *F = cb->getCalledFunction(); Val fv;
  if (!F) {
    if (cb->isInlineAsm()) { Exit e; e.s = std::move(s); if (!cb->getType()->isVoidTy()) e.ret = freshOf(e.s, cb->getType(), "asm"); out.push_back(std::move(e)); return out; }
    fv = operand(s, cb->getCalledOperand());
    if (fv.k == Val::Fn) F = fv.f;
    else if (fv.k == Val::Undef) { alarm(s, "UNINIT", "calls through " + UndefOrigin[fv.id], cb); return out; }
    else if (fv.isNull()) { alarm(s, "NULLDEREF", "calls through a null function pointer", cb); return out; }
  }
  if (F) if (auto *o = F->getParent()->getFunction(("__v_over" + F->getName()).str())) if (!o->isDeclaration()) F = o;  // the harness replaces a library function
  // drop what the caller no longer needs
  auto &fi = info(s.fr.back().F); auto la = fi.liveAfter.find(cb);
  if (la != fi.liveAfter.end()) {
    auto &regs = s.fr.back().regs; for (auto it = regs.begin(); it != regs.end();) if (!la->second.count(it->first)) it = regs.erase(it); else ++it;
  }
  if (!F) { unmodelled["<indirect call> " + where(cb)]++; opaqueCall(s, nullptr, cb, args, out); return out; }
  if (F->isIntrinsic() || true) if (model(s, F, cb, args, out)) return out;
  if (opaqueName(F) || F->isDeclaration() || (F->isVarArg() && usesVaArgs(F)) || active[F] >= 3 || curDepth > 80) {
    if (F->isDeclaration() && !opaqueName(F)) unmodelled[dem(F)]++;
    if (active[F] >= 3) unmodelled["<recursion> " + dem(F)]++;
    opaqueCall(s, F, cb, args, out); return out;
  }
  return callFunction(std::move(s), F, args, cb);
}
Exits Engine::runDriver(const Function *F) {
  Exits cur; { Exit e; cur.push_back(std::move(e)); }
  // static initialisers first
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &o : ca->operands()) {
      auto *st = dyn_cast<ConstantStruct>(o); if (!st) continue; auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if (!f) continue;
      Exits nx; for (auto &e : cur) { Exits r = callFunction(std::move(e.s), f, {}, nullptr); for (auto &x : r) if (!x.thrown) nx.push_back(std::move(x)); }
      if (!nx.empty()) cur = std::move(nx);
    }
  Exits out;
  for (auto &e : cur) { Exits r = callFunction(std::move(e.s), F, {}, nullptr); for (auto &x : r) out.push_back(std::move(x)); }
  for (auto &e : out) {
    if (e.thrown) alarm(e.s, "ESCAPED_EXCEPTION", "an exception of type " + llvm::demangle(e.s.inflightType) + " leaves the driver", nullptr);
    Val none; e.s.inflight = none; e.ret = none; Canon c; canonicalise(e.s, {}, c, leaker(nullptr));
  }
  return out;
}
