// Models of the operating system, the C library and the C++ runtime, and the driver intrinsics.
#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <errno.h>
#include <unordered_map>
using namespace llvm;
typedef std::vector<Val> Args;

// ---- names
struct FName { std::string qn, base, ctx, params; bool cpp = false, isConst = false; };
static FName &fname(const Function *F) {
  static std::unordered_map<const Function *, FName> cache;
  auto it = cache.find(F); if (it != cache.end()) return it->second;
  FName &n = cache[F]; std::string m = F->getName().str();
  ItaniumPartialDemangler d;
  auto norm = [](std::string s) {
    auto rep = [&](const std::string &a, const std::string &b) { size_t p; while ((p = s.find(a)) != std::string::npos) s.replace(p, a.size(), b); };
    rep("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string");
    rep("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
    rep("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
    return s; };
  if (m.compare(0, 2, "_Z") == 0 && !d.partialDemangle(m.c_str()) && d.isFunction()) {
    auto take = [&](char *p) { std::string s = p ? p : ""; free(p); return s; };
    size_t l = 0;
    n.qn = norm(take(d.getFunctionName(nullptr, &l))); n.base = take(d.getFunctionBaseName(nullptr, &l));
    n.ctx = norm(take(d.getFunctionDeclContextName(nullptr, &l))); n.params = norm(take(d.getFunctionParameters(nullptr, &l)));
    n.cpp = true; n.isConst = llvm::demangle(m).find(") const") != std::string::npos;
    if (n.params.size() >= 2 && n.params[0] == '(') n.params = n.params.substr(1, n.params.rfind(')') - 1);
    if (d.isCtorOrDtor()) n.base = m.find("D0E") != std::string::npos || m.find("D1E") != std::string::npos || m.find("D2E") != std::string::npos ? "~" + n.base : n.base;
  } else n.qn = n.base = m;
  return n;
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static std::vector<std::string> splitParams(const std::string &p) {
  std::vector<std::string> r; std::string c; int d = 0;
  for (char ch : p) { if (ch == '<' || ch == '(') d++; if (ch == '>' || ch == ')') d--; if (ch == ',' && d == 0) { r.push_back(c); c.clear(); continue; } if (c.empty() && ch == ' ') continue; c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
bool Engine::opaqueName(const Function *F) {
  FName &n = fname(F);
  if (!n.cpp) return false;
  static const char *pre[] = {"std::string::", "std::basic_ostream", "std::basic_istream", "std::basic_iostream", "std::basic_ios", "std::ios_base", "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_istringstream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_stringbuf", "std::basic_streambuf", "std::basic_filebuf", "std::basic_ofstream", "std::basic_ifstream",
    "std::locale", "std::ctype", "std::endl", "std::flush", "std::char_traits", "std::allocator<char>", "std::__new_allocator<char>", "__gnu_cxx::__is_null_pointer", "std::operator<<", "std::operator>>", "std::setw", "std::setprecision", "std::_Rb_tree_increment", "std::_Rb_tree_decrement", "Eigen::", "Sophus::", "std::__throw", "std::mersenne", "std::random_device", "std::complex", "std::sto", "std::to_string", "std::__cxx11::to_string", "std::istream_iterator", "std::ostream_iterator", "std::__cxx11::stoi", "std::chrono", "std::hash", "std::_Hash_bytes", "std::getline", "std::error_code", "std::__cxx11::basic_string"};
  if (!F->isDeclaration() && (starts(n.qn, "std::allocator<char>") || starts(n.qn, "std::__new_allocator<char>"))) for (auto *m : {"::allocate", "::deallocate", "::max_size", "::_M_max_size", "::construct", "::destroy"}) if (n.qn.find(m) != std::string::npos) return false;  // of vectors of characters
  for (auto *p : pre) if (starts(n.qn, p)) return true;
  return false;
}
// ---- small helpers
static std::string litOf(Engine &E, State &s, const Val &p, bool &ok) {
  ok = false; if (p.k != Val::Ptr || !s.mem.count(p.reg)) return "";
  const Region &R = s.rd(p.reg);
  if (!R.constant || !R.g || !R.g->hasInitializer() || !p.l.isConst()) return "";
  auto *ca = dyn_cast<ConstantDataArray>(R.g->getInitializer());
  if (!ca) { if (R.g->getInitializer()->isNullValue()) { ok = true; return ""; } return ""; }
  if (!ca->isString()) return "";
  std::string v = ca->getAsString().str(); if (p.l.c < 0 || p.l.c > (I)v.size()) return "";
  v = v.substr((size_t)p.l.c); size_t z = v.find('\0'); if (z == std::string::npos) return ""; ok = true; return v.substr(0, z);
}
static std::map<std::string, int> LitIds; static std::vector<std::string> Lits;
static Lin litTok(const std::string &v) { auto it = LitIds.find(v); if (it == LitIds.end()) { LitIds[v] = (int)Lits.size(); Lits.push_back(v); it = LitIds.find(v); } return Lin((I)it->second); }
static std::map<int, Lin> CstrTok;  // pointer symbol -> token of the std::string it came from
static Lin tokSize(const Lin &t) {
  if (t.isConst()) { if (t.c >= 0 && t.c < (I)Lits.size()) return Lin((I)Lits[(size_t)t.c].size()); }
  int m = ST.memoSym("strsize(" + t.str() + ")", 64, 2); ST.v[m].ranged = true; ST.v[m].lo = 0; ST.v[m].hi = (I)1 << 30; return Lin::sym(m);
}
static Lin newTok(const std::string &n) { int k = ST.fresh(64, n, 2); ST.v[k].ranged = true; ST.v[k].lo = 0; ST.v[k].hi = (I)1 << 60; return Lin::sym(k); }
static Lin memoTok(const std::string &n) { int k = ST.memoSym("tok:" + n, 64, 2); ST.v[k].ranged = true; ST.v[k].lo = 0; ST.v[k].hi = (I)1 << 60; return Lin::sym(k); }
static bool ptrTo(State &s, const Val &v, int &reg, Lin &off) {
  if (v.k == Val::Ptr) { if (!s.mem.count(v.reg)) return false; reg = v.reg; off = v.l; return true; }
  if (v.k == Val::Int && v.l.t.size() == 1 && v.l.t[0].second == 1) { auto it = s.derefs.find(v.l.t[0].first); if (it != s.derefs.end() && s.mem.count(it->second)) { reg = it->second; off = Lin(v.l.c); return true; } }
  return false;
}
Lin Engine::strTok(State &s, const Val &o) {
  int r; Lin off; if (!resolve(s, o, Lin(0), false, nullptr, r, off)) return newTok("str");
  if (!off.isConst()) return newTok("str");
  std::string key = "tok@" + std::to_string((long)off.c);
  auto &R = s.wr(r); auto it = R.ghost.find(key); if (it != R.ghost.end() && it->second.k == Val::Int) return it->second.l;
  Lin t = newTok("str"); s.wr(r).ghost[key] = Val::mkInt(t, 64); return t;
}
void Engine::setTok(State &s, const Val &o, const Lin &t) {
  int r; Lin off; if (!resolve(s, o, Lin(0), true, nullptr, r, off) || !off.isConst()) return;
  if (s.rd(r).constant) return;
  s.wr(r).ghost["tok@" + std::to_string((long)off.c)] = Val::mkInt(t, 64);
}
static Val ptrOfTok(State &s, const Lin &t) {
  int k = ST.memoSym("cstr(" + t.str() + ")", 64, 2); CstrTok[k] = t;
  if (!s.derefs.count(k) || !s.mem.count(s.derefs[k])) {
    Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.desc = "string contents"; r.site = "cstr"; r.sizeKnown = true; r.size = tokSize(t) + Lin(1);
    s.derefs[k] = s.addRegion(r); s.cons.addNe(Lin::sym(k));
  }
  return Val::mkInt(Lin::sym(k), 64, true);
}
Val Engine::cstrPtr(State &s, const Val &o) { Lin t = s.cons.simplify(strTok(s, o)); return ptrOfTok(s, t); }
static Lin tokOfC(Engine &E, State &s, const Val &p) {
  bool ok; std::string l = litOf(E, s, p, ok); if (ok) return litTok(l);
  if (p.k == Val::Int && p.l.isSym()) { auto it = CstrTok.find(p.l.t[0].first); if (it != CstrTok.end()) return it->second; return memoTok("cptr" + p.l.str()); }
  if (p.k == Val::Ptr) { int r = p.reg; if (p.l.isConst()) { std::string key = "len@" + std::to_string((long)p.l.c); (void)key; } (void)r; return newTok("chars"); }
  return newTok("chars");
}
// Length of a C string
static Lin cLen(Engine &E, State &s, const Val &p, const Instruction *at) {
  bool ok; std::string l = litOf(E, s, p, ok); if (ok) return Lin((I)l.size());
  if (p.k == Val::Int && p.l.isSym()) { auto it = CstrTok.find(p.l.t[0].first); if (it != CstrTok.end()) return tokSize(it->second); }
  int r; Lin off; if (!E.resolve(s, p, Lin(1), false, at, r, off)) return Lin(0);
  if (off.isConst()) {
    std::string key = "len@" + std::to_string((long)off.c); auto it = s.rd(r).ghost.find(key); if (it != s.rd(r).ghost.end()) return it->second.l;
    // constant bytes up to a terminator
    long o = (long)off.c, n = 0; bool known = true; const Region &R = s.rd(r);
    while (n < 256) { auto c = R.cells.find(o + n); if (c == R.cells.end() || c->second.sz != 1 || !c->second.v.isConst()) { known = false; break; } if (c->second.v.l.c == 0) break; n++; }
    if (known && n < 256) return Lin((I)n);
    auto c0 = R.cells.find(o); if (R.def == Region::DUndef && !R.weakInit && (c0 == R.cells.end() ? R.cells.empty() : c0->second.v.k == Val::Undef)) { E.alarm(s, "UNINIT", "reads a string from uninitialised " + R.desc, at); }
  }
  int k = ST.fresh(64, "strlen", 2); ST.v[k].ranged = true; ST.v[k].lo = 0; ST.v[k].hi = (I)1 << 30;
  if (s.rd(r).sizeKnown) { s.cons.addLe(off + Lin::sym(k) + Lin(1) - s.rd(r).size); if (s.cons.bot) { s.cons.bot = false; } }
  if (off.isConst() && !s.rd(r).constant) s.wr(r).ghost["len@" + std::to_string((long)off.c)] = Val::mkInt(Lin::sym(k), 64);
  return Lin::sym(k);
}
static Val i32(I v) { return Val::mkInt(Lin(v), 32); }
static Val i64(I v) { return Val::mkInt(Lin(v), 64); }
static Val errnoPtr(State &s) {
  auto it = s.ghost.find("errno"); if (it != s.ghost.end()) return it->second;
  Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.sizeKnown = true; r.size = Lin(4); r.desc = "errno"; r.site = "errno";
  int id = s.addRegion(r); int k = ST.fresh(32, "stale errno", 1); ST.v[k].stale = true;
  s.wr(id).cells[0] = Cell{4, Val::mkInt(Lin::sym(k), 32)};
  return s.ghost["errno"] = Val::mkPtr(id, Lin(0));
}
static void setErrnoFail(State &s, const std::string &call) {
  Val p = errnoPtr(s); int k = ST.ranged(32, "errno(" + call + ")", 1, 133); s.wr(p.reg).cells[0] = Cell{4, Val::mkInt(Lin::sym(k), 32)};
  s.ghost["fail"] = Val::mkInt(Lin(1), 8); s.note(call + " fails");
}
static void errnoOk(State &s) {
  auto it = s.ghost.find("errno"); if (it == s.ghost.end()) return;
  const Region &R = s.rd(it->second.reg); auto c = R.cells.find(0);
  if (c != R.cells.end() && c->second.v.k == Val::Int && c->second.v.l.isSym() && ST.v[c->second.v.l.t[0].first].stale) return;
  int k = ST.fresh(32, "stale errno", 1); ST.v[k].stale = true; s.wr(it->second.reg).cells[0] = Cell{4, Val::mkInt(Lin::sym(k), 32)};
}
std::set<std::string> TrackedCounts;  // event names some driver asks about
static void bump(State &s, const std::string &n) { if (!TrackedCounts.count(n)) return; auto &g = s.ghost["cnt:" + n]; if (g.k != Val::Int) g = Val::mkInt(Lin(0), 8); if (g.l.c < 5) g.l.c += 1; }
bool Engine::sinkUse(State &s, const Val &v, const Instruction *at, const std::string &what) {
  if (v.k == Val::Undef) { alarm(s, "UNINIT", "passes " + UndefOrigin[v.id] + " to " + what, at); return false; }
  return true;
}
bool Engine::typeMatches(const std::string &thrown, const Constant *clause) {
  auto *c = clause->stripPointerCasts(); auto *g = dyn_cast<GlobalVariable>(c);
  if (!g) return true;  // catch (...)
  std::string want = g->getName().str();
  std::set<std::string> seen; std::vector<std::string> q{thrown};
  while (!q.empty()) {
    std::string t = q.back(); q.pop_back(); if (t == want) return true; if (!seen.insert(t).second) continue;
    if (t.find("_ZTIN3ecl17StandardException") == 0) q.push_back("_ZTIN3ecl9ExceptionE");
    if (t == "_ZTISt9bad_alloc" || t == "_ZTISt12out_of_range" || t == "_ZTISt12length_error") q.push_back("_ZTISt9exception");
    auto *tg = M->getGlobalVariable(t, true); if (!tg || !tg->hasInitializer()) continue;
    std::function<void(const Constant *)> walk = [&](const Constant *k) {
      if (auto *gv = dyn_cast<GlobalVariable>(k)) { if (gv->getName().starts_with("_ZTI")) q.push_back(gv->getName().str()); return; }
      if (isa<ConstantAggregate>(k) || isa<ConstantExpr>(k)) for (auto &o : k->operands()) walk(cast<Constant>(o)); };
    walk(tg->getInitializer());
  }
  return false;
}
Exits Engine::throwExit(State s, const Val &obj) {
  Exits e; e.emplace_back(); e[0].thrown = true; s.inflight = obj;
  if (obj.k == Val::Ptr && s.mem.count(obj.reg)) s.inflightType = s.rd(obj.reg).site; else s.inflightType = "unknown";
  e[0].s = std::move(s); return e;
}
void Engine::opaqueCall(State &s, const Function *F, const CallBase *cb, Args &args, Exits &out) {
  Type *rt = cb->getType();
  std::vector<std::string> ps; bool cpp = false, cm = false, ctorDtor = false, shift = false;
  if (F) { FName &n = fname(F); cpp = n.cpp; if (cpp) { ps = splitParams(n.params); cm = n.isConst; shift = n.base.find("operator<<") == 0 || n.base.find("operator>>") == 0; } (void)ctorDtor; }
  // align parameters from the right; the rest are sret / this
  size_t lead = args.size() >= ps.size() ? args.size() - ps.size() : 0;
  Val ret;
  for (size_t i = 0; i < args.size(); i++) {
    bool constArg = false;
    if (cpp) { if (i >= lead) { auto &t = ps[i - lead]; constArg = t.find("const&") != std::string::npos || t.find("const*") != std::string::npos; } else if (cm && !(cb->paramHasAttr(i, Attribute::StructRet))) constArg = true; }
    if (i < cb->arg_size() && cb->paramHasAttr(i, Attribute::StructRet)) constArg = false;
    int r; Lin off;
    if (ptrTo(s, args[i], r, off)) {
      if (s.rd(r).freed) { alarm(s, "USE_AFTER_RELEASE", "passes " + s.rd(r).desc + " to a call after it was released", cb); continue; }
      if (!constArg) escape(s, args[i], true);
    }
  }
  Exit e;
  if (!rt->isVoidTy()) {
    if (shift && rt->isPointerTy() && !args.empty()) ret = args[0];
    else {
      ret = freshOf(s, rt, F ? fname(F).base + "()" : "call()", true);
      if (rt->isPointerTy() && F && fname(F).cpp) s.cons.addNe(ret.l);
    }
  }
  e.ret = ret; e.s = std::move(s); out.push_back(std::move(e));
}

// ---- the table
typedef std::function<void(Engine &, State &, const Function *, const CallBase *, Args &, Exits &)> ModelFn;
static void ret(State &s, const Val &v, Exits &o) { Exit e; e.ret = v; e.s = std::move(s); o.push_back(std::move(e)); }
static Val heapAlloc(Engine &E, State &s, const Lin &size, const char *rel, const CallBase *cb, bool known = true) {
  if (known && !size.isConst() && s.cons.lb(size) <= ((I)1 << 48)) s.cons.addLe(size - Lin((I)1 << 48));  // a larger request cannot succeed
  Region r; r.kind = Region::Heap; r.sizeKnown = known; r.size = size; r.rel = rel; r.desc = "heap block"; r.site = E.where(cb); 
  return Val::mkPtr(s.addRegion(r), Lin(0));
}
static Lin num(Engine &E, State &s, const Val &v, unsigned w, bool uns, const CallBase *cb, const char *what) {
  if (v.k == Val::Undef) { E.alarm(s, "UNINIT", std::string("passes ") + UndefOrigin[v.id] + " to " + what, cb); return Lin::sym(ST.fresh(w, "undef", uns ? 2 : 1)); }
  if (v.k == Val::Cmp) { Val d = E.decide(s, v); if (d.isConst()) return d.l; return Lin::sym(ST.ranged(w, "bool", 0, 1)); }
  if (v.k != Val::Int) return Lin::sym(ST.fresh(w, "num", uns ? 2 : 1));
  return s.cons.simplify(uns ? E.toU(s, v, w) : E.toS(s, v, w));
}
static void release(Engine &E, State &s, const Val &p, const char *fam, const CallBase *cb) {
  E.check("RELEASE", cb);
  if (p.k == Val::Undef) { E.alarm(s, "UNINIT", "releases " + UndefOrigin[p.id], cb); return; }
  int r; Lin off;
  if (!ptrTo(s, p, r, off)) return;
  const Region &R = s.rd(r);
  if (R.kind == Region::Ext && R.rel.empty()) { if (R.freed) E.alarm(s, "DOUBLE_RELEASE", "releases " + R.desc + " twice", cb); return; }
  if (R.freed) { E.alarm(s, "DOUBLE_RELEASE", "releases " + R.desc + " twice", cb); s.dead = true; return; }
  if (R.rel.empty() || R.kind == Region::Alloca || R.kind == Region::Global) { E.alarm(s, "BAD_RELEASE", "releases memory that was not allocated: " + R.desc, cb); s.dead = true; return; }
  if (R.rel != fam) { E.alarm(s, "BAD_RELEASE", std::string("releases with ") + fam + " what must be released with " + R.rel, cb); }
  if (!(off == Lin(0)) && !s.cons.proveEq(off)) { E.alarm(s, "BAD_RELEASE", "releases a pointer into the middle of a block", cb); }
  for (auto l = s.locks.lower_bound({r, -1L << 60}); l != s.locks.end() && l->first.first == r;) { if (l->second.count > 0) E.alarm(s, "LOCK_LOST", "a locked mutex is deallocated", cb); l = s.locks.erase(l); }
  Region &W = s.wr(r); 
  for (auto &g : W.ghost) if (g.first.compare(0, 5, "attr@") == 0) E.alarm(s, "LEAK", "attribute object never destroyed", cb);
  W.freed = true; 
  // what the block pointed to may now be lost: keep its cells out so the collector can tell
  W.cells.clear(); W.ghost.clear(); W.weak.clear();
}
// descriptors
static FdRec *fdOf(State &s, const Val &v) { if (v.k == Val::Int && v.l.isSym()) { auto it = s.fds.find(v.l.t[0].first); if (it != s.fds.end()) return &it->second; } return nullptr; }
static int newFd(Engine &E, State &s, const char *kind, const CallBase *cb) {
  int k = ST.ranged(32, kind, 0, smax(31)); FdRec r; r.kind = kind; r.site = E.where(cb); s.fds[k] = r; return k;
}
static bool fdUse(Engine &E, State &s, const Val &v, const CallBase *cb, const char *what) {
  E.check("HANDLE_USE", cb);
  if (v.k == Val::Undef) { E.alarm(s, "UNINIT", std::string("passes ") + UndefOrigin[v.id] + " to " + what, cb); return false; }
  if (FdRec *f = fdOf(s, v)) { if (!f->open) { E.alarm(s, "USE_AFTER_RELEASE", std::string(what) + " on a descriptor that was already closed", cb); return false; } }
  else if (v.isConst() && v.l.c < 0) { E.alarm(s, "BAD_HANDLE", std::string(what) + " on a descriptor that was never opened", cb); return false; }
  return true;
}
static int fileOf(Engine &E, State &s, const Val &v, const CallBase *cb, const char *what) {
  E.check("HANDLE_USE", cb);
  if (v.k == Val::Undef) { E.alarm(s, "UNINIT", std::string("passes ") + UndefOrigin[v.id] + " to " + what, cb); return -1; }
  if (v.isNull()) { E.alarm(s, "BAD_HANDLE", std::string(what) + " on a null stream", cb); return -1; }
  int r; Lin off; if (!ptrTo(s, v, r, off)) return -1;
  if (s.rd(r).freed) { E.alarm(s, "USE_AFTER_RELEASE", std::string(what) + " on a stream that was already closed", cb); return -1; }
  return r;
}
static void fail(Engine &E, State s, const char *call, const Val &rv, Exits &o) { setErrnoFail(s, call); s.forks++; ret(s, rv, o); }
static void okRet(State &s, const Val &v, Exits &o) { errnoOk(s); s.forks++; ret(s, v, o); }
// a call that may succeed (0) or fail (-1, errno)
static ModelFn simple(const char *name, int fdArg = -1, bool errRet = false) {
  return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    unsigned w = cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 32;
    bool good = fdArg < 0 || fdUse(E, s, a[fdArg], cb, name); bump(s, name);
    if (!errRet) { fail(E, s, name, Val::mkInt(Lin(-1), w), o); if (good) okRet(s, Val::mkInt(Lin(0), w), o); }
    else { State f = s; setErrnoFail(f, name); f.forks++; int k = ST.ranged(w, std::string("error(") + name + ")", 1, 133); ret(f, Val::mkInt(Lin::sym(k), w), o); s.forks++; ret(s, Val::mkInt(Lin(0), w), o); }
  };
}
static ModelFn retInt(const char *name, I lo, I hi) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { unsigned w = cb->getType()->getIntegerBitWidth(); int k = ST.ranged(w, name, lo, hi); ret(s, Val::mkInt(Lin::sym(k), w), o); }; }
// locks
static std::pair<int, long> lockKey(Engine &E, State &s, const Val &m, const CallBase *cb, bool &ok) {
  int r; Lin off; ok = E.resolve(s, m, Lin(0), true, cb, r, off) && off.isConst(); return {r, ok ? (long)off.c : 0};
}
static bool lockReady(Engine &E, State &s, std::pair<int, long> k, const CallBase *cb, const char *what) {
  E.check("LOCK", cb);
  auto it = s.locks.find(k);
  if (it == s.locks.end()) {
    const Region &R = s.rd(k.first);
    if ((R.kind == Region::Heap || R.kind == Region::Alloca) && R.def == Region::DUndef && R.cells.find(k.second) == R.cells.end()) { E.alarm(s, "LOCK_UNINIT", std::string(what) + " on a mutex that was never initialised", cb); }
    LockRec l; l.desc = R.desc; l.site = E.where(cb); s.locks[k] = l; return true;
  }
  if (it->second.destroyed) { E.alarm(s, "USE_AFTER_RELEASE", std::string(what) + " on a destroyed mutex", cb); s.dead = true; return false; }
  return true;
}
static void memRange(Engine &E, State &s, const Val &p, const Lin &n, bool write, const CallBase *cb, const char *what, int &r, Lin &off, bool &ok) {
  if (s.cons.proveEq(n)) { ok = false; return; }
  if (s.cons.lb(n) < 0) { s.cons.addLe(n.neg()); if (s.cons.bot) { s.dead = true; ok = false; return; } }
  // a possibly-empty transfer may come with any pointer
  if (p.isNull() && s.cons.lb(n) <= 0) { E.alarm(s, "NULLDEREF", std::string(what) + " with a null buffer", cb); ok = false; return; }
  ok = E.resolve(s, p, n, write, cb, r, off, what);
}
static void readable(Engine &E, State &s, int r, const Lin &off, const Lin &n, const CallBase *cb, const char *what) {
  const Region &R = s.rd(r); E.check("INIT_READ", cb);
  if (R.def == Region::DUndef && !R.weakInit && R.cells.empty() && s.cons.lb(n) > 0) E.alarm(s, "UNINIT", std::string(what) + " reads uninitialised " + R.desc, cb);
}
static bool timespecOk(Engine &E, State &s, const Val &p, const CallBase *cb, const char *what, bool absolute) {
  int r; Lin off; if (!E.resolve(s, p, Lin(16), false, cb, r, off)) return false;
  Type *t64 = Type::getInt64Ty(E.M->getContext());
  Val sec = E.loadAt(s, r, off, t64, cb), ns = E.loadAt(s, r, off + Lin(8), t64, cb);
  E.check("TIMESPEC", cb);
  if (sec.k == Val::Undef || ns.k == Val::Undef) { E.alarm(s, "UNINIT", std::string(what) + " is given an uninitialised time", cb); return true; }
  if (ns.k == Val::Int) {
    Lin l = E.toS(s, ns, 64); bool imp = false; for (auto &q : l.t) if (ST.v[q.first].imprecise) imp = true;
    if (s.cons.lb(l) < 0 || s.cons.ub(l) > 999999999) { bool sure = s.cons.ub(l) < 0 || s.cons.lb(l) > 999999999; if (!imp || sure) E.alarm(s, "TIMESPEC", std::string(what) + " is given a nanosecond field outside 0..999999999", cb); else E.obl["TIMESPEC_UNDECIDED"].insert({cb, 0}); }
  }
  if (sec.k == Val::Int) {
    bool clk = false, imp = false; for (auto &q : sec.l.t) { if (ST.v[q.first].name.compare(0, 6, "clock:") == 0) clk = true; if (ST.v[q.first].imprecise || ST.v[q.first].name.compare(0, 4, "mem:") == 0) imp = true; }
    E.check("TIME_ABS", cb);
    if (absolute && !clk && !imp) E.alarm(s, "TIME_ABS", std::string(what) + " needs a point in time but is given a duration", cb);
    if (!absolute && clk) E.alarm(s, "TIME_ABS", std::string(what) + " needs a duration but is given a point in time", cb);
  }
  return true;
}
static std::map<std::string, ModelFn> T;
static Val boolVal(bool b) { return Val::mkInt(Lin(b), 1); }
static void initTable() {
  auto alloc = [](const char *rel) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      Lin n = num(E, s, a[0], 64, true, cb, "an allocation"); ret(s, heapAlloc(E, s, n, rel, cb), o); }; };
  T["_Znwm"] = alloc("delete"); T["_Znam"] = alloc("delete[]");
  auto nothrow = [](const char *rel) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      if (!E.reliableMalloc) { State f = s; s.forks++; ret(f, Val::null(), o); }
      Lin n = num(E, s, a[0], 64, true, cb, "an allocation"); ret(s, heapAlloc(E, s, n, rel, cb), o); }; };
  T["_ZnwmRKSt9nothrow_t"] = nothrow("delete"); T["_ZnamRKSt9nothrow_t"] = nothrow("delete[]");
  T["_ZnwmSt11align_val_t"] = T["_Znwm"]; T["_ZnamSt11align_val_t"] = T["_Znam"];
  auto del = [](const char *rel) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { release(E, s, a[0], rel, cb); ret(s, Val(), o); }; };
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) T[n] = del("delete");
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}) T[n] = del("delete[]");
  T["free"] = del("free");
  T["malloc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    if (!E.reliableMalloc) { State f = s; fail(E, f, "malloc", Val::null(), o); } Lin n = num(E, s, a[0], 64, true, cb, "malloc"); s.forks++; ret(s, heapAlloc(E, s, n, "free", cb), o); };
  T["calloc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fail(E, s, "calloc", Val::null(), o); Lin n = num(E, s, a[0], 64, true, cb, "calloc"), m = num(E, s, a[1], 64, true, cb, "calloc"); bool k = n.isConst() || m.isConst(); Lin sz = n.isConst() ? m * n.c : m.isConst() ? n * m.c : Lin(0);
    s.forks++; Val p = heapAlloc(E, s, sz, "free", cb, k); s.wr(p.reg).def = Region::DZero; ret(s, p, o); };
  T["realloc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fail(E, s, "realloc", Val::null(), o); Lin n = num(E, s, a[1], 64, true, cb, "realloc"); s.forks++; Val p = heapAlloc(E, s, n, "free", cb); s.wr(p.reg).def = Region::DUnknown; release(E, s, a[0], "free", cb); ret(s, p, o); };
  T["__errno_location"] = [](Engine &E, State &s, const Function *, const CallBase *, Args &, Exits &o) { Val p = errnoPtr(s); ret(s, p, o); };
  T["__h_errno_location"] = [](Engine &E, State &s, const Function *, const CallBase *, Args &, Exits &o) {
    auto it = s.ghost.find("h_errno"); if (it == s.ghost.end()) { Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.sizeKnown = true; r.size = Lin(4); r.desc = "h_errno"; r.site = "h_errno"; Val p = Val::mkPtr(s.addRegion(r), Lin(0)); s.ghost["h_errno"] = p; ret(s, p, o); } else { Val p = it->second; ret(s, p, o); } };
  // ---- descriptors
  auto opener = [](const char *name, const char *kind, int fdArg) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      bool good = true; if (fdArg >= 0) good = fdUse(E, s, a[fdArg], cb, name); bump(s, name);
      for (auto &x : a) E.sinkUse(s, x, cb, name);
      // out-parameters of accept()
      if (std::string(name) == "accept") for (unsigned i = 1; i < a.size(); i++) E.escape(s, a[i], true);
      fail(E, s, name, Val::mkInt(Lin(-1), 32), o); if (!good) return; int k = newFd(E, s, kind, cb); okRet(s, Val::mkInt(Lin::sym(k), 32), o); }; };
  T["open"] = T["open64"] = opener("open", "file descriptor", -1);
  T["socket"] = opener("socket", "socket", -1);
  T["accept"] = opener("accept", "connection", 0);
  T["dup"] = opener("dup", "file descriptor", 0);
  T["shm_open"] = opener("shm_open", "shared memory descriptor", -1);
  T["close"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    E.check("RELEASE", cb); bump(s, "close");
    if (a[0].k == Val::Undef) { E.alarm(s, "UNINIT", "closes " + UndefOrigin[a[0].id], cb); ret(s, i32(0), o); return; }
    if (FdRec *f = fdOf(s, a[0])) { if (!f->open) { E.alarm(s, "DOUBLE_RELEASE", "closes the same " + f->kind + " twice", cb); fail(E, s, "close", i32(-1), o); return; } f->open = false; }
    else if (a[0].isConst() && a[0].l.c < 0) { E.alarm(s, "BAD_HANDLE", "closes a descriptor that was never opened", cb); fail(E, s, "close", i32(-1), o); return; }
    fail(E, s, "close", i32(-1), o); okRet(s, i32(0), o); };
  T["fdopen"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool good = fdUse(E, s, a[0], cb, "fdopen"); fail(E, s, "fdopen", Val::null(), o); if (!good) return;
    Region r; r.kind = Region::Handle; r.rel = "fclose"; r.desc = "stream"; r.site = E.where(cb); r.ghost["fd"] = a[0]; Val p = Val::mkPtr(s.addRegion(r), Lin(0)); okRet(s, p, o); };
  T["fopen"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fail(E, s, "fopen", Val::null(), o); Region r; r.kind = Region::Handle; r.rel = "fclose"; r.desc = "stream"; r.site = E.where(cb); Val p = Val::mkPtr(s.addRegion(r), Lin(0)); okRet(s, p, o); };
  T["fclose"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    E.check("RELEASE", cb); bump(s, "fclose");
    if (a[0].k == Val::Undef) { E.alarm(s, "UNINIT", "closes " + UndefOrigin[a[0].id], cb); ret(s, i32(0), o); return; }
    if (a[0].isNull()) { E.alarm(s, "BAD_HANDLE", "fclose on a null stream", cb); s.dead = true; return; }
    int r; Lin off; if (!ptrTo(s, a[0], r, off)) { fail(E, s, "fclose", i32(-1), o); okRet(s, i32(0), o); return; }
    if (s.rd(r).freed) { E.alarm(s, "DOUBLE_RELEASE", "closes the same stream twice", cb); s.dead = true; return; }
    auto g = s.rd(r).ghost.find("fd"); if (g != s.rd(r).ghost.end()) if (FdRec *f = fdOf(s, g->second)) { if (!f->open) E.alarm(s, "DOUBLE_RELEASE", "closes the same descriptor twice (stream and descriptor)", cb); f->open = false; }
    s.wr(r).freed = true; s.wr(r).ghost.clear();
    fail(E, s, "fclose", i32(-1), o); okRet(s, i32(0), o); };
  T["fileno"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r = fileOf(E, s, a[0], cb, "fileno"); if (r >= 0) { auto g = s.rd(r).ghost.find("fd"); if (g != s.rd(r).ghost.end()) { Val v = g->second; ret(s, v, o); return; } } ret(s, Val::mkInt(Lin::sym(ST.ranged(32, "fileno", 0, 1 << 20)), 32), o); };
  T["fflush"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fileOf(E, s, a[0], cb, "fflush"); bump(s, "fflush"); fail(E, s, "fflush", i32(-1), o); okRet(s, i32(0), o); };
  T["fsync"] = simple("fsync", 0);
  T["fputs"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fileOf(E, s, a[1], cb, "fputs"); bump(s, "fputs"); cLen(E, s, a[0], cb); fail(E, s, "fputs", i32(-1), o); okRet(s, i32(1), o); };
  T["fputc"] = T["putc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fileOf(E, s, a[1], cb, "fputc"); bump(s, "fputc"); fail(E, s, "fputc", i32(-1), o); okRet(s, a[0], o); };
  T["fgetc"] = T["getc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fileOf(E, s, a[0], cb, "fgetc"); fail(E, s, "fgetc", i32(-1), o); okRet(s, Val::mkInt(Lin::sym(ST.ranged(32, "char", 0, 255)), 32), o); };
  T["fgets"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fileOf(E, s, a[2], cb, "fgets"); Lin n = num(E, s, a[1], 32, false, cb, "fgets"); int r; Lin off; bool ok = false; memRange(E, s, a[0], n, true, cb, "fgets", r, off, ok); if (s.dead) return;
    State f = s; fail(E, f, "fgets", Val::null(), o); if (ok) { E.havocRange(s, r, off, n); if (off.isConst()) { int k = ST.fresh(64, "fgets length", 2); ST.v[k].ranged = true; ST.v[k].lo = 0; ST.v[k].hi = (I)1 << 30; s.cons.addLe(Lin::sym(k) - n + Lin(1)); s.wr(r).ghost["len@" + std::to_string((long)off.c)] = Val::mkInt(Lin::sym(k), 64); } } okRet(s, a[0], o); };
  T["fwrite"] = T["fwrite_unlocked"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fileOf(E, s, a[3], cb, "fwrite"); bump(s, "fwrite"); Lin sz = num(E, s, a[1], 64, true, cb, "fwrite"), n = num(E, s, a[2], 64, true, cb, "fwrite");
    Lin tot = sz.isConst() ? n * sz.c : n.isConst() ? sz * n.c : Lin(0); int r; Lin off; bool ok = false; memRange(E, s, a[0], tot, false, cb, "fwrite", r, off, ok); if (s.dead) return; if (ok) readable(E, s, r, off, tot, cb, "fwrite");
    int k = ST.fresh(64, "written", 2); { State f = s; f.cons.addLe(Lin::sym(k) - n + Lin(1)); f.cons.addLe(Lin::sym(k).neg()); if (!f.cons.bot) fail(E, f, "fwrite", Val::mkInt(Lin::sym(k), 64), o); } okRet(s, Val::mkInt(n, 64), o); };
  T["fread"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    fileOf(E, s, a[3], cb, "fread"); Lin sz = num(E, s, a[1], 64, true, cb, "fread"), n = num(E, s, a[2], 64, true, cb, "fread"); Lin tot = sz.isConst() ? n * sz.c : sz * n.c; int r; Lin off; bool ok = false; memRange(E, s, a[0], tot, true, cb, "fread", r, off, ok); if (s.dead) return; if (ok) E.havocRange(s, r, off, tot);
    int k = ST.fresh(64, "read", 2); s.cons.addLe(Lin::sym(k) - n); ret(s, Val::mkInt(Lin::sym(k), 64), o); };
  auto xfer = [](const char *name, bool in) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      bool good = fdUse(E, s, a[0], cb, name); bump(s, name); Lin n = num(E, s, a[2], 64, true, cb, name); int r; Lin off; bool ok = false; memRange(E, s, a[1], n, in, cb, name, r, off, ok); if (s.dead) return;
      if (ok && !in) readable(E, s, r, off, n, cb, name);
      fail(E, s, name, Val::mkInt(Lin(-1), 64), o); if (!good) return;
      if (ok && in) E.havocRange(s, r, off, n);
      int k = ST.fresh(64, in ? "bytes read" : "bytes written", 1); s.cons.addLe(Lin::sym(k).neg()); s.cons.addLe(Lin::sym(k) - n); if (s.cons.ub(Lin::sym(k)) > smax(62)) s.cons.addLe(Lin::sym(k) - Lin(smax(62)));
      if (!s.cons.bot) okRet(s, Val::mkInt(Lin::sym(k), 64), o); }; };
  T["read"] = xfer("read", true); T["recv"] = xfer("recv", true); T["write"] = xfer("write", false); T["send"] = xfer("send", false);
  T["recvfrom"] = T["recv"]; T["sendto"] = T["send"];
  for (auto n : {"bind", "listen", "connect", "setsockopt", "fcntl", "fcntl64", "tcflush", "tcsetattr", "tcdrain", "ftruncate", "ftruncate64", "shutdown"}) T[n] = simple(n, 0);
  T["tcgetattr"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool g = fdUse(E, s, a[0], cb, "tcgetattr"); fail(E, s, "tcgetattr", i32(-1), o); if (!g) return; int r; Lin off; if (E.resolve(s, a[1], Lin(60), true, cb, r, off)) { E.havocRange(s, r, off, Lin(60)); okRet(s, i32(0), o); } };
  T["cfsetspeed"] = T["cfsetispeed"] = T["cfsetospeed"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.sinkUse(s, a[1], cb, "cfsetspeed"); fail(E, s, "cfsetspeed", i32(-1), o); okRet(s, i32(0), o); };
  T["ioctl"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool g = fdUse(E, s, a[0], cb, "ioctl"); fail(E, s, "ioctl", i32(-1), o); if (!g) return;
    if (a.size() > 2) { int r; Lin off; if (ptrTo(s, a[2], r, off) && E.resolve(s, a[2], Lin(4), true, cb, r, off)) {
        // FIONREAD and its relatives store a C int
        E.storeAt(s, r, off, Val::mkInt(Lin::sym(ST.ranged(32, "available", 0, smax(31))), 32), 4); } }
    okRet(s, i32(0), o); };
  T["select"] = T["poll"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { for (auto &x : a) E.escape(s, x, true); fail(E, s, "select", i32(-1), o); okRet(s, Val::mkInt(Lin::sym(ST.ranged(32, "ready", 0, 1024)), 32), o); };
  T["gethostbyname"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fail(E, s, "gethostbyname", Val::null(), o); int k = ST.fresh(64, "hostent", 2); s.cons.addNe(Lin::sym(k)); okRet(s, Val::mkInt(Lin::sym(k), 64, true), o); };
  T["htons"] = T["ntohs"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { if (a[0].k == Val::Undef) { ret(s, a[0], o); return; } ret(s, Val::mkInt(Lin::sym(ST.memoSym("htons" + a[0].str(), 16)), 16), o); };
  T["htonl"] = T["ntohl"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val::mkInt(Lin::sym(ST.memoSym("htonl" + a[0].str(), 32)), 32), o); };
  T["access"] = simple("access"); T["unlink"] = simple("unlink"); T["rename"] = simple("rename");
  T["realpath"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    if (a[1].isNull()) { fail(E, s, "realpath", Val::null(), o); Lin n = newTok("path"); Lin sz = tokSize(n) + Lin(1); Val p = heapAlloc(E, s, sz, "free", cb); s.wr(p.reg).def = Region::DUnknown; okRet(s, p, o); return; }
    fail(E, s, "realpath", Val::null(), o); int r; Lin off; if (!E.resolve(s, a[1], Lin(4096), true, cb, r, off, "realpath")) return; E.havocRange(s, r, off, Lin(4096)); okRet(s, a[1], o); };
  T["strerror"] = [](Engine &E, State &s, const Function *, const CallBase *, Args &, Exits &o) { int k = ST.fresh(64, "strerror", 2); s.cons.addNe(Lin::sym(k)); ret(s, Val::mkInt(Lin::sym(k), 64, true), o); };
  T["getenv"] = [](Engine &E, State &s, const Function *, const CallBase *, Args &, Exits &o) { int k = ST.fresh(64, "getenv", 2); ST.v[k].maybeNull = true; ret(s, Val::mkInt(Lin::sym(k), 64, true), o); };
  // ---- memory and strings
  T["strlen"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin l = cLen(E, s, a[0], cb); if (s.dead) return; ret(s, Val::mkInt(l, 64), o); };
  auto mcpy = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    Lin n = num(E, s, a[2], 64, true, cb, "memcpy"); int dr, sr; Lin d, q; bool ok1 = false, ok2 = false;
    memRange(E, s, a[0], n, true, cb, "memcpy", dr, d, ok1); if (s.dead) return; memRange(E, s, a[1], n, false, cb, "memcpy", sr, q, ok2); if (s.dead) return;
    if (ok1 && ok2) E.copyMem(s, dr, d, sr, q, n); ret(s, a[0], o); };
  T["memcpy"] = T["memmove"] = mcpy;
  T["memset"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    Lin n = num(E, s, a[2], 64, true, cb, "memset"); int r; Lin off; bool ok = false; memRange(E, s, a[0], n, true, cb, "memset", r, off, ok); if (s.dead) return; if (ok) E.havocRange(s, r, off, n, a[1].isNull()); ret(s, a[0], o); };
  T["bzero"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin n = num(E, s, a[1], 64, true, cb, "bzero"); int r; Lin off; bool ok = false; memRange(E, s, a[0], n, true, cb, "bzero", r, off, ok); if (s.dead) return; if (ok) E.havocRange(s, r, off, n, true); ret(s, Val(), o); };
  T["strncmp"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val::mkInt(Lin::sym(ST.fresh(32, "cmp", 1)), 32), o); };
  T["memcmp"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    Lin n = num(E, s, a[2], 64, true, cb, "memcmp"); if (n.isConst() && n.c == 0) { ret(s, i32(0), o); return; }
    int xr, yr; Lin x, y; bool ok1 = false, ok2 = false;
    memRange(E, s, a[0], n, false, cb, "memcmp", xr, x, ok1); if (s.dead) return; memRange(E, s, a[1], n, false, cb, "memcmp", yr, y, ok2); if (s.dead) return;
    if (ok1 && ok2 && n.isConst() && x.isConst() && y.isConst() && n.c <= 256) {
      const Region &X = s.rd(xr), &Y = s.rd(yr); bool known = true; int res = 0;
      auto byte = [&](const Region &R, long k) { auto c = R.cells.find(k); if (c == R.cells.end() || c->second.sz != 1 || !c->second.v.isConst()) { known = false; return 0; } return (int)(unsigned char)(long)c->second.v.l.c; };
      for (long i = 0; i < (long)n.c && known && !res; i++) { int p = byte(X, (long)x.c + i), q = byte(Y, (long)y.c + i); if (known) res = p < q ? -1 : p > q; }
      if (known) { ret(s, i32(res), o); return; } }
    ret(s, Val::mkInt(Lin::sym(ST.fresh(32, "cmp", 1)), 32), o); };
  T["bcmp"] = T["memcmp"];
  T["strcmp"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    Lin x = tokOfC(E, s, a[0]), y = tokOfC(E, s, a[1]); if (x.isConst() && y.isConst()) { ret(s, i32(x == y ? 0 : Lits[(size_t)x.c] < Lits[(size_t)y.c] ? -1 : 1), o); return; }
    ret(s, Val::mkInt(Lin::sym(ST.fresh(32, "cmp", 1)), 32), o); };
  T["strcpy"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin n = cLen(E, s, a[1], cb); if (s.dead) return; int r; Lin off; if (!E.resolve(s, a[0], n + Lin(1), true, cb, r, off, "strcpy")) return; E.havocRange(s, r, off, n + Lin(1)); if (off.isConst()) s.wr(r).ghost["len@" + std::to_string((long)off.c)] = Val::mkInt(n, 64); ret(s, a[0], o); };
  T["strcat"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin m = cLen(E, s, a[0], cb), n = cLen(E, s, a[1], cb); if (s.dead) return; int r; Lin off; if (!E.resolve(s, a[0], m + n + Lin(1), true, cb, r, off, "strcat")) return; E.havocRange(s, r, off, m + n + Lin(1)); if (off.isConst()) s.wr(r).ghost["len@" + std::to_string((long)off.c)] = Val::mkInt(m + n, 64); ret(s, a[0], o); };
  T["strncpy"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin n = num(E, s, a[2], 64, true, cb, "strncpy"); int r; Lin off; bool ok = false; memRange(E, s, a[0], n, true, cb, "strncpy", r, off, ok); if (s.dead) return; if (ok) E.havocRange(s, r, off, n); ret(s, a[0], o); };
  T["snprintf"] = T["vsnprintf"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    Lin n = num(E, s, a[1], 64, true, cb, "snprintf"); int r; Lin off; bool ok = false; memRange(E, s, a[0], n, true, cb, "snprintf", r, off, ok); if (s.dead) return;
    for (size_t i = 3; i < a.size(); i++) E.sinkUse(s, a[i], cb, "snprintf"); if (ok) E.havocRange(s, r, off, n);
    ret(s, Val::mkInt(Lin::sym(ST.ranged(32, "snprintf", -1, smax(31))), 32), o); };
  T["sprintf"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    for (size_t i = 2; i < a.size(); i++) E.sinkUse(s, a[i], cb, "sprintf");
    int r; Lin off; if (!E.resolve(s, a[0], Lin(1), true, cb, r, off, "sprintf")) return; E.havocRange(s, r, off, Lin(1)); s.wr(r).weakInit = true; ret(s, Val::mkInt(Lin::sym(ST.ranged(32, "sprintf", -1, smax(31))), 32), o); };
  for (auto n : {"printf", "puts", "putchar", "perror", "fprintf", "vprintf", "vfprintf"}) T[n] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { for (auto &x : a) E.sinkUse(s, x, cb, "printing"); ret(s, Val::mkInt(Lin::sym(ST.fresh(32, "printed", 1)), 32), o); };
  T["usleep"] = T["sleep"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.sinkUse(s, a[0], cb, "sleep"); ret(s, i32(0), o); };
  // ---- clocks
  T["clock_gettime"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    num(E, s, a[0], 32, false, cb, "clock_gettime"); fail(E, s, "clock_gettime", i32(-1), o);
    int r; Lin off; if (!E.resolve(s, a[1], Lin(16), true, cb, r, off)) return;
    std::string nm = a[0].isConst() ? "clock:" + istr(a[0].l.c) : "clock:?";
    E.storeAt(s, r, off, Val::mkInt(Lin::sym(ST.ranged(64, nm, 0, (I)1 << 40)), 64), 8); E.storeAt(s, r, off + Lin(8), Val::mkInt(Lin::sym(ST.ranged(64, "clocknsec", 0, 999999999)), 64), 8);
    okRet(s, i32(0), o); };
  T["clock_nanosleep"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool abs = a[1].isConst() && (a[1].l.c & 1); timespecOk(E, s, a[2], cb, "clock_nanosleep", abs); if (s.dead) return; bump(s, "sleep");
    State f = s; setErrnoFail(f, "clock_nanosleep"); f.forks++; E.escape(f, a[3], true); ret(f, Val::mkInt(Lin::sym(ST.ranged(32, "error(clock_nanosleep)", 1, 133)), 32), o); s.forks++; ret(s, i32(0), o); };
  T["nanosleep"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    timespecOk(E, s, a[0], cb, "nanosleep", false); if (s.dead) return; bump(s, "sleep"); fail(E, s, "nanosleep", i32(-1), o); okRet(s, i32(0), o); };
  // ---- mutexes
  T["pthread_mutexattr_init"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; if (!E.resolve(s, a[0], Lin(4), true, cb, r, off)) return; E.havocRange(s, r, off, Lin(4)); if (off.isConst()) { s.wr(r).ghost["attr@" + std::to_string((long)off.c)] = i32(0); s.wr(r).ghost["mtype@" + std::to_string((long)off.c)] = i32(0); } ret(s, i32(0), o); };
  T["pthread_mutexattr_settype"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; if (!E.resolve(s, a[0], Lin(4), true, cb, r, off)) return; if (off.isConst() && a[1].isConst()) s.wr(r).ghost["mtype@" + std::to_string((long)off.c)] = a[1]; 
    State f = s; setErrnoFail(f, "pthread_mutexattr_settype"); f.forks++; ret(f, i32(22), o); s.forks++; ret(s, i32(0), o); };
  auto attrDestroy = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; if (!E.resolve(s, a[0], Lin(4), true, cb, r, off)) return; if (off.isConst()) { std::string k = "attr@" + std::to_string((long)off.c); if (!s.rd(r).ghost.count(k) && s.rd(r).kind == Region::Alloca) E.alarm(s, "DOUBLE_RELEASE", "destroys an attribute object that is not initialised", cb); s.wr(r).ghost.erase(k); } ret(s, i32(0), o); };
  T["pthread_mutexattr_destroy"] = attrDestroy; T["pthread_attr_destroy"] = attrDestroy; T["pthread_condattr_destroy"] = attrDestroy;
  T["pthread_attr_init"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; if (!E.resolve(s, a[0], Lin(56), true, cb, r, off)) return; E.havocRange(s, r, off, Lin(56)); if (off.isConst()) s.wr(r).ghost["attr@" + std::to_string((long)off.c)] = i32(0); ret(s, i32(0), o); };
  for (auto n : {"pthread_attr_setstacksize", "pthread_attr_setscope", "pthread_attr_setinheritsched", "pthread_attr_setdetachstate", "pthread_attr_setschedpolicy", "pthread_attr_setschedparam"})
    T[n] = [n](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      int r; Lin off; if (!E.resolve(s, a[0], Lin(0), true, cb, r, off)) return; E.sinkUse(s, a[1], cb, n);
      if (off.isConst() && !s.rd(r).ghost.count("attr@" + std::to_string((long)off.c)) && s.rd(r).kind != Region::Ext) E.alarm(s, "USE_AFTER_RELEASE", std::string(n) + " on an attribute object that is not initialised", cb);
      State f = s; setErrnoFail(f, n); f.forks++; ret(f, i32(22), o); s.forks++; ret(s, i32(0), o); };
  T["pthread_mutex_init"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool ok; auto k = lockKey(E, s, a[0], cb, ok); if (!ok) { if (!s.dead) ret(s, i32(0), o); return; }
    LockRec l; l.desc = s.rd(k.first).desc; l.site = E.where(cb); int r; Lin off; if (ptrTo(s, a[1], r, off) && off.isConst()) { auto g = s.rd(r).ghost.find("mtype@" + std::to_string((long)off.c)); if (g != s.rd(r).ghost.end() && g->second.isConst() && g->second.l.c == 1) l.recursive = true; }
    { State f = s; setErrnoFail(f, "pthread_mutex_init"); f.forks++; ret(f, i32(11), o); }
    s.locks[k] = l; E.havocRange(s, k.first, Lin((I)k.second), Lin(40)); bump(s, "mutex_init"); s.forks++; ret(s, i32(0), o); };
  T["pthread_mutex_destroy"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool ok; auto k = lockKey(E, s, a[0], cb, ok); if (!ok) { if (!s.dead) ret(s, i32(0), o); return; } if (!lockReady(E, s, k, cb, "destroy")) return;
    auto &l = s.locks[k]; if (l.count > 0) { E.alarm(s, "LOCK_LOST", "destroys a mutex that is locked", cb); } l.destroyed = true; l.count = 0; bump(s, "mutex_destroy"); ret(s, i32(0), o); };
  T["pthread_mutex_lock"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool ok; auto k = lockKey(E, s, a[0], cb, ok); if (!ok) { if (!s.dead) ret(s, i32(0), o); return; } if (!lockReady(E, s, k, cb, "lock")) return;
    auto &l = s.locks[k]; bump(s, "lock"); if (l.count > 0 && !l.recursive) { E.alarm(s, "LOCK_DEADLOCK", "locks a mutex this thread already holds", cb); s.dead = true; return; }
    l.count++; ret(s, i32(0), o); };
  auto trylock = [](const char *nm, int err) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      if (a.size() > 1) { timespecOk(E, s, a[1], cb, nm, true); if (s.dead) return; }
      bool ok; auto k = lockKey(E, s, a[0], cb, ok); if (!ok) { if (!s.dead) ret(s, i32(0), o); return; } if (!lockReady(E, s, k, cb, nm)) return;
      { State f = s; f.forks++; f.ghost["busy"] = Val::mkInt(Lin(1), 8); f.note(std::string(nm) + " finds the mutex busy"); ret(f, i32(err), o); }
      auto &l = s.locks[k]; if (l.count > 0 && !l.recursive) return; l.count++; s.forks++; ret(s, i32(0), o); }; };
  T["pthread_mutex_trylock"] = trylock("trylock", EBUSY); T["pthread_mutex_timedlock"] = trylock("timedlock", ETIMEDOUT);
  T["pthread_mutex_unlock"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool ok; auto k = lockKey(E, s, a[0], cb, ok); if (!ok) { if (!s.dead) ret(s, i32(0), o); return; } if (!lockReady(E, s, k, cb, "unlock")) return;
    auto &l = s.locks[k]; bump(s, "unlock"); if (l.count == 0) { E.alarm(s, "LOCK_UNHELD", "unlocks a mutex this thread does not hold", cb); ret(s, i32(EPERM), o); return; } l.count--; ret(s, i32(0), o); };
  // ---- threads
  T["pthread_create"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bump(s, "pthread_create");
    { State f = s; setErrnoFail(f, "pthread_create"); f.forks++; ret(f, Val::mkInt(Lin::sym(ST.ranged(32, "error(pthread_create)", 1, 133)), 32), o); }
    int r; Lin off; if (!E.resolve(s, a[0], Lin(8), true, cb, r, off)) return;
    int k = ST.fresh(64, "thread", 2); FdRec fr; fr.kind = "thread"; fr.site = E.where(cb); s.fds[k] = fr; E.storeAt(s, r, off, Val::mkInt(Lin::sym(k), 64), 8);
    s.forks++; s.ghost["ran"] = Val::mkInt(Lin(0), 8);
    if (a[2].k == Val::Fn && !a[2].f->isDeclaration()) {
      State now = s; now.note("the new thread runs to completion"); Exits b = E.callFunction(std::move(now), a[2].f, {a[3]}, cb);
      for (auto &e : b) { if (e.thrown) { E.alarm(e.s, "TERMINATE", "an exception leaves the thread's entry point", cb); continue; } e.s.ghost["ran"] = Val::mkInt(Lin(1), 8); ret(e.s, i32(0), o); }
      Val p; p.k = Val::Agg; p.a = {a[2], a[3]}; s.ghost["pending"] = p; s.note("the new thread has not run yet");
    }
    ret(s, i32(0), o); };
  auto endThread = [](const char *nm, bool join) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      E.check("RELEASE", cb); bump(s, nm);
      if (a[0].k == Val::Undef) { E.alarm(s, "UNINIT", std::string("passes ") + UndefOrigin[a[0].id] + " to " + nm, cb); ret(s, i32(3), o); return; }
      if (FdRec *f = fdOf(s, a[0])) { if (!f->open) { E.alarm(s, "DOUBLE_RELEASE", std::string(nm) + " on a thread that was already joined or detached", cb); s.dead = true; return; } f->open = false; }
      else { ret(s, i32(3), o); return; }
      if (join && s.ghost.count("pending")) { Val p = s.ghost["pending"]; s.ghost.erase("pending"); Exits b = E.callFunction(std::move(s), p.a[0].f, {p.a[1]}, cb); for (auto &e : b) if (!e.thrown) { e.s.ghost["ran"] = Val::mkInt(Lin(1), 8); ret(e.s, i32(0), o); } return; }
      ret(s, i32(0), o); }; };
  T["pthread_join"] = endThread("pthread_join", true); T["pthread_detach"] = endThread("pthread_detach", false);
  T["pthread_cancel"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    if (a[0].k == Val::Undef) E.alarm(s, "UNINIT", "cancels " + UndefOrigin[a[0].id], cb); else if (FdRec *f = fdOf(s, a[0])) { if (!f->open) E.alarm(s, "USE_AFTER_RELEASE", "cancels a thread that was already joined or detached", cb); }
    bump(s, "pthread_cancel"); State f = s; f.forks++; setErrnoFail(f, "pthread_cancel"); ret(f, i32(3), o); s.forks++; ret(s, i32(0), o); };
  T["pthread_self"] = retInt("self", 1, (I)1 << 47);
  for (auto n : {"sched_setscheduler", "setpriority", "getpriority", "sched_getparam"}) T[n] = [n](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { for (auto &x : a) E.sinkUse(s, x, cb, n); if (std::string(n) == "sched_getparam") E.escape(s, a[1], true); fail(E, s, n, i32(-1), o); bump(s, n); okRet(s, i32(0), o); };
  T["sched_getscheduler"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fail(E, s, "sched_getscheduler", i32(-1), o); okRet(s, Val::mkInt(Lin::sym(ST.ranged(32, "policy", 0, 6)), 32), o); };
  T["sched_get_priority_min"] = retInt("prio_min", 0, 1); T["sched_get_priority_max"] = retInt("prio_max", 1, 99);
  T["getpid"] = retInt("pid", 1, 1 << 22); T["sched_yield"] = retInt("yield", 0, 0);
  // ---- ipc
  T["sem_open"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bump(s, "sem_open"); fail(E, s, "sem_open", Val::null(), o); Region r; r.kind = Region::Handle; r.rel = "sem_close"; r.desc = "semaphore"; r.site = E.where(cb); Val p = Val::mkPtr(s.addRegion(r), Lin(0)); okRet(s, p, o); };
  T["sem_close"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bump(s, "sem_close"); if (a[0].isNull()) { E.alarm(s, "BAD_HANDLE", "sem_close on a semaphore that was never opened", cb); s.dead = true; return; } release(E, s, a[0], "sem_close", cb); fail(E, s, "sem_close", i32(-1), o); okRet(s, i32(0), o); };
  for (auto n : {"sem_wait", "sem_trywait", "sem_post", "sem_timedwait", "sem_getvalue"}) T[n] = [n](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
      E.check("HANDLE_USE", cb); bump(s, n); std::string nm = n;
      if (a[0].k == Val::Undef) { E.alarm(s, "UNINIT", "passes " + UndefOrigin[a[0].id] + " to " + nm, cb); }
      if (a[0].isNull()) { E.alarm(s, "BAD_HANDLE", nm + " on a semaphore that was never opened", cb); s.dead = true; return; }
      int r; Lin off; if (ptrTo(s, a[0], r, off) && s.rd(r).freed) { E.alarm(s, "USE_AFTER_RELEASE", nm + " on a closed semaphore", cb); return; }
      if (nm == "sem_timedwait") { timespecOk(E, s, a[1], cb, "sem_timedwait", true); if (s.dead) return; }
      fail(E, s, n, i32(-1), o); if (nm == "sem_getvalue") { if (!E.resolve(s, a[1], Lin(4), true, cb, r, off)) return; E.storeAt(s, r, off, Val::mkInt(Lin::sym(ST.ranged(32, "semvalue", 0, smax(31))), 32), 4); } okRet(s, i32(0), o); };
  for (auto n : {"sem_unlink", "shm_unlink"}) T[n] = [n](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bump(s, n); fail(E, s, n, i32(-1), o); okRet(s, i32(0), o); };
  T["mmap"] = T["mmap64"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool g = fdUse(E, s, a[4], cb, "mmap"); bump(s, "mmap"); fail(E, s, "mmap", Val::mkInt(Lin(-1), 64, true), o); if (!g) return; Lin n = num(E, s, a[1], 64, true, cb, "mmap"); Val p = heapAlloc(E, s, n, "munmap", cb); s.wr(p.reg).def = Region::DUnknown; s.wr(p.reg).desc = "mapping"; okRet(s, p, o); };
  T["munmap"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bump(s, "munmap"); Lin n = num(E, s, a[1], 64, true, cb, "munmap"); if (a[0].isConst()) { E.alarm(s, "BAD_HANDLE", "munmap of something that was never mapped", cb); fail(E, s, "munmap", i32(-1), o); return; }
    int r; Lin off; if (ptrTo(s, a[0], r, off) && !s.rd(r).freed && s.rd(r).sizeKnown && !s.cons.proveEq(n - s.rd(r).size)) E.alarm(s, "BAD_RELEASE", "munmap with a length that differs from the mapping's", cb);
    release(E, s, a[0], "munmap", cb); if (s.dead) return; fail(E, s, "munmap", i32(-1), o); okRet(s, i32(0), o); };
  // ---- C++ runtime
  T["__cxa_allocate_exception"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Region r; r.kind = Region::Heap; r.sizeKnown = true; r.size = a[0].l; r.desc = "exception object"; r.site = "exc"; Val p = Val::mkPtr(s.addRegion(r), Lin(0)); ret(s, p, o); };
  T["__cxa_free_exception"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val(), o); };
  static std::map<std::string, const Function *> excDtor; // type -> destructor of the thrown object
  T["__cxa_throw"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts()); if (a[0].k == Val::Ptr && s.mem.count(a[0].reg)) s.wr(a[0].reg).site = g ? g->getName().str() : "?"; if (auto *d = dyn_cast<Function>(cb->getArgOperand(2)->stripPointerCasts())) if (g && !d->isDeclaration()) excDtor[g->getName().str()] = d; s.note("exception thrown at " + E.where(cb)); bump(s, "throw"); for (auto &e : E.throwExit(std::move(s), a[0])) o.push_back(std::move(e)); };
  T["__cxa_begin_catch"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { if (a[0].k == Val::Ptr && s.mem.count(a[0].reg) && s.rd(a[0].reg).ghost.count("rethrown")) s.wr(a[0].reg).ghost.erase("rethrown"); s.excs.push_back(a[0]); s.inflight = Val(); s.inflightType.clear(); ret(s, a[0], o); };
  T["__cxa_get_exception_ptr"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, a[0], o); };
  T["__cxa_end_catch"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    if (s.excs.empty()) { ret(s, Val(), o); return; }
    Val v = s.excs.back(); s.excs.pop_back();
    if (v.k == Val::Ptr && s.mem.count(v.reg) && !s.rd(v.reg).freed && !s.rd(v.reg).ghost.count("rethrown")) {
      bool again = false; for (auto &x : s.excs) if (x.k == Val::Ptr && x.reg == v.reg) again = true;
      auto it = excDtor.find(s.rd(v.reg).site);
      if (!again && s.rd(v.reg).desc == "exception object" && it != excDtor.end()) { Exits in = E.callFunction(std::move(s), it->second, {v}, cb); for (auto &e : in) { if (e.s.mem.count(v.reg)) e.s.wr(v.reg).freed = true; o.push_back(std::move(e)); } return; }
    }
    ret(s, Val(), o); };
  T["__cxa_rethrow"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { if (s.excs.empty()) { E.alarm(s, "TERMINATE", "rethrow without an exception being handled", cb); return; } Val v = s.excs.back(); if (v.k == Val::Ptr && s.mem.count(v.reg)) s.wr(v.reg).ghost["rethrown"] = i32(1); for (auto &e : E.throwExit(std::move(s), v)) o.push_back(std::move(e)); };
  auto term = [](const char *why) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.alarm(s, "TERMINATE", why, cb); }; };
  T["__clang_call_terminate"] = term("an exception reaches a function that must not throw: the process is terminated");
  T["_ZSt9terminatev"] = term("std::terminate is called"); T["abort"] = term("abort is called"); T["__assert_fail"] = term("an assertion fails"); T["__cxa_pure_virtual"] = term("a pure virtual function is called"); T["llvm.trap"] = term("control falls off the end of a function that must return a value"); T["__cxa_call_unexpected"] = term("an unexpected exception");
  T["llvm.ubsantrap"] = T["llvm.trap"];
  for (auto n : {"exit", "_exit", "_Exit"}) T[n] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bump(s, "exit"); E.reached.insert("exit"); };
  T["__cxa_guard_acquire"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Val v = E.load(s, a[0], Type::getInt8Ty(E.M->getContext()), cb); bool done = v.isConst() && v.l.c != 0; ret(s, i32(done ? 0 : 1), o); };
  T["__cxa_guard_release"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.store(s, a[0], Val::mkInt(Lin(1), 8), Type::getInt8Ty(E.M->getContext()), cb); ret(s, Val(), o); };
  T["__cxa_guard_abort"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val(), o); };
  T["__cxa_atexit"] = T["atexit"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, i32(0), o); };
  T["__dynamic_cast"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    if (a[0].isNull()) { ret(s, a[0], o); return; }
    State f = s; f.forks++; ret(f, Val::null(), o); s.forks++; ret(s, a[0], o); };
  // std::exception and friends carry nothing we track
  for (auto n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionC2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) T[n] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val(), o); };
  auto throwStd = [](const char *ti) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Region r; r.kind = Region::Heap; r.desc = "exception object"; r.site = ti; Val p = Val::mkPtr(s.addRegion(r), Lin(0)); bump(s, "throw"); for (auto &e : E.throwExit(std::move(s), p)) o.push_back(std::move(e)); }; };
  T["_ZSt17__throw_bad_allocv"] = T["_ZSt28__throw_bad_array_new_lengthv"] = throwStd("_ZTISt9bad_alloc"); T["_ZSt20__throw_length_errorPKc"] = throwStd("_ZTISt12length_error");
  T["_ZSt20__throw_out_of_rangePKc"] = T["_ZSt24__throw_out_of_range_fmtPKcz"] = throwStd("_ZTISt12out_of_range"); T["_ZSt19__throw_logic_errorPKc"] = throwStd("_ZTISt11logic_error"); T["_ZSt25__throw_bad_function_callv"] = throwStd("_ZTISt17bad_function_call"); T["__cxa_throw_bad_array_new_length"] = T["_ZSt17__throw_bad_allocv"];
  // ---- driver intrinsics
  auto fresh = [](unsigned w, int sg) { return [=](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool ok; std::string n = a.empty() ? "input" : litOf(E, s, a[0], ok); ret(s, Val::mkInt(Lin::sym(ST.fresh(w, n, sg)), w), o); }; };
  T["__v_int"] = fresh(32, 1); T["__v_uint"] = fresh(32, 2); T["__v_long"] = fresh(64, 1); T["__v_ulong"] = fresh(64, 2); T["__v_char"] = fresh(8, 0); T["__v_short"] = fresh(16, 1); T["__v_ushort"] = fresh(16, 2);
  T["__v_range"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { I lo = a[0].l.c, hi = a[1].l.c; ret(s, Val::mkInt(Lin::sym(ST.ranged(64, "input", lo, hi)), 64), o); };
  T["__v_bool"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Val v = Val::mkCmp(Val::NE, Lin::sym(ST.ranged(1, "choice", 0, 1))); v.w = cb->getType()->getIntegerBitWidth(); ret(s, v, o); };
  T["__v_double"] = T["__v_float"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, Val::flt(fltFresh("input")), o); };
  T["__v_ptr"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int k = ST.fresh(64, "input pointer", 2); s.cons.addNe(Lin::sym(k)); ret(s, Val::mkInt(Lin::sym(k), 64, true), o); };
  T["__v_assume"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { std::vector<State> t, f; E.split(std::move(s), a[0], t, f, cb); for (auto &x : t) ret(x, Val(), o); };
  T["__v_assert"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) {
    bool ok; std::string m = litOf(E, s, a[1], ok); E.check("ASSERT", cb); std::vector<State> t, f; 
    if (a[0].k == Val::Undef) { E.alarm(s, "ASSERT", m + " (value is uninitialised)", cb); ret(s, Val(), o); return; }
    E.split(std::move(s), a[0], t, f, cb); for (auto &x : f) E.alarm(x, "ASSERT", m, cb); for (auto &x : t) ret(x, Val(), o); };
  T["__v_use"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.check("USE", cb); for (auto &x : a) if (x.k == Val::Undef) E.alarm(s, "UNINIT", "reports " + UndefOrigin[x.id] + " to its caller", cb); ret(s, Val(), o); };
  T["__v_use_mem"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.check("USE", cb); Lin n = num(E, s, a[1], 64, true, cb, "use"); int r; Lin off; if (!E.resolve(s, a[0], n, false, cb, r, off)) return;
    if (off.isConst() && n.isConst()) for (long i = 0; i < (long)n.c; i++) { Val v = E.loadAt(s, r, off + Lin((I)i), Type::getInt8Ty(E.M->getContext()), cb); if (v.k == Val::Undef) { E.alarm(s, "UNINIT", "hands out " + UndefOrigin[v.id], cb); break; } } ret(s, Val(), o); };
  T["__v_reach"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool ok; E.reached.insert(litOf(E, s, a[0], ok)); ret(s, Val(), o); };
  T["__v_heads"] = T["__v_unroll"] = T["__v_reliable_malloc"] = T["__v_exact"] = T["__v_overflow"] = T["__v_precise"] = T["__v_algebra"] = T["__v_narrow"] = [](Engine &E, State &s, const Function *F, const CallBase *cb, Args &a, Exits &o) { ret(s, Val(), o); };
  T["__v_note"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool ok; s.note(litOf(E, s, a[0], ok)); ret(s, Val(), o); };
  T["__v_gc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.check("LEAKCHECK", cb); Canon c; canonicalise(s, {}, c, E.leaker(cb)); ret(s, Val(), o); };
  // the same floating-point value (the same expression of the same inputs), not-a-number included
  T["__v_same"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { if (a[0].k == Val::Flt && a[1].k == Val::Flt) { if (a[0].id == a[1].id) { ret(s, i32(1), o); return; } if (AlgebraMode || FT[a[0].id].isConst && FT[a[1].id].isConst) { ret(s, i32(0), o); return; } } ret(s, Val::mkInt(Lin::sym(ST.ranged(32, "same", 0, 1)), 32), o); };
  T["__v_failed"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { auto it = s.ghost.find("fail"); bool f = it != s.ghost.end() && it->second.l.c != 0; ret(s, i32(f), o); };
  T["__v_reset_fail"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { s.ghost.erase("fail"); s.ghost.erase("busy"); ret(s, Val(), o); };
  T["__v_busy"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, i32(s.ghost.count("busy")), o); };
  T["__v_held"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { ret(s, i32(s.heldLocks()), o); };
  T["__v_open_handles"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int n = 0; for (auto &f : s.fds) if (f.second.open) n++; ret(s, i32(n), o); };
  T["__v_fd_open"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { FdRec *f = fdOf(s, a[0]); ret(s, i32(f && f->open), o); };
  T["__v_count"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool ok; auto it = s.ghost.find("cnt:" + litOf(E, s, a[0], ok)); I v = it == s.ghost.end() ? 0 : it->second.l.c; ret(s, i32(v), o); };
  T["__v_reset_counts"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { for (auto it = s.ghost.begin(); it != s.ghost.end();) if (starts(it->first, "cnt:")) it = s.ghost.erase(it); else ++it; ret(s, Val(), o); };
  T["__v_event"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { bool ok; bump(s, litOf(E, s, a[0], ok)); ret(s, Val(), o); };
  T["__v_ran"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { auto it = s.ghost.find("ran"); ret(s, i32(it != s.ghost.end() && it->second.l.c == 1), o); };
  T["__v_string"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { E.setTok(s, a[0], newTok("input string")); ret(s, Val(), o); };
  T["__v_heap"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int n = 0; for (auto &m : s.mem) if (m.second->kind == Region::Heap && !m.second->freed && !m.second->rel.empty()) n++; ret(s, i32(n), o); };
  T["__v_shared"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; if (ptrTo(s, a[0], r, off)) s.wr(r).ghost["shared"] = i32(1); ret(s, Val(), o); };
  T["__v_owns"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { int r; Lin off; bool live = ptrTo(s, a[0], r, off) && !s.rd(r).freed; ret(s, i32(live), o); };
  T["__v_havoc"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { Lin n = num(E, s, a[1], 64, true, cb, "havoc"); int r; Lin off; if (!E.resolve(s, a[0], n, true, cb, r, off)) return; E.havocRange(s, r, off, n); ret(s, Val(), o); };
  T["__v_dump"] = [](Engine &E, State &s, const Function *, const CallBase *cb, Args &a, Exits &o) { fprintf(stderr, "DUMP %s:", E.where(cb).c_str()); for (auto &x : a) { fprintf(stderr, " %s", x.str().c_str()); if (x.k == Val::Int) fprintf(stderr, "[%s,%s]", istr(s.cons.lb(x.l)).c_str(), istr(s.cons.ub(x.l)).c_str()); } fprintf(stderr, "\n"); ret(s, Val(), o); };
}
// ---- std::string as an abstract token
static bool stringModel(Engine &E, State &s, const Function *F, const CallBase *cb, Args &a, Exits &o) {
  FName &n = fname(F); if (!n.cpp) return false;
  bool sret = !a.empty() && cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
  auto P = [&]() { return splitParams(n.params); };
  auto isStrRef = [](const std::string &p) { return p == "std::string const&" || p == "std::string&" || p == "std::string&&"; };
  if (n.ctx == "std::string") {
    auto ps = P(); Val self = sret ? a[1] : a[0]; size_t b = sret ? 2 : 1;
    auto tokArg = [&](size_t i) -> Lin { if (isStrRef(ps[i])) return s.cons.simplify(E.strTok(s, a[b + i])); if (ps[i] == "char const*") { if (a[b + i].isNull()) { E.alarm(s, "NULLDEREF", "builds a string from a null pointer", cb); s.dead = true; } E.sinkUse(s, a[b + i], cb, "a string"); int r; Lin off; if (ptrTo(s, a[b + i], r, off)) E.resolve(s, a[b + i], Lin(1), false, cb, r, off); return tokOfC(E, s, a[b + i]); } return newTok("str"); };
    auto numStr = [&](size_t i) { return i < ps.size() && a[b + i].k == Val::Int ? s.cons.simplify(a[b + i].l).str() : std::string("?") + std::to_string(ST.v.size()); };
    if (n.base == "basic_string") {
      if (ps.empty() || starts(ps[0], "std::allocator")) { E.setTok(s, self, litTok("")); ret(s, Val(), o); return true; }
      if (isStrRef(ps[0]) && (ps.size() == 1 || starts(ps[1], "std::allocator"))) { Lin t = tokArg(0); E.setTok(s, self, t); if (ps[0].back() == '&' && ps[0].size() > 2 && ps[0][ps[0].size() - 2] == '&') E.setTok(s, a[b], litTok("")); ret(s, Val(), o); return true; }
      if (ps[0] == "char const*" && (ps.size() == 1 || starts(ps[1], "std::allocator"))) { Lin t = tokArg(0); if (s.dead) return true; E.setTok(s, self, t); ret(s, Val(), o); return true; }
      if (ps[0] == "char const*" && ps.size() >= 2 && ps[1] == "unsigned long") { Lin k = num(E, s, a[b + 1], 64, true, cb, "a string"); int r; Lin off; bool ok = false; memRange(E, s, a[b], k, false, cb, "string", r, off, ok); if (s.dead) return true; if (ok) readable(E, s, r, off, k, cb, "string"); Lin t = newTok("str"); s.cons.addEq(tokSize(t) - k); if (s.cons.bot) s.cons.bot = false; E.setTok(s, self, t); ret(s, Val(), o); return true; }
      if (ps[0] == "char const*" && ps.size() >= 2 && ps[1] == "char const*") { E.setTok(s, self, newTok("str")); ret(s, Val(), o); return true; }
      if (ps[0] == "unsigned long") { Lin k = num(E, s, a[b], 64, true, cb, "a string"); if (k.isConst() && k.c < 200 && a[b + 1].isConst()) { E.setTok(s, self, litTok(std::string((size_t)k.c, (char)a[b + 1].l.c))); } else { Lin t = newTok("str"); s.cons.addEq(tokSize(t) - k); s.cons.bot = false; E.setTok(s, self, t); } ret(s, Val(), o); return true; }
      if (isStrRef(ps[0]) && ps.size() >= 2) { E.setTok(s, self, memoTok("sub(" + tokArg(0).str() + "," + numStr(1) + "," + (ps.size() > 2 ? numStr(2) : "") + ")")); ret(s, Val(), o); return true; }
      E.setTok(s, self, newTok("str")); ret(s, Val(), o); return true;
    }
    if (starts(n.base, "~")) { int r; Lin off; if (ptrTo(s, self, r, off) && off.isConst() && !s.rd(r).freed && !s.rd(r).constant) s.wr(r).ghost.erase("tok@" + std::to_string((long)off.c)); ret(s, Val(), o); return true; }
    Lin me = s.cons.simplify(E.strTok(s, self)); if (s.dead) return true;
    if (n.base == "c_str" || n.base == "data") { Val p = E.cstrPtr(s, self); ret(s, p, o); return true; }
    if (n.base == "size" || n.base == "length") { ret(s, Val::mkInt(tokSize(me), 64), o); return true; }
    if (n.base == "empty") { ret(s, E.decide(s, Val::mkCmp(Val::EQ, tokSize(me))), o); return true; }
    if (n.base == "capacity" || n.base == "max_size") { ret(s, Val::mkInt(Lin((I)1 << 31), 64), o); return true; }
    if (n.base == "clear") { E.setTok(s, self, litTok("")); ret(s, Val(), o); return true; }
    if (n.base == "reserve" || n.base == "shrink_to_fit") { ret(s, Val(), o); return true; }
    if (n.base == "operator[]" || n.base == "at") {
      Lin k = num(E, s, a[b], 64, true, cb, "an index"); Lin sz = tokSize(me); E.check("BOUNDS", cb);
      if (n.base == "operator[]" && !s.cons.le0(k - sz)) { bool imp = false; for (auto &q : k.t) if (ST.v[q.first].imprecise) imp = true; if (!imp || s.cons.lb(k - sz) > 0) E.alarm(s, "OOB", "string indexed past its end", cb); }
      if (me.isConst() && k.isConst() && k.c >= 0 && k.c <= (I)Lits[(size_t)me.c].size()) {
        int kk = ST.memoSym("chr(" + me.str() + "," + istr(k.c) + ")", 64, 2); Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.desc = "character"; r.site = "chr"; r.sizeKnown = true; r.size = Lin(1); r.cells[0] = Cell{1, Val::mkInt(Lin((I)(signed char)(k.c < (I)Lits[(size_t)me.c].size() ? Lits[(size_t)me.c][(size_t)k.c] : 0)), 8)};
        (void)kk; Val p = Val::mkPtr(s.addRegion(r), Lin(0)); ret(s, p, o); return true; }
      Val p = E.cstrPtr(s, self); p.l = p.l + k; if (!p.l.isConst() && p.l.t.size() > 1) { int r; Lin off; Val q = E.cstrPtr(s, self); if (ptrTo(s, q, r, off)) p = Val::mkPtr(r, k); } ret(s, p, o); return true; }
    if (n.base == "operator=" || n.base == "assign") { Lin t = ps.size() == 1 ? tokArg(0) : newTok("str"); if (s.dead) return true; bool mv = ps.size() == 1 && ps[0] == "std::string&&"; E.setTok(s, self, t); if (mv) { int r1, r2; Lin o1, o2; bool same = ptrTo(s, self, r1, o1) && ptrTo(s, a[b], r2, o2) && r1 == r2 && o1 == o2; if (!same) E.setTok(s, a[b], litTok("")); } ret(s, self, o); return true; }
    if (n.base == "append" || n.base == "operator+=" || n.base == "push_back") {
      std::string k; Lin t; if (ps.size() == 1 && (isStrRef(ps[0]) || ps[0] == "char const*")) { t = tokArg(0); if (s.dead) return true; if (me.isConst() && t.isConst() && Lits[(size_t)me.c].size() + Lits[(size_t)t.c].size() < 200) { E.setTok(s, self, litTok(Lits[(size_t)me.c] + Lits[(size_t)t.c])); ret(s, self, o); return true; } k = t.str(); }
      else if (ps.size() >= 1 && ps[0] == "char" && a[b].isConst() && me.isConst() && Lits[(size_t)me.c].size() < 200) { E.setTok(s, self, litTok(Lits[(size_t)me.c] + std::string(1, (char)a[b].l.c))); ret(s, n.base == "push_back" ? Val() : self, o); return true; }
      else for (size_t i = 0; i < ps.size(); i++) k += numStr(i) + ";";
      E.setTok(s, self, memoTok("cat(" + me.str() + "," + k + ")")); ret(s, n.base == "push_back" ? Val() : self, o); return true; }
    if (n.base == "substr" && sret) { if (me.isConst() && a[b].isConst()) { auto &L = Lits[(size_t)me.c]; I p = a[b].l.c, c = ps.size() > 1 && a[b + 1].isConst() ? a[b + 1].l.c : -1; if (p >= 0 && p <= (I)L.size() && (ps.size() < 2 || a[b + 1].isConst())) { E.setTok(s, a[0], litTok(c < 0 ? L.substr((size_t)p) : L.substr((size_t)p, (size_t)c))); ret(s, Val(), o); return true; } }
      E.setTok(s, a[0], memoTok("sub(" + me.str() + "," + numStr(0) + "," + (ps.size() > 1 ? numStr(1) : "") + ")")); ret(s, Val(), o); return true; }
    if (starts(n.base, "find") || starts(n.base, "rfind")) {
      std::string k = n.base + "(" + me.str(); for (size_t i = 0; i < ps.size(); i++) k += "," + (isStrRef(ps[i]) || ps[i] == "char const*" ? tokArg(i).str() : numStr(i));
      if (me.isConst() && (n.base == "find" || n.base == "find_first_of")) { std::string what; bool ok2 = false; if (ps[0] == "char" && a[b].isConst()) { what = std::string(1, (char)a[b].l.c); ok2 = true; } else if (isStrRef(ps[0]) || ps[0] == "char const*") { Lin t = tokArg(0); if (t.isConst()) { what = Lits[(size_t)t.c]; ok2 = true; } } I from = ps.size() > 1 && a[b + 1].isConst() ? a[b + 1].l.c : 0; if (ok2 && from >= 0) { size_t p = n.base == "find" ? Lits[(size_t)me.c].find(what, (size_t)from) : Lits[(size_t)me.c].find_first_of(what, (size_t)from); ret(s, i64(p == std::string::npos ? -1 : (I)p), o); return true; } }
      // npos, or a position inside
      int kk = ST.memoSym(k + ")", 64, 1); ST.v[kk].ranged = true; ST.v[kk].lo = -1; ST.v[kk].hi = (I)1 << 30; s.cons.addLe(Lin::sym(kk) - tokSize(me)); ret(s, Val::mkInt(Lin::sym(kk), 64), o); return true; }
    if (n.base == "compare" && ps.size() == 1) { Lin t = tokArg(0); if (me.isConst() && t.isConst()) { ret(s, i32(Lits[(size_t)me.c].compare(Lits[(size_t)t.c])), o); return true; } State e = s; if (E.assume(e, Val::mkCmp(Val::EQ, me - t), true)) { e.forks++; ret(e, i32(0), o); } if (E.assume(s, Val::mkCmp(Val::EQ, me - t), false)) { s.forks++; int kk = ST.memoSym("strcmp(" + me.str() + "," + t.str() + ")", 32, 1); s.cons.addNe(Lin::sym(kk)); if (!s.cons.bot) ret(s, Val::mkInt(Lin::sym(kk), 32), o); } return true; }
    if (n.base == "insert" || n.base == "erase" || n.base == "replace" || n.base == "resize" || n.base == "swap" || n.base == "pop_back") { 
      if (n.base == "swap") { Lin t = tokArg(0); E.setTok(s, a[b], me); E.setTok(s, self, t); } else E.setTok(s, self, newTok("str"));
      if (cb->getType()->isVoidTy()) ret(s, Val(), o); else if (n.base == "resize") ret(s, Val(), o); else ret(s, self, o); return true; }
    if (n.base == "begin" || n.base == "end" || n.base == "cbegin" || n.base == "cend") { Val p = E.cstrPtr(s, self); if (n.base == "end" || n.base == "cend") { int r; Lin off; if (ptrTo(s, p, r, off)) p = Val::mkPtr(r, tokSize(me)); } else { int r; Lin off; if (ptrTo(s, p, r, off)) p = Val::mkPtr(r, Lin(0)); } ret(s, p, o); return true; }
    return false;
  }
  if (n.qn.compare(0, 13, "std::operator") == 0) {
    auto ps = P(); size_t b = sret ? 1 : 0; auto strish = [&](const std::string &p) { return isStrRef(p) || p == "char const*"; };
    if (ps.size() == 2 && (isStrRef(ps[0]) || isStrRef(ps[1])) && (strish(ps[0]) || ps[0] == "char") && (strish(ps[1]) || ps[1] == "char")) {
      auto tok = [&](size_t i) -> Lin { if (isStrRef(ps[i])) return s.cons.simplify(E.strTok(s, a[b + i])); if (ps[i] == "char") return a[b + i].isConst() ? litTok(std::string(1, (char)a[b + i].l.c)) : memoTok("chr" + a[b + i].str()); return tokOfC(E, s, a[b + i]); };
      std::string op = n.base.substr(8); size_t lt = op.find("<char"); if (lt != std::string::npos && lt > 0) op = op.substr(0, lt);
      Lin x = tok(0), y = tok(1); if (s.dead) return true;
      if (op == "==" || op == "!=") { ret(s, E.decide(s, Val::mkCmp(op == "==" ? Val::EQ : Val::NE, x - y)), o); return true; }
      if (op == "+" && sret) { if (x.isConst() && y.isConst() && Lits[(size_t)x.c].size() + Lits[(size_t)y.c].size() < 300) E.setTok(s, a[0], litTok(Lits[(size_t)x.c] + Lits[(size_t)y.c])); else { Lin t = memoTok("cat(" + x.str() + "," + y.str() + ")"); s.cons.addEq(tokSize(t) - tokSize(x) - tokSize(y)); if (s.cons.bot) s.cons.bot = false; E.setTok(s, a[0], t); } ret(s, Val(), o); return true; }
      if (op == "<" || op == ">" || op == "<=" || op == ">=") { bool sw = op[0] == '>'; if (sw) std::swap(x, y); bool orEq = op.size() == 2;
        if (x.isConst() && y.isConst()) { int c = Lits[(size_t)x.c].compare(Lits[(size_t)y.c]); ret(s, boolVal(orEq ? c <= 0 : c < 0), o); return true; }
        // equal, or ordered one way
        Val eq = E.decide(s, Val::mkCmp(Val::EQ, x - y)); if (eq.isConst() && eq.l.c) { ret(s, boolVal(orEq), o); return true; }
        { State e = s; if (E.assume(e, Val::mkCmp(Val::EQ, x - y), true)) { e.forks++; ret(e, boolVal(orEq), o); } }
        if (!E.assume(s, Val::mkCmp(Val::EQ, x - y), false)) return true; bool flip = y < x; int k = ST.memoSym("strlt(" + (flip ? y.str() + "," + x.str() : x.str() + "," + y.str()) + ")", 1); ST.v[k].ranged = true; ST.v[k].lo = 0; ST.v[k].hi = 1; s.forks++; ret(s, E.decide(s, Val::mkCmp(flip ? Val::EQ : Val::NE, Lin::sym(k))), o); return true; }
    }
    if (ps.size() == 2 && n.base.compare(0, 10, "operator<<") == 0) { 
      for (size_t i = 0; i < 2; i++) if (ps[i] == "char const*") { if (a[b + i].isNull()) E.alarm(s, "NULLDEREF", "prints a null string", cb); int r; Lin off; if (ptrTo(s, a[b + i], r, off)) E.resolve(s, a[b + i], Lin(1), false, cb, r, off); if (s.dead) return true; } ret(s, a[0], o); return true; }
  }
  if (n.base == "str" && n.ctx.find("stringstream") != std::string::npos && sret) { E.setTok(s, a[0], newTok("stream text")); ret(s, Val(), o); return true; }
  return false;
}
bool Engine::model(State &s, const Function *F, const CallBase *cb, Args &a, Exits &o) {
  if (T.empty()) initTable();
  std::string nm = F->getName().str();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: T["memcpy"](*this, s, F, cb, a, o); return true;
      case Intrinsic::memset: T["memset"](*this, s, F, cb, a, o); return true;
      case Intrinsic::trap: case Intrinsic::ubsantrap: T["llvm.trap"](*this, s, F, cb, a, o); return true;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        int r; Lin off; if (a.size() > 1 && a[1].k == Val::Ptr && s.mem.count(a[1].reg) && s.rd(a[1].reg).kind == Region::Alloca) { Region &R = s.wr(a[1].reg);
          for (auto &g : R.ghost) if (starts(g.first, "attr@")) alarm(s, "LEAK", "attribute object never destroyed", cb);
          for (auto l = s.locks.lower_bound({a[1].reg, -1L << 60}); l != s.locks.end() && l->first.first == a[1].reg;) { if (l->second.count > 0) alarm(s, "LOCK_LOST", "a locked mutex goes out of scope", cb); l = s.locks.erase(l); }
          R.cells.clear(); R.weak.clear(); R.ghost.clear(); R.weakInit = false; R.def = Region::DUndef; R.escaped = false; }
        ret(s, Val(), o); return true; }
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::donothing:
        ret(s, Val(), o); return true;
      case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(s, a[0], o); return true;
      case Intrinsic::fmuladd: if (AlgebraMode) goto other; if (cb->getType()->isDoubleTy() && a[0].k == Val::Flt && a[1].k == Val::Flt && a[2].k == Val::Flt && FT[a[0].id].isConst && FT[a[1].id].isConst && FT[a[2].id].isConst) { volatile double m = FT[a[0].id].cv * FT[a[1].id].cv; ret(s, Val::flt(fltConst(m + FT[a[2].id].cv)), o); return true; }
        goto other;
      case Intrinsic::abs: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        if (!cb->getType()->isIntegerTy()) { ret(s, freshOf(s, cb->getType(), "minmax", true), o); return true; } unsigned w = cb->getType()->getIntegerBitWidth(); auto id = F->getIntrinsicID(); bool ab = id == Intrinsic::abs; Val x = a[0], y = ab ? Val::mkInt(Lin(0), w) : a[1];
        if (x.k == Val::Undef || y.k == Val::Undef) { ret(s, x.k == Val::Undef ? x : y, o); return true; }
        if (x.k != Val::Int || y.k != Val::Int) { ret(s, freshOf(s, cb->getType(), "minmax", true), o); return true; }
        auto p = ab || id == Intrinsic::smax ? CmpInst::ICMP_SGE : id == Intrinsic::smin ? CmpInst::ICMP_SLE : id == Intrinsic::umax ? CmpInst::ICMP_UGE : CmpInst::ICMP_ULE;
        Val c = icmp(s, p, x, y, w, cb); State e = s;
        if (assume(e, c, true)) { e.forks++; ret(e, x, o); }
        if (assume(s, c, false)) { if (ab) { Lin m = Lin(0) - toS(s, x, w); ret(s, Val::mkInt(normC(m, w), w), o); } else ret(s, y, o); }
        return true; }
      case Intrinsic::is_constant: ret(s, Val::mkInt(Lin(0), 1), o); return true;
      case Intrinsic::objectsize: ret(s, i64(-1), o); return true;
      case Intrinsic::eh_typeid_for: { auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); ret(s, i32(typeId(g ? g->getName().str() : "null")), o); return true; }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned w = cb->getType()->getStructElementType(0)->getIntegerBitWidth(); bool u = F->getIntrinsicID() == Intrinsic::umul_with_overflow || F->getIntrinsicID() == Intrinsic::uadd_with_overflow;
        if (a[0].k == Val::Undef || a[1].k == Val::Undef) { alarm(s, "UNINIT", "size depends on an uninitialised value", cb); }
        Lin x = num(*this, s, a[0], w, u, cb, "a size"), y = num(*this, s, a[1], w, u, cb, "a size"); Lin r;
        auto id = F->getIntrinsicID(); if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) { if (y.isConst()) r = x * y.c; else if (x.isConst()) r = y * x.c; else r = Lin::sym(ST.memoSym("mulov(" + x.str() + "," + y.str() + ")", w, u ? 2 : 1)); } else if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = x + y; else r = x - y;
        Val v; v.k = Val::Agg; v.a = {Val::mkInt(r, w), Val::mkInt(Lin(0), 1)}; ret(s, v, o); return true; }
      default: other: {
        if (AlgebraMode && (nm == "fabs" || nm == "fabsf" || nm.rfind("llvm.fabs", 0) == 0) && a[0].k == Val::Flt && !FT[a[0].id].isConst) { Val c = Val::mkCmp(Val::LE, Lin(0) - algOrder(a[0].id, fltConst(0))); State e = s; auto neg = [&] { return Val::flt(algOp('-', fltConst(0), a[0].id)); }; if (c.l.isConst()) { ret(s, c.l.c <= 0 ? a[0] : neg(), o); return true; } if (assume(e, c, true)) { e.forks++; ret(e, a[0], o); } if (assume(s, c, false)) ret(s, neg(), o); return true; }
        std::string k = nm; bool f = true; for (auto &x : a) { if (x.k == Val::Undef) { ret(s, x, o); return true; } if (x.k != Val::Flt) f = false; k += "," + std::to_string(x.id); }
        if (f && cb->getType()->isFloatingPointTy()) { if (AlgebraMode) { std::vector<int> v; for (auto &x : a) v.push_back(x.id); int r = algFun(nm, v); if (r >= 0) { ret(s, Val::flt(r), o); return true; } } ret(s, Val::flt(fltMemo(k)), o); return true; }
        if (cb->getType()->isVoidTy()) ret(s, Val(), o); else ret(s, freshOf(s, cb->getType(), nm), o); return true; }
    }
  }
  auto it = T.find(nm);
  if (it != T.end() && !F->isDeclaration() && F->getSubprogram()) { auto f = (F->getSubprogram()->getDirectory() + "/" + F->getSubprogram()->getFilename()).str(); auto has = [&](const char *x) { return f.find(x) != std::string::npos; }; if (has("harness/") || has("selftest/")) return false; }  // the harness brings its own stand-in
  if (it != T.end()) { modelCalls[nm].insert(cb); it->second(*this, s, F, cb, a, o); return true; }
  if (stringModel(*this, s, F, cb, a, o)) return true;
  if (s.dead) return true;
  // pure floating point library functions
  if (AlgebraMode && (nm == "fmod" || nm == "fmodf") && a[0].k == Val::Flt && a[1].k == Val::Flt) { Val c = Val::mkCmp(Val::LE, Lin(0) - algOrder(a[0].id, fltConst(0))); State e = s; if (c.l.isConst()) { ret(s, Val::flt(algFmod(a[0].id, a[1].id, c.l.c <= 0)), o); return true; } if (assume(e, c, true)) { e.forks++; ret(e, Val::flt(algFmod(a[0].id, a[1].id, true)), o); } if (assume(s, c, false)) ret(s, Val::flt(algFmod(a[0].id, a[1].id, false)), o); return true; }
  if (AlgebraMode && (nm == "fabs" || nm == "fabsf" || nm.rfind("llvm.fabs", 0) == 0) && a[0].k == Val::Flt && !FT[a[0].id].isConst) { Val c = Val::mkCmp(Val::LE, Lin(0) - algOrder(a[0].id, fltConst(0))); State e = s; auto neg = [&] { return Val::flt(algOp('-', fltConst(0), a[0].id)); }; if (c.l.isConst()) { ret(s, c.l.c <= 0 ? a[0] : neg(), o); return true; } if (assume(e, c, true)) { e.forks++; ret(e, a[0], o); } if (assume(s, c, false)) ret(s, neg(), o); return true; }
  if (AlgebraMode && F->isDeclaration() && !fname(F).cpp && cb->getType()->isFloatingPointTy()) { std::vector<int> v; for (auto &x : a) if (x.k == Val::Flt) v.push_back(x.id); int r = v.size() == a.size() ? algFun(nm, v) : -1; if (r >= 0) { ret(s, Val::flt(r), o); return true; } }
  if (F->isDeclaration() && !fname(F).cpp && cb->getType()->isFloatingPointTy()) { std::string k = nm; for (auto &x : a) { if (x.k == Val::Undef) { ret(s, x, o); return true; } if (x.k == Val::Flt) k += "," + std::to_string(x.id); else k += "," + x.str(); } ret(s, Val::flt(fltMemo(k)), o); return true; }
  return false;
}
