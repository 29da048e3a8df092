// Values, constants, memory: the transfer functions that do not change control flow.
#include "engine.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/Operator.h"
using namespace llvm;

static Lin norm(const Lin &l, unsigned w) {
  if (!l.isConst() || w == 0 || w >= 120) return l;
  I m = (I)1 << w, c = l.c % m; if (c < 0) c += m;
  if (w > 1 && c > smax(w)) c -= m;
  return Lin(c);
}
Val Engine::freshOf(State &s, Type *t, const std::string &name, bool imp) {
  if (t->isIntegerTy() || t->isPointerTy()) {
    unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    int id = w == 1 ? ST.ranged(1, name, 0, 1) : ST.fresh(w, name, t->isPointerTy() ? 2 : 0);
    ST.v[id].imprecise = imp;
    if (w == 1) return Val::mkCmp(Val::NE, Lin::sym(id));
    return Val::mkInt(Lin::sym(id), w, t->isPointerTy());
  }
  if (t->isFloatingPointTy()) return Val::flt(fltFresh(name));
  Val a; a.k = Val::Agg;
  if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); i++) a.a.push_back(freshOf(s, st->getElementType(i), name, imp)); return a; }
  if (auto *at = dyn_cast<ArrayType>(t)) { if (at->getNumElements() <= 64) for (unsigned i = 0; i < at->getNumElements(); i++) a.a.push_back(freshOf(s, at->getElementType(), name, imp)); return a; }
  return Val::flt(fltFresh(name));
}
static void flatten(Engine &E, State &s, const Constant *c, long off, std::map<long, Cell> &out) {
  Type *t = c->getType();
  unsigned sz = E.DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c)) { if (sz) out[off] = Cell{sz, Val::mkInt(Lin(0), sz * 8)}; return; }
  if (isa<UndefValue>(c)) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = E.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(E, s, c->getAggregateElement(i), off + (long)sl->getElementOffset(i), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    unsigned es = E.DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) flatten(E, s, c->getAggregateElement(i), off + (long)i * es, out);
    return;
  }
  out[off] = Cell{(unsigned)E.DL->getTypeStoreSize(t), E.constant(s, c)};
}
int Engine::globalRegion(State &s, const GlobalVariable *g) {
  auto it = s.globals.find(g);
  if (it != s.globals.end() && s.mem.count(it->second)) return it->second;
  Region r; r.kind = Region::Global; r.g = g; r.desc = llvm::demangle(g->getName().str());
  r.sizeKnown = g->getValueType()->isSized();
  if (r.sizeKnown) r.size = Lin((I)DL->getTypeAllocSize(g->getValueType()));
  r.constant = g->isConstant();
  r.def = Region::DUnknown;
  if (g->hasInitializer() && !g->isConstant()) {
    if (g->getInitializer()->isNullValue()) r.def = Region::DZero;
    else if (DL->getTypeAllocSize(g->getValueType()) <= 4096) r.def = Region::DZero;
  }
  int id = s.addRegion(r); s.globals[g] = id;
  if (g->hasInitializer() && !g->isConstant() && !g->getInitializer()->isNullValue() && r.def == Region::DZero) {
    std::map<long, Cell> c; flatten(*this, s, g->getInitializer(), 0, c); s.wr(id).cells = c;
  }
  return id;
}
Val Engine::constant(State &s, const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { return Val::mkInt(Lin((I)ci->getValue().trunc(64).getZExtValue()), ci->getBitWidth()); }
    if (ci->getBitWidth() == 1) return Val::mkInt(Lin((I)ci->getZExtValue()), 1);
    return Val::mkInt(Lin((I)ci->getSExtValue()), ci->getBitWidth());
  }
  if (isa<ConstantPointerNull>(c)) return Val::null();
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return Val::flt(fltConst(f.convertToDouble()));
  }
  if (isa<UndefValue>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) { Val a; a.k = Val::Agg; for (unsigned i = 0; i < st->getNumElements(); i++) a.a.push_back(Val::undef(undefOrigin("value"))); return a; }
    return Val::undef(undefOrigin("a local variable"), t->isIntegerTy() ? t->getIntegerBitWidth() : 0);
  }
  if (auto *f = dyn_cast<Function>(c)) return Val::fn(f);
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constant(s, a->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::mkPtr(globalRegion(s, g), Lin(0));
  if (auto *gep = dyn_cast<GEPOperator>(c)) {
    APInt off(64, 0);
    if (gep->accumulateConstantOffset(*DL, off)) {
      Val b = constant(s, cast<Constant>(gep->getPointerOperand()));
      if (b.k == Val::Ptr || b.k == Val::Int) { b.l = b.l + Lin((I)off.getSExtValue()); return b; }
    }
    return freshOf(s, t, "const");
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constant(s, ce->getOperand(0));
      default: break;
    }
    if (Constant *k = ConstantFoldConstant(c, *DL)) if (k != c) return constant(s, k);
    return freshOf(s, t, "constexpr");
  }
  if (t->isStructTy() || t->isArrayTy()) {
    Val a; a.k = Val::Agg; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) a.a.push_back(constant(s, c->getAggregateElement(i)));
    return a;
  }
  return freshOf(s, t, "const");
}
Val Engine::operand(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(s, c);
  auto &fi = info(s.fr.back().F);
  auto it = fi.num.find(v); if (it == fi.num.end()) return Val();
  auto r = s.fr.back().regs.find(it->second);
  if (r == s.fr.back().regs.end()) return freshOf(s, v->getType(), "lost");
  return r->second;
}
// ---- integer representations
void Engine::decideSign(const Lin &l, unsigned w, int sg) {
  for (auto &p : l.t) { auto &i = ST.v[p.first]; if (i.sgn == 0 && !i.ranged && i.w == w) i.sgn = sg; }
}
Lin Engine::toU(State &s, const Val &v, unsigned w) {
  decideSign(v.l, w, 2);
  I lo = s.cons.lb(v.l), hi = s.cons.ub(v.l);
  if (lo >= 0 && hi <= umax(w)) return v.l;
  if (hi < 0 && lo >= -((I)1 << w)) return v.l + Lin((I)1 << w);
  int m = ST.memoSym("u" + std::to_string(w) + "(" + v.l.str() + ")", w, 2);
  for (auto &p : v.l.t) if (ST.v[p.first].imprecise) ST.v[m].imprecise = true;
  return Lin::sym(m);
}
Lin Engine::toS(State &s, const Val &v, unsigned w) {
  decideSign(v.l, w, 1);
  I lo = s.cons.lb(v.l), hi = s.cons.ub(v.l);
  if (lo >= smin(w) && hi <= smax(w)) return v.l;
  if (lo > smax(w) && hi <= umax(w)) return v.l - Lin((I)1 << w);
  int m = ST.memoSym("s" + std::to_string(w) + "(" + v.l.str() + ")", w, 1);
  for (auto &p : v.l.t) if (ST.v[p.first].imprecise) ST.v[m].imprecise = true;
  return Lin::sym(m);
}
static Val negCmp(Val c) {
  if (c.pred == Val::EQ) c.pred = Val::NE; else if (c.pred == Val::NE) c.pred = Val::EQ;
  else c.l = Lin(1) - c.l;
  return c;
}
Val Engine::decide(State &s, const Val &c) {
  if (c.k == Val::Cmp) {
    bool t = false, f = false;
    switch (c.pred) {
      case Val::EQ: t = s.cons.proveEq(c.l); f = !t && s.cons.proveNe(c.l); break;
      case Val::NE: f = s.cons.proveEq(c.l); t = !f && s.cons.proveNe(c.l); break;
      case Val::LE: t = s.cons.le0(c.l); f = !t && s.cons.lb(c.l) > 0; break;
    }
    if (t) return Val::mkInt(Lin(1), c.w); if (f) return Val::mkInt(Lin(0), c.w);
    return c;
  }
  if (c.k == Val::Int && !c.l.isConst()) {
    if (s.cons.proveEq(c.l)) return Val::mkInt(Lin(0), c.w);
    Val n = Val::mkCmp(Val::NE, c.l); n.w = c.w ? c.w : 1;
    if (s.cons.proveNe(c.l)) return Val::mkInt(Lin(1), n.w);
    return n;
  }
  return c;
}
bool Engine::assume(State &s, const Val &c0, bool truth) {
  Val c = c0;
  if (c.k == Val::Int && !c.l.isConst()) c = Val::mkCmp(Val::NE, c.l);
  if (c.k == Val::Int) { if ((c.l.c != 0) != truth) { s.cons.bot = true; return false; } return true; }
  if (c.k == Val::Ptr || c.k == Val::Fn) { if (!truth) s.cons.bot = true; return truth; }
  if (c.k != Val::Cmp) return true;
  if (!truth) c = negCmp(c);
  switch (c.pred) {
    case Val::EQ: s.cons.addEq(c.l); break;
    case Val::NE: s.cons.addNe(c.l); break;
    case Val::LE: s.cons.addLe(c.l); break;
  }
  return !s.cons.bot;
}
void Engine::split(State s, const Val &c0, std::vector<State> &t, std::vector<State> &f, const Instruction *at) {
  if (isUnset(c0)) { alarm(s, "UNINIT", "branch depends on " + UndefOrigin[c0.id], at); t.push_back(s); f.push_back(std::move(s)); t.back().forks++; f.back().forks++; return; }
  Val c = decide(s, c0);
  if (c.k == Val::Int && c.l.isConst()) { (c.l.c != 0 ? t : f).push_back(std::move(s)); return; }
  if (c.k == Val::Ptr || c.k == Val::Fn) { t.push_back(std::move(s)); return; }
  if (c.k != Val::Cmp) { t.push_back(s); f.push_back(std::move(s)); t.back().forks++; f.back().forks++; return; }
  for (auto &p : c.l.t) if (ST.v[p.first].stale && c.l.t.size() == 1) { alarm(s, "ERRNO_STALE", "decision on an errno value that no failing call produced", at); }
  State a = s;
  bool x = assume(a, c, true), y = assume(s, c, false);
  if (x && y) { a.forks++; s.forks++; }
  if (x) t.push_back(std::move(a));
  if (y) f.push_back(std::move(s));
}
bool Engine::isUnset(const Val &v) { return v.k == Val::Undef; }
Val Engine::icmp(State &s, CmpInst::Predicate p, Val a, Val b, unsigned w, const Instruction *at) {
  if (a.k == Val::Undef) return Val::undef(a.id, 1);
  if (b.k == Val::Undef) return Val::undef(b.id, 1);
  auto memoBool = [&](const std::string &k) { int m = ST.memoSym(k, 1); ST.v[m].ranged = true; ST.v[m].lo = 0; ST.v[m].hi = 1; return Val::mkCmp(Val::NE, Lin::sym(m)); };
  // boolean-valued operand compared with a constant
  if (a.k == Val::Cmp && b.isConst() && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_EQ)) {
    I k = b.l.c; if (w == 1 && k == -1) k = 1;
    if (k == 0 || k == 1) { bool same = (k == 1) == (p == CmpInst::ICMP_EQ); Val r = same ? a : negCmp(a); r.w = 1; return r; }
    return Val::mkInt(Lin(p == CmpInst::ICMP_NE), 1);
  }
  auto fnOrPtr = [](const Val &v) { return v.k == Val::Ptr || v.k == Val::Fn; };
  if (fnOrPtr(a) || fnOrPtr(b)) {
    bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
    if (a.k == Val::Fn && b.k == Val::Fn && (eq || ne)) return Val::mkInt(Lin((a.f == b.f) == eq), 1);
    // a lazily materialised pointer is equal to its own region
    auto lift = [&](Val &v) { if (v.k == Val::Int && v.l.t.size() == 1 && v.l.t[0].second == 1) { auto it = s.derefs.find(v.l.t[0].first); if (it != s.derefs.end()) v = Val::mkPtr(it->second, Lin(v.l.c)); } };
    lift(a); lift(b);
    if (a.k == Val::Ptr && b.k == Val::Ptr) {
      if (a.reg == b.reg) { Val x = Val::mkInt(a.l, 64), y = Val::mkInt(b.l, 64);
        Lin d = x.l - y.l;
        switch (p) { case CmpInst::ICMP_EQ: return decide(s, Val::mkCmp(Val::EQ, d)); case CmpInst::ICMP_NE: return decide(s, Val::mkCmp(Val::NE, d));
          case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return decide(s, Val::mkCmp(Val::LE, d + Lin(1)));
          case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return decide(s, Val::mkCmp(Val::LE, d));
          case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return decide(s, Val::mkCmp(Val::LE, d.neg() + Lin(1)));
          default: return decide(s, Val::mkCmp(Val::LE, d.neg())); }
      }
      if (eq || ne) return Val::mkInt(Lin(ne), 1);
      return memoBool("pcmp" + std::to_string(p) + a.str() + b.str());
    }
    if ((eq || ne)) {
      if (a.isConst() || b.isConst()) return Val::mkInt(Lin(ne), 1);
      return Val::mkInt(Lin(ne), 1);   // unrelated external pointer: distinct objects
    }
    if (p == CmpInst::ICMP_UGT && b.isNull()) return Val::mkInt(Lin(1), 1);
    return memoBool("pcmp" + std::to_string(p) + a.str() + b.str());
  }
  if (a.k != Val::Int || b.k != Val::Int) return memoBool("cmp" + std::to_string(p) + a.str() + b.str());
  Lin x, y;
  if (CmpInst::isSigned(p)) { x = toS(s, a, w); y = toS(s, b, w); }
  else if (CmpInst::isUnsigned(p)) { x = toU(s, a, w); y = toU(s, b, w); }
  else {
    int sg = 0;
    for (auto *l : {&a.l, &b.l}) { for (auto &q : l->t) { auto &i = ST.v[q.first]; if (i.sgn == 1 && !i.ranged) sg = 1; else if (i.sgn == 2 && sg == 0) sg = 2; else if (i.ranged && sg == 0) sg = i.lo < 0 ? 1 : 0; } }
    if (sg == 0 && ((a.isConst() && a.l.c < 0) || (b.isConst() && b.l.c < 0))) sg = 1;
    auto within = [&](const Lin &l, I lo, I hi) { return s.cons.lb(l) >= lo && s.cons.ub(l) <= hi; };  // one of the two fits both as they are
    if (w == 1) sg = 2; else if (sg == 1 && w < 100 && !(within(a.l, smin(w), smax(w)) && within(b.l, smin(w), smax(w))) && within(a.l, 0, umax(w)) && within(b.l, 0, umax(w))) sg = 2;
    if (sg == 1) { x = toS(s, a, w); y = toS(s, b, w); }
    else if (sg == 2) { x = toU(s, a, w); y = toU(s, b, w); }
    else { x = a.l; y = b.l; }
  }
  Lin d = x - y; Val r;
  if (CmpInst::isEquality(p) && d.isConst() && w < 100 && d.c % ((I)1 << w) == 0) d = Lin();  // equal modulo 2^w
  switch (p) {
    case CmpInst::ICMP_EQ: r = Val::mkCmp(Val::EQ, d); break;
    case CmpInst::ICMP_NE: r = Val::mkCmp(Val::NE, d); break;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = Val::mkCmp(Val::LE, d + Lin(1)); break;
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = Val::mkCmp(Val::LE, d); break;
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = Val::mkCmp(Val::LE, d.neg() + Lin(1)); break;
    default: r = Val::mkCmp(Val::LE, d.neg()); break;
  }
  return decide(s, r);
}
// ---- memory
static bool impreciseLin(const Lin &l) { for (auto &p : l.t) if (ST.v[p.first].imprecise) return true; return false; }
bool Engine::resolve(State &s, const Val &p, const Lin &size, bool write, const Instruction *at, int &reg, Lin &off, const char *what) {
  check("DEREF", at);
  if (p.k == Val::Undef) { alarm(s, "UNINIT", std::string("uses ") + UndefOrigin[p.id] + " as a pointer", at); s.dead = true; return false; }
  if (p.k == Val::Int) {
    if (p.l.isConst()) { alarm(s, "NULLDEREF", "null pointer dereferenced", at); s.dead = true; return false; }
    int sy = p.l.t[0].first;
    if (ST.v[sy].maybeNull && !s.cons.proveNe(p.l)) { alarm(s, "NULLDEREF", "pointer from " + ST.v[sy].name + " used without a null check", at); s.cons.addNe(p.l); }
    if (p.l.t.size() == 1 && p.l.t[0].second == 1) {
      auto it = s.derefs.find(sy);
      if (it == s.derefs.end() || !s.mem.count(it->second)) {
        Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.desc = "*" + ST.v[sy].name; r.site = "ext";
        s.derefs[sy] = s.addRegion(r);
        if (!s.cons.proveNe(Lin::sym(sy))) s.cons.addNe(Lin::sym(sy));
        if (s.cons.bot) { s.dead = true; return false; }
      }
      reg = s.derefs[sy]; off = Lin(p.l.c);
    } else {
      Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.desc = "unknown"; r.site = "ext";
      reg = s.addRegion(r); off = Lin(0);
    }
  } else if (p.k == Val::Ptr) { reg = p.reg; off = p.l; }
  else if (p.k == Val::Fn) { s.dead = true; return false; }
  else { Region r; r.kind = Region::Ext; r.def = Region::DUnknown; r.escaped = true; r.desc = "unknown"; r.site = "ext"; reg = s.addRegion(r); off = Lin(0); }
  auto mi = s.mem.find(reg);
  if (mi == s.mem.end()) { s.dead = true; return false; }
  const Region &R = *mi->second;
  if (R.kind == Region::Handle) { s.dead = true; return false; }
  if (R.freed) {
    alarm(s, "USE_AFTER_RELEASE", std::string(write ? "writes" : "reads") + " " + (R.desc.empty() ? "memory" : R.desc) + " after it was released", at);
    s.dead = true; return false;
  }
  if (R.sizeKnown && size != Lin(0)) {
    check("BOUNDS", at);
    bool lowOk = s.cons.lb(off) >= 0, hiOk = s.cons.le0(off + size - R.size);
    if (!lowOk || !hiOk) {
      bool imp = impreciseLin(off) || impreciseLin(size) || impreciseLin(R.size);
      bool sure = s.cons.ub(off) < 0 || s.cons.lb(off + size - R.size) > 0;
      if (!imp || sure) {
        if (verbose > 1) llvm::errs() << "OOB off " << off.str() << " size " << size.str() << " region " << R.size.str() << "\n";
        alarm(s, "OOB", std::string(what ? what : write ? "write" : "read") + (write ? " past the end of " : " outside ") + (R.desc.empty() ? "object" : R.desc), at);
        // continue under the assumption that the access was inside
        s.cons.addLe(off.neg()); s.cons.addLe(off + size - R.size);
        if (s.cons.bot) { s.dead = true; return false; }
      } else obl["BOUNDS_UNDECIDED"].insert({at, 0});
    }
  }
  off = s.cons.simplify(off);
  return true;
}
void Engine::clearRange(State &s, int reg, long off, long size) {
  Region &R = s.wr(reg);
  auto it = R.cells.lower_bound(off);
  if (it != R.cells.begin()) { auto p = std::prev(it); if (p->first + (long)p->second.sz > off) it = p; }
  std::vector<std::pair<long, Cell>> add;
  while (it != R.cells.end() && it->first < off + size) {
    long a = it->first, b = a + it->second.sz; Val v = it->second.v;
    it = R.cells.erase(it);
    bool splittable = v.k == Val::None || v.k == Val::Undef || v.isNull();
    auto piece = [&](long x, long y) { Val q = splittable ? v : Val(); if (v.isNull()) q = Val::mkInt(Lin(0), (unsigned)(y - x) * 8); add.push_back({x, Cell{(unsigned)(y - x), q}}); };
    if (a < off) piece(a, off);
    if (b > off + size) piece(off + size, b);
  }
  for (auto &x : add) R.cells[x.first] = x.second;
  for (auto g = R.ghost.begin(); g != R.ghost.end();) {
    if (g->first.compare(0, 4, "len@") == 0) { g = R.ghost.erase(g); continue; }
    if (g->first.compare(0, 4, "tok@") == 0) { long o = atol(g->first.c_str() + 4); if (o >= off && o < off + size) { g = R.ghost.erase(g); continue; } }
    ++g;
  }
}
Val Engine::loadAt(State &s, int reg, const Lin &off, Type *t, const Instruction *at) {
  if (auto *st = dyn_cast<StructType>(t)) {
    Val a; a.k = Val::Agg; auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) a.a.push_back(loadAt(s, reg, off + Lin((I)(uint64_t)sl->getElementOffset(i)), st->getElementType(i), at));
    return a;
  }
  if (auto *ar = dyn_cast<ArrayType>(t)) {
    Val a; a.k = Val::Agg; unsigned es = DL->getTypeAllocSize(ar->getElementType());
    for (unsigned i = 0; i < ar->getNumElements() && i < 64; i++) a.a.push_back(loadAt(s, reg, off + Lin((I)i * es), ar->getElementType(), at));
    return a;
  }
  unsigned sz = DL->getTypeStoreSize(t);
  const Region &R0 = s.rd(reg);
  if (R0.constant && R0.g && R0.g->hasInitializer() && off.isConst()) {
    if (Constant *k = ConstantFoldLoadFromConst(const_cast<Constant *>(R0.g->getInitializer()), t, APInt(64, (uint64_t)(int64_t)off.c, true), *DL)) return constant(s, k);
    return freshOf(s, t, "const");
  }
  if (!off.isConst()) {
    if (R0.constant || R0.def == Region::DUnknown) return freshOf(s, t, "elem:" + R0.desc);
    if (R0.def == Region::DUndef && R0.cells.empty() && !R0.weakInit) return Val::undef(undefOrigin("uninitialised " + R0.desc), sz * 8);
    if (R0.def == Region::DZero && R0.cells.empty() && !R0.weakInit) return t->isFloatingPointTy() ? Val::flt(fltConst(0)) : Val::mkInt(Lin(0), sz * 8, t->isPointerTy());
    if (t->isPointerTy()) {
      Val only; int n = 0; for (auto &c : R0.cells) if (c.second.v.k != Val::Undef) { n++; only = c.second.v; } for (auto &v : R0.weak) { n++; only = v; }
      if (n == 1 && (only.k == Val::Ptr || only.k == Val::Fn)) return only;
      bool any = R0.def == Region::DZero; Val f = freshOf(s, t, "elem:" + R0.desc, true); if (any) ST.v[f.l.t[0].first].maybeNull = false; return f;
    }
    return freshOf(s, t, "elem:" + R0.desc, false);
  }
  long o = (long)off.c;
  auto it = R0.cells.find(o);
  if (it != R0.cells.end() && it->second.sz == sz && it->second.v.k != Val::None) {
    Val v = it->second.v;
    if (v.k == Val::Undef) { v.w = sz * 8; return v; }
    if (t->isFloatingPointTy()) { if (v.k == Val::Flt) return v; if (v.isNull()) return Val::flt(fltConst(0)); return Val::flt(fltMemo("bits" + v.str())); }
    if (v.k == Val::Flt) { int m = ST.memoSym("fbits" + std::to_string(v.id), sz * 8); return Val::mkInt(Lin::sym(m), sz * 8); }
    if (t->isIntegerTy() || t->isPointerTy()) {
      if (v.k == Val::Int) { v.w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); v.isPtr = t->isPointerTy(); v.l = norm(v.l, v.w); }
      else if (v.k == Val::Cmp) v.w = t->getIntegerBitWidth();
      return v;
    }
    return v;
  }
  // overlapping cells
  auto lo = R0.cells.lower_bound(o);
  if (lo != R0.cells.begin()) { auto p = std::prev(lo); if (p->first + (long)p->second.sz > o) lo = p; }
  bool overlap = lo != R0.cells.end() && lo->first < o + (long)sz;
  if (overlap) {
    // bytes assembled from constant cells, or a gap-free run of undefined bytes
    bool allConst = t->isIntegerTy() && sz <= 8, anyUndef = false, anyNone = false; long pos = o; unsigned __int128 acc = 0; int und = 0;
    for (auto c = lo; c != R0.cells.end() && c->first < o + (long)sz; ++c) {
      long a = std::max(c->first, o), b = std::min(c->first + (long)c->second.sz, o + (long)sz);
      if (a > pos) { if (R0.def == Region::DUndef) { anyUndef = true; und = undefOrigin("uninitialised part of " + R0.desc); } if (R0.def != Region::DZero) allConst = false; }
      pos = b;
      if (c->second.v.k == Val::Undef) { anyUndef = true; und = c->second.v.id; }
      if (c->second.v.k == Val::None) anyNone = true;
      if (c->second.v.isConst() && c->second.sz <= 8) { unsigned long long k = (unsigned long long)(int64_t)c->second.v.l.c; k >>= 8 * (a - c->first); for (long q = a; q < b; q++) { acc |= (unsigned __int128)(k & 255) << (8 * (q - o)); k >>= 8; } }
      else if (c->second.v.isNull()) {}
      else allConst = false;
    }
    if (pos < o + (long)sz) { if (R0.def == Region::DUndef && !R0.weakInit) { anyUndef = true; und = undefOrigin("uninitialised part of " + R0.desc); } if (R0.def != Region::DZero) allConst = false; }
    if (anyUndef && !anyNone) { bool only = true; for (auto c = lo; c != R0.cells.end() && c->first < o + (long)sz; ++c) if (c->second.v.k != Val::Undef) only = false; if (only || t->isPointerTy()) return Val::undef(und, sz * 8); }
    Val v;
    if (allConst && !anyUndef && !anyNone) return Val::mkInt(norm(Lin((I)(unsigned long long)acc), sz * 8), sz * 8);
    bool zero = true; for (auto c = lo; c != R0.cells.end() && c->first < o + (long)sz; ++c) if (!c->second.v.isNull()) zero = false;
    if (zero && !anyUndef && lo->first <= o && lo->first + (long)lo->second.sz >= o + (long)sz) return t->isFloatingPointTy() ? Val::flt(fltConst(0)) : Val::mkInt(Lin(0), sz * 8, t->isPointerTy());
    v = freshOf(s, t, "part:" + R0.desc);
    clearRange(s, reg, o, sz); s.wr(reg).cells[o] = Cell{sz, v};
    return v;
  }
  if (R0.def == Region::DUndef && !R0.weakInit) return Val::undef(undefOrigin("uninitialised " + (R0.desc.empty() ? std::string("memory") : R0.desc)), sz * 8);
  if (R0.def == Region::DZero && !R0.weakInit) return t->isFloatingPointTy() ? Val::flt(fltConst(0)) : Val::mkInt(Lin(0), sz * 8, t->isPointerTy());
  Val v = freshOf(s, t, "mem:" + R0.desc + "+" + std::to_string(o));
  if (R0.weakInit && t->isPointerTy() && R0.weak.size() == 1) v = R0.weak[0];
  s.wr(reg).cells[o] = Cell{sz, v};
  return v;
}
Val Engine::load(State &s, const Val &ptr, Type *t, const Instruction *at) {
  int r; Lin off; if (!resolve(s, ptr, Lin((I)(uint64_t)DL->getTypeStoreSize(t)), false, at, r, off)) return Val::undef(undefOrigin("nothing"));
  return loadAt(s, r, off, t, at);
}
void Engine::storeAt(State &s, int reg, const Lin &off, const Val &v, unsigned size) {
  if (!off.isConst()) {
    Region &R = s.wr(reg);
    for (auto g = R.ghost.begin(); g != R.ghost.end();) if (g->first.compare(0, 4, "len@") == 0) g = R.ghost.erase(g); else ++g;
    // any cell may have been overwritten
    for (auto it = R.cells.begin(); it != R.cells.end();) {
      Lin lo = off - Lin((I)it->first + it->second.sz), hi = Lin((I)it->first) - off - Lin((I)size);
      bool disjoint = s.cons.lb(lo) >= 0 || s.cons.lb(hi) >= 0;
      if (!disjoint) {
        if (it->second.v.k == Val::Ptr || it->second.v.k == Val::Fn) R.weak.push_back(it->second.v);
        if (it->second.v.k == Val::Undef && R.def == Region::DUndef) { it = R.cells.erase(it); continue; }
        it->second.v = Val();
      }
      ++it;
    }
    if (v.k != Val::Undef) R.weakInit = true;
    if (v.k == Val::Ptr || v.k == Val::Fn) { bool have = false; for (auto &x : R.weak) if (x.k == v.k && x.reg == v.reg && x.f == v.f && x.l == v.l) have = true; if (!have) R.weak.push_back(v); }
    return;
  }
  long o = (long)off.c;
  if (v.k == Val::Agg) return;
  clearRange(s, reg, o, size);
  s.wr(reg).cells[o] = Cell{size, v};
}
static void storeRec(Engine &E, State &s, int reg, const Lin &off, const Val &v, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = E.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeRec(E, s, reg, off + Lin((I)(uint64_t)sl->getElementOffset(i)), v.k == Val::Agg && i < v.a.size() ? v.a[i] : Val::undef(undefOrigin("aggregate")), st->getElementType(i));
    return;
  }
  if (auto *ar = dyn_cast<ArrayType>(t)) {
    unsigned es = E.DL->getTypeAllocSize(ar->getElementType());
    for (unsigned i = 0; i < ar->getNumElements(); i++) storeRec(E, s, reg, off + Lin((I)i * es), v.k == Val::Agg && i < v.a.size() ? v.a[i] : Val::undef(undefOrigin("aggregate")), ar->getElementType());
    return;
  }
  E.storeAt(s, reg, off, v, E.DL->getTypeStoreSize(t));
}
void Engine::store(State &s, const Val &ptr, const Val &v, Type *t, const Instruction *at) {
  int r; Lin off; if (!resolve(s, ptr, Lin((I)(uint64_t)DL->getTypeStoreSize(t)), true, at, r, off)) return;
  if (s.rd(r).constant) { alarm(s, "CONST_WRITE", "writes to a constant object", at); s.dead = true; return; }
  storeRec(*this, s, r, off, v, t);
}
void Engine::havocRange(State &s, int reg, const Lin &off, const Lin &n, bool zero) {
  Region &R = s.wr(reg);
  if (R.constant) return;
  for (auto g = R.ghost.begin(); g != R.ghost.end();) if (g->first.compare(0, 4, "len@") == 0) g = R.ghost.erase(g); else ++g;
  if (off.isConst() && off.c == 0 && R.sizeKnown && (R.size == n || s.cons.proveEq(R.size - n))) {
    R.cells.clear(); R.ghost.clear(); R.weak.clear(); R.weakInit = false; R.def = zero ? Region::DZero : Region::DUnknown; return;
  }
  if (off.isConst() && n.isConst()) {
    if (n.c <= 0) return;
    clearRange(s, reg, (long)off.c, (long)n.c);
    s.wr(reg).cells[(long)off.c] = Cell{(unsigned)n.c, zero ? Val::mkInt(Lin(0), (unsigned)n.c * 8) : Val()};
    return;
  }
  for (auto it = R.cells.begin(); it != R.cells.end();) {
    Lin lo = off - Lin((I)it->first + it->second.sz), hi = Lin((I)it->first) - off - n;
    bool disjoint = s.cons.lb(lo) >= 0 || s.cons.lb(hi) >= 0;
    if (!disjoint) { if (it->second.v.k == Val::Undef && R.def == Region::DUndef) { it = R.cells.erase(it); continue; } if (!(zero && it->second.v.isNull())) it->second.v = Val(); }
    ++it;
  }
  R.weakInit = true;
}
void Engine::copyMem(State &s, int dr, const Lin &doff, int sr, const Lin &soff, const Lin &n) {
  if (s.rd(dr).constant) return;
  bool wholeSame = doff.isConst() && soff.isConst() && doff.c == 0 && soff.c == 0 && !n.isConst() && s.rd(dr).sizeKnown && s.cons.proveEq(s.rd(dr).size - n);
  if (!(doff.isConst() && soff.isConst() && (n.isConst() || wholeSame))) {
    // unknown extent: undefined source bytes would become readable data; keep it weak
    havocRange(s, dr, doff, n);
    for (auto &c : s.rd(sr).cells) if (c.second.v.k == Val::Ptr) s.wr(dr).weak.push_back(c.second.v);
    return;
  }
  std::map<long, Cell> src; Region::Def def = s.rd(sr).def; bool weak = s.rd(sr).weakInit;
  if (s.rd(sr).constant && s.rd(sr).g && s.rd(sr).g->hasInitializer()) { flatten(*this, s, s.rd(sr).g->getInitializer(), 0, src); def = Region::DZero; }
  else src = s.rd(sr).cells;
  auto ghost = s.rd(sr).ghost;
  if (wholeSame) { Region &D = s.wr(dr); D.cells = src; D.def = def; D.weakInit = weak; D.weak = s.rd(sr).weak; return; }
  long len = (long)n.c, so = (long)soff.c, d0 = (long)doff.c; if (len <= 0) return;
  clearRange(s, dr, d0, len);
  Region &D = s.wr(dr); long pos = so;
  auto gap = [&](long a, long b) {
    if (a >= b) return; Val v;
    if (weak) v = Val(); else if (def == Region::DUndef) v = Val::undef(undefOrigin("copy of uninitialised " + s.rd(sr).desc), (unsigned)(b - a) * 8);
    else if (def == Region::DZero) v = Val::mkInt(Lin(0), (unsigned)(b - a) * 8);
    D.cells[d0 + a - so] = Cell{(unsigned)(b - a), v};
  };
  for (auto &c : src) {
    long a = c.first, b = a + c.second.sz; if (b <= so) continue; if (a >= so + len) break;
    gap(pos, std::max(a, so));
    long x = std::max(a, so), y = std::min(b, so + len);
    Val v = c.second.v; bool whole = x == a && y == b;
    if (!whole) { if (v.k == Val::Undef || v.k == Val::None) {} else if (v.isNull()) v = Val::mkInt(Lin(0), (unsigned)(y - x) * 8); else v = Val(); }
    D.cells[d0 + x - so] = Cell{(unsigned)(y - x), v};
    pos = y;
  }
  gap(pos, so + len);
}
void Engine::escape(State &s, const Val &v, bool havoc, int depth) {
  Val p = v;
  if (p.k == Val::Int && p.l.t.size() == 1) { auto it = s.derefs.find(p.l.t[0].first); if (it != s.derefs.end()) p = Val::mkPtr(it->second, Lin(0)); }
  if (p.k != Val::Ptr || depth > 3 || !s.mem.count(p.reg)) return;
  const Region &R = s.rd(p.reg);
  if (R.constant || R.freed) return;
  std::vector<Val> inner; for (auto &c : R.cells) if (c.second.v.k == Val::Ptr) inner.push_back(c.second.v);
  if (havoc && R.kind != Region::Handle) {
    // the object starts at the pointer; what lies before it is a different object
    long from = p.l.isConst() ? (long)p.l.c : 0;
    Region &W = s.wr(p.reg);
    for (auto it = W.cells.begin(); it != W.cells.end(); ++it) if (it->first >= from && it->second.v.k != Val::Fn) it->second.v = Val();
    for (auto g = W.ghost.begin(); g != W.ghost.end();) { if (g->first.compare(0, 4, "tok@") == 0 && atol(g->first.c_str() + 4) >= from) g = W.ghost.erase(g); else ++g; }
    W.weakInit = true;
  }
  s.wr(p.reg).escaped = true;
  for (auto &x : inner) if (x.reg != p.reg) escape(s, x, havoc, depth + 1);
}
