#include "state.h"
bool SmashMode = false, ExactMode = false, NarrowMode = false;  // ExactMode: small integers are kept apart like the other constants of a shape
#include <unordered_map>
std::vector<FltNode> FT;
std::vector<std::string> UndefOrigin;
static std::map<std::string, int> FMemo, UMemo;
int fltMemo(const std::string &key, bool atom) {
  auto it = FMemo.find(key); if (it != FMemo.end()) return it->second;
  FltNode n; n.key = key; n.atom = atom; FT.push_back(n); return FMemo[key] = (int)FT.size() - 1;
}
int fltFresh(const std::string &n) { FltNode f; f.key = n + "#" + std::to_string(FT.size()); FT.push_back(f); return (int)FT.size() - 1; }
int fltConst(double d) { char b[64]; snprintf(b, 64, "k%.17g", d); int i = fltMemo(b); FT[i].isConst = true; FT[i].cv = d; return AlgebraMode ? algConst(i) : i; }
int undefOrigin(const std::string &s) {
  auto it = UMemo.find(s); if (it != UMemo.end()) return it->second;
  UndefOrigin.push_back(s); return UMemo[s] = (int)UndefOrigin.size() - 1;
}
static int NextRegion = 1;
int State::addRegion(const Region &r) { int id = NextRegion++; mem[id] = std::make_shared<Region>(r); return id; }
std::string Val::str() const {
  switch (k) {
    case None: return "none";
    case Undef: return "undef(" + UndefOrigin[id] + ")";
    case Int: return l.str() + ":i" + std::to_string(w);
    case Cmp: return std::string("(") + l.str() + (pred == EQ ? "==0)" : pred == NE ? "!=0)" : "<=0)");
    case Ptr: return "&r" + std::to_string(reg) + "+" + l.str();
    case Fn: return "fn";
    case Flt: return "f" + std::to_string(id);
    case Agg: { std::string s = "{"; for (auto &x : a) s += x.str() + ","; return s + "}"; }
  }
  return "?";
}

namespace {
bool smashable(const Region &R) { return !R.constant && R.rel == "delete[]"; }
struct Walker {
  State &s; Canon &c;
  std::vector<int> queue; size_t qh = 0;
  Walker(State &s, Canon &c) : s(s), c(c) {}
  int region(int r) {
    auto it = c.rmap.find(r); if (it != c.rmap.end()) return it->second;
    int id = (int)c.order.size(); c.rmap[r] = id; c.order.push_back(r); queue.push_back(r); return id;
  }
  void lin(Lin &l, unsigned w) { c.slots.push_back(&l); c.slotW.push_back(w); }
  void fdTag(const Lin &l) {
    if (!l.isSym()) return;
    auto it = s.fds.find(l.t[0].first); if (it == s.fds.end()) return;
    auto r = c.fdmap.insert({it->first, (int)c.fdmap.size()});
    c.shape += "F" + std::to_string(r.first->second) + (it->second.open ? "o" : "c") + it->second.kind;
  }
  void val(Val &v) {
    switch (v.k) {
      case Val::None: c.shape += 'n'; break;
      case Val::Undef: c.shape += 'U'; break;
      case Val::Int:
        if (v.l.isConst() && (v.w <= 8 || (v.isPtr && v.l.c == 0) || (ExactMode && v.l.c >= -1 && v.l.c <= 16))) { c.shape += 'c'; c.shape += istr(v.l.c); c.shape += ';'; }
        else {
          c.shape += v.isPtr ? 'q' : 'i'; fdTag(v.l);
          if (v.isPtr && v.l.t.size() == 1) {
            c.shape += s.cons.proveNe(v.l) ? '!' : '?';
            auto it = s.derefs.find(v.l.t[0].first);
            if (it != s.derefs.end()) { c.shape += 'd'; c.shape += std::to_string(region(it->second)); }
          }
          lin(v.l, v.w);
        }
        break;
      case Val::Cmp: c.shape += 'C'; c.shape += char('0' + v.pred); lin(v.l, 64); break;
      case Val::Ptr:
        c.shape += 'p'; c.shape += std::to_string(region(v.reg)); c.shape += '+';
        if (v.l.isConst() && !s.rd(v.reg).loose && !(SmashMode && smashable(s.rd(v.reg)))) { c.shape += istr(v.l.c); c.shape += ';'; } else lin(v.l, 64);
        break;
      case Val::Fn: c.shape += 'f'; c.shape += std::to_string((uintptr_t)v.f); break;
      case Val::Flt: c.shape += 'x'; if (AlgebraMode) c.shape += std::to_string(v.id); c.flts.push_back(&v); break;
      case Val::Agg: c.shape += '{'; for (auto &x : v.a) val(x); c.shape += '}'; break;
    }
  }
  void drain() {
    while (qh < queue.size()) {
      int r = queue[qh++];
      Region &R = s.wr(r);
      c.shape += "\nR"; c.shape += std::to_string(c.rmap[r]); c.shape += char('0' + R.kind); c.shape += char('0' + R.def);
      if (R.g) { c.shape += "g" + std::to_string((uintptr_t)R.g); }
      c.shape += R.freed ? 'F' : '.'; c.shape += R.escaped ? 'E' : '.'; c.shape += R.weakInit ? 'w' : '.'; if (R.loose) c.shape += 'l';
      c.shape += R.rel; c.shape += '@'; if (R.kind != Region::Global && !(SmashMode && smashable(R))) c.shape += std::to_string(std::hash<std::string>()(R.site) % 1000003);
      if (R.freed) { continue; }
      if (R.constant) continue;
      if (R.sizeKnown) { if (R.size.isConst() && !(SmashMode && smashable(R))) c.shape += "s" + istr(R.size.c); else { c.shape += 's'; lin(R.size, 64); } }
      for (auto &cell : R.cells) { c.shape += '['; c.shape += std::to_string(cell.first) + ":" + std::to_string(cell.second.sz); val(cell.second.v); }
      for (auto &g : R.ghost) { c.shape += "<" + g.first; if (g.first.compare(0, 4, "tok@") == 0 && g.second.isConst()) c.shape += "\"" + istr(g.second.l.c); else val(g.second); }  // literal texts are kept apart
      if (!R.weak.empty()) { c.shape += 'W'; for (auto &v : R.weak) val(v); }
      for (auto it = s.locks.lower_bound({r, -1L << 60}); it != s.locks.end() && it->first.first == r; ++it) {
        auto &L = it->second; c.shape += "L" + std::to_string(it->first.second) + ":" + std::to_string(L.count) + (L.init ? "i" : "u") + (L.destroyed ? "d" : "l") + (L.recursive ? "r" : "n");
      }
    }
  }
};
}
void canonicalise(State &s, const std::vector<Val *> &extra, Canon &c, const std::function<void(State &, const std::string &, const std::string &)> &leak) {
  Walker w(s, c);
  for (auto &f : s.fr) { c.shape += "\nf"; c.shape += std::to_string((uintptr_t)f.F); for (auto &r : f.regs) { c.shape += "," + std::to_string(r.first) + "="; w.val(r.second); } w.drain(); }
  for (auto *v : extra) { c.shape += "\nx"; w.val(*v); }
  w.drain();
  for (auto &g : s.globals) if (s.mem.count(g.second) && !s.rd(g.second).constant) { c.shape += "\nG"; w.region(g.second); w.drain(); }
  for (auto &g : s.ghost) { c.shape += "\n$" + g.first; w.val(g.second); }
  for (auto &e : s.excs) { c.shape += "\ne"; w.val(e); }
  c.shape += "\nt" + s.inflightType; w.val(s.inflight); w.drain();
  // collect garbage
  std::set<int> used;
  for (auto *l : c.slots) for (auto &p : l->t) used.insert(p.first);
  std::vector<int> drop;
  for (auto &m : s.mem) if (!c.rmap.count(m.first)) drop.push_back(m.first);
  for (int r : drop) {
    const Region &R = s.rd(r);
    if (R.g) continue;   // constant globals are re-created on demand
    if (!R.freed && !R.escaped && !R.rel.empty()) leak(s, R.rel, R.desc + " obtained at " + R.site);
  }
  for (int r : drop) { if (s.rd(r).g && !s.rd(r).constant) continue; if (s.rd(r).g) s.globals.erase(s.rd(r).g); s.mem.erase(r); 
    for (auto it = s.locks.lower_bound({r, -1L << 60}); it != s.locks.end() && it->first.first == r;) it = s.locks.erase(it); }
  for (auto it = s.fds.begin(); it != s.fds.end();) {
    if (!used.count(it->first)) { if (it->second.open) leak(s, it->second.kind, "descriptor obtained at " + it->second.site); it = s.fds.erase(it); } else ++it;
  }
  for (auto it = s.derefs.begin(); it != s.derefs.end();) { if (!s.mem.count(it->second)) it = s.derefs.erase(it); else ++it; }
  for (auto *l : c.slots) *l = s.cons.simplify(*l);
}
std::set<int> liveSyms(const State &s, const Canon &c) {
  std::set<int> r; for (auto *l : c.slots) for (auto &p : l->t) r.insert(p.first);
  for (auto &f : s.fds) r.insert(f.first);
  for (auto &f : s.derefs) r.insert(f.first);
  return r;
}
bool subsumed(const State &o, const Canon &oc, const State &n, const Canon &nc) {
  if (oc.shape != nc.shape || oc.slots.size() != nc.slots.size()) return false;
  std::map<int, Lin> m; bool rest = false;
  // the value of an expression over symbols that the state still holds
  std::function<bool(int)> again = [&](int x) { if (!ST.v[x].memo) return false; for (int d : ST.v[x].deps) if (!m.count(d) && !again(d)) return false; return true; };
  auto sub = [&](const Lin &l, bool &ok) { Lin r(l.c); for (auto &p : l.t) { auto it = m.find(p.first); if (it == m.end()) { if (rest && again(p.first)) { r = r + Lin::sym(p.first, p.second); continue; } ok = false; return r; } r = r + it->second * p.second; } return r; };
  for (size_t i = 0; i < oc.slots.size(); i++) {
    const Lin &a = *oc.slots[i], &b = *nc.slots[i];
    if (a.isConst()) { if (!(b.isConst() && b.c == a.c) && !n.cons.proveEq(b - a)) return false; continue; }
    bool ok = true; Lin r = sub(a, ok);
    if (ok) { if (!(r == b) && !n.cons.proveEq(r - b)) return false; continue; }
    if (a.t.size() == 1 && (a.t[0].second == 1)) { m[a.t[0].first] = b - Lin(a.c); continue; }
    if (a == b) { for (auto &p : a.t) if (!m.count(p.first)) m[p.first] = Lin::sym(p.first); continue; }
    return false;
  }
  rest = true;  // what is not in the state may come up again when it is the value of an expression
  for (auto &p : m) {  // intrinsic range of the old symbol must cover the new value
    if (p.second == Lin::sym(p.first)) continue;
    I hi = ST.hi(p.first), lo = ST.lo(p.first);
    if (n.cons.ub(p.second) > hi || n.cons.lb(p.second) < lo) return false;
  }
  for (auto &e : o.cons.e) {
    Lin a, b; if (e.x) { auto it = m.find(e.x); if (it != m.end()) a = it->second; else if (again(e.x)) a = Lin::sym(e.x); else continue; } if (e.y) { auto it = m.find(e.y); if (it != m.end()) b = it->second; else if (again(e.y)) b = Lin::sym(e.y); else continue; }
    if (!n.cons.le0(a - b - Lin(e.c))) return false;
  }
  for (auto &g : o.cons.gen) { bool ok = true; Lin r = sub(g, ok); if (ok && !n.cons.le0(r)) return false; }
  for (auto &g : o.cons.ne) { bool ok = true; Lin r = sub(g, ok); if (ok && !n.cons.proveNe(r)) return false; }
  std::map<int, int> fm;
  for (size_t i = 0; i < oc.flts.size(); i++) {
    int a = oc.flts[i]->id, b = nc.flts[i]->id; if (a == b) continue;
    if (!FT[a].atom) return false;
    auto r = fm.insert({a, b}); if (!r.second && r.first->second != b) return false;
  }
  return true;
}
std::set<I> Thresholds;
void joinInto(State &a, Canon &ca, const State &b, const Canon &cb, bool widen, const std::string &tag) {
  // phi symbol for each differing slot pair
  std::map<std::pair<Lin, Lin>, int> phi;
  std::vector<std::pair<Lin, Lin>> pairs;
  std::vector<Lin> newSlots(ca.slots.size());
  std::map<std::pair<Lin, Lin>, unsigned> pw;
  for (size_t i = 0; i < ca.slots.size(); i++) {
    const Lin &x = *ca.slots[i], &y = *cb.slots[i];
    if (x == y) { newSlots[i] = x; continue; }
    auto key = std::make_pair(x, y);
    auto it = phi.find(key);
    if (it == phi.end()) {
      unsigned w = ca.slotW[i]; if (w == 0) w = 64;
      int s = ST.fresh(w, "phi@" + tag);
      ST.v[s].imprecise = true;
      // signedness: inherit when both sides agree
      int sg = 0; for (auto *l : {&x, &y}) for (auto &p : l->t) { int k = ST.v[p.first].sgn; if (k && !sg) sg = k; }
      I lo = std::min(a.cons.lb(x), b.cons.lb(y)), hi = std::max(a.cons.ub(x), b.cons.ub(y));
      if (lo < 0 && hi <= smax(w) ) sg = 1; else if (hi > smax(w) && lo >= 0) sg = 2;
      if (lo < smin(w) || hi > umax(w)) { lo = smin(w); hi = umax(w); }
      ST.v[s].sgn = sg;
      // a symbol that was already a phi keeps boolean/null facts out
      it = phi.insert({key, s}).first; pairs.push_back(key); pw[key] = w;
    }
    newSlots[i] = Lin::sym(it->second);
  }
  Cons nc;
  // surviving old constraints (over unchanged symbols)
  std::set<int> common; for (size_t i = 0; i < newSlots.size(); i++) for (auto &p : newSlots[i].t) common.insert(p.first);
  for (auto &f : a.fds) common.insert(f.first);
  for (auto &f : a.derefs) common.insert(f.first);
  std::set<int> phis; for (auto &p : phi) phis.insert(p.second);
  for (auto &e : a.cons.e) {
    if ((e.x && phis.count(e.x)) || (e.y && phis.count(e.y))) continue;
    Lin l = (e.x ? Lin::sym(e.x) : Lin()) - (e.y ? Lin::sym(e.y) : Lin()) - Lin(e.c);
    if (b.cons.le0(l)) nc.addLe(l);
    else if (!widen) { I u = std::max(a.cons.ub(l), b.cons.ub(l)); if (!isInf(u)) nc.addLe(l - Lin(u)); }
  }
  for (auto &g : a.cons.gen) if (b.cons.le0(g)) nc.addLe(g);
  for (auto &g : a.cons.ne) if (b.cons.proveNe(g)) nc.addNe(g);
  // relations of the phi symbols: intervals, then differences with every other live symbol
  struct Item { Lin x, y, n; }; std::vector<Item> items;
  for (auto &p : pairs) items.push_back({p.first, p.second, Lin::sym(phi[p])});
  size_t np = items.size();
  for (int s : common) if (!phis.count(s)) items.push_back({Lin::sym(s), Lin::sym(s), Lin::sym(s)});
  items.push_back({Lin(), Lin(), Lin()});
  std::set<I> TH; if (tag == "head") TH = Thresholds; TH.insert(0); if (widen && tag == "head") for (auto &l : newSlots) if (l.isConst() && l.c > 0) { TH.insert(l.c); TH.insert(l.c - 1); }
  auto bound = [&](const Lin &da, const Lin &db, const Lin &dn) {
    I u = a.cons.ub(da), v = b.cons.ub(db);
    if (isInf(u) || isInf(v)) return;
    I m = std::max(u, v);
    if (widen && v > u) {  // a bound that grows: jump to the next constant the program mentions
      if (dn.t.size() != 1) { if (v > 1) return; m = v <= -1 ? -1 : v; nc.addLe(dn - Lin(m)); return; }
      bool up = dn.t[0].second > 0; auto it = up ? TH.lower_bound(v) : TH.lower_bound(-INF);
      if (up) { if (it == TH.end()) return; m = *it; }
      else { I best = INF; for (auto t : TH) if (-t >= v) best = std::min(best, -t); if (isInf(best)) return; m = best; }
    }
    nc.addLe(dn - Lin(m));
  };
  if (np <= 40)
  for (size_t i = 0; i < np; i++)
    for (size_t j = 0; j < items.size(); j++) {
      if (i == j) continue;
      bound(items[i].x - items[j].x, items[i].y - items[j].y, items[i].n - items[j].n);
      bound(items[j].x - items[i].x, items[j].y - items[i].y, items[j].n - items[i].n);
    }
  // disequality with zero survives
  for (size_t i = 0; i < np; i++) if (a.cons.proveNe(items[i].x) && b.cons.proveNe(items[i].y)) nc.addNe(items[i].n);
  // resources and lazily materialised regions follow the symbol that names them
  for (auto &p : pairs) {
    if (!p.first.isSym()) continue; int os = p.first.t[0].first, ns = phi[p];
    auto f = a.fds.find(os); if (f != a.fds.end()) { FdRec r = f->second; a.fds.erase(f); a.fds[ns] = r; }
    auto d = a.derefs.find(os); if (d != a.derefs.end()) { int r = d->second; a.derefs.erase(d); a.derefs[ns] = r; }
  }
  for (size_t i = 0; i < ca.slots.size(); i++) *ca.slots[i] = newSlots[i];
  for (size_t i = 0; i < ca.flts.size(); i++) if (ca.flts[i]->id != cb.flts[i]->id) ca.flts[i]->id = fltFresh("phi");
  nc.bot = false;
  a.cons = nc;
}
