#include "dom.h"
#include <deque>
#include <unordered_map>
SymTab ST;
std::string istr(I v) {
  if (v >= INF) return "+oo";
  if (v <= -INF) return "-oo";
  bool n = v < 0; if (n) v = -v;
  std::string s; do { s += char('0' + (int)(v % 10)); v /= 10; } while (v);
  if (n) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
Lin Lin::operator+(const Lin &o) const {
  Lin r; r.c = c + o.c; size_t i = 0, j = 0;
  while (i < t.size() || j < o.t.size()) {
    if (j >= o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.t.push_back(t[i++]);
    else if (i >= t.size() || o.t[j].first < t[i].first) r.t.push_back(o.t[j++]);
    else { I k = t[i].second + o.t[j].second; if (k != 0) r.t.push_back({t[i].first, k}); i++; j++; }
  }
  return r;
}
Lin Lin::operator*(I k) const { Lin r; if (k == 0) return r; r.c = c * k; for (auto &p : t) r.t.push_back({p.first, p.second * k}); return r; }
Lin Lin::operator-(const Lin &o) const { return *this + o * -1; }
std::string Lin::str() const {
  std::string s;
  for (auto &p : t) { if (!s.empty()) s += "+"; if (p.second != 1) s += istr(p.second) + "*"; s += "$" + std::to_string(p.first); }
  if (c != 0 || s.empty()) { if (!s.empty() && c >= 0) s += "+"; s += istr(c); }
  return s;
}
int SymTab::fresh(unsigned w, const std::string &n, int sgn) {
  SymInfo i; i.w = w; i.sgn = sgn; i.name = n; v.push_back(i); return (int)v.size() - 1;
}
int SymTab::ranged(unsigned w, const std::string &n, I lo, I hi) {
  int s = fresh(w, n, 1); v[s].ranged = true; v[s].lo = lo; v[s].hi = hi; return s;
}
int SymTab::memoSym(const std::string &key, unsigned w, int sgn) {
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  int s = fresh(w, key.substr(0, 40), sgn); memo[key] = s; v[s].memo = true;
  for (size_t i = 0; (i = key.find('$', i)) != std::string::npos; ++i) v[s].deps.push_back(atoi(key.c_str() + i + 1));
  return s;
}
I SymTab::lo(int s) {
  if (s == 0) return 0; auto &i = v[s]; if (i.ranged) return i.lo;
  return i.sgn == 2 ? 0 : smin(i.w);
}
I SymTab::hi(int s) {
  if (s == 0) return 0; auto &i = v[s]; if (i.ranged) return i.hi;
  return i.sgn == 1 ? smax(i.w) : umax(i.w);
}
I Cons::diff(int x, int y) const {
  if (x == y) return 0;
  // shortest path x -> y ; edges plus intrinsic ranges through node 0
  I direct = INF;
  {
    I a = x == 0 ? 0 : ST.hi(x), b = y == 0 ? 0 : -ST.lo(y);
    direct = a + b;
  }
  if (e.empty()) return direct;
  std::unordered_map<int, I> d;
  std::deque<int> q;
  d[x] = 0; q.push_back(x);
  auto relax = [&](int u, I c) { auto it = d.find(u); if (it == d.end() || c < it->second) { d[u] = c; q.push_back(u); } };
  int steps = 0;
  while (!q.empty() && steps++ < 4000) {
    int u = q.front(); q.pop_front(); I du = d[u];
    if (u != 0) relax(0, du + ST.hi(u));
    for (auto &ed : e) {
      if (ed.x == u) relax(ed.y, du + ed.c);
    }
    if (u == 0) {
      for (auto &ed : e) {
        if (ed.x != 0) relax(ed.x, du - ST.lo(ed.x));
        if (ed.y != 0) relax(ed.y, du - ST.lo(ed.y));
      }
      if (y != 0) relax(y, du - ST.lo(y));
    }
  }
  auto it = d.find(y);
  return it == d.end() ? direct : std::min(direct, it->second);
}
I Cons::ub(const Lin &l, int depth) const {
  if (bot) return -INF;
  if (l.t.empty()) return l.c;
  auto one = [&](int s, I k) -> I { I b = k > 0 ? diff(s, 0) : diff(0, s); return isInf(b) ? INF : b * (k > 0 ? k : -k); };
  I best = INF;
  if (l.t.size() == 1) best = l.c + one(l.t[0].first, l.t[0].second);
  else if (l.t.size() == 2 && l.t[0].second == -l.t[1].second) {
    I k = l.t[0].second; int x = l.t[0].first, y = l.t[1].first;
    if (k < 0) { k = -k; std::swap(x, y); }
    I b = diff(x, y); best = isInf(b) ? INF : l.c + b * k;
  } else {
    I s = l.c; bool inf = false;
    for (auto &p : l.t) { I b = one(p.first, p.second); if (isInf(b)) { inf = true; break; } s += b; }
    if (!inf) best = s;
    if (l.t.size() > 5) return best >= INF ? INF : best;  // (cost)
    // one opposite pair bounded by the difference graph, the rest by intervals
    for (size_t i = 0; i < l.t.size(); i++)
      for (size_t j = 0; j < l.t.size(); j++) {
        if (i == j || l.t[i].second <= 0 || l.t[j].second >= 0) continue;
        I k = std::min(l.t[i].second, -l.t[j].second);
        I b = diff(l.t[i].first, l.t[j].first); if (isInf(b)) continue;
        Lin rest = l - (Lin::sym(l.t[i].first, k) - Lin::sym(l.t[j].first, k));
        I rb = rest.c; bool bad = false;
        if (rest.t.size() < l.t.size() && depth > 0) rb = ub(rest, depth - 1);
        else for (auto &p : rest.t) { I o = one(p.first, p.second); if (isInf(o)) { bad = true; break; } rb += o; }
        if (!bad && !isInf(rb)) best = std::min(best, b * k + rb);
      }
  }
  if (depth > 0)
    for (auto &g : gen) {
      I m = 0; for (auto &p : l.t) for (auto &q : g.t) if (p.first == q.first && (p.second > 0) == (q.second > 0)) { I k = p.second % q.second == 0 ? p.second / q.second : 1; if (m == 0 || k < m) m = k; }
      if (m == 0) continue;
      Lin d = l - g * m; if (d.t.size() > l.t.size() + 1) continue;
      best = std::min(best, ub(d, depth - 1));
    }
  return best >= INF ? INF : best;
}
bool Cons::proveNe(const Lin &l) const {
  if (l.isConst()) return l.c != 0;
  Lin m = l.neg();
  for (auto &n : ne) if (n == l || n == m) return true;
  return ub(l) < 0 || ub(m) < 0;
}
void Cons::setEdge(int x, int y, I c) {
  for (auto &ed : e) if (ed.x == x && ed.y == y) { if (c < ed.c) ed.c = c; return; }
  e.push_back({x, y, c});
}
static I fdiv(I a, I b) { I q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
void Cons::tighten() {
  for (int round = 0; round < 3 && !bot; round++) {
    bool ch = false;
    for (size_t i = 0; i < ne.size() && !bot; i++) {
      Lin l = ne[i];
      I u = ub(l), lo = lb(l);
      if (u == 0 && lo == 0) { bot = true; return; }
      if (u == 0 || lo == 0) {
        Lin m = (u == 0 ? l : l.neg()) + Lin(1);
        ne.erase(ne.begin() + i); i--; addLe(m); ch = true;
      }
    }
    if (!ch) break;
  }
}
// a new bound of a symbol bounds the symbols that share a constraint with it
void Cons::spread(int x0) {
  std::vector<int> work{x0}; int budget = 60;
  while (!work.empty() && budget > 0) {
    int x = work.back(); work.pop_back();
    for (auto &g : gen) {
      bool has = false; for (auto &p : g.t) if (p.first == x) has = true;
      if (!has || g.t.size() > 4) continue;
      for (auto &p : g.t) {
        if (p.first == x) continue;
        I r = g.c; bool bad = false;
        for (auto &q : g.t) if (q.first != p.first) { I b = q.second > 0 ? diff(0, q.first) : diff(q.first, 0); if (isInf(b)) { bad = true; break; } r -= b * (q.second > 0 ? q.second : -q.second); }
        if (bad) continue;
        int s = p.first; bool ch = false;
        if (p.second > 0) { I b = fdiv(-r, p.second); if (b < diff(s, 0)) { setEdge(s, 0, b); ch = true; } }
        else { I b = fdiv(-r, -p.second); if (b < diff(0, s)) { setEdge(0, s, b); ch = true; } }
        if (ch) { budget--; if (diff(s, 0) < -diff(0, s)) { bot = true; return; } work.push_back(s); }
      }
    }
  }
}
void Cons::addLe(const Lin &l0) {
  if (bot) return;
  if (l0.isConst()) { if (l0.c > 0) bot = true; return; }
  Lin l = l0; I gcd = 0; for (auto &p : l.t) { I a = p.second < 0 ? -p.second : p.second, b = gcd; while (b) { I t = a % b; a = b; b = t; } gcd = a; }
  if (gcd > 1) { for (auto &p : l.t) p.second /= gcd; l.c = -fdiv(-l.c, gcd); }
  if (ub(l) <= 0) return;
  if (lb(l) > 0) { bot = true; return; }
  if (l.t.size() == 1) {
    I k = l.t[0].second;
    if (k > 0) setEdge(l.t[0].first, 0, fdiv(-l.c, k)); else setEdge(0, l.t[0].first, fdiv(-l.c, -k));
    if (!gen.empty()) { spread(l.t[0].first); if (bot) return; }
  } else if (l.t.size() == 2 && l.t[0].second == -l.t[1].second) {
    I k = l.t[0].second; int x = l.t[0].first, y = l.t[1].first;
    if (k < 0) { k = -k; std::swap(x, y); }
    setEdge(x, y, fdiv(-l.c, k));
  } else {
    gen.push_back(l);
    for (auto &p : l.t) {  // bound each term by the others
      Lin rest = l - Lin::sym(p.first, p.second); I r = lb(rest); if (isInf(r)) continue;
      if (p.second > 0) { I b = fdiv(-r, p.second); if (b < diff(p.first, 0)) setEdge(p.first, 0, b); }
      else { I b = fdiv(-r, -p.second); if (b < diff(0, p.first)) setEdge(0, p.first, b); }
    }
  }
  tighten();
}
void Cons::addNe(const Lin &l) {
  if (bot) return;
  if (l.isConst()) { if (l.c == 0) bot = true; return; }
  if (proveNe(l)) return;
  if (proveEq(l)) { bot = true; return; }
  ne.push_back(l);
  tighten();
}
Lin Cons::simplify(const Lin &l) const {
  if (l.t.empty()) return l;
  Lin r(l.c);
  for (auto &p : l.t) {
    I u = diff(p.first, 0), w = diff(0, p.first);
    if (!isInf(u) && !isInf(w) && u == -w) r = r + Lin(u * p.second);
    else r = r + Lin::sym(p.first, p.second);
  }
  return r;
}
Cons Cons::project(const std::set<int> &live) const {
  Cons r; r.bot = bot;
  std::set<int> in; for (auto &ed : e) { in.insert(ed.x); in.insert(ed.y); }
  std::vector<int> L; for (int s : live) if (in.count(s)) L.push_back(s);
  for (int x : L) {
    I u = diff(x, 0); if (u < ST.hi(x)) r.e.push_back({x, 0, u});
    I w = diff(0, x); if (w < -ST.lo(x)) r.e.push_back({0, x, w});
  }
  for (int x : L) for (int y : L) if (x != y) {
    I b = diff(x, y); I u = diff(x, 0), w = diff(0, y);
    if (!isInf(b) && b < u + w) r.e.push_back({x, y, b});
  }
  auto alive = [&](const Lin &l) { for (auto &p : l.t) if (!live.count(p.first)) return false; return true; };
  for (auto &g : gen) { Lin s = simplify(g); if (!s.isConst() && alive(s)) r.gen.push_back(s); }
  for (auto &n : ne) { Lin s = simplify(n); if (!s.isConst() && alive(s)) r.ne.push_back(s); }
  return r;
}
