// Numeric part of the abstract domain: affine expressions over symbols, and a zone
// (difference-bound) constraint store with disequalities.  No solver: every query is a
// shortest path in the difference graph or an interval evaluation.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

typedef __int128 I;
const I INF = (I)1 << 100;
inline bool isInf(I v) { return v >= INF || v <= -INF; }
std::string istr(I v);

struct Lin {
  I c = 0;
  std::vector<std::pair<int, I>> t;  // sorted by symbol, coefficient != 0
  Lin() {}
  Lin(I k) : c(k) {}
  static Lin sym(int s, I k = 1) { Lin l; l.t.push_back({s, k}); return l; }
  bool isConst() const { return t.empty(); }
  bool isSym() const { return t.size() == 1 && t[0].second == 1 && c == 0; }
  Lin operator+(const Lin &o) const;
  Lin operator-(const Lin &o) const;
  Lin operator*(I k) const;
  Lin neg() const { return *this * -1; }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  bool has(int s) const { for (auto &p : t) if (p.first == s) return true; return false; }
  std::string str() const;
};

struct SymInfo {
  unsigned w = 64;
  int sgn = 0;            // 0 undecided, 1 signed, 2 unsigned
  bool ranged = false;    // explicit intrinsic range
  I lo = 0, hi = 0;
  bool imprecise = false; // introduced by a widening or by an opaque call
  bool stale = false;     // errno value that no failing call has produced
  bool maybeNull = false; // pointer an allocation or lookup function may return as null
  bool boolean = false;
  bool memo = false;      // the value of an expression, which may come up again when nothing holds it
  std::vector<int> deps;  // the symbols in that expression
  std::string name;
};
struct SymTab {
  std::vector<SymInfo> v;
  std::map<std::string, int> memo;
  SymTab() { v.push_back(SymInfo()); v[0].name = "0"; }
  int fresh(unsigned w, const std::string &name, int sgn = 0);
  int ranged(unsigned w, const std::string &name, I lo, I hi);
  int memoSym(const std::string &key, unsigned w, int sgn = 0);
  I lo(int s), hi(int s);
};
extern SymTab ST;
inline I smin(unsigned w) { return -((I)1 << (w - 1)); }
inline I smax(unsigned w) { return ((I)1 << (w - 1)) - 1; }
inline I umax(unsigned w) { return ((I)1 << w) - 1; }

struct Cons {
  struct Edge { int x, y; I c; };
  std::vector<Edge> e;   // x - y <= c   (symbol 0 is the constant zero)
  std::vector<Lin> gen;  // lin <= 0
  std::vector<Lin> ne;   // lin != 0
  bool bot = false;
  I diff(int x, int y) const;  // least known bound of x - y
  I ub(const Lin &l, int depth = 2) const;
  I lb(const Lin &l) const { I r = ub(l.neg()); return isInf(r) ? -INF : -r; }
  bool le0(const Lin &l) const { return ub(l) <= 0; }
  bool proveNe(const Lin &l) const;
  bool proveEq(const Lin &l) const { return ub(l) <= 0 && ub(l.neg()) <= 0; }
  void addLe(const Lin &l);
  void addNe(const Lin &l);
  void addEq(const Lin &l) { addLe(l); if (!bot) addLe(l.neg()); }
  Lin simplify(const Lin &l) const;
  Cons project(const std::set<int> &live) const;
 private:
  void setEdge(int x, int y, I c);
  void tighten();
  void spread(int);
};
