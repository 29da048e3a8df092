// Value numbering of floating-point expressions by random interpretation: every input is a random
// element of a finite field, every operation is carried out in the field.  Two expressions get the
// same number iff they are equal as real expressions (up to a chance of about one in 2^60), however
// they are written.
#include "state.h"
#include <cmath>
bool AlgebraMode = false;
typedef unsigned __int128 U2;
typedef uint64_t U;
static const U P = ((U)1 << 61) - 1;
static U add(U a, U b) { U r = a + b; return r >= P ? r - P : r; }
static U sub(U a, U b) { return a >= b ? a - b : a + P - b; }
static U mul(U a, U b) { U2 m = (U2)a * b; U r = (U)(m & P) + (U)(m >> 61); return r >= P ? r - P : r; }
static U pw(U a, U e) { U r = 1; for (; e; e >>= 1, a = mul(a, a)) if (e & 1) r = mul(r, a); return r; }
static U inv(U a) { return pw(a, P - 2); }
struct F2 { U a = 0, b = 0; bool operator==(const F2 &o) const { return a == o.a && b == o.b; } bool operator<(const F2 &o) const { return a < o.a || (a == o.a && b < o.b); } bool zero() const { return !a && !b; } };
static F2 add(F2 x, F2 y) { return {add(x.a, y.a), add(x.b, y.b)}; }
static F2 sub(F2 x, F2 y) { return {sub(x.a, y.a), sub(x.b, y.b)}; }
static F2 mul(F2 x, F2 y) { return {sub(mul(x.a, y.a), mul(x.b, y.b)), add(mul(x.a, y.b), mul(x.b, y.a))}; }
static F2 inv(F2 x) { U n = inv(add(mul(x.a, x.a), mul(x.b, x.b))); return {mul(x.a, n), mul(sub(0, x.b), n)}; }
static U hashU(const std::string &k) { U h = 1469598103934665603ull; for (unsigned char c : k) { h ^= c; h *= 1099511628211ull; } h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h % P; }
static U ofInt(__int128 v) { bool n = v < 0; U r = (U)((U2)(n ? -v : v) % P); return n ? sub(0, r) : r; }
static double Snap; // the double nearest to what a constant stands for, when that is a multiple of pi rounded to float
static U rational(double d) {
  Snap = d;
  if (d == 0 || !std::isfinite(d)) return std::isfinite(d) ? 0 : hashU("inf" + std::to_string(d));
  if (std::fabs(d) < 1e12) for (int q = 1; q <= 2000; ++q) { double n = std::nearbyint(d * q); if (std::fabs(n) < 1e12 && n / q == d) return mul(ofInt((__int128)n), inv(ofInt(q))); }
  // multiples of pi and of its inverse, which the compiler may have folded
  static const double PI = 3.14159265358979323846; static const U UPI = hashU("pi"); auto near = [&](double x) { if (std::fabs(x - d) <= 4e-16 * std::fabs(d)) return true; if ((double)(float)d == d && (float)x == (float)d) { Snap = x; return true; } return false; };
  if (std::fabs(d) < 1e6 && std::fabs(d) > 1e-6) for (int q : {1, 2, 3, 4, 5, 6, 8, 12, 180, 360}) { double n = std::nearbyint(d * q / PI); if (n != 0 && std::fabs(n) < 10000 && near(n * PI / q)) return mul(UPI, mul(ofInt((__int128)n), inv(ofInt(q)))); n = std::nearbyint(d * q * PI); if (n != 0 && std::fabs(n) < 10000 && near(n / PI / q)) return mul(inv(UPI), mul(ofInt((__int128)n), inv(ofInt(q)))); }
  int e; double m = std::frexp(d, &e); long long k = (long long)std::ldexp(m, 53); e -= 53;
  U r = ofInt(k); return e >= 0 ? mul(r, pw(2, e)) : mul(r, inv(pw(2, -e)));
}
static std::map<F2, int> Num; static std::map<int, F2> FpOf;
static F2 fp(int id) {
  auto it = FpOf.find(id); if (it != FpOf.end()) return it->second;
  F2 f; f.a = FT[id].isConst ? rational(FT[id].cv) : hashU(FT[id].key);
  FpOf[id] = f; Num.emplace(f, id); return f;
}
// An angle as a sum of atoms with integer coefficients and quarter turns, so that sine and cosine obey
// the addition theorems; an interval that holds the value; and what was added to which node.
struct Dec { std::map<int, int> a; int q = 0; bool bad = false; };
static std::map<int, Dec> DecOf; static std::map<int, std::pair<double, double>> IvOf; static std::map<int, std::pair<int, double>> BaseOf; static std::map<std::pair<int, int>, int> TrigOf;
static std::map<int, std::pair<int, double>> ScaleOf;  // a constant multiple of another number
static std::map<F2, F2> RootOf, CubeRootOf; static std::map<F2, int> AcosOf;  // roots met or named by the driver
static F2 neg(F2 x) { return sub(F2(), x); }
static Dec dec(int id) {
  auto it = DecOf.find(id); if (it != DecOf.end()) return it->second; Dec d;
  if (FT[id].isConst) { double v = FT[id].cv, h = 0.52359877559829887308, k = std::nearbyint(v / h); if (v == 0) return d; if (std::fabs(k) < 3000 && std::fabs(k * h - v) <= 4e-16 * std::fabs(v)) { d.q = (int)k; return d; } if (v < 0) { d.a[fltConst(-v)] = -1; return d; } }
  d.a[id] = 1; return d;
}
static std::pair<double, double> iv(int id) { if (FT[id].isConst) return {FT[id].cv, FT[id].cv}; auto it = IvOf.find(id); if (it != IvOf.end()) return it->second; return {-INFINITY, INFINITY}; }
static std::set<F2> Narrowed;   // numbers known to be in single precision
void algReset() { Narrowed.clear(); ScaleOf.clear(); DecOf.clear(); IvOf.clear(); BaseOf.clear(); TrigOf.clear(); RootOf.clear(); CubeRootOf.clear(); AcosOf.clear(); Num.clear(); FpOf.clear(); for (double d : {0.0, 1.0, -1.0, 2.0, -2.0, 0.5}) fp(fltConst(d)); }
int algConst(int id) { F2 f; f.a = rational(FT[id].cv); FT[id].cv = Snap; auto it = Num.find(f); if (it != Num.end()) { if (!FT[it->second].isConst) { FT[it->second].isConst = true; FT[it->second].cv = FT[id].cv; } return it->second; } FpOf[id] = f; Num[f] = id; return id; }
static int node(F2 f, bool isConst = false, double cv = 0) {
  auto it = Num.find(f); if (it != Num.end()) return it->second;
  int id = fltMemo("A" + std::to_string(f.a) + "_" + std::to_string(f.b)); FpOf[id] = f; Num[f] = id; if (isConst) { FT[id].isConst = true; FT[id].cv = cv; } return id;
}
int algOp(char op, int x, int y);
// n = b + q; the same is kept for both negatives, and neither chain closes on itself
static std::pair<int, double> rootBase(int b) { double q = 0; for (auto i = BaseOf.find(b); i != BaseOf.end(); i = BaseOf.find(b)) { q += i->second.second; b = i->second.first; } return {b, q}; }
static void based(int n, int b, double q) {
  static int deep; if (deep || BaseOf.count(n)) return; ++deep; auto r = rootBase(b); int m = algOp('-', fltConst(0), n), t = algOp('-', fltConst(0), r.first); --deep; q += r.second;
  if (r.first == n || r.first == m || t == n || m == n || t == r.first || BaseOf.count(m) || BaseOf.count(t)) return; BaseOf[n] = {r.first, q}; BaseOf[m] = {t, -q};
}
int algOp(char op, int x, int y) {
  F2 a = fp(x), b = fp(y), r; bool c = FT[x].isConst && FT[y].isConst; double p = FT[x].cv, q = FT[y].cv, d = 0;
  switch (op) {
    case '+': r = add(a, b); d = p + q; break;
    case '-': r = sub(a, b); d = p - q; break;
    case '*': r = mul(a, b); d = p * q; break;
    case '/': if (b.zero()) return fltMemo("div0(" + std::to_string(x) + ")"); r = mul(a, inv(b)); d = p / q; break;
    default: return fltMemo("op" + std::to_string(x) + op + std::to_string(y));
  }
  int n = node(r, c, d); if (c || FT[n].isConst || n == x || n == y) return n;
  if (op == '+' || op == '-') {
    int sg = op == '+' ? 1 : -1; auto i = iv(x), j = iv(y); std::pair<double, double> v(sg > 0 ? i.first + j.first : i.first - j.second, sg > 0 ? i.second + j.second : i.second - j.first); if (v.first > -INFINITY || v.second < INFINITY) IvOf.emplace(n, v);
    if (!DecOf.count(n)) { Dec u = dec(x), w = dec(y); for (auto &t : w.a) { int &k = u.a[t.first]; k += sg * t.second; if (!k) u.a.erase(t.first); } u.q += sg * w.q; DecOf[n] = u; }
    if (FT[y].isConst && q != 0) based(n, x, sg * q); else if (FT[x].isConst && p != 0) based(n, sg > 0 ? y : algOp('-', fltConst(0), y), p);
  }
  if (!ScaleOf.count(n)) { int v = op == '*' ? (FT[x].isConst ? y : FT[y].isConst ? x : -1) : op == '/' && FT[y].isConst ? x : op == '-' && FT[x].isConst && p == 0 ? y : -1; double k = op == '*' ? (v == y ? p : q) : op == '/' ? 1 / q : -1;
    if (v >= 0 && k != 0) { auto b0 = ScaleOf.count(v) ? ScaleOf[v] : std::make_pair(v, 1.0); if (b0.first != n && !ScaleOf.count(b0.first)) ScaleOf[n] = {b0.first, b0.second * k}; } }
  if (op == '*' && !DecOf.count(n)) {
    int v = FT[x].isConst ? y : FT[y].isConst ? x : -1; double k = v == y ? p : q; if (v >= 0 && k == std::nearbyint(k) && std::fabs(k) <= 8) { Dec u = dec(v); for (auto &t : u.a) t.second *= (int)k; u.q *= (int)k; DecOf[n] = u; }
  }
  return n;
}
// the remainder of x by the positive m, when x is not negative (positive) or negative
int algFmod(int x, int m, bool positive) {
  F2 k; k.a = hashU("fmod" + std::to_string(positive) + "_" + std::to_string(x) + "_" + std::to_string(m)); int n = node(sub(fp(x), mul(fp(m), k)));
  double M = FT[m].cv; if (FT[m].isConst && M > 0) { IvOf[n] = positive ? std::make_pair(0.0, std::nextafter(M, 0)) : std::make_pair(-std::nextafter(M, 0), 0.0); double h = M / (4 * 1.57079632679489661923); if (h == std::nearbyint(h)) DecOf[n] = dec(x); }
  return n;
}
// -1, 0, 1 when intervals decide a < b (no, unknown, yes); le asks for a <= b
int algLess(int a, int b, bool le) {
  if (FT[b].isConst && std::isinf(FT[b].cv) && !FT[a].isConst) return FT[b].cv > 0 ? 1 : -1; if (FT[a].isConst && std::isinf(FT[a].cv) && !FT[b].isConst) return FT[a].cv < 0 ? 1 : -1;
  auto i = iv(a), j = iv(b); if (le ? i.second <= j.first : i.second < j.first) return 1; if (le ? i.first > j.second : i.first >= j.second) return -1; return 0; }
int algLin(const Lin &l) { U r = ofInt(l.c); for (auto &t : l.t) r = add(r, mul(ofInt(t.second), hashU("sym" + std::to_string(t.first)))); F2 f; f.a = r; return node(f, l.t.empty(), (double)l.c); }
static F2 hashed(const std::string &k) { F2 f; f.a = hashU(k); return f; }
static std::string fs(F2 f) { return std::to_string(f.a) + "_" + std::to_string(f.b); }
static F2 half(F2 x, const char *tag) {  // an odd function of x
  if (x.zero()) return x; F2 n = sub(F2(), x); return x < n ? hashed(tag + fs(x)) : sub(F2(), hashed(tag + fs(n)));
}
static F2 rootOf(U x) { U r = pw(x, (P + 1) / 4); F2 q; if (mul(r, r) == x) { q.a = r < P - r ? r : P - r; return q; } r = pw(sub(0, x), (P + 1) / 4); q.b = r < P - r ? r : P - r; return q; }
// A pure function of floating-point arguments, or -1 when nothing more is known than that it is one.
int algNarrow(int id) {
  if (FT[id].isConst) return fltConst((double)(float)FT[id].cv);
  F2 x = fp(id); if (Narrowed.count(x) || x.zero()) return id;
  F2 r = half(x, "narrow"); Narrowed.insert(r); Narrowed.insert(sub(F2(), r)); return node(r);
}
int algFun(std::string f, const std::vector<int> &a) {
  if (f.rfind("llvm.", 0) == 0) { f = f.substr(5); f = f.substr(0, f.find('.')); }
  if (f.size() > 1 && f.back() == 'f' && (f == "sqrtf" || f == "sinf" || f == "cosf" || f == "fabsf" || f == "tanf" || f == "expf" || f == "powf" || f == "sinhf" || f == "coshf" || f == "tanhf" || f == "atan2f" || f == "acosf")) f.pop_back();
  F2 one; one.a = 1; F2 two; two.a = 2;
  if (f == "fmuladd" || f == "fma") return algOp('+', algOp('*', a[0], a[1]), a[2]);
  if (a.size() == 1) {
    F2 x = fp(a[0]); bool c = FT[a[0]].isConst; double v = FT[a[0]].cv;
    if (f == "fabs") { if (c) { F2 m = v < 0 ? sub(F2(), x) : x; return node(m, true, std::fabs(v)); } if (x.zero()) return a[0]; F2 n = sub(F2(), x); return node(hashed("fabs" + fs(x < n ? x : n))); }
    if (f == "sqrt") {
      if (c && v < 0) return -1; if (x.zero()) return a[0];
      auto known = RootOf.find(x); if (known != RootOf.end()) return node(known->second, c, c ? std::sqrt(v) : 0);
      if (x.b == 0) { F2 q = rootOf(x.a); RootOf[x] = q; RootOf[inv(x)] = inv(q); return node(q, c, c ? std::sqrt(v) : 0); }
      return node(hashed("sqrt" + fs(x)));
    }
    if (f == "sin" || f == "cos" || f == "tan") {
      F2 C = one, S; Dec d = dec(a[0]); auto turn = [&](F2 c, F2 s) { F2 r = sub(mul(C, c), mul(S, s)); S = add(mul(S, c), mul(C, s)); C = r; };
      for (auto &t : d.a) { F2 h, o2, c, s; h.a = hashU("trig" + std::to_string(fp(t.first).a) + "_" + std::to_string(fp(t.first).b)); F2 h2 = mul(h, h), w = inv(add(one, h2)); c = mul(sub(one, h2), w); s = mul(mul(two, h), w); if (t.second < 0) s = sub(F2(), s); for (int i = 0; i < std::abs(t.second); ++i) turn(c, s); }
      F2 q3, hf; q3 = mul(rootOf(3), inv(two)); hf = inv(two); { F2 three; three.a = 3; RootOf.emplace(three, rootOf(3)); }
      int q = ((d.q % 12) + 12) % 12; for (; q >= 3; q -= 3) turn(F2(), one); for (; q > 0; --q) turn(q3, hf);
      F2 fc = C, fs = S; int nc = node(fc), ns = node(fs); IvOf.emplace(nc, std::make_pair(-1.0, 1.0)); IvOf.emplace(ns, std::make_pair(-1.0, 1.0)); TrigOf.emplace(std::make_pair(ns, nc), a[0]);
      return f == "cos" ? nc : f == "sin" ? ns : algOp('/', ns, nc);
    }
    if (f == "sinh" || f == "cosh" || f == "tanh") { F2 t = half(x, "hyp"), t2 = mul(t, t), d = inv(sub(one, t2)), s = mul(mul(two, t), d), k = mul(add(one, t2), d); return node(f == "sinh" ? s : f == "cosh" ? k : mul(s, inv(k)), c && v == 0, f == "cosh"); }
    if (f == "exp" && x.zero()) return fltConst(1);
    if (f == "acos") { auto k = AcosOf.find(x); if (k != AcosOf.end()) return k->second; }
    if (f == "__v_cube") { F2 y = mul(x, mul(x, x)); CubeRootOf[y] = x; CubeRootOf[neg(y)] = neg(x); return algOp('*', a[0], algOp('*', a[0], a[0])); }
    if (f == "__v_cosine") { int k = algFun("cos", a); AcosOf[fp(k)] = a[0]; return k; }
  }
  if (f == "atan2" && a.size() == 2) { int n = fltMemo("atan2," + std::to_string(a[0]) + "," + std::to_string(a[1])); fp(n); IvOf[n] = {-3.14159265358979323846, 3.14159265358979323846}; auto it = TrigOf.find({a[0], a[1]}); if (it != TrigOf.end()) DecOf[n] = dec(it->second); return n; }
  if (f == "pow" && a.size() == 2 && FT[a[1]].isConst) { double e = FT[a[1]].cv; if (e == std::nearbyint(e) && std::fabs(e) <= 64) { int r = fltConst(1); for (int i = 0; i < std::fabs(e); ++i) r = algOp('*', r, a[0]); return e < 0 ? algOp('/', fltConst(1), r) : r; } if (e == 0.5) return algFun("sqrt", {a[0]}); if (std::fabs(e * 3 - 1) < 1e-15) { auto k = CubeRootOf.find(fp(a[0])); if (k != CubeRootOf.end()) return node(k->second); } }
  return -1;
}
// The place of a value in the order of the reals, as an integer term: a < b is kept as rank(a) < rank(b).
// what is negative, zero or positive as x is less than, equal to or greater than y
Lin algOrder(int x, int y) {
  auto sc = [](int v) { auto i = ScaleOf.find(v); return i == ScaleOf.end() ? std::make_pair(v, 1.0) : i->second; }; auto a = sc(x), b = sc(y);
  if (x != y && a.first == b.first && !FT[x].isConst && !FT[y].isConst) { double d = a.second - b.second; int base = a.first; if (d != 0 && !FT[base].isConst && std::fabs(d) > 1e-9) { Lin l = algRank(base); return d > 0 ? l : Lin(0) - l; } }
  return x == y ? Lin(0) : algRank(x) - algRank(y);
}
Lin algRank(int id) {
  if (FT[id].isConst && std::fabs(FT[id].cv) < (1 << 20)) return Lin((I)std::llround(FT[id].cv * (1 << 20)));
  auto bo = BaseOf.find(id); if (bo != BaseOf.end() && std::fabs(bo->second.second) < (1 << 20)) return algRank(bo->second.first) + Lin((I)std::llround(bo->second.second * (1 << 20)));
  int n = algOp('-', fltConst(0), id), base = std::min(id, n);
  int m = ST.memoSym("rank" + std::to_string(base), 64); ST.v[m].ranged = true; ST.v[m].lo = -((I)1 << 50); ST.v[m].hi = (I)1 << 50;
  return Lin::sym(m, base == id ? 1 : -1);
}
