// Polynomials, interpolation and splines as real-number algebra: for all coefficients and knots.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include <limits>
#include <iostream>
#include "mini_matrix.h"
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
#include "ecl_geometry/src/lib/polynomial.cpp"
#include "ecl_geometry/src/lib/polynomial_blueprints.cpp"
#include "ecl_geometry/src/lib/cubic_spline.cpp"
#include "ecl_geometry/src/lib/cubic_spline_blueprints.cpp"
#include "ecl_geometry/src/lib/tension_function.cpp"
#include "ecl_geometry/src/lib/tension_spline.cpp"
#include "ecl_geometry/src/lib/tension_spline_blueprints.cpp"
using namespace ecl;

#define SAME(a, b, m) __v_assert(__v_same(a, b), m)
namespace drv {
double in() { return __v_double("x"); }
// a number, with zero told apart from the others, so that code may treat it specially
double place() { if (__v_range(0, 1)) return 0.0; double x = __v_double("x"); __v_assume(x != 0.0); return x; }
template <unsigned N> void fill(Polynomial<N> &p, double *c) { for (unsigned i = 0; i <= N; ++i) { c[i] = in(); p.coefficients()[i] = c[i]; } }
// value and derivatives written out independently (Horner)
double value(const double *c, int n, double x) { double r = 0; for (int i = n; i >= 0; --i) r = r * x + c[i]; return r; }
double slope(const double *c, int n, double x) { double r = 0; for (int i = n; i >= 1; --i) r = r * x + i * c[i]; return r; }
double curve(const double *c, int n, double x) { double r = 0; for (int i = n; i >= 2; --i) r = r * x + i * (i - 1) * c[i]; return r; }
template <unsigned N> void polynomial() {
  Polynomial<N> p; for (unsigned i = 0; i <= N; ++i) __v_assert(__v_same(p.coefficients()[i], 0.0), "A02: a new polynomial is zero");
  double c[N + 1]; fill(p, c); const Polynomial<N> &k = p; double x = in(), h = in();
  SAME(k(x), value(c, N, x), "A02: the value of a polynomial is not the sum of its terms");
  SAME(k.derivative(x), slope(c, N, x), "A02: the derivative of a polynomial at a point is wrong");
  SAME(k.dderivative(x), curve(c, N, x), "A02: the second derivative of a polynomial at a point is wrong");
  Polynomial<N - 1> d = k.derivative(); SAME(d(x), slope(c, N, x), "A02: the derivative of a polynomial is not its derivative");
  for (unsigned i = 0; i < N; ++i) SAME(d.coefficients()[i], (i + 1) * c[i + 1], "A02: the derivative of a polynomial is not its derivative");
  p.shift_horizontal(h); SAME(p(x), value(c, N, x - h), "A02: a polynomial shifted to the right by h is not p(x-h)");
  __v_reach("polynomial");
}
}
using namespace drv;
DRIVER(polynomials) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  switch (__v_range(0, 5)) { case 0: polynomial<1>(); break; case 1: polynomial<2>(); break; case 2: polynomial<3>(); break; case 3: polynomial<4>(); break; case 4: polynomial<5>(); break; default: polynomial<7>(); }
}
DRIVER(constant) { __v_algebra(); __v_narrow(); Polynomial<0> p; double v = in(), x = in(); SAME(p(x), 0.0, "A02: a new polynomial is zero"); p.coefficients()[0] = v; p.shift_horizontal(x); SAME(p(x), v, "A02: a constant is the same everywhere"); SAME(p.derivative(x), 0.0, "A02: the derivative of a constant is zero"); SAME(p.dderivative(x), 0.0, "A02: the derivative of a constant is zero"); SAME(p.derivative()(x), 0.0, "A02: the derivative of a constant is zero"); }
DRIVER(division) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  double x = in(), f = in(), r, c[4];
  if (__v_range(0, 1)) { QuadraticPolynomial p; fill(p, c); LinearFunction q = QuadraticPolynomial::Division(p, f, r); SAME(q(x) * (x - f) + r, value(c, 2, x), "A02: quotient times divisor plus remainder is not the dividend"); SAME(r, value(c, 2, f), "A02: the remainder of a synthetic division is the value at the root of the divisor"); }
  else { CubicPolynomial p; fill(p, c); QuadraticPolynomial q = CubicPolynomial::Division(p, f, r); SAME(q(x) * (x - f) + r, value(c, 3, x), "A02: quotient times divisor plus remainder is not the dividend"); SAME(r, value(c, 3, f), "A02: the remainder of a synthetic division is the value at the root of the divisor"); }
}
DRIVER(roots) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  double c[4]; c[0] = in(); c[1] = in(); c[2] = in();
  if (__v_range(0, 1)) { LinearFunction p; p.coefficients()[0] = c[0]; p.coefficients()[1] = c[1]; Array<double> r = LinearFunction::Roots(p);
    if (c[1] == 0) __v_assert(r.size() == 0, "A02: a constant has no root"); else { __v_assert(r.size() == 1, "A02: a line has one root"); if (r.size() == 1) SAME(value(c, 1, r[0]), 0.0, "A02: a root that was found is not a root"); } return; }
  QuadraticPolynomial p; p.coefficients()[0] = c[0]; p.coefficients()[1] = c[1]; p.coefficients()[2] = c[2]; Array<double> r = QuadraticPolynomial::Roots(p); double disc = c[1] * c[1] - 4 * c[2] * c[0];
  if (c[2] == 0) { if (c[1] == 0) __v_assert(r.size() == 0, "A02: a constant has no root"); else { __v_assert(r.size() == 1, "A02: a line has one root"); if (r.size() == 1) SAME(value(c, 1, r[0]), 0.0, "A02: a root that was found is not a root"); } }
  else if (disc > 0) { __v_reach("two roots"); __v_assert(r.size() == 2, "A02: a quadratic of positive discriminant has two roots"); if (r.size() == 2) { SAME(value(c, 2, r[0]), 0.0, "A02: a root that was found is not a root"); SAME(value(c, 2, r[1]), 0.0, "A02: a root that was found is not a root"); __v_assert(!__v_same(r[0], r[1]), "A02: the same root is given twice"); } }
  else if (disc == 0) { __v_reach("double root"); __v_assert(r.size() == 1, "A02: a quadratic of discriminant zero has one root"); if (r.size() == 1) SAME(slope(c, 2, r[0]), 0.0, "A02: a double root is a root of the derivative"); }
  else { __v_reach("no root"); __v_assert(r.size() == 0, "A02: a quadratic of negative discriminant has no root"); }
}
DRIVER(cubicroots) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  // a((x-s)^3 + p(x-s) + q), by the sign of what decides the number of its roots
  double a = in(), s = in(), p, q, m = in(), c[4]; __v_assume(a != 0.0);
  int kind = __v_range(0, 5); switch (kind) { case 0: p = 0.0; q = 0.0; break; case 1: p = 0.0; q = in(); __v_assume(q != 0.0); break; case 2: p = in(); __v_assume(p != 0.0); q = 0.0; break; case 3: p = -3 * m * m; q = 2 * m * m * m; __v_assume(p < 0.0); __v_assume(q != 0.0); break; case 4: p = in(); q = in(); __v_assume(p != 0.0); __v_assume(q != 0.0); break; default: a = 0.0; p = in(); q = in(); }
  c[3] = a; c[2] = -3 * a * s; c[1] = 3 * a * s * s + a * p; c[0] = -a * s * s * s - a * p * s + a * q; if (kind == 5) { c[2] = m; c[1] = p; c[0] = q; }
  double D = p * p * p / 27 + q * q / 4; if (kind == 2) { if (p < 0) __v_assume(D < 0); else __v_assume(D > 0); } if (kind == 1) __v_assume(D > 0);
  CubicPolynomial f; for (int i = 0; i < 4; ++i) f.coefficients()[i] = c[i]; Array<double> r = CubicPolynomial::Roots(f);
  if (kind == 5) { double disc = p * p - 4 * m * q; if (m == 0) { __v_assert(r.size() == (p == 0 ? 0 : 1), "A02: a cubic without cubic and quadratic term has the roots of a line"); if (r.size() == 1) SAME(p * r[0] + q, 0.0, "A02: a root that was found is not a root"); } else { __v_assert(r.size() == (disc > 0 ? 2 : disc == 0 ? 1 : 0), "A02: a cubic without cubic term has the roots of a quadratic"); if (r.size() == 2) { SAME(value(c, 3, r[0]), 0.0, "A02: a root that was found is not a root"); SAME(value(c, 3, r[1]), 0.0, "A02: a root that was found is not a root"); } } __v_reach("quadratic"); return; }
  if (kind == 0) { __v_assert(r.size() == 1, "A02: a triple root is one root"); if (r.size() == 1) SAME(r[0], s, "A02: a root that was found is not a root"); __v_reach("triple root"); }
  else if (kind == 1) { __v_assert(r.size() == 1, "A02: a cubic has the wrong number of roots"); __v_reach("a cube root"); }
  else if (kind == 2) { if (p < 0) { __v_assert(r.size() == 3, "A02: a cubic has the wrong number of roots"); __v_reach("three roots around the middle"); if (r.size() == 3) { for (int i = 0; i < 3; ++i) SAME(value(c, 3, r[i]), 0.0, "A02: a root that was found is not a root"); __v_assert(!__v_same(r[0], r[1]) && !__v_same(r[1], r[2]) && !__v_same(r[0], r[2]), "A02: the same root is given twice"); } } else { __v_assert(r.size() == 1, "A02: a cubic has the wrong number of roots"); __v_reach("the middle only"); } }
  else if (kind == 3) { __v_assert(r.size() == 2, "A02: a cubic has the wrong number of roots"); __v_reach("double root"); if (r.size() == 2) { for (int i = 0; i < 2; ++i) SAME(value(c, 3, r[i]), 0.0, "A02: a root that was found is not a root"); __v_assert(!__v_same(r[0], r[1]), "A02: the same root is given twice"); } }
  else if (D > 0) { __v_assert(r.size() == 1, "A02: a cubic has the wrong number of roots"); __v_reach("one root"); } else if (D < 0) { __v_assert(r.size() == 3, "A02: a cubic has the wrong number of roots"); __v_reach("three roots"); }
}
DRIVER(cardanoone) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  // a((x-s)^3 + p(x-s) + q), built from what Cardano's formula has to find on the way: 0 = t^3 - 3uvt - (u^3+v^3) has the root u+v
  double a = in(), s = in(), u = in(), v = in(), c[4]; __v_assume(a != 0.0); __v_assume(u != 0.0);
  double U = __v_cube(u), V, p, q; __v_assume(U != 0.0); bool pure = __v_range(0, 1); if (pure) { p = 0.0; q = -U; V = 0.0; v = 0.0; } else { __v_assume(v != 0.0); V = __v_cube(v); p = -3 * u * v; q = -(U + V); __v_assume(p != 0.0); __v_assume(q != 0.0); }
  c[3] = a; c[2] = -3 * a * s; c[1] = 3 * a * s * s + a * p; c[0] = -a * s * s * s - a * p * s + a * q;
  double D = p * p * p / 27 + q * q / 4; __v_assume(D > 0);
  CubicPolynomial f; for (int i = 0; i < 4; ++i) f.coefficients()[i] = c[i]; Array<double> r = CubicPolynomial::Roots(f);
  __v_assert(r.size() == 1, "A02: a cubic has the wrong number of roots"); if (r.size() != 1) return;
  SAME(r[0], u + v + s, "A02: a root that was found is not a root"); if (pure) __v_reach("pure"); else __v_reach("two cube roots");
}
DRIVER(cardanothree) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  // p = -3w, q = -2w^(3/2) cos(3t): the roots are 2w^(1/2) cos(t + k 2pi/3)
  double a = in(), s = in(), w = in(), t = in(), c[4]; __v_assume(a != 0.0); __v_assume(w > 0.0);
  double g = sqrt(w), C = __v_cosine(3 * t), p = -3 * w, q = -2 * w * g * C; __v_assume(p < 0.0); __v_assume(q != 0.0);
  c[3] = a; c[2] = -3 * a * s; c[1] = 3 * a * s * s + a * p; c[0] = -a * s * s * s - a * p * s + a * q;
  double D = p * p * p / 27 + q * q / 4; __v_assume(D < 0);
  CubicPolynomial f; for (int i = 0; i < 4; ++i) f.coefficients()[i] = c[i]; Array<double> r = CubicPolynomial::Roots(f);
  __v_assert(r.size() == 3, "A02: a cubic has the wrong number of roots"); if (r.size() != 3) return;
  for (int i = 0; i < 3; ++i) SAME(value(c, 3, r[i]), 0.0, "A02: a root that was found is not a root");
  __v_assert(!__v_same(r[0], r[1]) && !__v_same(r[1], r[2]) && !__v_same(r[0], r[2]), "A02: the same root is given twice"); __v_reach("three roots");
}
#ifdef V_NOEXC
#define MET if (cross.fail()) throw StandardException(LOC, OutOfRangeError); met = true
#else
#define MET met = true
#endif
DRIVER(intersection) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  LinearFunction f, g; double a[2], b[2]; fill(f, a); fill(g, b);
  ecl::Intersection<LinearFunction> cross; bool met = false;
  __v_assert(!cross.fail(), "A02: nothing failed yet");
  try { CartesianPoint2d p = cross(f, g); MET; SAME(p.y(), value(a, 1, p.x()), "A02: the intersection is not on the first line"); SAME(p.y(), value(b, 1, p.x()), "A02: the intersection is not on the second line"); __v_reach("met"); } catch (const StandardException &e) { __v_assert(e.flag() == OutOfRangeError, "A02: parallel lines are refused as out of range"); __v_reach("parallel"); }
  __v_assert(cross.fail() == !met, "A02: the flag of a failed operation tells about the last one");
  bool first = met; met = false; LinearFunction h; double d[2]; fill(h, d);
  try { CartesianPoint2d p = cross(f, h); MET; SAME(p.y(), value(a, 1, p.x()), "A02: the intersection is not on the first line"); SAME(p.y(), value(d, 1, p.x()), "A02: the intersection is not on the second line"); if (!first) __v_reach("met after a failure"); } catch (const StandardException &e) {}
  __v_assert(cross.fail() == !met, "A02: the flag of a failed operation tells about the last one");
}

// ---- extrema
DRIVER(extrema) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(400); __v_unroll(40);
  double a = in(), b = in(), c[4]; __v_assume(a < b);
  if (__v_range(0, 1)) { LinearFunction p; fill(p, c); double lo = LinearFunction::Minimum(a, b, p), hi = LinearFunction::Maximum(a, b, p), u = value(c, 1, a), v = value(c, 1, b);
    __v_assert(!(lo > u) && !(lo > v) && (__v_same(lo, u) || __v_same(lo, v)), "A02: the minimum of a line is the lower of its ends"); __v_assert(!(hi < u) && !(hi < v) && (__v_same(hi, u) || __v_same(hi, v)), "A02: the maximum of a line is the higher of its ends"); __v_reach("line"); return; }
  CubicPolynomial p; fill(p, c); double u = value(c, 3, a), v = value(c, 3, b), A = 3 * c[3], B = 2 * c[2], C = c[1];
  bool top = __v_range(0, 1); double m = top ? CubicPolynomial::Maximum(a, b, p) : CubicPolynomial::Minimum(a, b, p);
  if (top) __v_assert(!(m < u) && !(m < v), "A02: the maximum of a cubic is below one of its ends"); else __v_assert(!(m > u) && !(m > v), "A02: the minimum of a cubic is above one of its ends");
  if (A == 0) { __v_reach("quadratic"); double r = -C / B, w = value(c, 3, r); bool in = a < r && r < b; if (in) { if (top) __v_assert(!(m < w), "A02: an extremum of a cubic misses a turning point"); else __v_assert(!(m > w), "A02: an extremum of a cubic misses a turning point"); } __v_assert(__v_same(m, u) || __v_same(m, v) || (in && __v_same(m, w)), "A02: an extremum of a cubic is not one of its values"); return; }
  double D = B * B - 4 * A * C; bool known = __v_same(m, u) || __v_same(m, v);
  if (D > 0) { __v_reach("turning points"); double q = sqrt(D), r = (-B + q) / (2 * A), t = (-B - q) / (2 * A), w = value(c, 3, r), z = value(c, 3, t); SAME(slope(c, 3, r), 0.0, "a turning point"); SAME(slope(c, 3, t), 0.0, "a turning point");
    if (a < r && r < b) { known = known || __v_same(m, w); if (top) __v_assert(!(m < w), "A02: an extremum of a cubic misses a turning point"); else __v_assert(!(m > w), "A02: an extremum of a cubic misses a turning point"); }
    if (a < t && t < b) { known = known || __v_same(m, z); if (top) __v_assert(!(m < z), "A02: an extremum of a cubic misses a turning point"); else __v_assert(!(m > z), "A02: an extremum of a cubic misses a turning point"); } }
  __v_assert(known, "A02: an extremum of a cubic is not one of its values");
}
// ---- interpolation
DRIVER(linear) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  double a = place(), b = place(), u = in(), v = in(), x = in(); __v_assume(a != b); LinearFunction p = LinearFunction::Interpolation(a, u, b, v); SAME(p(a), u, "A03: a line through two points misses the first"); SAME(p(b), v, "A03: a line through two points misses the second"); SAME(p.derivative(x), (v - u) / (b - a), "A03: a line through two points has the wrong slope");
  LinearFunction q = LinearFunction::PointSlopeForm(a, u, v); SAME(q(a), u, "A03: a line given by point and slope misses the point"); SAME(q.derivative(x), v, "A03: a line given by point and slope has another slope");
  LinearFunction r = LinearFunction::Interpolation(a, u, b, v).instantiate(), t = LinearFunction::PointSlopeForm(a, u, v).instantiate(); SAME(r(x), p(x), "A03: a blueprint makes the same function however it is used"); SAME(t(x), q(x), "A03: a blueprint makes the same function however it is used"); __v_reach("line");
}
DRIVER(cubic) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  double a = place(), b = place(), u = in(), v = in(), s = in(), t = in(), x = in(); __v_assume(a != b);
  { CubicPolynomial p = CubicPolynomial::DerivativeInterpolation(a, u, s, b, v, t); SAME(p(a), u, "A03: a cubic misses its first point"); SAME(p(b), v, "A03: a cubic misses its last point"); SAME(p.derivative(a), s, "A03: a cubic has the wrong slope at its first point"); SAME(p.derivative(b), t, "A03: a cubic has the wrong slope at its last point");
    CubicPolynomial q = CubicPolynomial::DerivativeInterpolation(a, u, s, b, v, t).instantiate(); SAME(q(x), p(x), "A03: a blueprint makes the same function however it is used"); }
  { CubicPolynomial p = CubicPolynomial::SecondDerivativeInterpolation(a, u, s, b, v, t); SAME(p(a), u, "A03: a cubic misses its first point"); SAME(p(b), v, "A03: a cubic misses its last point"); SAME(p.dderivative(a), s, "A03: a cubic has the wrong curvature at its first point"); SAME(p.dderivative(b), t, "A03: a cubic has the wrong curvature at its last point");
    CubicPolynomial q = CubicPolynomial::SecondDerivativeInterpolation(a, u, s, b, v, t).instantiate(); SAME(q(x), p(x), "A03: a blueprint makes the same function however it is used"); }
}
DRIVER(quintic) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  double a = place(), b = place(), u = in(), v = in(), s = in(), t = in(), k = in(), l = in(), x = in(); __v_assume(a != b);
  QuinticPolynomial p = QuinticPolynomial::Interpolation(a, u, s, k, b, v, t, l); SAME(p(a), u, "A03: a quintic misses its first point"); SAME(p(b), v, "A03: a quintic misses its last point"); SAME(p.derivative(a), s, "A03: a quintic has the wrong slope at its first point"); SAME(p.derivative(b), t, "A03: a quintic has the wrong slope at its last point"); SAME(p.dderivative(a), k, "A03: a quintic has the wrong curvature at its first point"); SAME(p.dderivative(b), l, "A03: a quintic has the wrong curvature at its last point");
  QuinticPolynomial q = QuinticPolynomial::Interpolation(a, u, s, k, b, v, t, l).instantiate(); SAME(q(x), p(x), "A03: a blueprint makes the same function however it is used");
}
// ---- splines over n+1 knots in increasing order
namespace drv {
// which of the n+1 knots is at zero, if any
int zero(int n) { for (int i = 0; i <= n; ++i) if (__v_range(0, 1)) return i; return -1; }
struct Knots { double x[6], y[6]; int n; Array<double> X, Y; Knots(int k) : n(k), X(k + 1), Y(k + 1) { int z = zero(n); for (int i = 0; i <= n; ++i) { if (i == z) x[i] = 0.0; else { x[i] = __v_double("knot"); __v_assume(x[i] != 0.0); } y[i] = __v_double("value"); X[i] = x[i]; Y[i] = y[i]; } for (int i = 0; i < n; ++i) __v_assume(x[i] < x[i + 1]); } };
int segments() { switch (__v_range(0, 3)) { case 0: return 1; case 1: return 2; case 2: return 3; default: return 4; } }
template <class S> void domain(const Knots &k, S &s) { __v_assert(s.domain().size() == (unsigned)k.n + 1, "A03: a spline has as many knots as it was given"); for (int i = 0; i <= k.n; ++i) SAME(s.domain()[i], k.x[i], "A03: a spline has the knots it was given"); for (int i = 0; i <= k.n; ++i) SAME(s(k.x[i]), k.y[i], "A03: a spline does not pass through the points it was given"); }
template <class S> void outside(const Knots &k, S &s) {
#if !defined(NDEBUG) && !defined(V_NOEXC)
  double x = in(); __v_assume(x < k.x[0] || x > k.x[k.n]); int refused = 0;
  try { s(x); } catch (const StandardException &e) { refused += e.flag() == OutOfRangeError; } try { s.derivative(x); } catch (const StandardException &e) { refused += e.flag() == OutOfRangeError; } try { s.dderivative(x); } catch (const StandardException &e) { refused += e.flag() == OutOfRangeError; }
  __v_assert(refused == 3, "A03: a spline is evaluated outside of its knots");
#endif
}
void cubicSpline(const Knots &k, CubicSpline &s) {
  domain(k, s); __v_assert(s.polynomials().size() == (unsigned)k.n, "A03: a spline has one polynomial for every two neighbouring knots");
  for (int i = 0; i < k.n; ++i) { double x = in(); __v_assume(k.x[i] < x && x < k.x[i + 1]); const CubicPolynomial &p = s.polynomials()[i]; SAME(p(k.x[i]), k.y[i], "A03: a spline jumps at a knot"); SAME(p(k.x[i + 1]), k.y[i + 1], "A03: a spline jumps at a knot");
    SAME(s(x), p(x), "A03: a spline is evaluated with the polynomial of another segment"); SAME(s.derivative(x), p.derivative(x), "A03: a spline is evaluated with the polynomial of another segment"); SAME(s.dderivative(x), p.dderivative(x), "A03: a spline is evaluated with the polynomial of another segment"); }
  for (int i = 0; i + 1 < k.n; ++i) SAME(s.polynomials()[i].derivative(k.x[i + 1]), s.polynomials()[i + 1].derivative(k.x[i + 1]), "A03: the slope of a cubic spline jumps at a knot");
  outside(k, s);
}
void curvature(const Knots &k, CubicSpline &s) { for (int i = 0; i + 1 < k.n; ++i) SAME(s.polynomials()[i].dderivative(k.x[i + 1]), s.polynomials()[i + 1].dderivative(k.x[i + 1]), "A03: the curvature of a C2 spline jumps at a knot"); }
}
DRIVER(natural) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  Knots k(drv::segments()); CubicSpline s = CubicSpline::Natural(k.X, k.Y); cubicSpline(k, s); curvature(k, s);
  SAME(s.polynomials()[0].dderivative(k.x[0]), 0.0, "A03: a natural spline is curved at its first point"); SAME(s.polynomials()[k.n - 1].dderivative(k.x[k.n]), 0.0, "A03: a natural spline is curved at its last point"); __v_reach("natural");
}
DRIVER(clamped) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  Knots k(drv::segments()); double a = in(), b = in(); CubicSpline s = CubicSpline::ContinuousDerivatives(k.X, k.Y, a, b); cubicSpline(k, s); curvature(k, s);
  SAME(s.derivative(k.x[0]), a, "A03: a clamped spline has another slope at its first point"); SAME(s.derivative(k.x[k.n]), b, "A03: a clamped spline has another slope at its last point"); __v_reach("clamped");
}
DRIVER(heuristic) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  Knots k(drv::segments()); double a = in(), b = in(); CubicSpline s = CubicSpline::DerivativeHeuristic(k.X, k.Y, a, b); cubicSpline(k, s);
  SAME(s.derivative(k.x[0]), a, "A03: a spline with given end slopes has another slope at its first point"); SAME(s.derivative(k.x[k.n]), b, "A03: a spline with given end slopes has another slope at its last point");
  for (int i = 1; i < k.n; ++i) SAME(s.derivative(k.x[i]), ((k.y[i] - k.y[i - 1]) / (k.x[i] - k.x[i - 1]) + (k.y[i + 1] - k.y[i]) / (k.x[i + 1] - k.x[i])) / 2, "A03: the slope at an inner knot is the mean of the slopes around it"); __v_reach("heuristic");
}
DRIVER(tension) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60); __v_unroll(40);
  Knots k(drv::segments()); double tau = in(); TensionSpline s = TensionSpline::Natural(k.X, k.Y, tau); domain(k, s); outside(k, s);
  double z[6]; for (int i = 0; i <= k.n; ++i) z[i] = s.dderivative(k.x[i]); SAME(z[0], 0.0, "A03: a natural tension spline is curved at its first point"); SAME(z[k.n], 0.0, "A03: a natural tension spline is curved at its last point");
  double left = 0; for (int i = 0; i < k.n; ++i) { double h = k.x[i + 1] - k.x[i], sh = sinh(tau * h), ch = cosh(tau * h), q = tau * tau, m = (k.y[i + 1] - k.y[i]) / h - (z[i + 1] - z[i]) / (q * h);
    double x = in(); __v_assume(k.x[i] < x && x < k.x[i + 1]); double p = sinh(tau * (k.x[i + 1] - x)), r = sinh(tau * (x - k.x[i])), cp = cosh(tau * (k.x[i + 1] - x)), cr = cosh(tau * (x - k.x[i]));
    SAME(s.dderivative(x), (z[i] * p + z[i + 1] * r) / sh, "A03: the curvature of a tension spline between knots is wrong"); SAME(s.derivative(x), (z[i + 1] * cr - z[i] * cp) / (tau * sh) + m, "A03: the slope of a tension spline between knots is wrong");
    SAME(s(x), (z[i] * p + z[i + 1] * r) / (q * sh) + (k.y[i] - z[i] / q) * (k.x[i + 1] - x) / h + (k.y[i + 1] - z[i + 1] / q) * (x - k.x[i]) / h, "A03: the value of a tension spline between knots is wrong");
    double right = (z[i + 1] - z[i] * ch) / (tau * sh) + m; if (i > 0) SAME(left, right, "A03: the slope of a tension spline jumps at a knot"); left = (z[i + 1] * ch - z[i]) / (tau * sh) + m; SAME(s.derivative(k.x[i + 1]), left, "A03: the slope of a tension spline at a knot is wrong"); }
  __v_reach("tension");
}
