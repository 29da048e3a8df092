// A polyline with its corners rounded by quintic polynomials, as real-number algebra.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include <limits>
#include <iostream>
#include "mini_matrix.h"
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
#include "ecl_geometry/src/lib/polynomial_blueprints.cpp"
#include "ecl_geometry/src/lib/smooth_linear_spline.cpp"
using namespace ecl;
namespace drv { double in(); }

#define SAME(a, b, m) __v_assert(__v_same(a, b), m)
namespace drv {
double in() { return __v_double("x"); }
double asked[2][2], greatest, least, bound; bool limited, easy;
// any acceleration, or just one that is allowed and one that is not
double some() { if (easy) return 0.0; if (!limited) return __v_double("acceleration"); if (__v_range(0, 1)) return 0.0; return bound; }
}
// The extrema are decided on their own (A02); here any two numbers may be the greatest and least acceleration.
namespace ecl {
double Maximum<CubicPolynomial>::operator()(const double &a, const double &b, const CubicPolynomial &) { drv::asked[0][0] = a; drv::asked[0][1] = b; return drv::greatest = drv::some(); }
double Minimum<CubicPolynomial>::operator()(const double &a, const double &b, const CubicPolynomial &) { drv::asked[1][0] = a; drv::asked[1][1] = b; return drv::least = drv::some(); }
}
namespace drv {
// n+1 points in increasing order, no corner candidate at zero exactly (the shift of a quintic is decided on its own)
struct Points { double x[6], y[6], slope[5]; int n; Array<double> X, Y; Points(int k) : n(k), X(k + 1), Y(k + 1) {
  for (int i = 0; i <= n; ++i) { x[i] = in(); y[i] = in(); X[i] = x[i]; Y[i] = y[i]; } for (int i = 0; i < n; ++i) __v_assume(x[i] < x[i + 1]);
  for (int i = 0; i < n; ++i) slope[i] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
  for (int i = 1; i < n; ++i) for (int j = 1; j <= 5; ++j) { __v_assume(left(i, j) != 0.0); __v_assume(right(i, j) != 0.0); } }
  // a corner takes up to half of a segment, or all of it where the segment has no other corner
  double left(int i, int j) const { return x[i] - j * (x[i] - x[i - 1]) / (i == 1 ? 5 : 10); } double right(int i, int j) const { return x[i] + j * (x[i + 1] - x[i]) / (i == n - 1 ? 5 : 10); }
  double line(int i, double t) const { return y[i] + slope[i] * (t - x[i]); } };
void check(const Points &p, const SmoothLinearSpline &s) {
  int n = p.n; const Array<double> &d = s.domain(); __v_assert(d.size() == 2 * (unsigned)n, "A03: a smoothed polyline has two ends and two points for every corner"); SAME(d[0], p.x[0], "A03: a smoothed polyline has the ends it was given"); SAME(d[2 * n - 1], p.x[n], "A03: a smoothed polyline has the ends it was given");
  for (int i = 1; i < n; ++i) { double l = d[2 * i - 1], r = d[2 * i]; bool found = false;
    if (__v_same(l, p.x[i]) && __v_same(r, p.x[i])) { found = true; __v_assert(p.slope[i - 1] == p.slope[i], "A03: a corner is left sharp"); __v_reach("no corner"); } else for (int j = 1; j <= 5; ++j) if (__v_same(l, p.left(i, j)) && __v_same(r, p.right(i, j))) found = true;
    __v_assert(found, "A03: a corner reaches beyond its share of the segments"); }
  for (int i = 0; i + 1 < 2 * n; ++i) if (__v_same(d[i], d[i + 1])) ; else __v_assume(d[i] < d[i + 1]);
  for (int i = 0; i < n; ++i) { double t = in(); __v_assume(d[2 * i] < t && t < d[2 * i + 1]); SAME(s(t), p.line(i, t), "A03: a smoothed polyline leaves its straight segments"); SAME(s.derivative(t), p.slope[i], "A03: a smoothed polyline leaves its straight segments"); SAME(s.dderivative(t), 0.0, "A03: a smoothed polyline is curved where it is straight"); }
  SAME(s(d[0]), p.y[0], "A03: a smoothed polyline does not start at its first point"); SAME(s(d[2 * n - 1]), p.y[n], "A03: a smoothed polyline does not end at its last point");
}
void corner(const Points &p, const SmoothLinearSpline &s, int i) {
  double l = p.left(i, 1), r = p.right(i, 1), t = in(); const Array<double> &d = s.domain(); SAME(d[2 * i - 1], l, "A03: a corner is not where it was made"); SAME(d[2 * i], r, "A03: a corner is not where it was made"); __v_assume(d[2 * i - 1] < t && t < d[2 * i]);
  QuinticPolynomial q = QuinticPolynomial::Interpolation(l, p.line(i - 1, l), p.slope[i - 1], 0.0, r, p.line(i, r), p.slope[i], 0.0);
  switch (__v_range(0, 2)) { case 0: SAME(s(t), q(t), "A03: a place of a smoothed polyline belongs to another corner"); break; case 1: SAME(s.derivative(t), q.derivative(t), "A03: the slope of a smoothed polyline is that of another corner"); break; default: SAME(s.dderivative(t), q.dderivative(t), "A03: the curvature of a smoothed polyline is that of another corner"); }
  __v_reach("corner");
}
}
using drv::in;
#define EXACTLY __v_algebra(); __v_narrow(); __v_exact(); __v_precise(400); __v_unroll(40);
#define LIMITED drv::limited = true; drv::bound = in(); __v_assume(0.0 < std::fabs(drv::bound));
// one corner: value, slope and curvature agree where the corner meets the straight pieces
DRIVER(onecorner) { EXACTLY
  drv::Points p(2); double a = in(); __v_assume(p.slope[0] != p.slope[1]); bool refused = false; 
  TRY(SmoothLinearSpline s(p.X, p.Y, a); const Array<double> &d = s.domain(); SAME(drv::asked[0][0], d[1], "A03: the acceleration of another corner is bounded"); SAME(drv::asked[0][1], d[2], "A03: the acceleration of another corner is bounded"); SAME(drv::asked[1][0], d[1], "A03: the acceleration of another corner is bounded"); SAME(drv::asked[1][1], d[2], "A03: the acceleration of another corner is bounded");
    __v_assert(std::fabs(drv::greatest) < std::fabs(a) && std::fabs(drv::least) < std::fabs(a), "A03: a corner is taken with more acceleration than allowed");
    drv::check(p, s); double l = d[1], r = d[2], t = in(); __v_assume(l < t && t < r); QuinticPolynomial q = QuinticPolynomial::Interpolation(l, p.line(0, l), p.slope[0], 0.0, r, p.line(1, r), p.slope[1], 0.0);
    SAME(s(t), q(t), "A03: a corner does not join the straight segments smoothly"); SAME(s.derivative(t), q.derivative(t), "A03: a corner does not join the straight segments smoothly"); SAME(s.dderivative(t), q.dderivative(t), "A03: a corner does not join the straight segments smoothly");
    SAME(s(l), p.line(0, l), "A03: a smoothed polyline jumps at a corner"); SAME(s(r), p.line(1, r), "A03: a smoothed polyline jumps at a corner"); SAME(s.derivative(r), p.slope[1], "A03: the slope of a smoothed polyline jumps at a corner"); SAME(s.dderivative(r), 0.0, "A03: the curvature of a smoothed polyline jumps at a corner"); __v_reach("corner"); )
}
DRIVER(corners1) { EXACTLY LIMITED drv::Points p(1); SmoothLinearSpline s(p.X, p.Y, drv::bound); drv::check(p, s); }
DRIVER(corners2) { EXACTLY LIMITED drv::Points p(2); TRY(SmoothLinearSpline s(p.X, p.Y, drv::bound); drv::check(p, s);) }
DRIVER(corners3) { EXACTLY LIMITED drv::Points p(3); TRY(SmoothLinearSpline s(p.X, p.Y, drv::bound); drv::check(p, s);) }
DRIVER(corners4) { EXACTLY LIMITED drv::Points p(4); __v_assume(p.slope[0] == p.slope[1]); TRY(SmoothLinearSpline s(p.X, p.Y, drv::bound); drv::check(p, s);) }
// several corners: each place of each corner belongs to the quintic of that corner
DRIVER(cornerpieces) { EXACTLY drv::easy = drv::limited = true; drv::bound = in(); __v_assume(0.0 < std::fabs(drv::bound)); drv::Points p(3); __v_assume(p.slope[0] != p.slope[1]); __v_assume(p.slope[1] != p.slope[2]);
  TRY(SmoothLinearSpline s(p.X, p.Y, drv::bound); const Array<double> &d = s.domain(); for (int i = 0; i < 5; ++i) __v_assume(d[i] < d[i + 1]);
    if (__v_range(0, 1)) drv::corner(p, s, 1); else drv::corner(p, s, 2); )
}
DRIVER(cornersizes) { EXACTLY Array<double> x(3), y(2); for (int i = 0; i < 3; ++i) x[i] = in(); for (int i = 0; i < 2; ++i) y[i] = in();
#ifndef V_NOEXC
  bool refused = false; try { SmoothLinearSpline s(x, y, in()); } catch (const DataException<int> &e) { refused = e.flag() == OutOfRangeError; } __v_assert(refused, "A03: a smoothed polyline is made from more places than values");
#endif
}
