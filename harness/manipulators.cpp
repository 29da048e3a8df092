// Waypoints and joint trajectories, as real-number algebra; the splines they are made of are stand-ins that are asked by name.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include <limits>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
#include "mini_matrix.h"
#include <ecl/containers/array.hpp>
#include <ecl/utilities/parameter.hpp>
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/function_math.hpp>
#include <ecl/geometry/spline_function.hpp>
#define private public
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
#include "ecl_geometry/src/lib/polynomial_blueprints.cpp"
#include "ecl_manipulators/src/lib/trajectory.cpp"
#undef private
using namespace ecl;
typedef WayPoint<JointAngles> Way; typedef Trajectory<JointAngles> Track;

#define SAME(a, b, m) __v_assert(__v_same(a, b), m)
#define EXACTLY __v_algebra(); __v_narrow(); __v_exact(); __v_precise(200); __v_unroll(40)
namespace drv {
double in() { return __v_double("x"); }
double mag(double x) { return x < 0 ? -x : x; }
double D[4], ends[2], lastx; int lasttag, lastkind, joints, failures, corner; double begins, tail;
}
// the pieces: a value, a slope and a curvature for each joint and place, nothing else is known
namespace ecl {
double SmoothLinearSpline::operator()(const double &x) const { return erf(x + discretised_domain[2]); }
double SmoothLinearSpline::derivative(const double &x) const { return erfc(x + discretised_domain[2]); }
double SmoothLinearSpline::dderivative(const double &x) const { return lgamma(x + discretised_domain[2]); }
}
Array<SmoothLinearSpline> straight(Track *t) asm("__v_over_ZN3ecl10TrajectoryILNS_20ManipulatorAngleTypeE0EE21generateLinearSplinesEv");
Array<SmoothLinearSpline> straight(Track *t) {
  if (drv::failures > 0) { --drv::failures; throw DataException<int>(LOC, ConstructorError, "", drv::corner); }
  Array<SmoothLinearSpline> s(t->dimension()); for (unsigned j = 0; j < t->dimension(); ++j) { s[j].discretised_domain.resize(4); s[j].discretised_domain[0] = 0.0; s[j].discretised_domain[1] = drv::begins; s[j].discretised_domain[2] = 1000.0 * (j + 1); s[j].discretised_domain[3] = drv::tail; }
  return s;
}
// a trajectory of n waypoints; the duration each segment is given, by hand or by its rates
#define WAYS(dim, n) Track t(dim); double at[4][2], rate[4][2], own[4]; for (int i = 0; i < n; ++i) { Way w(dim); for (int j = 0; j < dim; ++j) { at[i][j] = drv::in(); rate[i][j] = drv::in(); w.angles()[j] = at[i][j]; w.nominalRates()[j] = rate[i][j]; } own[i] = drv::in(); w.duration(own[i]); t.append(w); }
#define VALID(dim, n) for (int i = 0; i < n; ++i) { __v_assume(own[i] > 0.0); for (int j = 0; j < dim; ++j) __v_assume(rate[i][j] > 0.0); }

DRIVER(waypoint) { EXACTLY;
  int n; switch (__v_range(0, 2)) { case 0: n = 0; break; case 1: n = 1; break; default: n = 2; } Way w(n); __v_assert((int)w.dimension() == n, "A09: a waypoint has another dimension"); double a[2], r[2], c[2], m[2], d = drv::in();
  __v_assert(!w.rates_configured() && !w.accelerations_configured(), "A09: a new waypoint has neither rates nor accelerations"); const Way &k = w; SAME(w.duration(), 0.0, "A09: a new waypoint takes no time");
  for (int i = 0; i < n; ++i) { SAME(k.angles()[i], 0.0, "A09: a new waypoint is at zero"); SAME(k.rates()[i], 0.0, "A09: a new waypoint is at rest"); SAME(k.accelerations()[i], 0.0, "A09: a new waypoint is at rest"); SAME(w.nominalRates()[i], 1.0, "A09: a new waypoint has nominal rates of one"); }
  __v_assert(!w.rates_configured() && !w.accelerations_configured(), "A09: looking at rates does not configure them");
  for (int i = 0; i < n; ++i) { a[i] = drv::in(); r[i] = drv::in(); c[i] = drv::in(); m[i] = drv::in(); w.angles()[i] = a[i]; w.nominalRates()[i] = m[i]; } w.duration(d);
  bool rates = __v_range(0, 1), accelerations = __v_range(0, 1); if (rates) { Array<double> &x = w.rates(); for (int i = 0; i < n; ++i) x[i] = r[i]; } if (accelerations) { Array<double> &x = w.accelerations(); for (int i = 0; i < n; ++i) x[i] = c[i]; }
  __v_assert(w.rates_configured() == rates && w.accelerations_configured() == accelerations, "A09: a waypoint knows which of its parts were configured");
  Way v(w); __v_assert((int)v.dimension() == n && v.rates_configured() == rates && v.accelerations_configured() == accelerations, "A09: a copied waypoint is another"); SAME(v.duration(), d, "A09: a copied waypoint is another"); const Way &q = v;
  for (int i = 0; i < n; ++i) { SAME(q.angles()[i], a[i], "A09: a copied waypoint is another"); SAME(q.rates()[i], rates ? r[i] : 0.0, "A09: a copied waypoint is another"); SAME(q.accelerations()[i], accelerations ? c[i] : 0.0, "A09: a copied waypoint is another"); SAME(v.nominalRates()[i], m[i], "A09: a copied waypoint is another"); }
  __v_assert(v == w && !(v != w), "A09: a copy is equal"); double all = drv::in(); v.nominalRates(all); for (int i = 0; i < n; ++i) { SAME(v.nominalRates()[i], all, "A09: a common nominal rate is for each joint"); SAME(w.nominalRates()[i], m[i], "A09: a copy is independent"); }
  double b[2]; bool same = true; for (int i = 0; i < n; ++i) { b[i] = drv::in(); v.angles()[i] = b[i]; if (a[i] != b[i]) same = false; } __v_assert((v == w) == same && (v != w) == !same, "A09: waypoints are equal when all of their angles are");
  if (same) __v_reach("same"); else __v_reach("different");
}
DRIVER(approximate) { EXACTLY; Way v(2), w(2); double e = drv::in(), a[2], b[2]; bool near = true; for (int i = 0; i < 2; ++i) { a[i] = drv::in(); b[i] = drv::in(); v.angles()[i] = a[i]; w.angles()[i] = b[i]; if (drv::mag(a[i] - b[i]) > e) near = false; }
  bool got = v.approx(w, e); __v_assert(got == near, "A09: waypoints are near when no angle differs by more than is allowed"); if (near) __v_reach("near"); else __v_reach("far");
  int n = __v_range(0, 1) ? 1 : 3; v.redimension(n); __v_assert((int)v.dimension() == n, "A09: a waypoint has another dimension"); const Way &k = v; for (int i = 0; i < n; ++i) { SAME(k.angles()[i], 0.0, "A09: a waypoint of another dimension is at zero"); SAME(k.rates()[i], 0.0, "A09: a waypoint of another dimension is at rest"); SAME(k.accelerations()[i], 0.0, "A09: a waypoint of another dimension is at rest"); } }

// the time for each segment is at least the one it was given and the one its slowest joint needs, and no longer
#define DURATIONS(dim, n) WAYS(dim, n); VALID(dim, n); t.maxAccelerations(1.0); drv::failures = 0; drv::begins = drv::in(); drv::tail = drv::in(); __v_assume(drv::tail > 0.0); \
  double need[n - 1][dim]; for (int i = 0; i < n - 1; ++i) for (int j = 0; j < dim; ++j) need[i][j] = drv::mag(at[i + 1][j] - at[i][j]) / rate[i][j]; \
  t.linearSplineInterpolation(); \
  for (int i = 0; i < n - 1; ++i) { double d = t.waypoints[i].duration(); bool exact = __v_same(d, own[i]); __v_assert(!(d < own[i]), "A09: a segment takes less time than it was given"); for (int j = 0; j < dim; ++j) { __v_assert(!(d < need[i][j]), "A09: a segment takes less time than its rates allow"); if (__v_same(d, need[i][j])) exact = true; } __v_assert(exact, "A09: a segment takes more time than it was given or needs"); } \
  SAME(t.waypoints[n - 1].duration(), own[n - 1], "A09: the last waypoint keeps its duration"); SAME(t.duration(), drv::tail, "A09: a trajectory lasts as long as its spline"); __v_reach("done")
DRIVER(durations) { EXACTLY; DURATIONS(1, 3); }
DRIVER(durationsboth) { EXACTLY; DURATIONS(2, 2); }
// a spline that cannot be made at a corner stretches the segments that meet there, and nothing else
DRIVER(stretched) { EXACTLY; WAYS(1, 4); VALID(1, 4); t.maxAccelerations(1.0); drv::begins = drv::in(); drv::tail = drv::in(); __v_assume(drv::tail > 0.0);
  for (int i = 0; i < 4; ++i) { t.waypoints[i].angles()[0] = 0.0; } // (no rate asks for more time than was given)
  int k; switch (__v_range(0, 6)) { case 0: k = -1; break; case 1: k = 0; break; case 2: k = 1; break; case 3: k = 2; break; case 4: k = 3; break; case 5: k = 4; break; default: k = 5; } drv::corner = k; drv::failures = 1; bool twice = __v_range(0, 1); if (twice) drv::failures = 2;
  t.linearSplineInterpolation(); __v_assert(drv::failures == 0, "A09: a spline that cannot be made is tried again");
  // corner k joins segments k-2 and k-1 (the outermost corners only have one)
  for (int i = 0; i < 4; ++i) { double d = t.waypoints[i].duration(), w = own[i]; bool touched = k <= 1 ? i == 0 : k >= 4 ? i == 2 : i == k - 2 || i == k - 1; if (touched) __v_assert(d > w, "A09: the segments at a corner that is too sharp are given more time"); else SAME(d, w, "A09: a segment away from the corner keeps its duration"); }
  SAME(t.duration(), drv::tail, "A09: a trajectory lasts as long as its spline"); if (twice) __v_reach("twice"); else __v_reach("once"); }
// what a trajectory answers is what the spline of that joint answers
DRIVER(asked) { EXACTLY; Track t(2); for (int i = 0; i < 2; ++i) { Way w(2); w.duration(1.0); t.append(w); } t.maxAccelerations(1.0); drv::failures = 0; drv::begins = drv::in(); drv::tail = drv::in(); __v_assume(drv::tail > 0.0); t.linearSplineInterpolation();
  double x = drv::in(), f = drv::tail; bool far = f + 0.0001 < x, before = x < 0.0, over = f < x; int j = __v_range(0, 1) ? 1 : 0; double in = (over ? f : x) + 1000.0 * (j + 1), got; bool threw = false; double want; int which = __v_range(0, 2);
  if (which == 0) want = erf(in); else if (which == 1) want = erfc(in); else want = lgamma(in);
#ifdef NDEBUG
  __v_assume(!far); __v_assume(!before);
#endif
  try { if (which == 0) got = t(j, x); else if (which == 1) got = t.derivative(j, x); else got = t.dderivative(j, x); } catch (StandardException &e) { threw = true; __v_assert(e.flag() == OutOfRangeError, "A09: a time outside is refused as out of range"); }
  __v_assert(threw == (far || before), "A09: a trajectory answers within its time and nowhere else"); if (!threw) { SAME(got, want, "A09: a trajectory answers with another joint, place or derivative"); __v_reach("inside"); } else __v_reach("outside"); }
// what cannot be interpolated is refused, and what there was is kept
DRIVER(refused) { EXACTLY; int n; switch (__v_range(0, 2)) { case 0: n = 0; break; case 1: n = 1; break; default: n = 2; } Track t(1); double a[2], r[2], d[2]; bool rates = true, still = false; for (int i = 0; i < n; ++i) { Way w(1); a[i] = drv::in(); r[i] = drv::in(); d[i] = drv::in(); __v_assume(d[i] >= 0.0); w.angles()[0] = a[i]; w.nominalRates()[0] = r[i]; w.duration(d[i]); t.append(w); }
  if (n == 2) { if (r[0] <= 0.0) rates = false; else { double need = drv::mag(a[1] - a[0]) / r[0]; __v_assume(need >= 0.0); if (d[0] == 0.0 && need <= 0.0) still = true; } } drv::failures = 0; drv::begins = drv::in(); drv::tail = drv::in(); __v_assume(drv::tail > 0.0); bool threw = false;
  try { t.linearSplineInterpolation(); } catch (StandardException &e) { threw = true; __v_assert(e.flag() == ConfigurationError, "A09: waypoints that are not configured are refused as such"); }
  __v_assert(threw == (n < 2 || !rates || still), "A09: waypoints are refused when there are too few, a rate is not positive or a segment takes no time"); __v_assert((int)t.size() == n, "A09: a refused interpolation keeps the waypoints"); if (threw) __v_reach("refused"); else __v_reach("accepted"); }
// waypoints come and go
DRIVER(ways) { EXACTLY; Track t(2); double a[4]; int n = 0; __v_assert(t.size() == 0 && t.dimension() == 2, "A09: a new trajectory is empty"); for (int i = 0; i < 3; ++i) { if (__v_range(0, 1)) { Way w(2); a[n] = drv::in(); w.angles()[1] = a[n]; t.append(w); ++n; } else if (__v_range(0, 1)) { t.clear(); n = 0; } __v_assert((int)t.size() == n && t.dimension() == 2, "A09: a trajectory has another number of waypoints"); }
  for (int i = 0; i < n; ++i) { const Way &w = t.waypoint(i); SAME(w.angles()[1], a[i], "A09: a trajectory keeps its waypoints in order"); } if (n) { SAME(t.last().angles()[1], a[n - 1], "A09: the last waypoint is the one appended last"); __v_reach("some"); } else __v_reach("none");
  double m = drv::in(); t.maxAccelerations(m); for (int j = 0; j < 2; ++j) SAME(t.maxAccelerations()[j], m, "A09: a common acceleration is for each joint");
#ifndef NDEBUG
  bool threw = false; try { t.waypoint(n); } catch (StandardException &e) { threw = true; __v_assert(e.flag() == OutOfRangeError, "A09: a waypoint that is not there is out of range"); } __v_assert(threw, "A09: a waypoint that is not there is out of range"); threw = false; try { Way w(1); t.append(w); } catch (StandardException &e) { threw = true; } __v_assert(threw && (int)t.size() == n, "A09: a waypoint of another dimension is refused");
#endif
}
// splines are released whatever happens next
DRIVER(life) { EXACTLY; Track t(1); for (int i = 0; i < 2; ++i) { Way w(1); w.duration(1.0); t.append(w); } t.maxAccelerations(1.0); drv::failures = 0; drv::begins = 0.0; drv::tail = 1.0;
  for (int i = 0; i < 3; ++i) {
    switch (__v_range(0, 3)) { case 0: try { t.linearSplineInterpolation(); __v_reach("interpolated"); } catch (StandardException &e) { __v_reach("refused"); } break; case 1: t.clear(); __v_assert(t.size() == 0, "A09: a cleared trajectory is empty"); break; case 2: t.redimension(2); __v_assert(t.size() == 0 && t.dimension() == 2, "A09: a trajectory of another dimension is empty"); break; default: { Way w(t.dimension()); w.duration(1.0); t.append(w); } } }
}
// a copy answers what the original answered, and both may go their own way
DRIVER(copies) { EXACTLY; Track t(1); for (int i = 0; i < 2; ++i) { Way w(1); w.duration(1.0); t.append(w); } t.maxAccelerations(1.0); drv::failures = 0; drv::begins = 0.0; drv::tail = 1.0; SAME(t.duration(), 0.0, "A09: a trajectory that was not interpolated lasts no time"); bool made = __v_range(0, 1); if (made) t.linearSplineInterpolation();
  double x = drv::in(); __v_assume(x > 0.0); __v_assume(x < 1.0); double want = erf(x + 1000.0);
  if (__v_range(0, 1)) { Track u(t); if (__v_range(0, 1)) t.clear(); __v_assert(u.size() == 2 && u.dimension() == 1, "A09: a copied trajectory is another"); SAME(u.duration(), made ? 1.0 : 0.0, "A09: a copied trajectory is another"); SAME(u.maxAccelerations()[0], 1.0, "A09: a copied trajectory is another"); if (made) { SAME(u(0, x), want, "A09: a copied trajectory answers something else"); __v_reach("copied"); } u.linearSplineInterpolation(); }
  else { Track u(2); if (__v_range(0, 1)) { for (int i = 0; i < 2; ++i) { Way w(2); w.duration(1.0); u.append(w); } u.linearSplineInterpolation(); } if (__v_range(0, 1)) t = t; u = t; __v_assert(u.size() == 2 && u.dimension() == 1, "A09: an assigned trajectory is another"); SAME(u.duration(), made ? 1.0 : 0.0, "A09: an assigned trajectory is another"); if (made) { SAME(u(0, x), want, "A09: an assigned trajectory answers something else"); SAME(t(0, x), want, "A09: a trajectory is changed by copying it"); __v_reach("assigned"); } } }
// a trajectory of several pieces: every place belongs to one of them, and just after the end it stays where it ended
DRIVER(pieces) { EXACTLY; Track t(2); double x0 = drv::in(), x1 = drv::in(), x2 = drv::in(); __v_assume(x0 > 0.0); __v_assume(x0 < x1); __v_assume(x1 < x2); __v_assume(x0 < x2); double end = x2 + 0.0001; QuinticPolynomial q[2][3];
  for (int j = 0; j < 2; ++j) { t.spline_functions[j].resize(3, NULL); for (int i = 0; i < 3; ++i) { for (int k = 0; k < 6; ++k) q[j][i].coefficients()[k] = drv::in(); t.spline_functions[j][i] = new SplineFunction<QuinticPolynomial>(i == 0 ? 0.0 : i == 1 ? x0 : x1, i == 0 ? x0 : i == 1 ? x1 : x2, q[j][i]); } }
  int j = __v_range(0, 1) ? 1 : 0; double x = drv::in(), at; int piece;
  switch (__v_range(0, 3)) { case 0: __v_assume(x > 0.0); __v_assume(x < x0); __v_assume(x < end); piece = 0; at = x; break; case 1: __v_assume(x > 0.0); __v_assume(x0 < x); __v_assume(x < x1); __v_assume(x < end); piece = 1; at = x; break; case 2: __v_assume(x > 0.0); __v_assume(x0 < x); __v_assume(x1 < x); __v_assume(x < x2); __v_assume(x < end); piece = 2; at = x; break; default: __v_assume(x2 < x); __v_assume(x < end); __v_assume(x0 < x); __v_assume(x1 < x); __v_assume(0.0 < x); piece = 2; at = x2; }
  switch (__v_range(0, 2)) { case 0: SAME(t(j, x), q[j][piece](at), "A09: a trajectory of several pieces answers with another piece"); break; case 1: SAME(t.derivative(j, x), q[j][piece].derivative(at), "A09: the rate of a trajectory of several pieces is that of another piece"); break; default: SAME(t.dderivative(j, x), q[j][piece].dderivative(at), "A09: the acceleration of a trajectory of several pieces is that of another piece"); }
  __v_reach("piece"); }
