// Angles, planar poses, odometry, segments, statistics and wheel kinematics as real-number algebra.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include <limits>
#include <iostream>
#include <vector>
#include "mini_matrix.h"
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
#include <ecl/geometry/linear_segment.hpp>
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/mobile_robot/kinematics/differential_drive.hpp>
#include "ecl_geometry/src/lib/angle.cpp"
#include "ecl_geometry/src/lib/linear_segment.cpp"
#include "ecl_mobile_robot/src/lib/differential_drive.cpp"
using namespace ecl;

#define SAME(a, b, m) __v_assert(__v_same(a, b), m)
namespace drv {
double in() { return __v_double("x"); }
template <class T> void direction(T a, T b, const char *m) { SAME(std::cos(a), std::cos(b), m); SAME(std::sin(a), std::sin(b), m); }
template <class T> void within(T a) { __v_assert(a <= pi && a >= -pi, "A04+A05+A06: an angle that was wrapped is not between minus pi and pi"); }
template <class T> void wrap() {
  T x = (T)in(), y = x; const T c = x; T v = wrap_angle(c); const T &r = wrap_angle(y);
  __v_assert(&r == &y, "A04: wrapping an angle in place returns another one"); SAME(v, y, "A04: the two ways to wrap an angle do not agree");
  within(v); direction(v, x, "A04: a wrapped angle points in another direction"); if (x <= pi && x >= -pi) { SAME(v, x, "A04: an angle in range is changed by wrapping"); __v_reach("in range"); } else if (x > pi) __v_reach("above"); else __v_reach("below");
}
template <class T> void angle() {
  T x = (T)in(), y = (T)in(); Angle<T> a(x), b(y), c; SAME((T)c, T(0), "A04: a new angle is zero"); within((T)a); direction((T)a, x, "A04: an angle points in another direction than the number it was made from");
  const char *sum = "A04: the sum of angles points in another direction", *dif = "A04: the difference of angles points in another direction";
  switch (__v_range(0, 8)) {
  case 0: { Angle<T> r = a + b; within((T)r); direction((T)r, x + y, sum); break; }
  case 1: { Angle<T> r = a + y; within((T)r); direction((T)r, x + y, sum); break; }
  case 2: { Angle<T> r = a - b; within((T)r); direction((T)r, x - y, dif); break; }
  case 3: { Angle<T> r = a - y; within((T)r); direction((T)r, x - y, dif); break; }
  case 4: a += b; within((T)a); direction((T)a, x + y, sum); break;
  case 5: a += y; within((T)a); direction((T)a, x + y, sum); break;
  case 6: a -= b; within((T)a); direction((T)a, x - y, dif); break;
  case 7: a -= y; within((T)a); direction((T)a, x - y, dif); break;
  default: { T v = a; Angle<T> r = a * y; within((T)r); direction((T)r, v * y, "A04: the multiple of an angle points in another direction"); a *= y; within((T)a); direction((T)a, v * y, "A04: the multiple of an angle points in another direction"); }
  }
  c = y; within((T)c); direction((T)c, y, "A04: an assigned angle points in another direction"); direction((T)b, y, "A04: arithmetic changes its operands");
}
template <class T> void units() {
  T x = (T)in(); SAME(radians_to_degrees(degrees_to_radians(x)), x, "A04: degrees do not survive the way to radians and back"); SAME(degrees_to_radians(T(180)), (T)pi, "A04: half a turn is not 180 degrees"); SAME(radians_to_degrees((T)pi), T(180), "A04: half a turn is not 180 degrees");
  Angle<T> a = Angle<T>::Radians(x), b = Angle<T>::Degrees(x); within((T)a); within((T)b); direction((T)a, x, "A04: an angle made from radians points in another direction"); T r = degrees_to_radians(x); direction((T)b, r, "A04: an angle made from degrees points in another direction"); SAME(a.degrees(), radians_to_degrees((T)a), "A04: an angle in degrees is another angle");
  typename Angle<T>::RotationMatrix m = a.rotationMatrix(); T c = std::cos(x), s = std::sin(x); SAME(m(0, 0), c, "A04: the rotation matrix of an angle is wrong"); SAME(m(1, 1), c, "A04: the rotation matrix of an angle is wrong"); SAME(m(1, 0), s, "A04: the rotation matrix of an angle is wrong"); SAME(m(0, 1), -s, "A04: the rotation matrix of an angle is wrong");
  Angle<T> back(m); within((T)back); direction((T)back, x, "A04: the angle of a rotation matrix points in another direction"); __v_reach("units");
}
}
using namespace drv;
#define EXACTLY __v_algebra(); __v_exact(); __v_precise(100); __v_unroll(40);
DRIVER(wrapping) { EXACTLY __v_narrow(); wrap<double>(); }
DRIVER(wrappingf) { EXACTLY wrap<float>(); }
DRIVER(angles) { EXACTLY __v_narrow(); angle<double>(); }
DRIVER(anglesf) { EXACTLY angle<float>(); }
DRIVER(units) { EXACTLY __v_narrow(); units<double>(); }
DRIVER(unitsf) { EXACTLY units<float>(); }
// ---- poses
namespace drv {
#define COMPOSED(r, a, b) { const char *w = "A05: a composed pose is not the second as seen from the first"; SAME(r[0], a[0] + std::cos(a[2]) * b[0] - std::sin(a[2]) * b[1], w); SAME(r[1], a[1] + std::sin(a[2]) * b[0] + std::cos(a[2]) * b[1], w); within(r[2]); direction(r[2], a[2] + b[2], w); }
template <class T> void compose() {
  typedef ecl::linear_algebra::Matrix<T, 3, 1> V; T p[3], q[3]; V a, b; for (int i = 0; i < 3; ++i) { p[i] = (T)in(); q[i] = (T)in(); a[i] = p[i]; b[i] = q[i]; }
  V c = concatenate_poses(a, b); COMPOSED(c, p, q); for (int i = 0; i < 3; ++i) { SAME(a[i], p[i], "A05: composing poses changes them"); SAME(b[i], q[i], "A05: composing poses changes them"); }
  V e = a; extend_pose(e, b); COMPOSED(e, p, q); V s = a; extend_pose(s, s); COMPOSED(s, p, p); __v_reach("composed");
}
template <class T> void pose() {
  T p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = (T)in(); q[i] = (T)in(); } Pose2D<T> a(p[0], p[1], p[2]), zero; typename Pose2D<T>::XYH v; for (int i = 0; i < 3; ++i) v[i] = q[i]; Pose2D<T> b(v); const Pose2D<T> &k = a;
  SAME(zero.x(), T(0), "A05: a new pose is the origin"); SAME(zero.y(), T(0), "A05: a new pose is the origin"); SAME(zero.heading(), T(0), "A05: a new pose is the origin");
  SAME(k.x(), p[0], "A05: a pose is not where it was put"); SAME(k.y(), p[1], "A05: a pose is not where it was put"); SAME(k.heading(), p[2], "A05: a pose is not where it was put"); SAME(b.y(), q[1], "A05: a pose is not where it was put");
  SAME(k.translation()(0), p[0], "A05: the translation of a pose is where it is"); SAME(k.translation()(1), p[1], "A05: the translation of a pose is where it is"); T c = std::cos(p[2]), s = std::sin(p[2]);
  SAME(k.rotationMatrix()(0, 0), c, "A05: the rotation of a pose is that of its heading"); SAME(k.rotationMatrix()(1, 1), c, "A05: the rotation of a pose is that of its heading"); SAME(k.rotationMatrix()(1, 0), s, "A05: the rotation of a pose is that of its heading"); SAME(k.rotationMatrix()(0, 1), -s, "A05: the rotation of a pose is that of its heading");
  Pose2D<T> ab = k * b; T r[3] = {ab.x(), ab.y(), ab.heading()}; COMPOSED(r, p, q);
  if (__v_range(0, 1)) { Pose2D<T> &t = a *= b; __v_assert(&t == &a, "A05: a pose is extended in place"); T u[3] = {a.x(), a.y(), a.heading()}; COMPOSED(u, p, q); SAME(b.x(), q[0], "A05: composing poses changes them"); } else { a *= a; T u[3] = {a.x(), a.y(), a.heading()}; COMPOSED(u, p, p); } __v_reach("pose");
}
// a pose with either way to keep the rotation
template <class P, class T> void is(const P &p, T x, T y, T h, const char *m) { SAME(p.x(), x, m); SAME(p.y(), y, m); T c = std::cos(h), s = std::sin(h); ecl::linear_algebra::Matrix<T, 2, 2> r = p.rotationMatrix(); SAME(r(0, 0), c, m); SAME(r(1, 1), c, m); SAME(r(1, 0), s, m); SAME(r(0, 1), -s, m); SAME(p.translation()[0], x, m); Angle<T> a = p.heading(); within((T)a); direction((T)a, h, m); }
template <class T, Pose2DStorageType S, Pose2DStorageType O> void legacy() {
  typedef LegacyPose2D<T, S> P; typedef LegacyPose2D<T, O> Q; T x = (T)in(), y = (T)in(), h = (T)in(), u = (T)in(), v = (T)in(), g = (T)in(), zero = T(0), c = std::cos(h), s = std::sin(h); P a(x, y, Angle<T>(h)), b(u, v, Angle<T>(g)), o;
  is(a, x, y, h, "A05: a pose is not where it was put"); is(o, zero, zero, zero, "A05: a new pose is the origin"); is(P::Identity(), zero, zero, zero, "A05: the identity is the origin");
  switch (__v_range(0, 6)) {
  case 0: { T m = x + c * u - s * v, n = y + s * u + c * v, w = h + g; T cw = std::cos(w), sw = std::sin(w); (void)cw; (void)sw; P r = a * b; is(r, m, n, w, "A05: a composed pose is not the second as seen from the first"); break; }
  case 1: { T m = -h, z = std::cos(m), q = std::sin(m); (void)z; (void)q; P i = a.inverse(), r = a * i; is(r, zero, zero, zero, "A05: a pose times its inverse is not the origin"); P l = i * a; is(l, zero, zero, zero, "A05: a pose times its inverse is not the origin"); is(a, x, y, h, "A05: taking the inverse changes the pose"); break; }
  case 2: { T d = h - g, z = std::cos(d), q = std::sin(d), n = -g, nz = std::cos(n), nq = std::sin(n); (void)z; (void)q; (void)nz; (void)nq; P r = a.relative(b), t = b * r; is(t, x, y, h, "A05: the second pose times the relative pose is not the first"); break; }
  case 3: { Q q(a); is(q, x, y, h, "A05: a pose converted to the other storage is another pose"); Q w; w = a; is(w, x, y, h, "A05: a pose converted to the other storage is another pose"); P k(a), l; l = a; is(k, x, y, h, "A05: a copied pose is another pose"); is(l, x, y, h, "A05: a copied pose is another pose"); break; }
  case 4: a.x(u); is(a, u, y, h, "A05: setting one part of a pose changes another"); a.y(v); is(a, u, v, h, "A05: setting one part of a pose changes another"); a.heading(Angle<T>(g)); is(a, u, v, g, "A05: setting one part of a pose changes another"); a.translation(x, y); is(a, x, y, g, "A05: setting one part of a pose changes another"); a.rotation(Angle<T>(h)); is(a, x, y, h, "A05: setting one part of a pose changes another"); break;
  case 5: a.setPose(u, v, Angle<T>(g)); is(a, u, v, g, "A05: a pose is not where it was put"); a.setIdentity(); is(a, zero, zero, zero, "A05: the identity is the origin"); break;
  default: { typename P::RotationMatrix m = b.rotationMatrix(); a.rotationMatrix(m); is(a, x, y, g, "A05: setting one part of a pose changes another"); typename P::Translation t = b.translation(); a.translation(t); is(a, u, v, g, "A05: setting one part of a pose changes another"); P w(Angle<T>(h), t); is(w, u, v, h, "A05: a pose is not where it was put"); }
  }
  __v_reach("legacy pose");
}
}
DRIVER(compose) { EXACTLY __v_narrow(); compose<double>(); }
DRIVER(composef) { EXACTLY compose<float>(); }
DRIVER(pose) { EXACTLY __v_narrow(); pose<double>(); }
DRIVER(posef) { EXACTLY pose<float>(); }
DRIVER(legacymatrix) { EXACTLY __v_narrow(); legacy<double, RotationMatrixStorage, RotationAngleStorage>(); }
DRIVER(legacyangle) { EXACTLY __v_narrow(); legacy<double, RotationAngleStorage, RotationMatrixStorage>(); }
DRIVER(extended) { EXACTLY __v_narrow(); double x = in(), y = in(), h = in(), u = in(), v = in(), g = in(), c = std::cos(h), s = std::sin(h); LegacyPose2D<double> a(x, y, Angle<double>(h)), b(u, v, Angle<double>(g)); double w = h + g, cw = std::cos(w), sw = std::sin(w); (void)cw; (void)sw; a *= b; is(a, x + c * u - s * v, y + s * u + c * v, w, "A05: a composed pose is not the second as seen from the first"); }
DRIVER(homogeneous) { EXACTLY __v_narrow(); double x = in(), y = in(), z = in(), w = in(); HomogeneousPoint<double> p(x, y, z), s(w), o; const HomogeneousPoint<double> &k = p; const char *m = "A05: a homogeneous point does not hold its coordinates and a one";
  SAME(p.x(), x, m); SAME(p.y(), y, m); SAME(p.z(), z, m); SAME(k.x(), x, m); SAME(k.y(), y, m); SAME(k.z(), z, m); SAME(k.positionVector()[3], 1.0, m); SAME(s.x(), w, m); SAME(s.y(), w, m); SAME(s.z(), w, m); SAME(s.positionVector()[3], 1.0, m); SAME(o.z(), 0.0, m); SAME(o.positionVector()[3], 1.0, m);
  p.x(w); SAME(p.x(), w, m); SAME(p.y(), y, m); p.y(x); SAME(p.y(), x, m); SAME(p.z(), z, m); p.z(y); SAME(p.z(), y, m); SAME(p.x(), w, m); SAME(p.positionVector()[3], 1.0, m); ecl::linear_algebra::Matrix<double, 3, 1> v; v[0] = x; v[1] = y; v[2] = z; HomogeneousPoint<double> q(v); SAME(q.z(), z, m); SAME(q.positionVector()[3], 1.0, m); }
// ---- segments
DRIVER(segment) { EXACTLY __v_narrow(); double a = in(), b = in(), c = in(), d = in(), x = in(), y = in(); const char *m = "A06: the distance of a point from a segment is wrong";
  if (__v_range(0, 1)) { LinearSegment s(a, b, a, b); SAME(s.squaredDistanceFromPoint(x, y), (x - a) * (x - a) + (y - b) * (y - b), "A06: the distance from a segment without length is that from its point"); __v_reach("no length"); return; }
  if (__v_range(0, 1)) c = a; else __v_assume(a != c); double l = (c - a) * (c - a) + (d - b) * (d - b), dot = (x - a) * (c - a) + (y - b) * (d - b), t = dot / l, z = (x - a) * (d - b) - (y - b) * (c - a); __v_assume(l != 0.0);
  LinearSegment s(a, b, c, d); double r = s.squaredDistanceFromPoint(x, y);
  if (t < 0) { SAME(r, (x - a) * (x - a) + (y - b) * (y - b), m); __v_reach("before"); } else if (t > 1) { SAME(r, (x - c) * (x - c) + (y - d) * (y - d), m); __v_reach("after"); } else { SAME(r, z * z / l, m); __v_reach("beside"); }
  if (a != c) { SAME(s.A() * a + s.B() * b + s.C(), 0.0, "A06: the line of a segment does not pass through its ends"); SAME(s.A() * c + s.B() * d + s.C(), 0.0, "A06: the line of a segment does not pass through its ends"); }
}
// ---- statistics
namespace drv { template <class T> void statistics() {
  CumulativeStatistics<T> s; int before = 0; switch (__v_range(0, 2)) { case 0: break; case 1: before = 1; break; default: before = 3; } for (int i = 0; i < before; ++i) s.push_back((T)in()); if (before) s.clear();
  __v_assert(__v_same(s.size(), T(0)) && __v_same(s.mean(), T(0)) && __v_same(s.variance(), T(0)), "A06: statistics of nothing are zero");
  int n; switch (__v_range(1, 4)) { case 1: n = 1; break; case 2: n = 2; break; case 3: n = 3; break; default: n = 5; } T x[5], sum = 0; for (int i = 0; i < n; ++i) { x[i] = (T)in(); sum += x[i]; s.push_back(x[i]); }
  T mean = sum / n, var = 0; for (int i = 0; i < n; ++i) var += (x[i] - mean) * (x[i] - mean);
  SAME(s.size(), T(n), "A06: the number of data is wrong"); SAME(s.mean(), mean, "A06: the mean is not the sum of the data by their number"); if (n == 1) { SAME(s.variance(), T(0), "A06: the variance of one datum is zero"); __v_reach("one"); } else { SAME(s.variance(), var / (n - 1), "A06: the variance is not the mean square distance from the mean"); __v_reach("many"); }
} }
DRIVER(statistics) { EXACTLY __v_narrow(); statistics<double>(); }
DRIVER(statisticsf) { EXACTLY statistics<float>(); }
// ---- wheels
DRIVER(wheels) { EXACTLY __v_narrow(); double bias = in(), radius = in(), l = in(), r = in(), v = in(), w = in(); __v_assume(bias != 0.0); __v_assume(radius != 0.0); mobile_robot::DifferentialDriveKinematics k(bias, radius); ecl::linear_algebra::Vector3d p = k.poseUpdateFromWheelDifferential(l, r); double turn = radius * (r - l) / bias;
  SAME(p[0], radius * (l + r) / 2, "A06: the way of the base is not the mean of that of its wheels"); SAME(p[1], 0.0, "A06: the base cannot move sideways"); within(p[2]); direction(p[2], turn, "A06: the turn of the base does not follow from its wheels");
  ecl::linear_algebra::Vector3d q = k.poseUpdateFromBaseDifferential(v, w); SAME(q[0], v, "A06: the way of the base is changed"); SAME(q[1], 0.0, "A06: the base cannot move sideways"); within(q[2]); direction(q[2], w, "A06: the turn of the base is changed");
  ecl::linear_algebra::Vector2d u = k.baseToWheelVelocities(v, w); SAME(radius * (u[0] + u[1]) / 2, v, "A06: wheel velocities do not make up the velocity of the base"); SAME(radius * (u[1] - u[0]) / bias, w, "A06: wheel velocities do not make up the turn of the base"); __v_reach("wheels");
}
DRIVER(posediff) { EXACTLY __v_narrow(); ecl::linear_algebra::Vector3d a, b; for (int i = 0; i < 3; ++i) { a[i] = in(); b[i] = in(); } double dx = b[0] - a[0], dy = b[1] - a[1], ahead = std::cos(a[2]) * dx + std::sin(a[2]) * dy, turn = b[2] - a[2];
  ecl::linear_algebra::Vector2d d = mobile_robot::DifferentialDriveKinematics::PoseToBaseDifferential(a, b); SAME(d[0] * d[0], dx * dx + dy * dy, "A06: the way between two poses is not their distance"); double len = std::sqrt(dx * dx + dy * dy); if (ahead < 0.0) { SAME(d[0], -len, "A06: a pose behind is not reached backwards"); __v_reach("behind"); } else { SAME(d[0], len, "A06: a pose ahead is not reached forwards"); __v_reach("ahead"); }
  within(d[1]); direction(d[1], turn, "A06: the turn between two poses is not the difference of their headings"); }
