// Trajectories of poses and odometries, and the parts of them.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include <limits>
#include <iostream>
#include <vector>
#include <memory>
#include "mini_matrix.h"
#ifndef ECL_CXX11_FOUND
#define ECL_CXX11_FOUND
#endif
#include "ecl_geometry/src/lib/linear_segment.cpp"
#include "ecl_geometry/src/lib/odometry_helper.cpp"
using namespace ecl::odometry;

#define SAME(a, b, m) __v_assert(__v_same(a, b), m)
#define EXACTLY __v_algebra(); __v_exact(); __v_precise(200); __v_unroll(40);
namespace drv {
float in() { return (float)__v_double("x"); }
int few() { switch (__v_range(0, 2)) { case 0: return 1; case 1: return 2; default: return 3; } }
int none() { switch (__v_range(0, 2)) { case 0: return 0; case 1: return 1; default: return 2; } }
// a trajectory of n columns of R numbers, and the numbers on their own
template <class M, int R> struct Track { M t; float v[6][R]; int n; Track(int k) : n(k) { t.resize(Eigen::NoChange, n); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) { v[i][r] = in(); t(r, i) = v[i][r]; } }
  void kept(const char *m) { __v_assert(size(t) == n && empty(t) == (n == 0), "A07: the size of a trajectory is wrong"); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) SAME(t(r, i), v[i][r], m); } };
template <class M, class E, int R> void tracks() {
  int n = few(); Track<M, R> a(n); a.kept("A07: a trajectory is changed by looking at it"); E f = getFront(a.t), b = getBack(a.t), e; for (int r = 0; r < R; ++r) { SAME(f[r], a.v[0][r], "A07: the front of a trajectory is not its first element"); SAME(b[r], a.v[n - 1][r], "A07: the back of a trajectory is not its last element"); e[r] = in(); }
  for (int i = 0; i < n; ++i) { E g = getAt(a.t, i); for (int r = 0; r < R; ++r) SAME(g[r], a.v[i][r], "A07: an element of a trajectory is another one"); }
  int at = n == 1 ? 0 : n - 2; setAt(a.t, at, e); for (int r = 0; r < R; ++r) a.v[at][r] = e[r]; a.kept("A07: setting one element of a trajectory changes another");
  int m = few(); resize(a.t, m); a.n = m < n ? m : n; __v_assert(size(a.t) == m, "A07: a resized trajectory has another size"); for (int i = 0; i < a.n; ++i) for (int r = 0; r < R; ++r) SAME(a.t(r, i), a.v[i][r], "A07: a resized trajectory loses what it kept"); __v_reach("tracks");
}
template <class M, class E, int R> void join() {
  Track<M, R> a(none()), b(none()); M t = a.t; addAtEnd(t, b.t); int n = a.n + b.n; __v_assert(size(t) == n && empty(t) == (n == 0), "A07: a joined trajectory is not as long as its parts");
  for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) SAME(t(r, i), i < a.n ? a.v[i][r] : b.v[i - a.n][r], "A07: a joined trajectory is not its parts one after the other"); b.kept("A07: adding a trajectory to another changes it");
  M s = a.t; addAtEnd(s, s); n = a.n; if (n) { __v_assert(size(s) == 2 * n, "A07: a joined trajectory is not as long as its parts"); for (int i = 0; i < 2 * n; ++i) for (int r = 0; r < R; ++r) SAME(s(r, i), a.v[i % n][r], "A07: a joined trajectory is not its parts one after the other"); __v_reach("joined"); }
}
template <class M, class E, int R> void gather() {
  int n = none(); std::vector<E> v; float k[3][R]; v.reserve(4); for (int i = 0; i < n; ++i) { E e; for (int r = 0; r < R; ++r) { k[i][r] = in(); e[r] = k[i][r]; } v.push_back(e); }
  M t = vectorToTrajectory(v); __v_assert(size(t) == n, "A07: a trajectory made from a list has another length"); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) SAME(t(r, i), k[i][r], "A07: a trajectory made from a list holds something else");
  std::shared_ptr<M> p = vectorToTrajectoryPtr(v), q; __v_assert(size(p) == n && empty(p) == (n == 0) && empty(q), "A07: the size of a trajectory is wrong"); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) SAME((*p)(r, i), k[i][r], "A07: a trajectory made from a list holds something else"); __v_reach("gathered");
}
const char *part = "A07: a part of an odometry is another part", *other = "A07: setting one part changes another";
template <class E, int R> void keeps(const E &e, const float *v, const char *m) { for (int r = 0; r < R; ++r) SAME(e[r], v[r], m); }
}
using drv::in;
DRIVER(tracks) { EXACTLY drv::tracks<Trajectory2D, Pose2D, 3>(); }
DRIVER(otracks) { EXACTLY drv::tracks<Odom2DTrajectory, Odom2D, 6>(); }
DRIVER(join) { EXACTLY drv::join<Trajectory2D, Pose2D, 3>(); }
DRIVER(ojoin) { EXACTLY drv::join<Odom2DTrajectory, Odom2D, 6>(); }
DRIVER(gather) { EXACTLY drv::gather<Trajectory2D, Pose2D, 3>(); }
DRIVER(ogather) { EXACTLY drv::gather<Odom2DTrajectory, Odom2D, 6>(); }
DRIVER(halves) { EXACTLY drv::Track<Odom2DTrajectory, 6> a(drv::few()); Trajectory2D p = getPoses(a.t); Twist2DVector t = getTwists(a.t); __v_assert(size(p) == a.n && t.cols() == a.n, "A07: the poses of a trajectory are as many as its elements"); for (int i = 0; i < a.n; ++i) for (int r = 0; r < 3; ++r) { SAME(p(r, i), a.v[i][r], "A07: the poses of a trajectory are other poses"); SAME(t(r, i), a.v[i][r + 3], "A07: the twists of a trajectory are other twists"); } }
DRIVER(parts) { EXACTLY using namespace drv; float v[6], w[6]; Odom2D o; for (int i = 0; i < 6; ++i) { v[i] = in(); w[i] = in(); o[i] = v[i]; }
  SAME(getX(o), v[0], part); SAME(getY(o), v[1], part); SAME(getYaw(o), v[2], part); SAME(getVelocityX(o), v[3], part); SAME(getVelocityY(o), v[4], part); SAME(getVelocityAngular(o), v[5], part); Pose2D p = getPose(o); Twist2D t = getTwist(o); Position2D at = getPosition(o), pt = getPosition(p); keeps<Pose2D, 3>(p, v, part); keeps<Twist2D, 3>(t, v + 3, part); keeps<Position2D, 2>(at, v, part); keeps<Position2D, 2>(pt, v, part);
  SAME(getX(p), v[0], part); SAME(getY(p), v[1], part); SAME(getYaw(p), v[2], part); SAME(getX(at), v[0], part); SAME(getY(at), v[1], part); SAME(getVelocityX(t), v[3], part); SAME(getVelocityY(t), v[4], part); SAME(getVelocityAngular(t), v[5], part);
  int i = __v_range(0, 13); switch (i) {
  case 0: setX(o, w[0]); v[0] = w[0]; break; case 1: setY(o, w[1]); v[1] = w[1]; break; case 2: setYaw(o, w[2]); v[2] = w[2]; break; case 3: setVelocityX(o, w[3]); v[3] = w[3]; break; case 4: setVelocityY(o, w[4]); v[4] = w[4]; break; case 5: setVelocityAngular(o, w[5]); v[5] = w[5]; break;
  case 6: setX(p, w[0]); v[0] = w[0]; keeps<Pose2D, 3>(p, v, other); return; case 7: setY(p, w[1]); v[1] = w[1]; keeps<Pose2D, 3>(p, v, other); return; case 8: setYaw(p, w[2]); v[2] = w[2]; keeps<Pose2D, 3>(p, v, other); return;
  case 9: setVelocityX(t, w[3]); v[3] = w[3]; keeps<Twist2D, 3>(t, v + 3, other); return; case 10: setVelocityY(t, w[4]); v[4] = w[4]; keeps<Twist2D, 3>(t, v + 3, other); return; case 11: setVelocityAngular(t, w[5]); v[5] = w[5]; keeps<Twist2D, 3>(t, v + 3, other); return;
  case 12: setX(at, w[0]); v[0] = w[0]; keeps<Position2D, 2>(at, v, other); return; default: setY(at, w[1]); v[1] = w[1]; keeps<Position2D, 2>(at, v, other); return; }
  keeps<Odom2D, 6>(o, v, other); __v_reach("parts");
}
DRIVER(distances) { EXACTLY Odom2D a, b; Pose2D p, q; for (int i = 0; i < 6; ++i) { a[i] = in(); b[i] = in(); } for (int i = 0; i < 3; ++i) { p[i] = in(); q[i] = in(); } const char *m = "A07: the distance of two poses is that of their positions";
  float x = a[0] - b[0], y = a[1] - b[1], u = p[0] - q[0], v = p[1] - q[1], s = p[0] - a[0], t = p[1] - a[1]; SAME(distanceSqared(a, b), (double)(x * x + y * y), m); SAME(distanceSqared(p, q), (double)(u * u + v * v), m); SAME(distance(a, b), std::sqrt((double)(x * x + y * y)), m); SAME(distance(p, q), std::sqrt((double)(u * u + v * v)), m); SAME(distance(p, a), std::sqrt((double)(s * s + t * t)), m); }
// the way to a trajectory is that to the nearest of its segments
DRIVER(nearest) { EXACTLY drv::Track<Trajectory2D, 3> a(drv::few()); Pose2D p; for (int i = 0; i < 3; ++i) p[i] = in(); Position2D at; at[0] = p[0]; at[1] = p[1]; const char *m = "A07: the distance from a trajectory is that from the nearest of its segments";
  double s[2]; for (int i = 0; i + 1 < a.n; ++i) s[i] = ecl::LinearSegment(a.v[i][0], a.v[i][1], a.v[i + 1][0], a.v[i + 1][1]).squaredDistanceFromPoint(p[0], p[1]);
  double d = __v_range(0, 1) ? distance(at, a.t) : distance(p, a.t);
  if (a.n == 1) { double x = p[0] - a.v[0][0], y = p[1] - a.v[0][1]; SAME(d, std::sqrt(x * x + y * y), m); __v_reach("one"); }
  else if (a.n == 2) { SAME(d, std::sqrt(s[0]), m); __v_reach("two"); }
  else if (s[0] < s[1]) { SAME(d, std::sqrt(s[0]), m); __v_reach("first"); } else if (s[1] < s[0]) { SAME(d, std::sqrt(s[1]), m); __v_reach("second"); }
}
