// odometry_legs.cpp: the distance from a trajectory of any number of segments (A07).
// The distance from one segment is decided on its own (A06); here every segment is at any distance, and which one was asked for is checked.
#include "v.h"
#include <cmath>
#include <vector>
#include <limits>
#include <memory>
#include "mini_matrix.h"
#ifndef ECL_CXX11_FOUND
#define ECL_CXX11_FOUND
#endif
#include <ecl/geometry/linear_segment.hpp>
namespace drv { double from[4][2], at[2], far[3]; int asked; }
namespace ecl {
LinearSegment::LinearSegment(const double &a, const double &b, const double &c, const double &d) {
  int k = drv::asked++; __v_assert(k < 3, "A07: a trajectory has more segments than it has");
  __v_assert(__v_same(a, drv::from[k][0]) && __v_same(b, drv::from[k][1]) && __v_same(c, drv::from[k + 1][0]) && __v_same(d, drv::from[k + 1][1]), "A07: a segment of a trajectory does not lead from one of its points to the next");
}
double LinearSegment::squaredDistanceFromPoint(const double &x, const double &y) const { __v_assert(__v_same(x, drv::at[0]) && __v_same(y, drv::at[1]), "A07: the distance of another point is measured"); return drv::far[drv::asked - 1]; }
}
#include "ecl_geometry/src/lib/odometry_helper.cpp"
using namespace ecl::odometry;
#define EXACTLY __v_algebra(); __v_exact(); __v_precise(200); __v_unroll(40);
namespace drv {
float in() { return (float)__v_double("x"); }
template <int N> void legs() {
  Trajectory2D t; t.resize(Eigen::NoChange, N); asked = 0; for (int i = 0; i < N; ++i) { for (int r = 0; r < 3; ++r) t(r, i) = in(); from[i][0] = t(0, i); from[i][1] = t(1, i); }
  Position2D p; p[0] = in(); p[1] = in(); at[0] = p[0]; at[1] = p[1];
  for (int i = 0; i + 1 < N; ++i) { far[i] = __v_double("distance"); __v_assume(0.0 <= far[i]); __v_assume(far[i] < std::numeric_limits<double>::infinity()); for (int j = 0; j < i; ++j) __v_assume(far[i] != far[j]); }
  int best = 0; for (int i = 1; i + 1 < N; ++i) if (far[i] < far[best]) best = i;
  double want = far[best], d = distance(p, t);
  __v_assert(asked == N - 1, "A07: a segment of a trajectory is left out"); __v_assert(__v_same(d, std::sqrt(want)), "A07: the distance from a trajectory is that from the nearest of its segments"); __v_reach("legs");
}
}
DRIVER(legs2) { EXACTLY drv::legs<2>(); }
DRIVER(legs3) { EXACTLY drv::legs<3>(); }
DRIVER(legs4) { EXACTLY drv::legs<4>(); }
