// Exact integer parts of math and geometry, and the little value holders of utilities.
#include "v.h"
#include "thin_exception.h"
#include <cmath>
#include "mini_matrix.h"
#include <limits>
#include <ecl/math/simple.hpp>
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/singleton.hpp>
#include <ecl/utilities/void.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
#include <ecl/geometry/cartesian_point.hpp>
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
using namespace ecl;

namespace drv {
template <class T> void signs(T v) {
  int s = ecl::sign(v), p = ecl::psign(v), n = ecl::nsign(v);
  if (v > 0) { __v_assert(s == 1 && p == 1 && n == 1, "A01: the sign of a positive number is not 1"); __v_reach("positive"); }
  else if (v == 0) { __v_assert(s == 0 && p == 1 && n == -1, "A01: zero has sign 0, 1 or -1 as asked for"); __v_reach("zero"); }
  else { __v_assert(s == -1 && p == -1 && n == -1, "A01: the sign of a negative number is not -1"); __v_reach("negative"); }
}
}
DRIVER(cuberoot) { __v_algebra(); __v_narrow(); __v_exact(); double u = __v_double("u"), U = __v_cube(u); double r = ecl::cube_root(U); __v_assert(__v_same(r, u), "A01: the cube root of a number is not its cube root"); if (U < 0) __v_reach("a negative root"); else __v_reach("a positive root"); }
DRIVER(signs) {
  switch (__v_range(0, 7)) {
  case 0: drv::signs<int>(__v_int("v")); break;
  case 1: drv::signs<long>(__v_long("v")); break;
  case 2: drv::signs<short>(__v_short("v")); break;
  case 3: drv::signs<signed char>(__v_char("v")); break;
  case 4: drv::signs<unsigned>(__v_uint("v")); break;
  case 5: drv::signs<unsigned long>(__v_ulong("v")); break;
  case 6: drv::signs<unsigned short>(__v_ushort("v")); break;
  default: drv::signs<long long>(__v_long("v")); break;
  }
}
namespace drv {
// rows of the triangle are its diagonals: entry j of row i is the binomial coefficient (i+j over i)
template <int N> void pascal() {
  int b[N + 1][N + 1];
  for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) b[i][j] = i == 0 || j == 0 ? 1 : b[i - 1][j] + b[i][j - 1];
  PascalsTriangle<N> t; const PascalsTriangle<N> c(t);
  for (int i = 0; i <= N; i++) {
    int j = 0; typename PascalsTriangle<N>::const_iterator e = c.end(i);
    for (typename PascalsTriangle<N>::const_iterator it = c.begin(i); it != e && j <= N; ++it, ++j) __v_assert(*it == b[i][j], "A01: a row of Pascal's triangle does not hold the binomial coefficients");
    __v_assert(j == N + 1 - i, "A01: a row of Pascal's triangle does not have one entry less than the row before");
  }
  __v_assert(*t.begin() == 1 && t.end() - t.begin() == N + 1, "A01: the first row of Pascal's triangle is not all ones");
  __v_reach("rows");
}
}
DRIVER(pascal) { __v_unroll(80); switch (__v_range(0, 8)) { case 0: drv::pascal<0>(); break; case 1: drv::pascal<1>(); break; case 2: drv::pascal<2>(); break; case 3: drv::pascal<3>(); break; case 4: drv::pascal<4>(); break; case 5: drv::pascal<5>(); break; case 6: drv::pascal<6>(); break; case 7: drv::pascal<7>(); break; default: drv::pascal<10>(); break; } }

namespace drv {
unsigned index5() { switch (__v_range(0, 7)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 4; case 5: return 5; case 6: return 6; default: { unsigned i = __v_uint("i"); __v_assume(i > 6); return i; } } }
int small() { return (int)__v_range(-1000000, 1000000); }
typedef CartesianPoint<int, 2> P2; typedef CartesianPoint<int, 3> P3; typedef CartesianPoint<int, 5> P5;
}
using namespace drv;
DRIVER(points2) {
  __v_unroll(10);
  int a = small(), b = small(), c = small(), d = small();
  P2 p(a, b), q; q << c, d; const P2 &k = p;
  __v_assert(p.x() == a && p.y() == b && k.x() == a && k.y() == b && q.x() == c && q.y() == d && p.size() == 2, "A01: a point does not hold the coordinates it was given");
  __v_assert(p[0] == a && p[1] == b && k[0] == a && k[1] == b && p.positionVector()[1] == b && k.positionVector()[0] == a, "A01: a point does not hold the coordinates it was given");
  P2 s = p + q, m = p - q, e(p), f; f = q; f += p;
  __v_assert(s.x() == a + c && s.y() == b + d && f.x() == a + c && f.y() == b + d, "A01: the sum of points is not the sum of their coordinates");
  __v_assert(m.x() == a - c && m.y() == b - d, "A01: the difference of points is not the difference of their coordinates");
  __v_assert(p.x() == a && p.y() == b && q.x() == c && q.y() == d, "A01: arithmetic with points changes its operands");
  bool same = a == c && b == d; if (same) __v_reach("same point"); else __v_reach("other point");
  bool eq = p == q, ne = p != q; if (same) __v_assert(eq && !ne, "A01: points of the same coordinates are not equal"); else __v_assert(!eq && ne, "A01: points of different coordinates are equal");
  __v_assert(e == p, "A01: points of the same coordinates are not equal");
  p.x(c); __v_assert(p.x() == c && p.y() == b && e.x() == a, "A01: setting a coordinate changes that one only"); p.y(d); __v_assert(p.x() == c && p.y() == d, "A01: setting a coordinate changes that one only");
  P2 one(a); __v_assert(one.x() == a && one.y() == a, "A01: a point made of one number has it in every coordinate"); P2 zero; __v_assert(zero.x() == 0 && zero.y() == 0, "A01: a point made of nothing is the origin");
}
DRIVER(points3) {
  __v_unroll(10);
  int a = small(), b = small(), c = small(), d = small();
  P3 p(a, b, c), q, one(d), zero; q << c, a, b; const P3 &k = p;
  __v_assert(p.x() == a && p.y() == b && p.z() == c && k.x() == a && k.y() == b && k.z() == c && q.x() == c && q.y() == a && q.z() == b && p.size() == 3, "A01: a point does not hold the coordinates it was given");
  __v_assert(one.x() == d && one.y() == d && one.z() == d && zero.x() == 0 && zero.y() == 0 && zero.z() == 0, "A01: a point made of one number has it in every coordinate");
  P3 e(p), f(q.positionVector()); __v_assert(e.x() == a && e.y() == b && e.z() == c && f.x() == c && f.y() == a && f.z() == b, "A01: a copied point has other coordinates");
  p.x(d); __v_assert(p.x() == d && p.y() == b && p.z() == c, "A01: setting a coordinate changes that one only"); p.y(a); __v_assert(p.x() == d && p.y() == a && p.z() == c, "A01: setting a coordinate changes that one only");
  p.z(b); __v_assert(p.x() == d && p.y() == a && p.z() == b && e.x() == a && e.z() == c, "A01: setting a coordinate changes that one only");
}
#ifndef V_NOEXC
DRIVER(points5) {
  __v_unroll(10);
  int a = small(), b = small(); P5 p(a); const P5 &k = p; unsigned i = drv::index5();
#ifdef NDEBUG
  __v_assume(i < 5);
#endif
  bool refused = false;
  try { __v_assert(k[i] == a, "A01: a point made of one number has it in every coordinate"); p[i] = b; __v_assert(p[i] == b, "A01: a coordinate holds what was stored"); } catch (const StandardException &e) { refused = true; __v_assert(e.flag() == OutOfRangeError, "A01: a coordinate that does not exist is refused as out of range"); }
#ifndef NDEBUG
  __v_assert(refused == (i >= 5), "A01: exactly the coordinates that do not exist are refused"); if (refused) __v_reach("refused"); else __v_reach("coordinate");
#else
  __v_assert(!refused, "A01: exactly the coordinates that do not exist are refused");
#endif
}
#endif
// a parameter is its value; a singleton is one object
namespace drv { struct Only : Singleton<Only> { static int made; int v; Only() : v(3) { made++; } }; int Only::made; struct Sink { int n; Sink() : n(0) {} }; }
DRIVER(parameter) {
  int a = __v_int("a"), b = __v_int("b"), c = __v_int("c");
  Parameter<int> p(a), d; const Parameter<int> &k = p; int v = p; __v_assert(v == a && k() == a && d() == 0, "U03: a parameter does not have the value it was made with");
  p = b; v = k; __v_assert(v == b && p() == b, "U03: a parameter does not have the value last assigned"); Parameter<int> q(p); p(c); v = p; __v_assert(v == c && k() == c && q() == b, "U03: a parameter does not have the value last assigned");
  const int &r1 = k, &r2 = k(); __v_assert(&r1 == &r2, "U03: a parameter is read by reference"); 
}
DRIVER(singleton) {
  Only &a = Only::instance(); a.v = 7; Only &b = Only::instance();
  __v_assert(&a == &b && b.v == 7 && Only::made == 1, "U03: a singleton is not one object made once");
  Sink s; __v_assert(&(s << Void()) == &s, "U03: streaming nothing does not return the stream");
}
