// Approximate comparison and euclidean norms.
#include "v.h"
#include <cmath>
#include <limits>
#include <ecl/math/norms.hpp>
#include <ecl/math/fuzzy.hpp>
#include "ecl_type_traits/src/lib/numeric_limits.cpp"
using namespace ecl;
namespace drv {
double mag(double x) { return x < 0 ? -x : x; }
// what isApprox is to decide: the distance is at most the given fraction of the smaller magnitude
// (the order of products with a fraction of at least zero is that of the factors; the cases are told apart first)
int near(double x, double y, double p) {
  double a = mag(x), b = mag(y), d = mag(x - y), m; if (a < b) { m = a; __v_assume(a * p <= b * p); } else { m = b; __v_assume(b * p <= a * p); }
  __v_assume(m * p >= 0.0); return !(m * p < d);
}
template <class S, class T> void signedly(S x, T y) {
  bool same = (long)x == (long)y, less = (long)x < (long)y;
  __v_assert(isApprox(x, y) == same, "A08: two integers are approximately equal when they are equal");
  __v_assert(isApproxOrLessThan(x, y) == (same || less), "A08: an integer is not more than another when it is less or equal");
  if (same) __v_reach("equal"); else if (less) __v_reach("less"); else __v_reach("more");
}
template <class S, class T> void whole(S x, T y) { if (y < 0) signedly(x, y); else signedly(x, y); }
template <class S> void wholes() {
  S x = (S)__v_long("x"); long y = __v_long("y");
  switch (__v_range(0, 2)) { case 0: whole(x, (int)y); break; case 1: whole(x, (short)y); break; default: whole(x, (long)(int)y); }
}
}
DRIVER(ints) { drv::wholes<int>(); }
DRIVER(unsigneds) { drv::wholes<unsigned>(); }
DRIVER(shorts) { drv::wholes<short>(); }
DRIVER(longs) { drv::wholes<long>(); }
DRIVER(bytes) { drv::wholes<unsigned char>(); }
// each sign of both and each order of their magnitudes by itself
#define CASES bool up = false, other = false; if (__v_range(0, 1)) up = true; if (__v_range(0, 1)) other = true; if (up) __v_assume(x >= 0.0); else __v_assume(x < 0.0); \
  switch (__v_range(0, 2)) { case 0: y = other ? -x : x; break; case 1: { if (up != other) __v_assume(y >= 0.0); else __v_assume(y < 0.0); double a = drv::mag(x), b = drv::mag(y); __v_assume(a < b); } break; default: { if (up != other) __v_assume(y >= 0.0); else __v_assume(y < 0.0); double a = drv::mag(x), b = drv::mag(y); __v_assume(b < a); } }
DRIVER(reals) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60);
  double x = __v_double("x"), y = __v_double("y"), p = __v_double("p"); __v_assume(p >= 0.0); CASES;
  int want = drv::near(x, y, p); bool less = x <= y; bool got = isApprox(x, y, p);
  __v_assert(got == (want != 0), "A08: two numbers are approximately equal within a fraction of the smaller magnitude");
  __v_assert(isApprox(y, x, p) == got, "A08: being approximately equal does not depend on the order");
  __v_assert(isApproxOrLessThan(x, y, p) == (got || less), "A08: a number is not more than another when it is less or approximately equal");
  __v_assert(isApprox(x, x, p), "A08: a number is approximately itself"); if (got) __v_reach("near"); else __v_reach("far");
}
DRIVER(mixed) { __v_algebra(); __v_narrow(); __v_exact(); __v_precise(60);
  int k = __v_range(-3, 3); double y = __v_double("y"); int x; switch (k) { case -3: x = -3; break; case -2: x = -2; break; case -1: x = -1; break; case 0: x = 0; break; case 1: x = 1; break; case 2: x = 2; break; default: x = 3; }
  CASES; double p = 0.25; int want = drv::near(x, y, p); bool less = x <= y;
  switch (__v_range(0, 2)) {
  case 0: __v_assert(isApprox(x, y, 0.25f) == (want != 0), "A08: an integer and a number are compared like numbers"); break;
  case 1: __v_assert(isApproxOrLessThan(x, y, 0.25f) == (want || less), "A08: an integer is not more than a number when it is less or approximately equal"); break;
  default: __v_assert(isApprox(y, x, 0.25) == (want != 0), "A08: a number and an integer are compared like numbers"); }
  if (want) __v_reach("near"); else __v_reach("far");
}
// the fraction taken when none is given belongs to the type of the numbers, whichever of the two comes first
#define DEFAULTS(T, t) DRIVER(defaults_##t) { __v_algebra(); __v_exact(); __v_precise(60); int k = __v_range(0, 4), x; switch (k) { case 0: x = -3; break; case 1: x = -1; break; case 2: x = 1; break; case 3: x = 20000; break; default: x = 0; } \
  double y = __v_double("y"); CASES; T z = (T)y; bool one = isApprox(x, z); \
  switch (__v_range(0, 1)) { case 0: __v_assert(isApprox(z, x) == one, "A08: being approximately equal does not depend on the order"); break; default: __v_assert(isApprox((T)x, z) == one, "A08: an integer and a number are compared like numbers"); } if (one) __v_reach("near"); else __v_reach("far"); }
DEFAULTS(float, float)
DEFAULTS(double, double)
DRIVER(norms) { __v_algebra(); __v_narrow(); __v_exact(); double x = __v_double("x"), y = __v_double("y"), z = __v_double("z"); EuclideanNorm n; double a = euclidean_norm(x, y), b = euclidean_norm(x, y, z);
  __v_assert(__v_same(a * a, x * x + y * y), "A08: the norm of a pair is not its length"); __v_assert(__v_same(b * b, x * x + y * y + z * z), "A08: the norm of a triple is not its length");
  __v_assert(__v_same(n(x, y), a) && __v_same(n(x, y, z), b), "A08: the functor gives another norm"); __v_reach("norms");
}
