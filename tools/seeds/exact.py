HEADC = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
#define NEAR(a, b) (std::fabs(double(a) - double(b)) < 1e-6)
'''
seed('trajectory_distance_skips_last_leg', 'A07', [('ecl_geometry/src/lib/odometry_helper.cpp', '''    segment_start = segment_end;
  }

  return std::sqrt(min_squared_distance);''', '''    if ( min_squared_distance == temp_squared_distance ) { segment_start = segment_end; }
  }

  return std::sqrt(min_squared_distance);''')],
 'a trajectory of three or more points whose nearest leg comes before a farther one and after which another leg is nearer',
 'once a leg is farther than the best so far, the following legs are measured from the wrong start point', HEADC + r'''
#include "ecl_geometry/src/lib/linear_segment.cpp"
#include "ecl_geometry/src/lib/odometry_helper.cpp"
using namespace ecl::odometry;
int main() {
  Trajectory2D t; t.resize(3, 4);
  t << 0, 4, 4, 4.5,  0, 0, 10, 10,  0, 0, 0, 0;
  Position2D p; p << 2, 1;
  CHECK(NEAR(distance(p, t), 1));
  Trajectory2D z; z.resize(3, 4);
  z << 0, 0, 20, 0,  0, 10, 10, -6,  0, 0, 0, 0;
  p << 5, 0;                                     // 5 from the first leg, 10 from the second, less than 2 from the third
  CHECK(distance(p, z) < 2);
  return 0;
}
''')
seed('point_segment_wrong_clamp', 'A06', [('ecl_geometry/src/lib/linear_segment.cpp', '''  } else if ( t > 1 ) {
    xx = x_2; yy = y_2;''', '''  } else if ( dot > squared_length_p2p1 + 1 ) {
    xx = x_2; yy = y_2;''')],
 'a point beyond the end of the segment by less than the reciprocal of its length',
 'points just beyond the end are projected on the extension of the segment, so the distance is too small', HEADC + r'''
#include "ecl_geometry/src/lib/linear_segment.cpp"
int main() {
  ecl::LinearSegment s(0, 0, 0.5, 0);
  CHECK(NEAR(s.squaredDistanceFromPoint(1.5, 0), 1));
  CHECK(NEAR(s.squaredDistanceFromPoint(-1.5, 0), 2.25));
  return 0;
}
''')
seed('quadratic_root_sign_of_leading', 'A02', [('ecl_geometry/src/lib/polynomial.cpp', '''		} else if ( discriminant == 0.0 ) {
			intercepts.resize(1);
			intercepts << -b/(2*a);''', '''		} else if ( discriminant == 0.0 ) {
			intercepts.resize(1);
			intercepts << -b/2*a;''')],
 'a quadratic with a double root and a leading coefficient other than plus or minus one',
 'the double root is scaled by the square of the leading coefficient', HEADC + r'''
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_type_traits/src/lib/numeric_limits.cpp"
#include "ecl_geometry/src/lib/polynomial.cpp"
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
int main() {
  ecl::QuadraticPolynomial q; q.coefficients() << 2.0, 4.0, 2.0;   // 2(x+1)^2
  ecl::Array<double> r = ecl::Roots<ecl::QuadraticPolynomial>()(q);
  CHECK(r.size() == 1 && NEAR(r[0], -1));
  return 0;
}
''')
seed('shift_horizontal_forgets_top', 'A02', [('ecl_geometry/include/ecl/geometry/polynomial.hpp', '''            coeff[i] += (*iter)*tmp*coeff[j];
            tmp *= (-1*shift);
            ++j;''', '''            coeff[i] += (*iter)*tmp*coeff[j];
            if ( j < 3 ) { tmp *= (-1*shift); }
            ++j;''')],
 'a polynomial of fourth or higher degree shifted by something other than one',
 'the powers of the shift stop growing after the cube, so quartic and higher terms are shifted wrongly', HEADC + r'''
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_type_traits/src/lib/numeric_limits.cpp"
#include "ecl_geometry/src/lib/polynomial.cpp"
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
int main() {
  ecl::QuinticPolynomial p; p.coefficients() << 1.0, 2.0, -1.0, 0.5, 0.25, 2.0;
  ecl::QuinticPolynomial q = p; q.shift_horizontal(2.0);
  for (double x = -3; x < 4; x += 0.5) CHECK(NEAR(q(x), p(x - 2.0)));
  return 0;
}
''')
seed('wrap_const_angle_of_negative', 'A04', [('ecl_geometry/src/lib/angle.cpp', '''	} else if ( angle < 0.0 ) {
		wrapped = fmod(angle-pi,2.0*pi)+pi;
	} else {''', '''	} else if ( angle < -2.0*pi ) {
		wrapped = fmod(angle-pi,2.0*pi)+pi;
	} else {''')],
 'a constant double angle between minus two pi and minus pi',
 'the angle is returned unwrapped, below minus pi', HEADC + r'''
#include "ecl_geometry/src/lib/angle.cpp"
int main() {
  const double a = -4.0;
  CHECK(NEAR(ecl::wrap_angle(a), -4.0 + 2 * ecl::pi));
  const double b = -7.0;
  CHECK(NEAR(ecl::wrap_angle(b), -7.0 + 2 * ecl::pi));
  return 0;
}
''')
seed('smooth_spline_second_derivative_piece', 'A03', [('ecl_geometry/src/lib/smooth_linear_spline.cpp', '''    	return segments[index/2].dderivative(x);
    } else { // quintic
    	return corners[(index-1)/2].dderivative(x);''', '''    	return segments[index/2].dderivative(x);
    } else { // quintic
    	return corners[index/4].dderivative(x);''')],
 'the second derivative of a smooth linear spline asked for in its second (or a later) corner',
 'the curvature of another corner is returned there', HEADC + r'''
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_type_traits/src/lib/numeric_limits.cpp"
#include "ecl_geometry/src/lib/polynomial.cpp"
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
#include "ecl_geometry/src/lib/polynomial_blueprints.cpp"
#include "ecl_geometry/src/lib/smooth_linear_spline.cpp"
int main() {
  ecl::Array<double> x(5), y(5);
  x << 0, 1, 2, 3, 4;  y << 0, 1, 0, 2, -1;
  ecl::SmoothLinearSpline s(x, y, 1000.0);
  double h = 1e-4;
  for (double t = 0.01; t < 3.98; t += 0.0173) {
    double est = (s.derivative(t + h) - s.derivative(t - h)) / (2 * h);
    CHECK(std::fabs(est - s.dderivative(t)) < 0.5 + 0.01 * std::fabs(est));
  }
  return 0;
}
''')
