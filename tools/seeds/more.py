CHK = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
#define NEAR(a, b) (std::fabs(double(a) - double(b)) < 1e-6)
'''
seed('frequency_minimum_starts_at_period', 'M03', [('ecl_time/src/lib/frequency.cpp', '''      incoming_counter = 0;
      minimum_interval = ecl::TimeStamp(100000.0);''', '''      incoming_counter = 0;
      minimum_interval = period;''')],
 'a silence longer than the window between two windows that saw updates',
 'the minimum interval is never reported above the window period', CHK + r'''
static double now_s = 1000;
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
namespace ecl {
TimeError epoch_time(TimeStructure &t) { t.tv_sec = (long)now_s; t.tv_nsec = (long)((now_s - (long)now_s) * 1e9); return TimeError(NoError); }
TimeError realtime_epoch_time(TimeStructure &t) { return epoch_time(t); }
}
#include "ecl_time/src/lib/frequency.cpp"
int main() {
  ecl::FrequencyMonitor m(2.0f);
  now_s += 1; m.update(); now_s += 2; m.analyse();
  now_s += 20; m.update(); now_s += 1;
  const ecl::FrequencyDiagnostics &d = m.analyse();
  CHECK(d.has_connection && std::fabs(d.maximum_interval - 22) < 0.01 && std::fabs(d.minimum_interval - 22) < 0.01);
  return 0;
}
''')
seed('data_exception_short_detail', 'E01', [('ecl_exceptions/include/ecl/exceptions/data_exception.hpp', '''    message(e.message)
{
    location = std::string(loc) + "\\n         : " + e.location;''', '''    message(e.what())
{
    location = std::string(loc) + "\\n         : " + e.location;''')],
 'a data exception that is rethrown twice',
 'the detail of a rethrown exception is the whole earlier report, so flag and data are told several times and the detail is another one', CHK + r'''
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include <ecl/exceptions/data_exception.hpp>
int main() {
  ecl::DataException<int> a("one", ecl::OutOfRangeError, "detail", 5), b("two", a);
  std::string w = b.what();
  CHECK(w.find("Detail   : detail\n") != std::string::npos);
  CHECK(w.find("Data     : 5") == w.rfind("Data     : 5"));
  return 0;
}
''')
seed('array_assignment_keeps_larger_size', 'C02', [('ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp', '''        	if ( array.size() == 0 ) {
        		clear();
        	} else {
				resize(array.size());
				std::copy(array.begin(),array.end(),begin());
        	}
        }''', '''        	if ( array.size() == 0 ) {
        		clear();
        	} else {
				if ( array.size() > size() ) { resize(array.size()); }
				std::copy(array.begin(),array.end(),begin());
        	}
        }''')],
 'a dynamic array assigned from a shorter one',
 'the array keeps its old size and tail', CHK + r'''
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include <ecl/containers/array.hpp>
int main() {
  ecl::Array<int> a(4), b(2), c(7);
  a << 1, 2, 3, 4; b << 5, 6;
  c = a; c = b;
  CHECK(c.size() == 2 && c[0] == 5 && c[1] == 6);
  return 0;
}
''')
seed('thread_started_before_it_is', 'T02', [('ecl_threads/src/lib/thread_pos.cpp', '''    if ( result != 0 ) {
      delete thread_task;
      thread_task = NULL;''', '''    if ( result == EAGAIN ) { return threads::handlePthreadCreateError(result); } // out of threads
    if ( result != 0 ) {
      delete thread_task;
      thread_task = NULL;''')],
 'the system has no more threads when a thread is started later than at its construction',
 'the task object is never released', CHK + r'''
#include <pthread.h>
#include <cerrno>
#include <new>
static long live = 0;
void *operator new(size_t n) { ++live; return malloc(n); }
void operator delete(void *p) noexcept { if (p) --live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --live; free(p); }
extern "C" int refuse(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) { return EAGAIN; }
#define pthread_create refuse
#define NDEBUG
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_threads/src/lib/priority_pos.cpp"
#include "ecl_threads/src/lib/thread_pos.cpp"
static void f() {}
int main() {
  { ecl::Thread t; t.start(f); }
  long before = live;
  { ecl::Thread t; t.start(f); }
  CHECK(live == before);
  return 0;
}
''')
seed('statistics_keep_variance_over_clear', 'A06', [('ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp', '''      old_mean = new_mean = x;
      old_variance = 0.0;''', '''      old_mean = new_mean = x;''')],
 'statistics that are cleared after three or more data and then fed again',
 'the variance of the data before the clear stays in the sum', CHK + r'''
#include <ecl/statistics/cumulative_statistics.hpp>
int main() {
  ecl::CumulativeStatistics<double> s;
  s.push_back(1); s.push_back(5); s.push_back(9);
  s.clear();
  s.push_back(2); s.push_back(4);
  CHECK(NEAR(s.mean(), 3) && NEAR(s.variance(), 2));
  return 0;
}
''')
seed('pose_product_forgets_wrap', 'A05', [('ecl_geometry/include/ecl/geometry/pose2d.hpp', '''    wrap_angle(pose_b_rel_a[2] + pose_c_rel_b[2]);''', '''    wrap_angle(pose_b_rel_a[2]) + wrap_angle(pose_c_rel_b[2]);''')],
 'two poses whose headings are each within half a turn but whose sum is not',
 'the heading of the product lies outside of one turn', CHK + r'''
#include "ecl_geometry/src/lib/angle.cpp"
#include <ecl/geometry/pose2d.hpp>
int main() {
  ecl::Pose2D<double> a(1, 2, 3), b(3, 4, 3);
  ecl::Pose2D<double> c = a * b;
  CHECK(c.heading() <= ecl::pi && c.heading() >= -ecl::pi);
  CHECK(NEAR(c.heading(), 6 - 2 * ecl::pi));
  return 0;
}
''')
seed('joint_beyond_end_uses_first_piece', 'A09', [('ecl_manipulators/src/lib/trajectory.cpp', '''  return spline_functions[joint][spline_functions[joint].size() - 1]->derivative(t_f);''', '''  return spline_functions[joint][0]->derivative(t_f);''')],
 'the rate of a trajectory of several pieces asked for just after its end (which is tolerated up to 0.0001)',
 'the rate of the first piece, extended to the end, is returned', CHK + r'''
#include "ecl_type_traits/src/lib/numeric_limits.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_geometry/src/lib/pascals_triangle.cpp"
#include "ecl_geometry/src/lib/polynomial.cpp"
#include "ecl_geometry/src/lib/polynomial_blueprints.cpp"
#include "ecl_geometry/src/lib/cubic_spline.cpp"
#include "ecl_geometry/src/lib/cubic_spline_blueprints.cpp"
#include "ecl_geometry/src/lib/tension_function.cpp"
#include "ecl_geometry/src/lib/tension_spline.cpp"
#include "ecl_geometry/src/lib/tension_spline_blueprints.cpp"
#include "ecl_geometry/src/lib/smooth_linear_spline.cpp"
#include "ecl_manipulators/src/lib/waypoint.cpp"
#include "ecl_manipulators/src/lib/trajectory.cpp"
using namespace ecl;
int main() {
  Trajectory<JointAngles> t(1u); t.maxAccelerations(50.0);
  double y[6] = {0, 1, 0.5, 2, 1, 3};
  for (int i = 0; i < 6; ++i) {
    WayPoint<JointAngles> w(1u); w.angles()[0] = y[i]; w.nominalRates()[0] = 1.0; w.duration(2.0);
    if (i == 0) { w.rates()[0] = 0.0; } if (i == 5) { w.rates()[0] = 0.3; }
    t.append(w);
  }
  t.tensionSplineInterpolation(1.0);
  double end = t.duration();
  CHECK(std::fabs(t.derivative(0, end) - t.derivative(0, end + 0.00005)) < 0.01);
  return 0;
}
''')
