// The frequency monitor: what it says about the updates since its last analysis.
#include "v.h"
#include "thin_exception.h"
#include <unistd.h>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_time/src/lib/frequency.cpp"
using namespace ecl;
namespace drv {
static const long G = 1000000000L;
static long mono, real; static bool monoRead, realRead; static long step;   // the two clocks, whole seconds
static void reset() { mono = __v_range(1, 1000000); real = 1500000000 + mono; monoRead = realRead = false; step = 0; }
static void pass(long s) { mono += s; real += s; }
}
namespace ecl {
TimeError epoch_time(TimeStructure &t) { drv::monoRead = true; t.tv_sec = drv::mono; t.tv_nsec = 0; return TimeError(NoError); }
TimeError realtime_epoch_time(TimeStructure &t) { drv::realRead = true; t.tv_sec = drv::real; t.tv_nsec = 0; return TimeError(NoError); }
}
using namespace drv;
namespace drv {
static bool rt;
static long clockNow() { return rt ? real : mono; }
static void rightClock() { if (rt) __v_assert(!monoRead, "M03: the monitor does not use the clock it was asked to use"); else __v_assert(!realRead, "M03: the monitor does not use the clock it was asked to use"); }
static bool is(float f, long v) { TimeStamp t(v, 0); return __v_same(f, (float)(double)t); }
}
#define TRY(...) try { __VA_ARGS__; } catch (const StandardException &) { __v_assert(false, "M03: the monitor fails although the clock works"); }
// a window without updates, with one or with several
DRIVER(window) { __v_precise(60); __v_exact(); __v_unroll(20); TRY(
  reset(); rt = __v_bool(); FrequencyMonitor m(2.0f, rt); rightClock(); long start = clockNow();
  long last = start; int k = 0;
  switch (__v_range(0, 3)) { case 0: k = 0; break; case 1: k = 1; break; case 2: k = 2; break; default: k = 3; }
  long lo = 0, hi = 0;
  for (int i = 0; i < k; i++) { long g = __v_range(0, 100); pass(g); m.update(); rightClock(); __v_assert(m.diagnostics().has_connection, "M03: an update does not establish the connection"); long d = clockNow() - last; last = clockNow(); if (i == 0 || d < lo) lo = d; if (i == 0 || d > hi) hi = d; }
  long g = __v_range(0, 100); pass(g); const FrequencyDiagnostics &q = m.analyse(); rightClock(); long since = clockNow() - start;
  __v_assert(&q == &m.diagnostics(), "M03: analyse() returns other diagnostics than the monitor keeps");
  __v_assert(is(q.last_incoming, last), "M03: the time of the last update is wrong");
  if (since > 2) {
    __v_assert(q.has_connection == (k > 0), "M03: the connection is not judged by the updates of the window");
    if (k == 0) { __v_assert(q.hz == 0.0f && q.minimum_interval == 0.0f && q.maximum_interval == 0.0f, "M03: a window without updates has a frequency or intervals"); __v_reach("silent"); }
    else { __v_assert(__v_same(q.hz, (float)((double)(float)(unsigned)k / (double)TimeStamp(since, 0))), "M03: the frequency is not the number of updates over the time since the last analysis");
      __v_assert(is(q.minimum_interval, lo) && is(q.maximum_interval, hi), "M03: the shortest or longest interval is not one of the window"); __v_reach("busy"); }
  } else { __v_assert(q.hz == -1.0f && q.minimum_interval == -1.0f && q.maximum_interval == -1.0f && q.has_connection == (k > 0), "M03: the diagnostics change before the window is over"); __v_reach("early"); }
) }
// two windows in a row: what the second one says does not depend on the first
DRIVER(second) { __v_precise(60); __v_exact(); __v_unroll(20); TRY(
  reset(); rt = __v_bool(); FrequencyMonitor m(2.0f, rt); long last = clockNow(); bool first = __v_bool(); if (first) { pass(__v_range(0, 50)); m.update(); last = clockNow(); }
 
  pass(__v_range(3, 50)); m.analyse(); long start = clockNow(); float before = m.diagnostics().hz;
  bool b1 = __v_bool(), b2 = __v_bool(); long lo = 0, hi = 0; if (b1) { pass(__v_range(0, 50)); m.update(); lo = hi = clockNow() - last; last = clockNow(); }
  if (b2) { pass(__v_range(0, 50)); m.update(); long d = clockNow() - last; last = clockNow(); if (!b1) lo = hi = d; else { if (d < lo) lo = d; if (d > hi) hi = d; } }
 
  unsigned n = b1 ? b2 ? 2 : 1 : b2 ? 1 : 0;
  pass(__v_range(0, 50)); const FrequencyDiagnostics &q = m.analyse(); long since = clockNow() - start;
  if (since > 2) {
    if (n == 0) __v_assert(!q.has_connection && q.hz == 0.0f && q.minimum_interval == 0.0f && q.maximum_interval == 0.0f, "M03: a window without updates has a frequency or intervals");
    else __v_assert(q.has_connection && __v_same(q.hz, (float)((double)(float)n / (double)TimeStamp(since, 0))), "M03: the frequency is not the number of updates over the time since the last analysis");
    if (n) __v_assert(is(q.minimum_interval, lo) && is(q.maximum_interval, hi), "M03: the shortest or longest interval is not one of the window");
    __v_assert(is(q.last_incoming, last), "M03: the time of the last update is wrong");
    __v_reach("second");
  } else __v_assert(__v_same(q.hz, before), "M03: the diagnostics change before the window is over");
) }
