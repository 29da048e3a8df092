// Time component: arithmetic and comparison of time stamps, and what the waiting functions ask for.
#include "v.h"
#include "thin_exception.h"
#include <unistd.h>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_time/src/lib/sleep_pos.cpp"
#include "ecl_time/src/lib/snooze_pos.cpp"
#include "ecl_time/src/lib/stopwatch.cpp"
#include "ecl_time/src/lib/cpuwatch_rt.cpp"
#include <ecl/time/duration.hpp>
using namespace ecl;
namespace drv {
static const long G = 1000000000L;
static const long S = 1L << 31;   // seconds: the range of dates the library is used for
struct T { long s, n; };
static T any() {   // any normalised time: both parts of one sign, less than one second of nanoseconds
  T t; t.s = __v_range(-S, S); t.n = __v_range(-G + 1, G - 1);
  __v_assume(t.s == 0 || (t.s > 0 && t.n >= 0) || (t.s < 0 && t.n <= 0));
  return t;
}
static T anyPos() { T t; t.s = __v_range(0, S); t.n = __v_range(0, G - 1); return t; }
static void normal(const TimeStampBase &r) {
  __v_assert(r.nsec() < G && r.nsec() > -G, "M01: the nanosecond part reaches a full second");
  if (r.sec() > 0) __v_assert(r.nsec() >= 0, "M01: the nanosecond part has the wrong sign");
  if (r.sec() < 0) __v_assert(r.nsec() <= 0, "M01: the nanosecond part has the wrong sign");
}
// ---- stand-ins for the operating system: what they were asked for
static bool slept; static long req_s, req_n; static bool sleepFails;
static bool until; static long until_s, until_n;
static bool clockMayFail = false; static bool clockFails; static T now; static bool clockRead;
}
extern "C" int nanosleep(const struct timespec *r, struct timespec *rem) {
  drv::slept = true; drv::req_s = r->tv_sec; drv::req_n = r->tv_nsec;
  __v_assert(r->tv_nsec >= 0 && r->tv_nsec < 1000000000L, "M02: asks the system to sleep for an invalid time");
  if (__v_bool()) { drv::sleepFails = true; errno = (int)__v_range(1, 133); return -1; }
  return 0;
}
namespace ecl {
TimeError epoch_time(TimeStructure &t) {
  drv::clockRead = true;
  if (drv::clockMayFail && __v_bool()) { drv::clockFails = true; errno = (int)__v_range(1, 133); return TimeError(UnknownError); }
  drv::now = drv::anyPos(); t.tv_sec = drv::now.s; t.tv_nsec = drv::now.n; return TimeError(NoError);
}
TimeError realtime_epoch_time(TimeStructure &t) { return epoch_time(t); }
TimeError cpu_time(TimeStructure &t) { drv::clockRead = true; drv::now = drv::anyPos(); t.tv_sec = drv::now.s; t.tv_nsec = drv::now.n; return TimeError(NoError); }
TimeError sleep_until(const TimeStructure &t) {
  drv::until = true; drv::until_s = t.tv_sec; drv::until_n = t.tv_nsec;
  __v_assert(t.tv_nsec >= 0 && t.tv_nsec < 1000000000L, "M02: asks the system to wait until an invalid time");
  return TimeError(NoError);
}
}
using namespace drv;
DRIVER(add) {
  T a = any(), b = any(); TimeStampBase x(a.s, a.n), y(b.s, b.n);
  TimeStampBase r = x + y; normal(r);
  __v_assert((r.sec() - a.s - b.s) * G + r.nsec() - a.n - b.n == 0, "M01: a sum does not denote the sum of the times");
  __v_assert(x.sec() == a.s && x.nsec() == a.n && y.sec() == b.s && y.nsec() == b.n, "M01: adding changes an operand");
  __v_reach("add");
}
DRIVER(add_assign) {
  T a = any(), b = any(); TimeStampBase x(a.s, a.n), y(b.s, b.n);
  x += y; normal(x);
  __v_assert((x.sec() - a.s - b.s) * G + x.nsec() - a.n - b.n == 0, "M01: a sum does not denote the sum of the times");
  __v_assert(y.sec() == b.s && y.nsec() == b.n, "M01: adding changes an operand");
  __v_reach("add_assign");
}
DRIVER(sub) {
  T a = any(), b = any(); TimeStampBase x(a.s, a.n), y(b.s, b.n);
  TimeStampBase r = x - y; normal(r);
  __v_assert((r.sec() - a.s + b.s) * G + r.nsec() - a.n + b.n == 0, "M01: a difference does not denote the difference of the times");
  __v_assert(x.sec() == a.s && x.nsec() == a.n && y.sec() == b.s && y.nsec() == b.n, "M01: subtracting changes an operand");
  __v_reach("sub");
}
DRIVER(sub_assign) {
  T a = any(), b = any(); TimeStampBase x(a.s, a.n), y(b.s, b.n);
  x -= y; normal(x);
  __v_assert((x.sec() - a.s + b.s) * G + x.nsec() - a.n + b.n == 0, "M01: a difference does not denote the difference of the times");
  __v_reach("sub_assign");
}
DRIVER(compare) {
  T a = any(), b = any(); TimeStampBase x(a.s, a.n), y(b.s, b.n);
  bool lt = a.s < b.s || (a.s == b.s && a.n < b.n), eq = a.s == b.s && a.n == b.n;
  __v_assert((x == y) == eq, "M01: == disagrees with the times denoted");
  __v_assert((x != y) == !eq, "M01: != disagrees with the times denoted");
  __v_assert((x < y) == lt, "M01: < disagrees with the times denoted");
  __v_assert((x <= y) == (lt || eq), "M01: <= disagrees with the times denoted");
  __v_assert((x > y) == !(lt || eq), "M01: > disagrees with the times denoted");
  __v_assert((x >= y) == !lt, "M01: >= disagrees with the times denoted");
  __v_reach("compare");
}
DRIVER(parts) {
  T a = any(); TimeStamp x(a.s, a.n);
  __v_assert(x.sec() == a.s && x.nsec() == a.n, "M01: a time stamp does not hold the time it was made from");
  T b = any(); x.stamp(b.s, b.n);
  __v_assert(x.sec() == b.s && x.nsec() == b.n, "M01: stamp() does not set the time given");
  T c = anyPos(); TimeStamp z(c.s, c.n);
  long ms = z.msec(), us = z.usec();
  __v_assert(ms * 1000000L <= c.n && c.n < (ms + 1) * 1000000L, "M01: msec() is not the nanosecond part in milliseconds");
  __v_assert(us * 1000L <= c.n && c.n < (us + 1) * 1000L, "M01: usec() is not the nanosecond part in microseconds");
  TimeStamp w(z); __v_assert(w.sec() == c.s && w.nsec() == c.n, "M01: a copy denotes another time");
  w = x; __v_assert(w.sec() == b.s && w.nsec() == b.n, "M01: an assigned time stamp denotes another time");
  Duration d = x; __v_assert(d.sec() == b.s && d.nsec() == b.n, "M01: a converted time stamp denotes another time");
  __v_reach("parts");
}
DRIVER(invalid_parts) {
  long s = __v_range(-S, S), n = __v_range(-G + 1, G - 1); bool ok = s == 0 || (s > 0 && n >= 0) || (s < 0 && n <= 0);
  try { TimeStamp x(s, n);
#ifndef NDEBUG
    __v_assert(ok, "M01: accepts a time whose parts have different signs");
#endif
    __v_reach("accept"); }
  catch (const StandardException &) { __v_assert(!ok, "M01: rejects a valid time"); }
}
DRIVER(stampnow) {
  clockMayFail = true; clockFails = false; clockRead = false;
  try { TimeStamp t; __v_assert(clockRead, "M01: a default time stamp is not the current time");
#ifndef NDEBUG
    __v_assert(!clockFails, "M02: a failed clock call is not reported");
#endif
    if (!clockFails) __v_assert(t.sec() == now.s && t.nsec() == now.n, "M01: a default time stamp is not the current time");
    __v_reach("stampnow"); clockFails = false;
    t.stamp(); if (!clockFails) __v_assert(t.sec() == now.s && t.nsec() == now.n, "M01: stamp() does not take the current time");
  } catch (const StandardException &) { __v_assert(clockFails, "M02: the clock is reported to have failed although it did not"); __v_reach("stampfail"); }
}
DRIVER(stopwatch) {
  clockFails = false;
  try {
    StopWatch w; T t0 = now; (void)t0; w.restart(); T t1 = now; TimeStamp e = w.elapsed(); T t2 = now;
    __v_assume(!clockFails); __v_assume(t2.s > t1.s || (t2.s == t1.s && t2.n >= t1.n));
    __v_assert((e.sec() - t2.s + t1.s) * G + e.nsec() - t2.n + t1.n == 0, "M01: elapsed() is not the time since the last restart");
    TimeStamp p = w.split(); T t3 = now; __v_assume(!clockFails); __v_assume(t3.s > t2.s || (t3.s == t2.s && t3.n >= t2.n));
    __v_assert((p.sec() - t3.s + t1.s) * G + p.nsec() - t3.n + t1.n == 0, "M01: the first split() is not the time since the restart");
    TimeStamp q = w.split(); T t4 = now; __v_assume(!clockFails); __v_assume(t4.s > t3.s || (t4.s == t3.s && t4.n >= t3.n));
    __v_assert((q.sec() - t4.s + t3.s) * G + q.nsec() - t4.n + t3.n == 0, "M01: split() is not the time since the previous split");
    __v_reach("stopwatch");
  } catch (const StandardException &) {}
}
DRIVER(cpuwatch) {
  try {
    clockRead = false; CpuWatch w; T t0 = now; __v_assert(clockRead, "M01: a watch does not start at the current time");
    bool again = __v_bool(); if (again) w.restart(); T t1 = now; TimeStamp e = w.elapsed(); T t2 = now;
    __v_assume(t2.s > t1.s || (t2.s == t1.s && t2.n >= t1.n));
    __v_assert((e.sec() - t2.s + t1.s) * G + e.nsec() - t2.n + t1.n == 0, "M01: elapsed() is not the time since the last restart"); normal(e);
    TimeStamp p = w.split(); T t3 = now; __v_assume(t3.s > t2.s || (t3.s == t2.s && t3.n >= t2.n));
    __v_assert((p.sec() - t3.s + t1.s) * G + p.nsec() - t3.n + t1.n == 0, "M01: the first split() is not the time since the restart"); normal(p);
    TimeStamp q = w.split(); T t4 = now; __v_assume(t4.s > t3.s || (t4.s == t3.s && t4.n >= t3.n));
    __v_assert((q.sec() - t4.s + t3.s) * G + q.nsec() - t4.n + t3.n == 0, "M01: split() is not the time since the previous split");
    __v_reach("cpuwatch");
  } catch (const StandardException &) { __v_assert(false, "M01: a watch fails although the clock works"); }
}
// ---- the text of a time: a stream that reads it back
namespace drv {
static bool minus, point, odd; static long whole, frac; static int zeros, numbers;
struct Reader {};
static void take(long v, int digits) {   // a number, with the digits it is written with
  if (!point) { if (numbers) odd = true; whole = v; numbers++; return; }
  if (v < 0 || numbers != 1) odd = true; frac = v; zeros += digits; numbers++;
}
static int digitsOf(long v) { if (v < 10) return 1; if (v < 100) return 2; if (v < 1000) return 3; if (v < 10000) return 4; if (v < 100000) return 5; if (v < 1000000) return 6; if (v < 10000000) return 7; if (v < 100000000) return 8; if (v < G) return 9; return 10; }
static void takeText(const char *p) {
  for (int i = 0; p[i] != 0 && i < 12; i++) {
    if (p[i] == '-') { if (minus || point || numbers) odd = true; minus = true; }
    else if (p[i] == '.') { if (point || numbers != 1) odd = true; point = true; }
    else if (p[i] == '0') { if (!point || numbers != 1) odd = true; zeros++; }
    else odd = true;
  }
}
static Reader &operator<<(Reader &r, const char *p) { takeText(p); return r; }
static Reader &operator<<(Reader &r, char c) { char p[2] = {c, 0}; takeText(p); return r; }
static Reader &operator<<(Reader &r, long v) { take(v, point ? digitsOf(v) : 0); return r; }
static Reader &operator<<(Reader &r, int v) { return r << (long)v; }
static Reader &operator<<(Reader &r, unsigned long v) { return r << (long)v; }
static Reader &operator<<(Reader &r, unsigned v) { return r << (long)v; }
}
DRIVER(text) {
  __v_precise(60); __v_exact(); __v_unroll(20);
  minus = point = odd = false; whole = frac = 0; zeros = numbers = 0;
  T a = any(); TimeStampBase t(a.s, a.n); Reader r; r << t;
  __v_assert(!odd && point && numbers == 2, "M01: a time is not written as seconds, point and nanoseconds");
  __v_assert(zeros == 9, "M01: the nanoseconds of a time are not written with nine digits");
  if (minus) __v_assert(whole >= 0 && a.s <= 0, "M01: a time is not written with its sign");
  __v_assert((minus ? -whole : whole) == a.s && frac == (a.n < 0 ? -a.n : a.n), "M01: a time is written as another time");
  if (a.s == 0 && a.n < 0) __v_assert(minus, "M01: a time is not written with its sign");
  __v_reach("text");
}
// ---- sleeping
#define SLEPT(sec, nsec) do { __v_assert(slept, "M02: does not sleep at all"); __v_assert(req_s == (long)(sec) && req_n == (long)(nsec), "M02: asks the system to sleep for another time than requested"); } while (0)
#ifdef NDEBUG
#define REPORTED
#else
#define REPORTED __v_assert(!sleepFails, "M02: a failed sleep is not reported");
#endif
#define SLEEPING(expr, sec, nsec) do { slept = false; sleepFails = false; try { expr; REPORTED } catch (const StandardException &) { __v_assert(sleepFails, "M02: reports a failure although the sleep succeeded"); } SLEPT(sec, nsec); } while (0)
DRIVER(sleep) {
  T a = anyPos(), b = anyPos(); long k = __v_range(0, S), m = __v_range(0, S);
  Sleep s(Duration(a.s, a.n)); SLEEPING(s(), a.s, a.n);
  SLEEPING(s(Duration(b.s, b.n)), b.s, b.n); SLEEPING(s((unsigned long)k), k, 0);
  Sleep t((unsigned long)m); SLEEPING(t(), m, 0);
  __v_reach("sleep");
}
template <typename SL> static void units(unsigned long per) {
  long sec = __v_range(0, S), sub = __v_range(0, 999999999L); __v_assume(sub < (long)per);
  long sec2 = __v_range(0, S), sub2 = __v_range(0, 999999999L); __v_assume(sub2 < (long)per);
  long f = 1000000000L / (long)per;
  SL s((unsigned long)(sec * (long)per + sub)); SLEEPING(s(), sec, sub * f);
  __v_assert(s.duration().sec() == sec && s.duration().nsec() == sub * f, "M02: duration() is not the duration requested");
  SLEEPING(s((unsigned long)(sec2 * (long)per + sub2)), sec2, sub2 * f);
  SLEEPING(s(), sec2, sub2 * f);
  __v_reach("units");
}
DRIVER(millisleep) { units<MilliSleep>(1000); }
DRIVER(microsleep) { units<MicroSleep>(1000000); }
DRIVER(nanosleep) { units<NanoSleep>(1000000000); }
// ---- snoozing: the deadline is the previous deadline plus the period, or now plus the period when late
static bool expectDeadline(const T &prev, const T &p, const T &t) {   // returns whether it was met in time
  long es = prev.s + p.s, en = prev.n + p.n; if (en >= G) { en -= G; es += 1; }
  bool late = t.s > es || (t.s == es && t.n > en);
  __v_assert(until, "M02: does not wait at all");
  if (!late) __v_assert(until_s == es && until_n == en, "M02: the deadline is not one period after the previous one");
  else __v_assert((until_s - t.s - p.s) * G + until_n - t.n - p.n == 0, "M02: a late snooze is not rescheduled one period from now");
  return !late;
}
static T period() { T p = anyPos(); __v_assume(p.s < 1000000); return p; }
DRIVER(snooze_first) {
  __v_precise(64);
  T p = period(); Snooze z(Duration(p.s, p.n)); T t0 = now;
  Duration q = z.period(); __v_assert(q.sec() == p.s && q.nsec() == p.n, "M02: period() is not the period requested");
  until = false; z(); expectDeadline(t0, p, now);
  __v_reach("snooze");
}
DRIVER(snooze_next) {
  __v_precise(64);
  T p = period(); Snooze z(Duration(p.s, p.n)); T t0 = now;
  until = false; z(); __v_assume(now.s < t0.s);   // in time
  T d; d.s = until_s; d.n = until_n; until = false; z(); expectDeadline(d, p, now);
  __v_reach("snooze");
}
DRIVER(snooze_restart) {
  __v_precise(64);
  T p = period(); Snooze z; z.period(Duration(p.s, p.n)); z.initialise(); T t0 = now;
  Duration q = z.period(); __v_assert(q.sec() == p.s && q.nsec() == p.n, "M02: period() is not the period set");
  until = false; z(); expectDeadline(t0, p, now);
  __v_reach("snooze");
}
