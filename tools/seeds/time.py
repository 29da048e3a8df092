TIME = r'''
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <thread>
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_time/src/lib/timestamp_base.cpp"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
using namespace ecl;
'''
seed('timestamp_less_on_equal_seconds', 'M01', [('ecl_time/src/lib/timestamp_base.cpp', '''        nsec += 1000000000L;
    } else if ( (sec < 0) && ( nsec > 0 )) {
        sec += 1;
        nsec -= 1000000000L;
    }
    time.tv_sec = sec;''', '''        nsec += 1000000000L;
    } else if ( (sec <= 0) && ( nsec > 0 )) {
        sec += 1;
        nsec -= 1000000000L;
    }
    time.tv_sec = sec;''')],
 'two stamps less than a second apart, the earlier one taken from the later one in place',
 'the difference is no longer in normal form (a positive second with negative nanoseconds)', TIME + r'''
int main() {
  TimeStampBase a(5, 700000000), b(5, 200000000);
  a -= b;
  CHECK(a.sec() == 0 && a.nsec() == 500000000);
  return 0;
}
''')
seed('snooze_stale_wrap_value', 'M02', [('ecl_time/src/lib/snooze_pos.cpp', """    time_period.tv_sec = time.sec();
    time_period.tv_nsec = time.nsec();
    wrap_value_ns = 1000000000L-time_period.tv_nsec;
""", """    wrap_value_ns = 1000000000L-time_period.tv_nsec;
    time_period.tv_sec = time.sec();
    time_period.tv_nsec = time.nsec();
""")],
 'the period of a snooze object is changed and then used until the nanoseconds wrap',
 'the wrap point belongs to the previous period, so deadlines with a full second of nanoseconds (or negative ones) reach the system', TIME + r'''
static long at_sec = 1000, at_nsec = 0, asked = -1;
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_time/src/lib/snooze_pos.cpp"
namespace ecl {
TimeError epoch_time(TimeStructure &t) { t.tv_sec = at_sec; t.tv_nsec = at_nsec; return TimeError(NoError); }
TimeError realtime_epoch_time(TimeStructure &t) { return epoch_time(t); }
TimeError sleep_until(const TimeStructure &t) { asked = t.tv_nsec; at_sec = t.tv_sec; at_nsec = t.tv_nsec; return TimeError(NoError); }
}
int main() {
  Snooze snooze(Duration(0, 100000000), false);
  snooze.period(Duration(0, 350000000), false);
  for (int i = 0; i < 9; ++i) { snooze(); CHECK(asked >= 0 && asked < 1000000000L); }
  return 0;
}
''')
seed('millisleep_wrong_remainder', 'M02', [('ecl_time/src/lib/sleep_pos.cpp', '''void MilliSleep::operator ()(const unsigned long &milliseconds) {
  required.tv_sec = milliseconds/1000; // integer division
  required.tv_nsec = (milliseconds%1000)*1000000;''', '''void MilliSleep::operator ()(const unsigned long &milliseconds) {
  required.tv_sec = milliseconds/1000; // integer division
  required.tv_nsec = (milliseconds%1024)*1000000;''')],
 'a sleep of 1000 to 1023 (or any number with such a remainder) milliseconds',
 'the duration handed to the system is not the one asked for, or is refused', TIME + r'''
static struct timespec asked;
extern "C" int nanosleep(const struct timespec *t, struct timespec *) { asked = *t; return 0; }
#include "ecl_time/src/lib/sleep_pos.cpp"
int main() {
  MilliSleep sleep;
  for (unsigned long k = 0; k < 5000; ++k) { sleep(k); CHECK(asked.tv_nsec >= 0 && asked.tv_nsec < 1000000000L && asked.tv_sec * 1000 + asked.tv_nsec / 1000000 == (long)k); }
  return 0;
}
''')
seed('trylock_counts_before_it_knows', 'T01', [('ecl_threads/src/lib/mutex_pos.cpp', '''  if (result == EBUSY) {
    return false;
  }''', '''  if (result == EBUSY && !number_locks) {
    return false;
  }''')],
 'a try-lock that finds the mutex busy while it is counted as locked',
 'a failed try-lock is taken for an error (or a success)', TIME + r'''
#include "ecl_threads/src/lib/mutex_pos.cpp"
int main() {
  Mutex m; m.lock(); bool got = true, threw = false;
  std::thread t([&] { try { got = m.trylock(); } catch (...) { threw = true; } }); t.join();
  CHECK(!threw); CHECK(!got);
  m.unlock();
  return 0;
}
''')
