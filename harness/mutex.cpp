// Mutex: every sequence of operations with every outcome of the pthread calls.
#include "v.h"
#include "thin_exception.h"
#include <unistd.h>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_threads/src/lib/mutex_pos.cpp"
using namespace ecl;
namespace drv {
static const long G = 1000000000L;
static int attrs;             // attribute objects initialised and not destroyed
static int inits, destroys;   // of the mutex
static bool mutexReady, initFails;
static int held;              // what the system says about the mutex
static bool lockFails;
static long now_s, now_n, dl_s, dl_n; static bool deadline;
static void *themutex;
static int outcome() { return (int)__v_range(1, 133); }
static void ready(void *m) { __v_assert(mutexReady && m == themutex, "T01: operates on a mutex that is not initialised"); }
}
using namespace drv;
extern "C" {
int pthread_mutexattr_init(pthread_mutexattr_t *) throw() { if (__v_bool()) { initFails = true; return outcome(); } attrs++; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *, int) throw() { __v_assert(attrs > 0, "T01: uses attributes that are not initialised"); if (__v_bool()) { initFails = true; return outcome(); } return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *) throw() { __v_assert(attrs > 0, "T01: releases attributes that are not initialised"); attrs--; return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) throw() {
  __v_assert(!mutexReady, "T01: initialises the mutex twice");
  if (__v_bool()) { initFails = true; return outcome(); }
  mutexReady = true; themutex = m; inits++; held = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) throw() { ready(m); __v_assert(held == 0, "T01: destroys the mutex while it is locked by its user"); destroys++; mutexReady = false; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) throw() { ready(m); if (held || __v_bool()) { lockFails = true; return outcome(); } held = 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { ready(m); if (held) return EBUSY; if (__v_bool()) { lockFails = true; return outcome(); } held = 1; return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) throw() {
  ready(m); deadline = true; dl_s = t->tv_sec; dl_n = t->tv_nsec;
  __v_assert(t->tv_nsec >= 0 && t->tv_nsec < G, "M02: asks the system to wait until an invalid time");
  if (held || __v_bool()) { lockFails = true; return outcome(); } held = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { ready(m); if (!held || __v_bool()) { lockFails = true; return outcome(); } held = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) throw() {
  __v_assert(c == CLOCK_REALTIME, "M02: a timed lock waits by the real time clock");
  t->tv_sec = now_s; t->tv_nsec = now_n; return 0; }
}
namespace ecl { TimeError epoch_time(TimeStructure &t) { t.tv_sec = now_s; t.tv_nsec = now_n; return TimeError(NoError); } }
namespace drv {
static void count(Mutex &m) { __v_assert((long)m.locks() == held, "T01: the lock count is not the number of locks held"); }
static void begin() { lockFails = false; deadline = false; dl_s = dl_n = 0; now_s = now_n = 0; }
static void use(Mutex &m) {
  for (begin();; begin()) {
    long op = __v_range(0, 4); int before = held;
    try {
      if (op == 0) { __v_note("lock()"); if (before) {
#ifdef NDEBUG
        __v_assume(false); // a release build does not detect deadlocks
#endif
        }
        m.lock(); count(m); __v_reach("lock");
#if !defined(NDEBUG) && !defined(V_NOEXC)
        __v_assert(held == before + 1, "T01: lock() returned but the mutex is not held");
#endif
      }
      else if (op == 1) { __v_note("trylock()"); bool r = m.trylock(); count(m); __v_assert(r == (held == before + 1), "T01: trylock() does not say whether the mutex is held"); __v_reach("trylock"); if (r) __v_reach("!T01: trylock() can succeed"); }
      else if (op == 2) { __v_note("trylock(duration)"); Duration d(0, 5000); bool r = m.trylock(d); count(m); __v_assert(r == (held == before + 1), "T01: trylock(duration) does not say whether the mutex is held"); __v_reach("timed"); if (r) __v_reach("!T01: trylock(duration) can succeed"); }
      else if (op == 3) { __v_note("unlock()"); m.unlock(); count(m); __v_reach("unlock");
#if !defined(NDEBUG) && !defined(V_NOEXC)
        __v_assert(before == 1 && held == 0, "T01: unlock() returned but the mutex was not given up");
#endif
      }
      else break;
      __v_assert(held - before >= -1 && held - before <= 1, "T01: an operation changes the lock more than once");
    } catch (const StandardException &) {
      __v_note("  -> StandardException"); __v_reach("exception");
      __v_assert(lockFails, "T01: throws although no call failed"); count(m);
      __v_assert(held == before, "T01: an operation that throws changes the lock");
    }
  }
  if (held) { lockFails = false; try { m.unlock(); } catch (const StandardException &) { } __v_assume(!held); }
}
static void reset() { attrs = inits = destroys = held = 0; mutexReady = initFails = false; themutex = 0; begin(); }
static void finish(bool constructed) {
  __v_assert(attrs == 0, "T01: mutex attributes are never released");
  __v_assert(inits == destroys && inits <= 1, "T01: the mutex is initialised and destroyed exactly once");
  __v_reach("finish");
}
}
DRIVER(mutex) {
  reset(); bool made = false;
  try {
    Mutex m; made = true;
#if defined(NDEBUG) || defined(V_NOEXC)
    __v_assume(!initFails); // documented: failing initialisation is only reported in debug builds with exceptions
#endif
    __v_assert(!initFails, "T01: a mutex that could not be initialised is handed out");
    __v_reach("!T01: construction can succeed");
    __v_shared(&m);
    __v_assert(held == 0, "T01: a new mutex is locked"); count(m);
    use(m);
  } catch (const StandardException &) { __v_assert(!made, "T01: unexpected exception"); __v_reach("ctor_exception"); }
  finish(made);
}
DRIVER(mutex_locked) {
  reset(); bool made = false;
  try {
    Mutex m(true); made = true;
#if defined(NDEBUG) || defined(V_NOEXC)
    __v_assume(!initFails && !lockFails);
#endif
    __v_assert(!initFails && !lockFails && held == 1, "T01: a mutex created locked is not locked"); count(m);
    use(m);
  } catch (const StandardException &) { __v_assert(!made, "T01: unexpected exception"); __v_reach("ctor_exception"); }
  finish(made);
}
// the deadline of a timed lock is the present plus the duration, for every clock value and duration
DRIVER(mutex_deadline) {
  reset(); __v_precise(40);
  try {
    Mutex m;
    __v_assume(!initFails);
    long s = __v_range(0, 1L << 30), n = __v_range(0, G - 1); now_s = __v_range(0, 1L << 40); now_n = __v_range(0, G - 1);
    long cs = now_s, cn = now_n;
    Duration d(s, n);
    try { m.trylock(d); } catch (const StandardException &) { }
    if (deadline) { __v_reach("deadline");
      __v_assert((dl_s - cs - s) * G == cn + n - dl_n, "M02: the deadline of a timed lock is not the present plus the duration");
      __v_assert(dl_n >= 0 && dl_n < G, "M02: the deadline of a timed lock is not a valid time"); }
    if (held) { try { m.unlock(); } catch (const StandardException &) { } __v_assume(!held); }
  } catch (const StandardException &) { }
}
