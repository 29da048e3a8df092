// Threads: a thread body that may run at any point after its creation, with every outcome of the pthread calls.
#include "v.h"
#include "thin_exception.h"
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <sys/resource.h>
#include "ecl_threads/src/lib/priority_pos.cpp"
#include "ecl_threads/src/lib/thread_pos.cpp"
#include <ecl/threads/threadable.hpp>
using namespace ecl;
namespace drv {
typedef void *(*Routine)(void *);
enum { None, Pending, Running, Done };
static signed char state;               // of the one thread of this driver
static bool ranged, joined, detached, cancelled, failed, attrOk, attrBad, prioFails, prioAsked;
static Routine routine; static void *argument;
static bool stackAsked, stackSet; static long stackSize;
static signed char runs, live;          // runs of the function; live copies of the callable
static long handle = 4711;
struct Cancellation {};
static Thread *theThread; static bool inBody, inCall; // inCall: the client is inside a call of the thread object
static void reset() { stackAsked = stackSet = false; stackSize = 0; state = None; joined = detached = cancelled = failed = attrOk = attrBad = prioFails = prioAsked = false; ranged = __v_bool(); runs = 0; live = 0; theThread = NULL; inBody = inCall = false; routine = NULL; argument = NULL; }
static void runNow() {
  if (state != Pending) return;
  state = Running; inBody = true;
  try { routine(argument); } catch (Cancellation &) { __v_reach("cancelled in the body"); }
  inBody = false; state = Done; routine = NULL; argument = NULL;
}
static void chance() { if (state == Pending && !inBody && __v_bool()) runNow(); }
static void valid(pthread_t t) { __v_assert(state != None && (long)t == handle, "T02: a thread call is issued on a thread that was never created"); __v_assert(!joined, "T02: a thread call is issued on a thread that was already joined"); __v_assert(!detached, "T02: a thread call is issued on a thread that was already detached"); }
static void step();
// what the thread executes: it checks that it is alive before and after another thread interferes
struct Callable {
  typedef void result_type;
  signed char token; 
  Callable() : token(42) { live++; }
  Callable(const Callable &o) : token(o.token) { live++; }
  ~Callable() { token = 0; live--; }
  void operator()() { body(); }
  void body() {
    runs++;
    __v_assert(inBody, "T02: the function runs in the thread that was created for it");
    __v_assert(token == 42, "T02: the thread runs a callable that no longer exists");
    step();
    __v_assert(token == 42, "T02: the callable is released while the thread still runs it");
    if (cancelled && __v_bool()) throw Cancellation();
  }
};
}
using namespace drv;
extern "C" {
int pthread_attr_init(pthread_attr_t *) throw() { __v_assert(!attrOk, "T02: initialises thread attributes twice"); attrOk = true; return 0; }
int pthread_attr_destroy(pthread_attr_t *) throw() { __v_assert(attrOk, "T02: releases thread attributes that are not initialised"); attrOk = false; return 0; }
int pthread_attr_setscope(pthread_attr_t *, int) throw() { __v_assert(attrOk, "T02: uses attributes that are not initialised"); return 0; }
int pthread_attr_setinheritsched(pthread_attr_t *, int) throw() { __v_assert(attrOk, "T02: uses attributes that are not initialised"); return 0; }
int pthread_attr_setdetachstate(pthread_attr_t *, int) throw() { __v_assert(attrOk, "T02: uses attributes that are not initialised"); return 0; }
int pthread_attr_setstacksize(pthread_attr_t *, size_t n) throw() { __v_assert(attrOk, "T02: uses attributes that are not initialised"); __v_assert(stackAsked && (long)n == stackSize, "T02: a thread gets another stack size than the one asked for"); stackSet = true; if (__v_bool()) { attrBad = true; return EINVAL; } return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *, Routine r, void *a) throw() {
  __v_assert(attrOk, "T02: creates a thread with attributes that are not initialised");
  __v_assert(state == None, "T02: a thread that has been started is started again");
  if (stackAsked && stackSize != -1) __v_assert(stackSet, "T02: a thread gets another stack size than the one asked for");
  if (__v_bool()) { failed = true; return (int)__v_range(1, 133); }
  state = Pending; routine = r; argument = a; *t = (pthread_t)handle; chance(); return 0; }
int pthread_join(pthread_t t, void **) { valid(t); if (inBody) return EDEADLK; runNow(); joined = true; return 0; }
int pthread_detach(pthread_t t) throw() { valid(t); detached = true; return 0; }
int pthread_cancel(pthread_t t) { valid(t); cancelled = true; return 0; }
int setpriority(__priority_which_t, id_t, int) throw() { prioAsked = true; if (__v_bool()) { prioFails = true; errno = (int)__v_range(1, 133); return -1; } return 0; }
// the same policy has the same range each time it is asked for
int sched_get_priority_min(int) throw() { if (!ranged) { prioFails = true; errno = EINVAL; return -1; } return 1; }
int sched_get_priority_max(int) throw() { if (!ranged) { prioFails = true; errno = EINVAL; return -1; } return 99; }
int sched_setscheduler(pid_t, int, const struct sched_param *p) throw() { prioAsked = true; __v_assert(p->sched_priority >= 1 && p->sched_priority <= 99, "T02: asks for a priority outside the range of the scheduler"); if (__v_bool()) { prioFails = true; errno = EPERM; return -1; } return 0; }
}
namespace drv {
// another thread, while the body runs: it may cancel or drop the thread object
static void step() {
  if (!theThread || inCall) return; // the object is the business of its owner: nothing else is called during a call
  long op = __v_range(0, 2);
  if (op == 1) { try { theThread->cancel(); } catch (const StandardException &) {} __v_reach("cancel while running"); }
  else if (op == 2) { Thread *t = theThread; theThread = NULL; delete t; __v_reach("destroyed while running"); }
}
static void use() { // with theThread constructed
  for (;;) {
    if (!theThread) break;
    if (state == None) __v_assert(!theThread->isRunning(), "T02: a thread is not running before it is started or once it was joined");
    if (state == Pending && !cancelled) __v_assert(theThread->isRunning(), "T02: a thread is running from its start until it has finished");
    long op = __v_range(0, 3);
    try {
      if (op == 0) { inCall = true; theThread->join(); inCall = false; __v_assert(state == None || state == Done, "T02: join() returns before the thread has finished"); if (theThread) __v_assert(!theThread->isRunning(), "T02: a thread is not running before it is started or once it was joined"); __v_reach("join"); }
      else if (op == 1) { theThread->cancel(); __v_reach("cancel"); }
      else if (op == 2) { chance(); }
      else break;
    } catch (const StandardException &) { inCall = false; __v_reach("use_exception"); }
  }
  if (theThread) { Thread *t = theThread; theThread = NULL; delete t; }
  runNow(); // whenever it gets round to it
  __v_assert(state == None || joined || detached, "T02: a thread is neither joined nor detached");
  __v_assert(state == None ? runs == 0 : runs == 1, "T02: a started thread runs its function exactly once");
  __v_assert(!attrOk, "T02: thread attributes are left initialised");
}
static void f() { runs++; __v_assert(inBody, "T02: the function runs in the thread that was created for it"); step(); if (cancelled && __v_bool()) throw Cancellation(); }
static void started(const Error &e) { __v_assert((e.flag() == NoError) == (state != None), "T02: start() reports success exactly if the thread was created"); __v_assert(!attrOk, "T02: thread attributes are left initialised"); }
template <typename S> static void start(S s) {
  theThread = new Thread; __v_assert(!theThread->isRunning(), "T02: a thread is not running before it is started or once it was joined");
  for (bool again = true; again;) {
    again = false; failed = false; bool before = state != None;
    try { inCall = true; Error e = s(*theThread); inCall = false; if (!before && theThread) started(e); if (before) __v_assert(e.flag() != NoError, "T02: a second start is refused"); if (e.flag() != NoError && !before) { __v_reach("start_failed"); again = __v_bool(); } }
    catch (const StandardException &) { inCall = false; __v_assert(before || failed || attrBad, "T02: start() throws although nothing failed"); __v_assert(!attrOk, "T02: thread attributes are left initialised"); __v_reach("start_exception"); again = __v_bool(); }
    if (!theThread) break;
  }
  use();
}
}
DRIVER(thread_free) { reset(); start([](Thread &t) { return t.start(drv::f); }); __v_gc(); }
DRIVER(thread_free_stack) { reset(); start([](Thread &t) { stackAsked = true; stackSize = __v_range(-1, 1L << 40); stackSet = false; return t.start(drv::f, DefaultPriority, stackSize); }); __v_gc(); }
DRIVER(thread_member) { reset(); { Callable c; start([&](Thread &t) { return t.start(&Callable::body, c); }); __v_assert(live == 1, "T02: a callable is left behind or released twice"); } __v_gc(); }
DRIVER(thread_functor) { reset(); { Callable c; start([&](Thread &t) { return t.start(c); }); __v_assert(live == 1, "T02: a callable is left behind or released twice"); } __v_gc(); }
DRIVER(thread_reference) { reset(); { Callable c; start([&](Thread &t) { return t.start(ref(c)); }); __v_assert(live == 1, "T02: a callable is left behind or released twice"); } __v_gc(); }
template <typename S> static void construct(S s) { try { inCall = true; theThread = s(); inCall = false; __v_reach("constructed"); } catch (const StandardException &) { inCall = false; __v_assert(failed || attrBad, "T02: construction throws although nothing failed"); __v_assert(!attrOk, "T02: thread attributes are left initialised"); } use(); }
DRIVER(thread_ctor_free) { reset(); construct([] { return new Thread(drv::f); }); __v_gc(); }
DRIVER(thread_ctor_member) { reset(); { Callable c; construct([&] { return new Thread(&Callable::body, c); }); __v_assert(live == 1, "T02: a callable is left behind or released twice"); } __v_gc(); }
DRIVER(thread_ctor_functor) { reset(); { Callable c; construct([&] { return new Thread(c); }); __v_assert(live == 1, "T02: a callable is left behind or released twice"); } __v_gc(); }
// a priority that cannot be had is reported, and never takes the thread down
DRIVER(thread_ctor_free_stack) { reset(); construct([] { stackAsked = true; stackSize = __v_range(-1, 1L << 40); return new Thread(drv::f, DefaultPriority, stackSize); }); __v_gc(); }
DRIVER(thread_ctor_member_stack) { reset(); { Callable c; construct([&] { stackAsked = true; stackSize = __v_range(-1, 1L << 40); return new Thread(&Callable::body, c, DefaultPriority, stackSize); }); } __v_gc(); }
DRIVER(thread_ctor_functor_stack) { reset(); { Callable c; construct([&] { stackAsked = true; stackSize = __v_range(-1, 1L << 40); return new Thread(c, DefaultPriority, stackSize); }); } __v_gc(); }
DRIVER(thread_member_stack) { reset(); { Callable c; start([&](Thread &t) { stackAsked = true; stackSize = __v_range(-1, 1L << 40); stackSet = false; return t.start(&Callable::body, c, DefaultPriority, stackSize); }); } __v_gc(); }
DRIVER(thread_functor_stack) { reset(); { Callable c; start([&](Thread &t) { stackAsked = true; stackSize = __v_range(-1, 1L << 40); stackSet = false; return t.start(c, DefaultPriority, stackSize); }); } __v_gc(); }
// a thread that has finished, but was not joined
DRIVER(thread_finished) { reset(); Thread *t = new Thread; TRY(inCall = true; t->start(drv::f)); inCall = false; if (state != None) { runNow(); if (__v_bool()) TRY(t->join()) __v_assert(!t->isRunning(), "T02: a thread that has finished is not running"); } TRY(delete t) __v_gc(); }
DRIVER(priority) {
  reset(); bool r = false, threw = false;
  int p = (int)__v_range(0, 3); Priority q = p == 0 ? CriticalPriority : p == 1 ? HighPriority : p == 2 ? NormalPriority : LowPriority; if (__v_bool()) q = __v_bool() ? BackgroundPriority : DefaultPriority;
  try { r = set_priority(q); } catch (const StandardException &) { threw = true; }
  __v_assert(!threw || prioFails, "T02: set_priority() throws although nothing failed");
  if (!threw) __v_assert(r == !prioFails, "T02: set_priority() says whether the priority was set");
  if (q != DefaultPriority) __v_assert(prioAsked, "T02: set_priority() asks the system for the priority");
  __v_reach("priority");
}
DRIVER(priority_realtime) {
  reset(); bool r = false, threw = false;
  int p = (int)__v_range(0, 3); Priority q = p == 0 ? RealTimePriority1 : p == 1 ? RealTimePriority2 : p == 2 ? RealTimePriority3 : RealTimePriority4;
  try { r = set_priority(q); } catch (const StandardException &) { threw = true; }
  __v_assert(!threw || prioFails, "T02: set_priority() throws although nothing failed");
  if (!threw && !prioFails) __v_assert(r && prioAsked, "T02: set_priority() says whether the priority was set");
  if (!threw && prioFails) __v_assert(!r, "T02: set_priority() says whether the priority was set");
  __v_reach("priority_realtime");
}
DRIVER(thread_priority) { reset(); start([](Thread &t) { return t.start(drv::f, __v_bool() ? CriticalPriority : RealTimePriority1); }); __v_gc(); }
namespace drv {
struct Worker : public Threadable { void runnable() { runs++; __v_assert(isRunning(), "T02: a worker is running while its function runs"); } };
}
DRIVER(threadable) {
  reset(); Worker w;
  for (signed char i = 0; i < 3; ++i) {
    bool before = w.isRunning(); signed char ran = runs; failed = false; bool r = false;
    if (state == Done) { state = None; joined = detached = false; }
    try { r = w.start(); __v_assert(r == (!before && !failed), "T02: a worker starts exactly if it was not running and the thread was created"); if (!r && !before) __v_assert(!w.isRunning(), "T02: a worker that could not be started is not running"); __v_reach("worker"); }
    catch (const StandardException &) { __v_assert(failed && !w.isRunning(), "T02: a worker that could not be started is not running"); __v_reach("worker_exception"); }
    if (r) { chance(); __v_assert(w.isRunning() == (state == Pending), "T02: a worker is running from start() until its function returns"); __v_assert(runs == ran + (state == Done ? 1 : 0), "T02: a worker runs its function once for each start"); }
    if (__v_bool()) runNow();
  }
  runNow();
  __v_assert(!w.isRunning(), "T02: a worker is running from start() until its function returns");
  __v_gc();
}
DRIVER(thread_copies) { reset(); Thread *a = 0; TRY(inCall = true; a = new Thread(drv::f)) inCall = false; if (a) v_copies(a); runNow(); __v_gc(); __v_assert(state == None || joined || detached, "T02: a thread is neither joined nor detached"); }
DRIVER(thread_assigned) { reset(); Thread *a = 0, *b = new Thread; TRY(inCall = true; a = new Thread(drv::f)) inCall = false; if (a && __v_bool()) v_assigned(a, b); else if (a) v_assigned(b, a); else delete b; runNow(); __v_gc(); __v_assert(state == None || joined || detached, "T02: a thread is neither joined nor detached"); }
