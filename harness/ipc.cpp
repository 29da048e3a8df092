// Shared memory and semaphores: every outcome of every system call.
#include "v.h"
#include "thin_exception.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <semaphore.h>
#include <cerrno>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_ipc/src/lib/shared_memory_pos.cpp"
#include "ecl_ipc/src/lib/semaphore_pos.cpp"
using namespace ecl;
namespace drv {
static const long G = 1000000000L;
struct Data { int a; double b[3]; Data() : a(42) { b[0] = b[1] = b[2] = 0.5; } };
static bool exists;                 // the name existed before the object under test came along
static bool fdOpen, mapped, created, linked, sized, failed; static int fdErr, why; static bool atMap, atSize;
static char area[sizeof(Data)] __attribute__((aligned(16)));
static bool fail() { failed = true; why = (int)__v_range(1, 133); errno = why; return true; }
static void reset() { fdOpen = mapped = created = sized = failed = atMap = atSize = false; why = 0; ((Data *)(void *)area)->a = 7; ((Data *)(void *)area)->b[2] = 0.25; exists = linked = __v_bool(); }
static sem_t theSem; static bool semOpen; static bool held, semLinked; static signed char unlinks; static int waitWhy; static bool waitFails; static bool interrupted;
static long now_s, now_n, dl_s, dl_n; static bool deadline, clockFails;
static void sem(sem_t *s) { __v_assert(s == &theSem && semOpen, "I01: a semaphore call is issued on a semaphore that is not open"); }
}
using namespace drv;
extern "C" {
int shm_open(const char *, int flags, mode_t) {
  __v_assert(!fdOpen, "I01: opens the shared memory while it is already open");
  if ((flags & O_CREAT) && (flags & O_EXCL)) {
    if (linked) { errno = EEXIST; return -1; }
    if (__v_bool()) { fail(); if (why == EEXIST) { why = EACCES; errno = EACCES; } return -1; }
    created = true; linked = true; fdOpen = true; return 5;
  }
  if (!linked && !(flags & O_CREAT)) { failed = true; why = ENOENT; errno = ENOENT; return -1; }
  if (__v_bool()) { fail(); return -1; }
  if (!linked) { created = true; linked = true; }
  fdOpen = true; return 5;
}
int shm_unlink(const char *) { __v_assert(created, "I01: removes a name that another object created"); __v_assert(linked, "I01: removes the name twice"); linked = false; errno = (int)__v_range(1, 133); return 0; }
int close(int fd) { __v_assert(fd == 5 && fdOpen, "I01: closes a descriptor that is not open"); fdOpen = false; errno = (int)__v_range(1, 133); return 0; }
int ftruncate(int fd, off_t n) throw() { __v_assert(fd == 5 && fdOpen, "I01: resizes through a descriptor that is not open"); if (__v_bool()) { fail(); atSize = true; return -1; } __v_assert(n == (off_t)sizeof(Data), "I01: the shared memory gets the size of its storage"); sized = true; return 0; }
int fstat(int fd, struct stat *s) throw() { __v_assert(fd == 5 && fdOpen, "I01: queries a descriptor that is not open"); if (__v_bool()) { fail(); return -1; } s->st_size = __v_range(0, 100); if (s->st_size >= (long)sizeof(Data)) sized = true; return 0; }
void *mmap(void *, size_t n, int prot, int flags, int fd, off_t o) throw() {
  __v_assert(fd == 5 && fdOpen, "I01: maps a descriptor that is not open"); __v_assert(n == sizeof(Data) && o == 0, "I01: the whole storage is mapped");
  __v_assert((flags & MAP_SHARED) && (prot & PROT_WRITE), "I01: the mapping is shared and writable");
  if (__v_bool()) { fail(); atMap = true; return MAP_FAILED; } mapped = true; return area; }
int munmap(void *p, size_t n) throw() { __v_assert(mapped && p == area && n == sizeof(Data), "I01: unmaps memory that is not mapped"); mapped = false; errno = (int)__v_range(1, 133); return 0; }
sem_t *sem_open(const char *, int flags, ...) throw() { __v_assert(!semOpen, "I01: opens the semaphore twice"); if (__v_bool()) { fail(); return SEM_FAILED; } __v_assert(flags & O_CREAT, "I01: a semaphore is created when it does not exist"); semOpen = semLinked = true; held = __v_bool(); return &theSem; }
int sem_close(sem_t *s) throw() { sem(s); semOpen = false; return 0; }
int sem_unlink(const char *) throw() { __v_assert(semLinked, "I01: removes the name of a semaphore it did not open, or removes it twice"); semLinked = false; return 0; }
int sem_wait(sem_t *s) { sem(s); if (interrupted ? false : __v_bool()) { interrupted = true; errno = EINTR; return -1; } held = true; return 0; }
int sem_trywait(sem_t *s) throw() { sem(s); if (__v_bool()) { errno = EAGAIN; return -1; } held = true; return 0; }
int sem_timedwait(sem_t *s, const struct timespec *t) { sem(s); deadline = true; dl_s = t->tv_sec; dl_n = t->tv_nsec;
  __v_assert(t->tv_nsec >= 0 && t->tv_nsec < G, "M02: asks the system to wait until an invalid time");
  if (__v_bool()) { waitFails = true; waitWhy = __v_bool() ? ETIMEDOUT : (int)__v_range(1, 109); errno = waitWhy; return -1; } held = true; return 0; }
int sem_post(sem_t *s) throw() { sem(s); __v_assert(held, "I01: gives up a semaphore that is not taken"); held = false; return 0; }
int sem_getvalue(sem_t *s, int *v) throw() { sem(s); *v = held ? 0 : 1; return 0; }
}
namespace ecl { TimeError epoch_time(TimeStructure &t) { if (__v_bool()) { clockFails = true; return TimeError(UnknownError); } t.tv_sec = now_s; t.tv_nsec = now_n; return TimeError(NoError); } }
DRIVER(shared_memory) { __v_precise(60); __v_exact();
  reset(); bool made = false, threw = false;
  try {
    SharedMemory<Data> m("name"); made = true;
    Data *d = m.data();
#ifndef V_NOEXC
    __v_assert(!failed, "I01: a shared memory object is constructed although a system call failed");
    __v_assert(d == (Data *)area && mapped, "I01: a constructed shared memory object gives access to its mapping");
    __v_assert(sized, "I01: a constructed shared memory object has room for its storage");
#else
    if (failed) __v_assert(d == NULL, "I01: a failed shared memory object offers no storage");
    else __v_assert(d == (Data *)area && mapped && sized, "I01: a constructed shared memory object gives access to its mapping");
#endif
    if (mapped) { if (created) __v_assert(d->a == 42 && d->b[2] == 0.5, "I01: new shared memory starts with the default value of its storage"); else __v_assert(d->a == 7 && d->b[2] == 0.25, "I01: what is in the shared memory already is left alone"); }
    __v_assert(!fdOpen, "I01: the descriptor is closed once the memory is mapped");
    if (!failed) __v_assert(linked, "I01: the name stays for other processes while the object lives");
    __v_reach("SharedMemory"); if (exists) __v_reach("attached");
    if (created && linked && __v_bool()) { m.unlink(); }
  } catch (const StandardException &e) { threw = true; __v_assert(failed && !made, "I01: construction fails although no system call failed");
    if (atSize) __v_assert(e.flag() != NoError, "I01: an exception names the reason the system gave");
    else if (why == EACCES) __v_assert(e.flag() == PermissionsError, "I01: an exception names the reason the system gave");
    else if (why == ENFILE || (why == EMFILE && !atMap)) __v_assert(e.flag() == OutOfResourcesError, "I01: an exception names the reason the system gave");
    else if (why == ENOMEM && atMap) __v_assert(e.flag() == MemoryError, "I01: an exception names the reason the system gave");
    else if (why == EINVAL) __v_assert(e.flag() == InvalidArgError, "I01: an exception names the reason the system gave");
    else __v_assert(e.flag() != NoError, "I01: an exception names the reason the system gave"); __v_reach("exception"); }
  __v_assert(!fdOpen, "I01: the descriptor of the shared memory is left open");
  __v_assert(!mapped, "I01: the mapping of the shared memory is left behind");
  __v_assert(linked == exists, "I01: the name of the shared memory is removed by its creator and by nobody else");
  (void)threw;
}
// the flags of the exceptions agree with errno
DRIVER(semaphore) {
  interrupted = failed = semOpen = semLinked = false; bool made = false;
  try {
    Semaphore s("name"); made = true;
#if !defined(NDEBUG) && !defined(V_NOEXC)
    __v_assert(!failed, "I01: a semaphore is constructed although sem_open failed");
#endif
    __v_reach("Semaphore");
    if (!failed) for (;;) {
      interrupted = waitFails = deadline = clockFails = false; now_s = now_n = 0; bool before = held;
      long op = __v_range(0, 4);
      try {
        if (op == 0) { __v_assume(!held); s.lock(); __v_assert(held, "I01: lock() returns only when the semaphore has been taken"); __v_reach("lock"); }
        else if (op == 1) { s.unlock(); __v_assert(!held, "I01: unlock() gives the semaphore up"); __v_reach("unlock"); }
        else if (op == 2) { __v_assume(!held); bool r = s.trylock(); __v_assert(r == held, "I01: trylock() says whether the semaphore was taken"); __v_reach("trylock"); }
        else if (op == 3) { __v_assume(!held); bool r = s.trylock(Duration(0, 5000)); __v_assert(r == held, "I01: trylock(duration) says whether the semaphore was taken");
#if !defined(NDEBUG) && !defined(V_NOEXC)
          if (waitFails) __v_assert(waitWhy == ETIMEDOUT, "I01: a timed wait that failed is taken for one that timed out");
#endif
          __v_reach("timed"); }
        else break;
      } catch (const StandardException &) { __v_assert(waitFails && waitWhy != ETIMEDOUT && held == before, "I01: a wait throws although it did not fail"); __v_reach("exception"); }
    }
  } catch (const StandardException &) { __v_assert(failed && !made, "I01: construction fails although no system call failed"); }
  __v_assert(!semOpen, "I01: the semaphore is left open"); __v_assert(!semLinked, "I01: the name of the semaphore is left behind");
}
DRIVER(semaphore_deadline) {
  interrupted = failed = semOpen = semLinked = false;
  try {
    Semaphore s("name");
    __v_assume(!failed);
    interrupted = waitFails = deadline = clockFails = false; held = false;
    now_s = __v_range(0, 1L << 40); now_n = __v_range(0, G - 1);
    long ds = __v_range(0, 1L << 40), dn = __v_range(0, G - 1);
    Duration d(ds, dn);
    try { s.trylock(d); } catch (const StandardException &) {}
    if (deadline) { long es = dl_s - now_s - ds, en = dl_n - now_n - dn;
      __v_assert((es == 0 && en == 0) || (es == 1 && en == -G), "M02: a timed wait ends at the current time plus the duration"); __v_reach("deadline"); }
    else __v_assert(clockFails, "M02: a timed wait waits");
  } catch (const StandardException &) {}
}
DRIVER(shared_memory_copies) { reset(); SharedMemory<Data> *m = 0; TRY(m = new SharedMemory<Data>("name")) if (m) v_copies(m); __v_gc();
  __v_assert(!mapped, "I01: the mapping of the shared memory is left behind"); __v_assert(linked == exists, "I01: the name of the shared memory is removed by its creator and by nobody else"); }
DRIVER(semaphore_copies) { interrupted = failed = semOpen = semLinked = false; Semaphore *m = 0; TRY(m = new Semaphore("name")) if (m) v_copies(m); __v_gc(); __v_assert(!semOpen, "I01: the semaphore is left open"); }
