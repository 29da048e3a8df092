#include <atomic>
// Positive and negative examples of every rule: each st_<RULE>_bad* must be reported with <RULE>,
// each st_<RULE>_ok* must not.  Run with every check that uses the rule.
#include "v.h"
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <time.h>
struct P { int a; int *q; P() {} };
DRIVER(st_LEAK_bad) { int fd = open("x", O_RDONLY); if (fd < 0) return; if (__v_bool()) return; close(fd); }
DRIVER(st_LEAK_badheap) { int *p = new int[3]; p[0] = 1; if (p[0] == 2) delete[] p; }
DRIVER(st_LEAK_ok) { int fd = open("x", O_RDONLY); if (fd < 0) return; if (__v_bool()) { close(fd); return; } close(fd); }
DRIVER(st_DOUBLERELEASE_bad) { int fd = open("x", O_RDONLY); if (fd < 0) return; close(fd); if (__v_bool()) close(fd); }
DRIVER(st_DOUBLERELEASE_badheap) { int *p = new int(1); delete p; if (__v_bool()) delete p; }
DRIVER(st_DOUBLERELEASE_ok) { FILE *f = fopen("x", "w"); if (!f) return; fclose(f); f = NULL; if (f) fclose(f); }
DRIVER(st_USEAFTERRELEASE_bad) { int *p = new int(1); delete p; if (__v_bool()) *p = 2; }
DRIVER(st_USEAFTERRELEASE_ok) { int *p = new int(1); *p = 2; delete p; }
DRIVER(st_BADRELEASE_bad) { int *p = new int[2]; if (__v_bool()) delete p; else delete[] p; }
DRIVER(st_BADRELEASE_ok) { int *p = new int[2]; delete[] p; }
DRIVER(st_BADHANDLE_bad) { int fd = open("x", O_RDONLY); char c = 0; read(fd, &c, 1); if (fd >= 0) close(fd); }
DRIVER(st_BADHANDLE_ok) { int fd = open("x", O_RDONLY); char c = 0; if (fd < 0) return; read(fd, &c, 1); close(fd); }
DRIVER(st_OOB_bad) { int a[4]; long i = __v_range(0, 4); a[i] = 1; __v_use(a[i]); }
DRIVER(st_OOB_badmem) { char a[4]; long n = __v_range(0, 10); memset(a, 0, n); __v_use(a[0]); }
DRIVER(st_OOB_ok) { int a[4]; long i = __v_range(-3, 9); if (i >= 0 && i < 4) { a[i] = 1; __v_use(a[i]); } }
DRIVER(st_UNINIT_bad) { P p; if (__v_bool()) p.a = 3; if (p.a > 2) __v_reach("x"); }
DRIVER(st_UNINIT_ok) { P p; bool b = __v_bool(); if (b) p.a = 3; if (b && p.a > 2) __v_reach("x"); }
DRIVER(st_NULLDEREF_bad) { int *p = __v_bool() ? new int(1) : 0; *p = 3; delete p; }
DRIVER(st_NULLDEREF_ok) { int *p = __v_bool() ? new int(1) : 0; if (p) *p = 3; delete p; }
DRIVER(st_DIV0_bad) { int n = __v_range(0, 5); __v_use(7 / n); }
DRIVER(st_DIV0_ok) { int n = __v_range(0, 5); if (n) __v_use(7 / n); }
DRIVER(st_SHIFT_bad) { int n = __v_range(0, 32); __v_use(1 << n); }
DRIVER(st_SHIFT_ok) { int n = __v_range(0, 31); __v_use(1u << n); }
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
DRIVER(st_LOCKLOST_bad) { pthread_mutex_t m; pthread_mutex_init(&m, 0); pthread_mutex_lock(&m); if (__v_bool()) pthread_mutex_unlock(&m); }
DRIVER(st_LOCKLOST_ok) { pthread_mutex_t m; if (pthread_mutex_init(&m, 0)) return; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_mutex_destroy(&m); }
DRIVER(st_LOCKUNHELD_bad) { pthread_mutex_lock(&M); pthread_mutex_unlock(&M); if (__v_bool()) pthread_mutex_unlock(&M); }
DRIVER(st_LOCKUNHELD_ok) { pthread_mutex_lock(&M); pthread_mutex_unlock(&M); }
DRIVER(st_LOCKDEADLOCK_bad) { pthread_mutex_lock(&M); if (__v_bool()) pthread_mutex_lock(&M); pthread_mutex_unlock(&M); }
DRIVER(st_LOCKDEADLOCK_ok) { pthread_mutex_lock(&M); pthread_mutex_unlock(&M); pthread_mutex_lock(&M); pthread_mutex_unlock(&M); }
DRIVER(st_LOCKUNINIT_bad) { pthread_mutex_t m; if (__v_bool()) pthread_mutex_init(&m, 0); pthread_mutex_lock(&m); pthread_mutex_unlock(&m); }
DRIVER(st_LOCKUNINIT_ok) { pthread_mutex_t m; if (pthread_mutex_init(&m, 0)) return; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_mutex_destroy(&m); }
DRIVER(st_ERRNOSTALE_bad) { int fd = open("x", O_RDONLY); if (fd >= 0) { close(fd); } if (errno == EINTR) __v_reach("e"); }
DRIVER(st_ERRNOSTALE_ok) { int fd = open("x", O_RDONLY); if (fd >= 0) { close(fd); } else if (errno == EINTR) __v_reach("e"); }
DRIVER(st_TIMESPEC_bad) { timespec t; t.tv_sec = 1; t.tv_nsec = __v_range(0, 1000000000L); nanosleep(&t, 0); }
DRIVER(st_TIMESPEC_ok) { timespec t; t.tv_sec = 1; t.tv_nsec = __v_range(0, 999999999L); nanosleep(&t, 0); }
DRIVER(st_TIMEABS_bad) { timespec t; t.tv_sec = 1; t.tv_nsec = 5; pthread_mutex_timedlock(&M, &t) || pthread_mutex_unlock(&M); }
DRIVER(st_TIMEABS_ok) { timespec t; if (clock_gettime(CLOCK_REALTIME, &t)) return; t.tv_sec += 1; pthread_mutex_timedlock(&M, &t) || pthread_mutex_unlock(&M); }
DRIVER(st_ASSERT_bad) { long a = __v_range(0, 9); __v_assert(a != 7, "seven"); }
DRIVER(st_ASSERT_ok) { long a = __v_range(0, 9); long b = a + 3; if (a > 4) __v_assert(b > 7, "eight"); }
DRIVER(st_ESCAPEDEXCEPTION_bad) { if (__v_bool()) throw 3; }
DRIVER(st_ESCAPEDEXCEPTION_ok) { try { if (__v_bool()) throw 3; } catch (int) {} }
static void thrower() noexcept { if (__v_bool()) throw 1; }
DRIVER(st_TERMINATE_bad) { thrower(); }
DRIVER(st_TERMINATE_ok) { try { throw 1; } catch (...) {} }
static const int K[2] = {1, 2};
DRIVER(st_CONSTWRITE_bad) { const_cast<int &>(K[__v_range(0, 1)]) = 3; }
DRIVER(st_CONSTWRITE_ok) { static int k[2] = {1, 2}; k[__v_range(0, 1)] = 3; }
DRIVER(st_RACE_bad) { int x = 0; __v_shared(&x); x++; }
DRIVER(st_RACE_ok) { std::atomic<int> x(0); __v_shared(&x); x++; __v_use((int)x.load()); }
