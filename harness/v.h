// Intrinsics the analyser interprets; drivers are most-general clients over the public interface.
#pragma once
#include <cstddef>
extern "C" {
int __v_int(const char *);
unsigned __v_uint(const char *);
long __v_long(const char *);
unsigned long __v_ulong(const char *);
char __v_char(const char *);
short __v_short(const char *);
unsigned short __v_ushort(const char *);
long __v_range(long lo, long hi);
bool __v_bool();
double __v_double(const char *);
float __v_float(const char *);
void *__v_ptr();
void __v_assume(bool);
void __v_assert(bool, const char *);
void __v_use(...);
void __v_use_mem(const void *, unsigned long);
void __v_reach(const char *);
void __v_note(const char *);
void __v_gc();
void __v_precise(int); // number of distinct outcomes of a call kept apart in this driver
void __v_exact();      // small integers are kept apart where states are merged
void __v_algebra();    // floating-point values are compared as real expressions
void __v_reliable_malloc(); // malloc succeeds in this driver
void __v_narrow();     // algebra: a number that is rounded to single precision is another number
void __v_overflow();   // signed arithmetic must not overflow in this driver
void __v_heads(int);   // number of states of equal shape kept apart at the head of a driver loop (negative: contents of character arrays are forgotten there)
void __v_unroll(int);  // number of states of equal shape kept apart at the head of any other loop
double __v_cube(double);    // the third power of a number, whose root is then known
double __v_cosine(double);  // the cosine of an angle of at most half a turn
int __v_same(double, double);   // the same floating-point value
int __v_failed();
void __v_reset_fail();
int __v_busy();
int __v_held();
int __v_open_handles();
int __v_fd_open(int);
int __v_count(const char *);
void __v_reset_counts();
void __v_event(const char *);
int __v_ran();
void __v_string(void *);
int __v_heap();
int __v_owns(const void *);
void __v_shared(const void *); // other threads use this object without holding a lock
void __v_havoc(void *, unsigned long);
void __v_dump(...);
}
#define DRIVER(name) extern "C" __attribute__((used, noinline)) void __drv_##name()
#define TRY(...) try { __VA_ARGS__; } catch (...) { }
#include <type_traits>
// what owns something cannot be copied, or its copies stand on their own: whichever of the two goes first
template <class T> void v_copies(T *a, std::true_type) { T *c = 0; TRY(c = new T(*a)) if (__v_bool()) { TRY(delete c) TRY(delete a) } else { TRY(delete a) TRY(delete c) } }
template <class T> void v_copies(T *a, std::false_type) { TRY(delete a) }
template <class T> void v_copies(T *a) { v_copies(a, std::integral_constant<bool, std::is_copy_constructible<T>::value>()); }
template <class T> void v_assigned(T *a, T *b, std::true_type) { TRY(if (__v_bool()) *a = *b; else *a = *a) if (__v_bool()) { TRY(delete b) TRY(delete a) } else { TRY(delete a) TRY(delete b) } }
template <class T> void v_assigned(T *a, T *b, std::false_type) { TRY(delete a) TRY(delete b) }
template <class T> void v_assigned(T *a, T *b) { v_assigned(a, b, std::integral_constant<bool, std::is_copy_assignable<T>::value>()); }
