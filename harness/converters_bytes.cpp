// Integers to bytes and back: every value of every width, containers of every kind.
#include "v.h"
#include "thin_exception.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <ecl/converters.hpp>
#include <ecl/containers.hpp>
using namespace ecl;
#if defined(V_NOEXC)
#define REFUSED(conv, expr) ([&]() -> bool { expr; return conv.error().flag() != NoError; }())
#elif defined(NDEBUG)
#define REFUSED(conv, expr) ([&]() -> bool { expr; return conv.error().flag() != NoError; }())
#else
#define REFUSED(conv, expr) ([&]() -> bool { try { expr; } catch (const StandardException &) { return true; } return false; }())
#endif
namespace drv {
// any value, by its bytes: the lower ones are unsigned digits, the highest carries the sign
static long low[8]; static long top;
template <class T> static T any() {
  const int n = sizeof(T); unsigned long v = 0; long m = 1, w = 0;
  for (int i = 0; i < 8; i++) low[i] = __v_range(0, 255);
  if (T(-1) < T(0)) { 
    top = __v_range(-128, 127); low[n - 1] = top;
    for (int i = 0; i < n; i++) { w += low[i] * m; if (i < n - 1) m *= 256; }
    if (top < 0) low[n - 1] = top + 256;
    return (T)w;
  }
  unsigned long k = 1; for (int i = 0; i < n; i++) { v += (unsigned long)low[i] * k; if (i < n - 1) k *= 256; }
  return (T)v;
}
template <class Bytes, class T> static void there_and_back(Bytes &bytes) {
  const T v = any<T>();
  Converter<Bytes, T> to; Converter<T, Bytes> from;
  __v_assert(!REFUSED(to, to(bytes, v)), "V02: an integer fits an array of its size");
  for (unsigned i = 0; i < sizeof(T); i++) __v_assert((unsigned char)bytes[i] == (unsigned char)low[i], "V02: byte i of the array holds bits 8i to 8i+7 of the value");
  T back = 0; __v_assert(!REFUSED(from, back = from(bytes)), "V02: an array of the size of an integer is accepted");
  __v_assert(back == v, "V02: the bytes turn back into the value");
}
// the low bytes only: what is missing is zero
template <class Bytes, class T> static void shorter(Bytes &bytes, unsigned n) {
  long m = 1, w = 0; 
  for (unsigned i = 0; i < n; i++) { low[i] = __v_range(0, 255); bytes[i] = (typename Bytes::value_type)(unsigned char)low[i]; w += low[i] * m; if (i < 6) m *= 256; }
  Converter<T, Bytes> from; T back = 0;
  __v_assert(!REFUSED(from, back = from(bytes)), "V02: a shorter array is accepted");
  __v_assert(back == (T)w, "V02: the bytes of a shorter array are the low bytes of the value");
}
template <class Bytes, class T> static void longer(Bytes &bytes) {
  for (unsigned i = 0; i < bytes.size(); i++) bytes[i] = 1;
  Converter<Bytes, T> to; Converter<T, Bytes> from; T v = 7;
  __v_assert(REFUSED(from, (void)from(bytes)), "V02: an array that is longer than the integer is refused");
  __v_assert(REFUSED(to, to(bytes, v)), "V02: an array of another size than the integer is refused");
  for (unsigned i = 0; i < bytes.size(); i++) __v_assert(bytes[i] == 1, "V02: a refused conversion leaves the array alone");
  Bytes small(sizeof(T)); 
  __v_assert(!REFUSED(to, to(small, v)), "V02: a refused conversion does not taint the next one"); __v_assert(!REFUSED(from, (void)from(small)), "V02: a refused conversion does not taint the next one");
}
template <class T> static void vectors() {
  switch (__v_range(0, 2)) {
    case 0: { std::vector<char> b(sizeof(T)); there_and_back<std::vector<char>, T>(b); break; }
    case 1: { std::vector<unsigned char> b(sizeof(T)); there_and_back<std::vector<unsigned char>, T>(b); break; }
    default: { std::vector<signed char> b(sizeof(T)); there_and_back<std::vector<signed char>, T>(b); }
  }
}
template <class E, class T> static void array() {
  // a fixed array can be read, a dynamic one can be written
  const T v = any<T>(); Array<E> dyn(sizeof(T)); Array<E, sizeof(T)> fix;
  Converter<Array<E>, T> to; Converter<T, Array<E, sizeof(T)> > from; Converter<T, Array<E> > fromDyn;
  __v_assert(!REFUSED(to, to(dyn, v)), "V02: an integer fits an array of its size");
  for (unsigned i = 0; i < sizeof(T); i++) { __v_assert((unsigned char)dyn[i] == (unsigned char)low[i], "V02: byte i of the array holds bits 8i to 8i+7 of the value"); fix[i] = dyn[i]; }
  T back = 0; __v_assert(!REFUSED(from, back = from(fix)), "V02: an array of the size of an integer is accepted");
  __v_assert(back == v, "V02: the bytes turn back into the value");
  T again = 0; __v_assert(!REFUSED(fromDyn, again = fromDyn(dyn)), "V02: an array of the size of an integer is accepted");
  __v_assert(again == v, "V02: the bytes turn back into the value");
}
template <class E, class T> static void stencil() {
  typedef Array<E, sizeof(T) + 3> A; A a; for (unsigned i = 0; i < a.size(); i++) a[i] = 9;
  Stencil<A> s = a.stencil(2, sizeof(T));
  there_and_back<Stencil<A>, T>(s);
  __v_assert(a[0] == 9 && a[1] == 9 && a[sizeof(T) + 2] == 9, "V02: bytes outside the window are left alone");
}
}
using namespace drv;
#define VEC(name, T) DRIVER(vector_##name) { __v_reliable_malloc(); TRY(vectors<T>()) }
#define ARR(name, T) DRIVER(array_##name) { __v_reliable_malloc(); TRY(if (__v_bool()) array<char, T>(); else if (__v_bool()) array<unsigned char, T>(); else array<signed char, T>()) }
#define STE(name, T) DRIVER(stencil_##name) { __v_reliable_malloc(); TRY(if (__v_bool()) stencil<char, T>(); else if (__v_bool()) stencil<unsigned char, T>(); else stencil<signed char, T>()) }
VEC(int, int) VEC(uint, unsigned int) VEC(long, long) VEC(ulong, unsigned long)
ARR(short, short) ARR(ushort, unsigned short) ARR(int, int) ARR(uint, unsigned int) ARR(long, long) ARR(ulong, unsigned long) ARR(llong, long long)
STE(short, short) STE(ushort, unsigned short) STE(int, int) STE(uint, unsigned int) STE(long, long) STE(ulong, unsigned long) STE(llong, long long)
DRIVER(vector_llong) { __v_reliable_malloc(); TRY(if (__v_bool()) { std::vector<char> b(8); there_and_back<std::vector<char>, long long>(b); } else if (__v_bool()) { std::vector<unsigned char> b(8); there_and_back<std::vector<unsigned char>, long long>(b); } else { std::vector<signed char> b(8); there_and_back<std::vector<signed char>, long long>(b); }) }
#define SHORTER(n, T) { std::vector<char> b(n); shorter<std::vector<char>, T>(b, n); }
DRIVER(shorter_array) { __v_reliable_malloc(); TRY(switch (__v_range(0, 8)) { case 0: SHORTER(0, int) break; case 1: SHORTER(1, int) break; case 2: SHORTER(3, int) break; case 3: SHORTER(2, unsigned int) break; case 4: SHORTER(3, long) break; case 5: SHORTER(4, long) break; case 6: SHORTER(5, unsigned long) break; case 7: SHORTER(7, long long) break; default: SHORTER(1, short) }) }
DRIVER(longer_array) { __v_reliable_malloc(); TRY(switch (__v_range(0, 3)) { case 0: { std::vector<char> b(5); longer<std::vector<char>, int>(b); break; } case 1: { std::vector<unsigned char> b(9); longer<std::vector<unsigned char>, long>(b); break; } case 2: { std::vector<char> b(12); longer<std::vector<char>, unsigned long>(b); break; } default: { std::vector<signed char> b(6); longer<std::vector<signed char>, unsigned int>(b); } }) }
DRIVER(wrong_size) { __v_reliable_malloc(); TRY(switch (__v_range(0, 2)) { case 0: { std::vector<char> b(3); b[2] = 5; Converter<std::vector<char>, int> to; __v_assert(REFUSED(to, to(b, 1)), "V02: an array that is too small for the integer is refused"); __v_assert(b[2] == 5, "V02: a refused conversion leaves the array alone"); break; } case 1: { std::vector<unsigned char> b(7); Converter<std::vector<unsigned char>, long> to; __v_assert(REFUSED(to, to(b, 1L)), "V02: an array that is too small for the integer is refused"); break; } default: { std::vector<char> b; Converter<std::vector<char>, int> to; __v_assert(REFUSED(to, to(b, 1)), "V02: an array that is too small for the integer is refused"); } }) }
