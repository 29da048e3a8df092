// Text output streams: every value, to a device that may fail or take a part only; streams that open a device of their
// own; log streams.
#include "v.h"
#include "thin_exception.h"
#include "mini_map.h"
#define V_STRING_MAX 12
#include <cstdio>
#include <cstring>
#include <limits>
#include <ecl/time/timestamp.hpp>
#include <ecl/converters.hpp>
#include <ecl/devices/traits.hpp>
#include <ecl/devices/modes.hpp>
#include "mini_string.h"
#include <ecl/streams/text_stream.hpp>
using namespace ecl;
typedef unsigned long U;
namespace drv {
static char body[48]; static int len; static signed char writes, flushes, bad; // bad: a write did not succeed completely
static bool isOpen = true, fallible = true;
static void reset() { len = 0; writes = flushes = bad = 0; isOpen = true; body[0] = 0; }
static long taken(const char *s, long n) {
  __v_assert(isOpen, "X01: nothing is sent to a device that is not open");
  writes++; __v_use_mem(s, (U)n);
  if (fallible && __v_bool()) { bad = 1; return n > 0 && __v_bool() ? n - 1 : -1; }
  for (long i = 0; i < n && len < 46; i++) { body[len] = s[i]; len++; body[len] = 0; }
  return n;
}
struct Out {
  bool open() { return isOpen; }
  long write(const char &c) { char t[2] = {c, 0}; return taken(t, 1); }
  long write(const char *s, const U &n) { return taken(s, (long)n); }
  void flush() { __v_assert(isOpen, "X01: nothing is sent to a device that is not open"); flushes++; }
};
static U magnitude(bool neg, long v, U u) { return neg ? 0UL - (U)v : u; }
static void digits(bool neg, U mag) {
  const char *p = body; if (neg) { __v_assert(*p == '-', "X01: a number is sent as its digits"); p++; }
  __v_assert(len > 0 && *p != 0 && (*p != '0' || p[1] == 0), "X01: a number is sent as its digits");
  U acc = 0; while (*p != 0) { __v_assert(*p >= '0' && *p <= '9', "X01: a number is sent as its digits"); acc = acc * 10 + (U)(*p - '0'); p++; }
  __v_assert(acc == mag, "X01: a number is sent as its digits");
}
template <class S> static bool reported(S &s) {
  __v_assert(writes > 0, "X01: a value is sent");
  __v_assert(s.fail() == (bad != 0), "X01: a failed or incomplete write is reported, a complete one is not");
  return bad == 0;
}
template <class S, class T> static void number(S &s, T v) { reset(); s << v; if (reported(s)) digits(v < 0, magnitude(v < 0, (long)v, (U)v)); }
template <class S> static void text(S &s, const char *p, int n) {
  if (!reported(s)) return; __v_assert(len == n, "X01: a text is sent as it is");
  for (int i = 0; i < n; i++) __v_assert(body[i] == p[i], "X01: a text is sent as it is");
}
template <class T, class S> static void closed(S &s, const T &v) {
#if !defined(NDEBUG) && !defined(V_NOEXC)
  reset(); isOpen = false; bool thrown = false; ErrorFlag flag = NoError;
  try { s << v; } catch (const StandardException &e) { thrown = true; flag = e.flag(); }
  __v_assert(thrown && flag == OpenError && writes == 0, "X01: writing to a device that is not open is refused");
#endif
}
template <class S> static void closedFlush(S &s) {
#if !defined(NDEBUG) && !defined(V_NOEXC)
  reset(); isOpen = false; bool thrown = false; try { s.flush(); } catch (const StandardException &e) { thrown = e.flag() == OpenError; }
  __v_assert(thrown && flushes == 0, "X01: flushing a device that is not open is refused");
#endif
}
static U length(const char *s) { U n = 0; while (s[n] != 0) n++; return n; }
static int need; // characters snprintf wants to write
}
extern "C" size_t strlen(const char *s) { return drv::length(s); }
extern "C" int snprintf(char *to, size_t n, const char *, ...) {
  using namespace drv;
  __v_assert(n > (size_t)need, "X01: a number with decimals is not cut off");
  for (int i = 0; i < need && i < 8; i++) to[i] = '1';
  to[need < 8 ? need : 8] = 0; return need;
}
namespace ecl { template <> class is_sink<drv::Out> : public True {}; }
#include <ecl_streams/src/lib/manipulators.cpp>
using namespace drv;
#define NUMBER(name, T, sym) DRIVER(out_##name) { __v_precise(60); __v_overflow(); __v_reliable_malloc(); TRY(T v = sym; TextStream<Out> s; number<TextStream<Out>, T>(s, v)) }
NUMBER(short, short, __v_short("v")) NUMBER(ushort, unsigned short, __v_ushort("v")) NUMBER(int, int, __v_int("v")) NUMBER(uint, unsigned int, __v_uint("v"))
NUMBER(long, long, __v_long("v")) NUMBER(ulong, unsigned long, __v_ulong("v")) NUMBER(llong, long long, __v_long("v")) NUMBER(ullong, unsigned long long, __v_ulong("v"))
DRIVER(out_char) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); char c = __v_char("c"); s << c; text(s, &c, 1)) }
DRIVER(out_text) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); char t[7]; int n = 0; while (n < 6 && __v_bool()) { t[n] = (char)__v_range(1, 127); n++; } t[n] = 0; s << (const char *)t; if (n > 0) text(s, t, n); else { __v_assert(len == 0 && s.fail() == (bad != 0), "X01: an empty text sends nothing"); }) }
DRIVER(out_string) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); std::string t; char k[7]; int n = 0; while (n < 6 && __v_bool()) { k[n] = (char)__v_range(-128, 127); t.push_back(k[n]); n++; } s << t; if (n > 0) text(s, k, n); else { __v_assert(len == 0 && s.fail() == (bad != 0), "X01: an empty text sends nothing"); }) }
DRIVER(out_bool) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); if (__v_bool()) { s << true; text(s, "true", 4); } else { s << false; text(s, "false", 5); }) }
DRIVER(out_double) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); need = (int)__v_range(1, 317); s << __v_double("v"); reported(s)) }
DRIVER(out_float) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); need = (int)__v_range(1, 47); s << __v_float("v"); reported(s)) }
// each operation reports for itself
DRIVER(out_again) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; __v_assert(!s.fail(), "X01: a stream starts without an error"); number<TextStream<Out>, int>(s, (int)__v_range(0, 99)); reset(); s << "ab"; text(s, "ab", 2); number<TextStream<Out>, short>(s, (short)__v_range(-99, 0)); reset(); s << 'c'; text(s, "c", 1)) }
DRIVER(out_chain) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; fallible = false; reset(); s << "a" << 'b' << 12 << std::string("cd") << true; text(s, "ab12cdtrue", 10); s << endl; __v_assert(flushes > 0 && len == 11 && body[10] == '\n' && !s.fail(), "X01: the end of a line is sent and flushes the device")) fallible = true; }
DRIVER(out_flush) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; reset(); s.flush(); __v_assert(flushes > 0 && writes == 0, "X01: a stream flushes its device"); closedFlush(s)) }
DRIVER(out_closed) { __v_precise(60); __v_reliable_malloc(); TRY(TextStream<Out> s; need = 3; switch (__v_range(0, 14)) {
  case 0: closed<char>(s, 'c'); break; case 1: closed<const char *>(s, "x"); break; case 2: closed<short>(s, 1); break; case 3: closed<unsigned short>(s, 1); break; case 4: closed<int>(s, 1); break; case 5: closed<unsigned int>(s, 1); break;
  case 6: closed<long>(s, 1); break; case 7: closed<unsigned long>(s, 1); break; case 8: closed<long long>(s, 1); break; case 9: closed<unsigned long long>(s, 1); break; case 10: closed<float>(s, 1); break; case 11: closed<double>(s, 1); break;
  case 12: closed<bool>(s, true); break; default: closed<std::string>(s, std::string("x")); }) }
