// Numbers to text and back: every number, every size of the buffer.
#include "v.h"
#include "thin_exception.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <sstream>
#include <ecl/converters.hpp>
using namespace ecl;
typedef unsigned long U;
namespace drv {
static const U P[20] = {1UL, 10UL, 100UL, 1000UL, 10000UL, 100000UL, 1000000UL, 10000000UL, 100000000UL, 1000000000UL, 10000000000UL, 100000000000UL, 1000000000000UL, 10000000000000UL, 100000000000000UL, 1000000000000000UL, 10000000000000000UL, 100000000000000000UL, 1000000000000000000UL, 10000000000000000000UL};
static U magnitude(bool neg, long v, U u) { return neg ? 0UL - (U)v : u; }
// the text reads back as the number: sign, no superfluous zeros, decimal digits, terminator
static void reads(const char *p, bool neg, U mag) {
  if (neg) { __v_assert(*p == '-', "V01: a negative number starts with a minus sign"); p++; }
  __v_assert(*p != 0 && (*p != '0' || p[1] == 0), "V01: the text has digits and no superfluous zeros");
  U acc = 0;
  while (*p != 0) { __v_assert(*p >= '0' && *p <= '9', "V01: the text consists of decimal digits"); acc = acc * 10 + (U)(*p - '0'); p++; }
  __v_assert(acc == mag, "V01: the text reads back as the number");
}
// room: characters available besides the terminator
static void check(const char *s, const char *begin, int room, bool neg, U mag) {
  int d = room - (neg ? 1 : 0);
  bool fits = d >= 20 || (d > 0 && mag < P[d]);
  if (!fits) { __v_assert(s == 0, "V01: a number that does not fit the buffer is refused"); return; }
  __v_assert(s != 0, "V01: a number that fits the buffer is converted"); if (!s) return;
  __v_assert(begin == 0 || (s >= begin && s <= begin + room), "V01: the text lies in the buffer");
  reads(s, neg, mag);
}
static int sizes() { switch (__v_range(0, 8)) { case 0: return 1; case 1: return 2; case 2: return 3; case 3: return 4; case 4: return 6; case 5: return 7; case 6: return 11; case 7: return 12; default: return 22; } }
template <class C, class T> static void text(T v, bool neg, U mag) {
  const T keep = v; int n = sizes();
  if (__v_bool()) {
    C c(n); // a buffer of its own
    if (c.error().flag() != NoError) { const char *s = c(keep); __v_assert(s == 0, "V01: without a buffer nothing is converted"); return; }
    const char *s = c(keep); check(s, 0, n - 1, neg, mag);
  } else {
    char area[24]; C c(area + 1, area + n);
    area[0] = 'x'; area[n + 1] = 'y';
    const char *s = c(keep); check(s, area + 1, n - 1, neg, mag);
    __v_assert(area[0] == 'x' && area[n + 1] == 'y', "V01: nothing outside the buffer is written");
  }
}
}
using namespace drv;
#define TEXT(name, T, sym, SGN) DRIVER(text_##name) { __v_precise(12); __v_overflow(); TRY(T v = sym; text<Converter<char *, T>, T>(v, SGN && v < 0, magnitude(SGN && v < 0, (long)v, (U)v))) }
TEXT(char, char, __v_char("v"), true)
TEXT(uchar, unsigned char, (unsigned char)__v_range(0, 255), false)
TEXT(short, short, __v_short("v"), true)
TEXT(ushort, unsigned short, __v_ushort("v"), false)
TEXT(int, int, __v_int("v"), true)
TEXT(uint, unsigned int, __v_uint("v"), false)
TEXT(long, long, __v_long("v"), true)
TEXT(ulong, unsigned long, __v_ulong("v"), false)
TEXT(llong, long long, __v_long("v"), true)
TEXT(ullong, unsigned long long, __v_ulong("v"), false)
#define FAM(name, T, sym, SGN) DRIVER(family_##name) { __v_precise(12); __v_overflow(); TRY(T v = sym; text<Converter<char *>, T>(v, SGN && v < 0, magnitude(SGN && v < 0, (long)v, (U)v))) }
FAM(char, char, __v_char("v"), true)
FAM(uchar, unsigned char, (unsigned char)__v_range(0, 255), false)
FAM(short, short, __v_short("v"), true)
FAM(ushort, unsigned short, __v_ushort("v"), false)
FAM(int, int, __v_int("v"), true)
FAM(uint, unsigned int, __v_uint("v"), false)
FAM(long, long, __v_long("v"), true)
FAM(ulong, unsigned long, __v_ulong("v"), false)
FAM(llong, long long, __v_long("v"), true)
FAM(ullong, unsigned long long, __v_ulong("v"), false)
// ---- truth values, floats
namespace drv {
static char *fbegin; static int froom, fprec; static bool printed;
static bool same(const char *a, const char *b) { while (*a != 0 && *a == *b) { a++; b++; } return *a == *b; }
template <class C> static void truth(C &c, int room) {
  bool v = __v_bool(); const char *s = c(v);
  if (room < (v ? 4 : 5)) { __v_assert(s == 0, "V01: a text that does not fit the buffer is refused"); return; }
  __v_assert(s != 0, "V01: a text that fits the buffer is made"); if (s) __v_assert(same(s, v ? "true" : "false"), "V01: truth values read true and false");
}
template <class C, class T> static void decimal(T v) {
  char area[24]; int n = sizes(); area[0] = 'x'; area[n + 1] = 'y'; C c(area + 1, area + n);
  for (int i = 0; i < 2; i++) {
    fbegin = area + 1; froom = n; printed = false; fprec = (int)__v_range(-2, 30);
    const char *s; if (fprec == -2) { fprec = -1; s = c(v); } else s = c(v, fprec);
    __v_assert(printed && s == area + 1, "V01: a number with decimals is written to the start of the buffer");
    __v_assert(area[0] == 'x' && area[n + 1] == 'y', "V01: nothing outside the buffer is written");
  }
}
}
extern "C" int snprintf(char *to, size_t n, const char *format, ...) {
  __v_assert(to == fbegin && n <= (size_t)froom, "V01: formatting never writes past the end of the buffer"); printed = true;
  int p = fprec > 20 ? 20 : fprec; const char *f = format;
  __v_assert(*f++ == '%', "V01: the format of a number with decimals");
  if (p >= 0) {
    __v_assert(*f++ == '.', "V01: the format of a number with decimals");
    int q = *f++ - '0'; if (*f >= '0' && *f <= '9') q = q * 10 + (*f++ - '0');
    __v_assert(q == p, "V01: a number is formatted with the requested number of decimals, at most 20");
  }
  __v_assert(f[0] == 'f' && f[1] == 0, "V01: the format of a number with decimals");
  if (n > 0) to[0] = 0;
  return (int)__v_range(1, 400);
}
extern "C" char *strcat(char *to, const char *from) throw() { char *p = to; while (*p) p++; while ((*p++ = *from++)) {} return to; }
extern "C" char *strcpy(char *to, const char *from) throw() { char *p = to; while ((*p++ = *from++)) {} return to; }
DRIVER(truth) { TRY(if (__v_bool()) { Converter<char *, bool> c; if (c.error().flag() == NoError) truth(c, 5); else __v_assert(c(true) == 0, "V01: without a buffer nothing is converted"); } else { int n = sizes(); char area[24]; Converter<char *> c(area, area + n - 1); truth(c, n - 1); }) }
DRIVER(decimals_float) { TRY(float v = __v_float("v"); if (__v_bool()) decimal<Converter<char *, float>, float>(v); else decimal<Converter<char *>, float>(v)) }
DRIVER(decimals_double) { TRY(double v = __v_double("v"); if (__v_bool()) decimal<Converter<char *, double>, double>(v); else decimal<Converter<char *>, double>(v)) }
// ---- copies work on a buffer of their own
DRIVER(copies) { TRY(
  Converter<char *, int> a(12); if (a.error().flag() != NoError) return;
  { Converter<char *, int> b(a); if (b.error().flag() != NoError) { __v_assert(b(5) == 0, "V01: without a buffer nothing is converted"); }
    else { const char *s = a(17), *t = b(4); __v_assert(s && t, "V01: copies of a converter convert"); if (s && t) { reads(s, false, 17); reads(t, false, 4); } } }
  const char *s = a(1234567); __v_assert(s != 0, "V01: a converter outlives its copies"); if (s) reads(s, false, 1234567);
  Converter<char *, int> d(4); if (d.error().flag() == NoError) { d = a; const char *t = d(-76543); if (d.error().flag() == NoError) { __v_assert(t != 0, "V01: copies of a converter convert"); if (t) reads(t, true, 76543); } }
) }
DRIVER(copies_of_the_family) { TRY(
  Converter<char *> a(12); if (a.error().flag() != NoError) return;
  { Converter<char *> b(a); if (b.error().flag() == NoError) { const char *s = a(17), *t = b(4); __v_assert(s && t, "V01: copies of a converter convert"); if (s && t) { reads(s, false, 17); reads(t, false, 4); } } }
  char area[12]; Converter<char *> e(area, area + 11); Converter<char *> f(e); const char *t = f(99u); __v_assert(t != 0, "V01: copies of a converter convert"); if (t) reads(t, false, 99);
) }
// ---- digits
#if defined(V_NOEXC) || defined(NDEBUG)
#define REFUSES(conv, expr) ([&]() -> bool { expr; return conv.error().flag() != NoError; }())
#else
#define REFUSES(conv, expr) ([&]() -> bool { try { expr; } catch (const StandardException &) { return true; } return conv.error().flag() != NoError; }())
#endif
DRIVER(digit_int) { TRY(Converter<char, int> c; for (int i = 0; i < 2; i++) { char r = 0; int d = __v_int("d"); bool no = REFUSES(c, r = c(d)); __v_assert(no == (d < 0 || d > 9), "V01: numbers that are not digits are refused, digits are not"); if (!no) __v_assert(r == '0' + d, "V01: digit to character"); }) }
DRIVER(digit_uint) { TRY(Converter<char, unsigned int> c; for (int i = 0; i < 2; i++) { char r = 0; unsigned d = __v_uint("d"); bool no = REFUSES(c, r = c(d)); __v_assert(no == (d > 9), "V01: numbers that are not digits are refused, digits are not"); if (!no) __v_assert(r == (int)('0' + d), "V01: digit to character"); }) }
DRIVER(digit_char) { TRY(Converter<int, char> c; for (int i = 0; i < 2; i++) { char d = __v_char("c"); int r = -1; bool no = REFUSES(c, r = c(d)); __v_assert(no == (d < '0' || d > '9'), "V01: characters that are not digits are refused, digits are not"); __v_assert(r == (no ? -1 : d - '0'), "V01: character to digit, -1 if it is none"); }) }
DRIVER(digits_of_families) { TRY(int d = (int)__v_range(0, 9); Converter<char> c; __v_assert(c(d) == '0' + d && c((unsigned)d) == '0' + d, "V01: digit to character"); Converter<int> i; __v_assert(i((char)('0' + d)) == d, "V01: character to digit")) }
// ---- strings
namespace drv { struct Ios { virtual ~Ios() {} long x; }; struct Stream : virtual Ios { long y; }; static Stream theStream; static int parsed; static long number; static bool failbit, leftover, textNeg, assigned; static U textMag;
enum { Nothing, NoNumber, TooLarge, Fine }; }
extern "C" {
void *v_extract(void *, int &i) asm("__v_over_ZNSirsERi");
void *v_extract(void *, int &i) {
  switch (parsed) { case Nothing: failbit = true; break; case NoNumber: i = 0; failbit = true; break; case TooLarge: i = __v_bool() ? 2147483647 : -2147483647 - 1; failbit = true; break; default: i = (int)number; }
  return (void *)&theStream;
}
void *v_get(void *, char &c) asm("__v_over_ZNSi3getERc");
void *v_get(void *, char &c) { if (failbit || !leftover) failbit = true; else c = __v_char("c"); return (void *)&theStream; }
bool v_bad(void *) asm("__v_over_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool v_bad(void *) { return failbit; }
bool v_fails(void *) asm("__v_over_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool v_fails(void *) { return failbit; }
bool v_good(void *) asm("__v_over_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool v_good(void *) { return !failbit; }
void *v_assign(void *s, const char *t) asm("__v_over_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6assignEPKc");
void *v_assign(void *s, const char *t) { assigned = true; reads(t, textNeg, textMag); return s; }
}
DRIVER(string_to_int) { TRY(
  Converter<int, std::string> c; std::string text("text");
  for (int i = 0; i < 2; i++) {
    parsed = (int)__v_range(0, 3); number = __v_int("number"); failbit = false; leftover = __v_bool(); int r = 0;
    bool no = REFUSES(c, r = c(text)); bool should = parsed != Fine || leftover;
    __v_assert(no == should, "V01: a string is refused unless all of it is a number");
#if defined(NDEBUG) || defined(V_NOEXC)
    __v_assert(r == (should ? -2147483647 - 1 : number), "V01: string to number, INT_MIN if it is none");
#else
    if (!should) __v_assert(r == number, "V01: string to number");
#endif
  }) }
DRIVER(int_to_string) { __v_overflow(); __v_precise(12);
  int v = __v_int("v"); textNeg = v < 0; textMag = magnitude(v < 0, v, (U)v); assigned = false;
  TRY(Converter<std::string> c; std::string s = c(v); __v_assert(assigned, "V01: a number is turned into text"))
  __v_assert(assigned, "V01: every number can be turned into text"); }
// ---- bytes written as hexadecimal text: any number of complete bytes, then the end or the first character that does not belong there
namespace drv {
static char hexes[20]; static int want[3];
static char digit(int &v) { switch (__v_range(0, 2)) { case 0: v = (int)__v_range(0, 9); return (char)('0' + v); case 1: v = (int)__v_range(10, 15); return (char)('a' + v - 10); default: v = (int)__v_range(10, 15); return (char)('A' + v - 10); } }
static char noHex() { char c = __v_char("c"); __v_assume(c != 0); __v_assume(c < '0' || c > '9'); __v_assume(c < 'a' || c > 'f'); __v_assume(c < 'A' || c > 'F'); return c; }
static void hexText(int bytes, bool spaces, int tail) {
  int i = 0;
  for (int k = 0; k < bytes; k++) { if (spaces) hexes[i++] = ' '; hexes[i++] = '0'; hexes[i++] = 'x'; int h = 12; int l = 7; if (k + 1 < bytes) { hexes[i++] = 'c'; hexes[i++] = '7'; } else { hexes[i++] = digit(h); hexes[i++] = digit(l); } want[k] = 16 * h + l; }
  int v;
  switch (tail) {
    case 0: if (spaces) hexes[i++] = ' '; break;
    case 1: { char c = __v_char("c"); __v_assume(c != 0 && c != '0' && c != ' '); hexes[i++] = c; break; }
    case 2: hexes[i++] = '0'; break;
    case 3: { hexes[i++] = '0'; char c = __v_char("c"); __v_assume(c != 0 && c != 'x'); hexes[i++] = c; break; }
    case 4: hexes[i++] = '0'; hexes[i++] = 'x'; break;
    case 5: hexes[i++] = '0'; hexes[i++] = 'x'; hexes[i++] = noHex(); break;
    case 6: hexes[i++] = '0'; hexes[i++] = 'x'; hexes[i++] = digit(v); break;
    default: hexes[i++] = '0'; hexes[i++] = 'x'; hexes[i++] = digit(v); hexes[i++] = noHex();
  }
  hexes[i] = 0;
  Converter<std::vector<char>, char *> c; std::vector<char> b;
  bool no = REFUSES(c, b = c(hexes));
  if (tail != 0) { __v_assert(no, "V01: hexadecimal text that does not consist of complete bytes is refused"); __v_assert(b.size() == 0, "V01: refused text yields no bytes"); return; }
  __v_assert(!no, "V01: hexadecimal text that consists of complete bytes is accepted");
  __v_assert((int)b.size() == bytes, "V01: hexadecimal text yields its bytes"); for (int k = 0; k < bytes; k++) __v_assert((unsigned char)b[k] == want[k], "V01: hexadecimal text yields its bytes");
}
}
#define HEX(n, s) DRIVER(hex_##n##_##s) { __v_reliable_malloc(); __v_precise(12); int t = 0; switch (__v_range(0, 7)) { case 0: break; case 1: t = 1; break; case 2: t = 2; break; case 3: t = 3; break; case 4: t = 4; break; case 5: t = 5; break; case 6: t = 6; break; default: t = 7; } TRY(hexText(n, s, t)) }
HEX(0, 0) HEX(1, 0) HEX(2, 0) HEX(3, 0) HEX(0, 1) HEX(1, 1) HEX(2, 1)
