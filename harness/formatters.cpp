// Formatters: any settings, permanent, temporary, abandoned or copied; every number; spaces counted on a stream of our own.
#include "v.h"
#include "thin_exception.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <ecl/formatters.hpp>
#include <ecl/containers/array.hpp>
#include <ecl_formatters/src/lib/strings.cpp>
using namespace ecl;
typedef unsigned long U;
namespace drv {
struct Out {
  int lead, len, tail, strings; bool text; char body[72];
  Out() : lead(0), len(0), tail(0), strings(0), text(false) {}
  void put(char c) { if (c == ' ') { if (len == 0) lead++; else tail++; return; } __v_assert(tail == 0, "F01: a text is written in one piece"); if (len < 70) body[len] = c; len++; body[len < 70 ? len : 70] = 0; }
  void flush() {}
};
static int textLen; // of the std::string that is formatted
Out &operator<<(Out &o, char c) { o.put(c); return o; }
Out &operator<<(Out &o, const char *s) { while (*s) o.put(*s++); return o; }
Out &operator<<(Out &o, const std::string &) { o.len += textLen; o.strings++; return o; }
struct Set { int w; signed char a, b; int p; };
static void setWidth(Set &s, int w) { s.w = w; if (w > 0 && s.a == NoAlign) s.a = RightAlign; }
static void setAlign(Set &s, signed char a) { s.a = a; if (a == NoAlign) s.w = 0; }
static void spaces(const Out &o, const Set &s) {
  int pad = s.w - o.len; if (pad < 0 || s.a == NoAlign) pad = 0;
  int before = s.a == RightAlign ? pad : s.a == CentreAlign ? pad / 2 + pad % 2 : 0;
  __v_assert(o.lead == before && o.tail == pad - before, "F01: a text is filled up to the width, on the side the alignment says");
}
static int someWidth() { switch (__v_range(0, 6)) { case 0: return -1; case 1: return 0; case 2: return 3; case 3: return 4; case 4: return 8; case 5: return 13; default: return 22; } }
static int fewWidths() { switch (__v_range(0, 2)) { case 0: return -1; case 1: return 5; default: return 8; } }
static int wideWidths() { switch (__v_range(0, 2)) { case 0: return 2; case 1: return 19; default: return 68; } }
static Alignment someAlign() { switch (__v_range(0, 3)) { case 0: return NoAlign; case 1: return LeftAlign; case 2: return RightAlign; default: return CentreAlign; } }
static U magnitude(bool neg, long v, U u) { return neg ? 0UL - (U)v : u; }
static void decimals(const Out &o, bool neg, U mag) {
  const char *p = o.body; if (neg) { __v_assert(*p == '-', "F01: a number is written as its digits"); p++; }
  __v_assert(o.len > 0 && *p != 0 && (*p != '0' || p[1] == 0), "F01: a number is written as its digits");
  U acc = 0; while (*p != 0) { acc = acc * 10 + (U)(*p - '0'); p++; } __v_assert(acc == mag, "F01: a number is written as its digits");
}
template <class N> static void digits(const Out &o, N v, int bits) {
  int n = (int)sizeof(N) * 8 / bits; U u = (U)v;
  __v_assert(o.len == n + 2 && o.body[0] == '0' && o.body[1] == (bits == 4 ? 'x' : 'b'), "F01: hexadecimal and binary numbers have a prefix and all their digits");
  for (int i = 0; i < n; i++) { int d = (int)((u >> ((n - 1 - i) * bits)) & (bits == 4 ? 15 : 1)); __v_assert(o.body[2 + i] == (d < 10 ? '0' + d : 'a' + d - 10), "F01: the digits of hexadecimal and binary numbers"); }
}
// nothing to print: refused, nothing is written
template <class F> static void empty(F &f) {
  Out o;
#if defined(NDEBUG) || defined(V_NOEXC)
  o << f;
#else
  bool thrown = false; try { o << f; } catch (const StandardException &) { thrown = true; } __v_assert(thrown, "F01: a formatter without a value is refused");
#endif
  __v_assert(o.lead == 0 && o.len == 0 && o.tail == 0 && o.strings == 0, "F01: a formatter without a value prints nothing");
}
template <class F, class N> static void shows(F &f, const Set &s, N v) {
  Out o; o << f(v); spaces(o, s);
  if (s.b == Dec) decimals(o, v < 0, magnitude(v < 0, (long)v, (U)v)); else digits(o, v, s.b == Hex ? 4 : 1);
}
template <class F> static void configure(F &f, Set &s) {
  switch (__v_range(0, 4)) {
    case 0: break;
    case 1: { int w = fewWidths(); f.width(w); setWidth(s, w); break; }
    case 2: { Alignment a = someAlign(); f.align(a); setAlign(s, a); break; }
    case 3: { IntegralBase b = __v_bool() ? Hex : Dec; f.base(b); s.b = b; break; }
    default: { int w = fewWidths(); Alignment a = someAlign(); IntegralBase b = __v_bool() ? Hex : Dec; f(w, a, b); s.b = b; setWidth(s, w); setAlign(s, a); }
  }
}
template <class F, class N> static void temporary(F &f, Set &t, N v) {
  int w = fewWidths();
  if (__v_bool()) { IntegralBase b = __v_bool() ? Hex : Dec; f(v, w, b); t.b = b; setWidth(t, w); }
  else { Alignment a = someAlign(); f(v, w, a, Hex); t.b = Hex; setWidth(t, w); setAlign(t, a); }
}
template <class N> static void written(const Out &o, const Set &s, N v) { spaces(o, s); if (s.b == Dec) decimals(o, v < 0, magnitude(v < 0, (long)v, (U)v)); else digits(o, v, s.b == Hex ? 4 : 1); }
}
using namespace drv;
// ---- every number, every alignment
#define DECIMAL(name, T, sym) DRIVER(dec_##name) { __v_precise(12); __v_reliable_malloc(); __v_overflow(); T v = sym; Set s = {0, 0, Dec, 0}; TRY(s.w = someWidth(); Alignment a = someAlign(); s.a = a; Format<T> f(s.w, a, Dec); shows(f, s, v); empty(f)) }
DECIMAL(char, char, __v_char("v"))
DECIMAL(schar, signed char, (signed char)__v_range(-128, 127))
DECIMAL(uchar, unsigned char, (unsigned char)__v_range(0, 255))
DECIMAL(short, short, __v_short("v"))
DECIMAL(ushort, unsigned short, __v_ushort("v"))
DECIMAL(int, int, __v_int("v"))
DECIMAL(uint, unsigned int, __v_uint("v"))
#undef DECIMAL
#define DECIMAL(name, T, sym) DRIVER(dec_##name) { __v_precise(12); __v_reliable_malloc(); __v_overflow(); T v = sym; Set s = {0, 0, Dec, 0}; TRY(s.w = fewWidths(); Alignment a = someAlign(); s.a = a; Format<T> f(s.w, a, Dec); shows(f, s, v); empty(f)) }
DECIMAL(long, long, __v_long("v"))
DECIMAL(ulong, unsigned long, __v_ulong("v"))
// ---- hexadecimal and binary: every digit at every position
namespace drv { static U rotated() { U p = 0x0123456789abcdefUL; switch (__v_range(0, 17)) { case 0: return p; case 1: return p << 4 | p >> 60; case 2: return p << 8 | p >> 56; case 3: return p << 12 | p >> 52; case 4: return p << 16 | p >> 48; case 5: return p << 20 | p >> 44; case 6: return p << 24 | p >> 40; case 7: return p << 28 | p >> 36; case 8: return p << 32 | p >> 32; case 9: return p << 36 | p >> 28; case 10: return p << 40 | p >> 24; case 11: return p << 44 | p >> 20; case 12: return p << 48 | p >> 16; case 13: return p << 52 | p >> 12; case 14: return p << 56 | p >> 8; case 15: return p << 60 | p >> 4; case 16: return 0; default: return ~0UL; } } }
#define BASES(name, T) DRIVER(hex_##name) { __v_precise(12); __v_reliable_malloc(); T v = (T)rotated(); Set s = {0, 0, Hex, 0}; TRY(s.w = wideWidths(); Alignment a = someAlign(); s.a = a; Format<T> f(s.w, a, Hex); shows(f, s, v); empty(f)) } \
  DRIVER(bin_##name) { __v_precise(12); __v_reliable_malloc(); T v = (T)rotated(); Set s = {0, 0, Bin, 0}; TRY(s.w = wideWidths(); Alignment a = someAlign(); s.a = a; Format<T> f(s.w, a, Bin); shows(f, s, v); empty(f)) }
BASES(char, char)
BASES(schar, signed char)
BASES(uchar, unsigned char)
BASES(short, short)
BASES(ushort, unsigned short)
BASES(int, int)
BASES(uint, unsigned int)
BASES(long, long)
BASES(ulong, unsigned long)
// ---- settings: permanent ones stay, temporary ones serve once, copies have their own
#define START(T) Set s = {fewWidths(), 0, Dec, 0}; T v = (T)42; Format<T> f(s.w); if (__v_bool()) { f.align(LeftAlign); setAlign(s, LeftAlign); }
DRIVER(settings_stay) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(START(int) empty(f); configure(f, s); configure(f, s); shows(f, s, v); empty(f); shows(f, s, (int)-7)) }
DRIVER(temporary_serves_once) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(START(int) configure(f, s); Set t = s; temporary(f, t, v); { Out o; o << f; written(o, t, v); } empty(f); shows(f, s, (int)-7)) }
DRIVER(temporary_after_temporary) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(START(short) Set u = s; temporary(f, u, v); if (__v_bool()) { Out o; o << f; } Set t = s; temporary(f, t, (short)-31); { Out o; o << f; written(o, t, (short)-31); } shows(f, s, v)) }
DRIVER(abandoned_temporary) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(START(long) Set u = s; temporary(f, u, v); if (__v_bool()) { int w = fewWidths(); f(w, RightAlign, Dec); s.b = Dec; setWidth(s, w); setAlign(s, RightAlign); } shows(f, s, (long)-7); empty(f)) }
DRIVER(copies) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(START(int)
  { Format<int> g(f); if (__v_bool()) g = f; shows(g, s, v); g(9, CentreAlign, Hex); Set gs = {9, CentreAlign, Hex, 0}; shows(g, gs, v); }
  shows(f, s, (int)-7);
  Set t = s; temporary(f, t, v); Format<int> h(f); f(4, LeftAlign, Dec); { Out o; o << h; written(o, t, v); } shows(h, s, (int)-7)) }
DRIVER(copy_outlives_original) { __v_precise(60); __v_exact(); __v_reliable_malloc(); TRY(Set s = {fewWidths(), RightAlign, Dec, 0}; Format<int> g; { Format<int> f(s.w, RightAlign, Dec); if (__v_bool()) f(3); g = f; } shows(g, s, (int)5)) }
// ---- numbers with decimals: what snprintf makes of them is padded the same way
namespace drv { static int wantPrec, textSize, asked; static double theValue;
static size_t length(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
static void fill(char *to, size_t n) { size_t i = 0; for (; i < (size_t)textSize && i + 1 < n; i++) to[i] = '1'; if (n > 0) to[i] = 0; }
}
extern "C" size_t strlen(const char *s) throw() { return length(s); }
extern "C" int v_print(char *to, size_t n, const char *format, double d) asm("__v_oversnprintf");
extern "C" int v_print(char *to, size_t n, const char *format, double d) {
  asked++; const char *f = format; __v_assert(*f++ == '%' && *f++ == '.', "F01: the format of a number with decimals");
  int q = *f++ - '0'; if (*f >= '0' && *f <= '9') q = q * 10 + (*f++ - '0');
  __v_assert(q == wantPrec, "F01: a number is formatted with the requested number of decimals, at most 20");
  __v_assert(f[0] == 'f' && f[1] == 0, "F01: the format of a number with decimals");
  __v_assert(d == theValue, "F01: the number that was given is formatted");
  __v_assert(n > (size_t)textSize, "F01: the whole text of a number is kept");
  fill(to, n);
  return textSize;
}
namespace drv {
static int someText() { switch (__v_range(0, 3)) { case 0: return 3; case 1: return 8; case 2: return 29; default: return 32; } }
static unsigned somePrec(int &p) { switch (__v_range(0, 6)) { case 0: p = 0; return 0; case 1: p = 4; return 4; case 2: p = 9; return 9; case 3: p = 10; return 10; case 4: p = 19; return 19; case 5: p = 20; return 20; default: p = 20; return 4294967295u; } }
static unsigned fewPrec(int &p) { switch (__v_range(0, 2)) { case 0: p = 0; return 0; case 1: p = 13; return 13; default: p = 20; return 23; } }
template <class F> static void adjust(F &f, Set &s) { switch (__v_range(0, 3)) { case 0: { int w = fewWidths(); f.width(w); setWidth(s, w); break; } case 1: { Alignment a = someAlign(); f.align(a); setAlign(s, a); break; } case 2: { unsigned p = fewPrec(s.p); f.precision(p); break; } default: { int w = fewWidths(); unsigned p = fewPrec(s.p); f(p, w); setWidth(s, w); } } }
template <class F> static void prints(F &f, const Set &s) { Out o; int k = asked; wantPrec = s.p; o << f; __v_assert(asked == k + 1 && o.len == textSize, "F01: the text of a number is printed once"); spaces(o, s); }
}
#define FSTART(T) theValue = 1.5; textSize = 4; Set s = {fewWidths(), 0, Fixed, 4}; Format<T> f(s.w);
#define SHOW(v) do { f(v); prints(f, s); } while (0)
#define FLOATS(name, T) \
  DRIVER(decimals_##name) { __v_precise(12); __v_reliable_malloc(); TRY(theValue = __v_bool() ? 1.5 : -2.25; textSize = someText(); Set s = {fewWidths(), 0, Fixed, 0}; Alignment a = someAlign(); s.a = a; unsigned p = somePrec(s.p); Format<T> f(s.w, p, a, Fixed); empty(f); SHOW((T)theValue); empty(f); SHOW((T)theValue)) } \
  DRIVER(settings_##name) { __v_precise(60); __v_reliable_malloc(); TRY(FSTART(T) \
    adjust(f, s); adjust(f, s); \
    SHOW((T)theValue)) } \
  DRIVER(temporary_##name) { __v_precise(60); __v_reliable_malloc(); TRY(FSTART(T) if (__v_bool()) { f.align(LeftAlign); setAlign(s, LeftAlign); } if (__v_bool()) SHOW((T)theValue); \
    Set t = s; int w = fewWidths(); unsigned p = 12; t.p = 12; if (__v_bool()) { f((T)theValue, p, w); setWidth(t, w); } else { Alignment a = someAlign(); f((T)theValue, p, w, a, Fixed); setWidth(t, w); setAlign(t, a); } \
    if (__v_bool()) { prints(f, t); empty(f); } if (__v_bool()) { f(1, 8); s.p = 1; setWidth(s, 8); } SHOW((T)theValue)) } \
  DRIVER(copies_##name) { __v_precise(60); __v_reliable_malloc(); TRY(FSTART(T) Format<T> g; { Format<T> h(f); if (__v_bool()) h((T)theValue); g = h; h(1, 9, CentreAlign, Fixed); } f(2, 9, CentreAlign, Fixed); { g((T)theValue); prints(g, s); } Set fs = {9, CentreAlign, Fixed, 2}; f((T)theValue); prints(f, fs)) }
FLOATS(float, float)
FLOATS(double, double)
DRIVER(largest_double) { __v_precise(12); __v_heads(120); TRY(theValue = 1.5; textSize = 100; Set s = {0, 0, Fixed, 20}; Format<double> f(-1, 20, NoAlign, Fixed); f(theValue); Out o; wantPrec = 20; o << f; __v_assert(o.len == 100, "F01: the text of a number is printed once")) }
// ---- strings
namespace drv {
template <class F> static void printsText(F &f, const Set &s) { Out o; o << f; __v_assert(o.strings == 1, "F01: a string is printed once"); spaces(o, s); }
static const std::string *text(int i) { static const std::string one("abc"), two("abcdefgh"); textLen = i ? 8 : 3; return i ? &two : &one; }
}
DRIVER(strings) { __v_precise(12); __v_reliable_malloc(); TRY(Set s = {someWidth(), 0, 0, 0}; Alignment a = someAlign(); s.a = a; Format<std::string> f(s.w, a); empty(f); f(*text(0)); printsText(f, s); empty(f); f(*text(1)); printsText(f, s)) }
DRIVER(strings_settings) { __v_precise(12); __v_reliable_malloc(); TRY(Set s = {fewWidths(), LeftAlign, 0, 0}; Format<std::string> f(s.w, LeftAlign);
  switch (__v_range(0, 2)) { case 0: s.w = 13; f.width(13); break; case 1: s.a = CentreAlign; f.align(CentreAlign); break; default: s.w = 12; s.a = RightAlign; f(12, RightAlign); }
  f(*text(0)); printsText(f, s); f(*text(1)); printsText(f, s)) }
DRIVER(strings_temporary) { __v_precise(12); __v_reliable_malloc(); TRY(Set s = {fewWidths(), 0, 0, 0}; Alignment a = someAlign(); s.a = a; Format<std::string> f(s.w, a);
  Set t = s; t.w = someWidth(); if (__v_bool()) f(*text(0), t.w); else { Alignment b = someAlign(); t.a = b; f(*text(0), t.w, b); }
  if (__v_bool()) { printsText(f, t); empty(f); } if (__v_bool()) { s.w = 6; s.a = LeftAlign; f(6, LeftAlign); } Format<std::string> g(f); f(*text(1)); printsText(f, s); g(*text(1)); printsText(g, s)) }
// ---- arrays of numbers with decimals, arrays of bytes
namespace drv {
struct Row { int open, close, chars, spaces; Row() : open(0), close(0), chars(0), spaces(0) {} void put(char c) { if (c == '[') open++; else if (c == ']') close++; else if (c == ' ') spaces++; else { __v_assert(open == 1 && close == 0, "F01: elements stand between the brackets"); chars++; } } void flush() {} };
Row &operator<<(Row &o, char c) { o.put(c); return o; }
Row &operator<<(Row &o, const char *s) { while (*s) o.put(*s++); return o; }
template <class F> static void row(F &f, int n, int w, int p) {
  Row o; int k = asked; wantPrec = p; o << f; int pad = w > textSize ? w - textSize : 0;
  __v_assert(asked == k + n && o.chars == n * textSize, "F01: every element is printed once");
  __v_assert(o.open == 1 && o.close == 1 && o.spaces == 1 + n * (1 + pad), "F01: elements are filled up to the width");
}
template <class F> static void noRow(F &f) {
#if !defined(NDEBUG) && !defined(V_NOEXC)
  Row o; bool thrown = false; try { o << f; } catch (const StandardException &) { thrown = true; } __v_assert(thrown && o.open == 0, "F01: a formatter without a value is refused");
#endif
}
template <class F, class A> static void rows(F &f, A &a, int n) {
  theValue = 1.5; textSize = 4; int w = 6; int p = 3;
  noRow(f);
  switch (__v_range(0, 2)) { case 0: f(3u, 6); break; case 1: f.precision(3); f.width(6); break; default: f.precision(3); f.width(3); w = 3; }
  switch (__v_range(0, 3)) { case 0: f(a); row(f, n, w, p); noRow(f); break; case 1: f(a, 1, 9); row(f, n, 9, 1); noRow(f); break; case 2: f(a, 1, 9); f(a, 2, 8); if (__v_bool()) row(f, n, 8, 2); break; default: f(a, 7, 9); f(3u, 5); w = 5; }
  F g(f); f(a, 1, 9);
  g(a); row(g, n, w, p); __v_assert((int)g.precision() == p, "F01: settings stay");
  f(a); row(f, n, w, p);
}
}
DRIVER(rows_fixed) { __v_precise(60); __v_reliable_malloc(); TRY(Array<float, 3> a; for (int i = 0; i < 3; i++) a[i] = 1.5f; formatters::ArrayFormatter<float, 3> f; rows(f, a, 3)) }
DRIVER(rows_dynamic) { __v_precise(60); __v_reliable_malloc(); TRY(Array<double> a(2); a[0] = 1.5; a[1] = 1.5; Array<double>::Formatter f; rows(f, a, 2)) }
DRIVER(rows_empty) { __v_precise(60); __v_reliable_malloc(); TRY(Array<double> a; Array<double>::Formatter f(2, __v_bool() ? -1 : 7); textSize = 4; f(a); row(f, 0, 0, 2); f(a, 3, __v_bool() ? -1 : 4); row(f, 0, 0, 3); f(a); row(f, 0, 0, 2)) }
DRIVER(rows_bytes) { __v_precise(60); __v_reliable_malloc(); TRY(Array<unsigned char, 3> a; a[0] = 0x1f; a[1] = 0; a[2] = 0xa5; formatters::ArrayFormatter<unsigned char, 3> f; noRow(f); Row o; o << f(a); __v_assert(o.open == 1 && o.close == 1 && o.chars == 12 && o.spaces == 4, "F01: every byte is printed once, in hexadecimal")) }
