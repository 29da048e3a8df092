// Text input streams: every text, character by character, from a device that may end or fail at any point.
#include "v.h"
#include "thin_exception.h"
#define V_STRING_MAX 24
#include <cstdio>
#include <cstring>
#include <limits>
#include <ecl/converters.hpp>
#include "mini_string.h"
#include <ecl/streams/text_stream.hpp>
using namespace ecl;
typedef unsigned long U;
namespace drv {
enum { MDec, MHex, MWord, MFloat };       // what the device delivers
enum { Blank, Signed, Digits, Zero, Hexed, Hex1, Word, Frac, Over, Raw };      // what has been delivered so far
static signed char mode, kind, phase, sign, digits, most; // most: digits delivered at most
static bool broken, ended, huge; static U mag; static const char *first; // the digits a number starts with
static char word[12]; static signed char letters; static bool isOpen = true, any;
static void start(int m, const char *p, int how = MDec) { mode = (signed char)how; first = p; kind = 0; phase = Blank; sign = 0; digits = 0; most = (signed char)m; broken = ended = huge = any = false; letters = 0; isOpen = true; mag = 0; }
static long fails() { phase = Over; broken = true; return __v_range(-3, -1); }
static long ends() { phase = Over; ended = true; return 0; }
static char other() { switch (__v_range(0, 2)) { case 0: kind = 1; return (char)__v_range(-128, mode == MFloat ? 45 : 47); case 1: kind = 2; return (char)__v_range(58, 119); default: kind = 3; return (char)__v_range(121, 127); } }
static char letter() { if (__v_bool()) { kind = 2; return (char)__v_range(58, 119); } kind = 3; return (char)__v_range(121, 127); }
static char blank() { return __v_bool() ? ' ' : '\n'; }
static long hexDigit(char &c) {
  phase = Hexed; digits++; int d;
  if (*first != 0) { c = *first; first++; d = c <= '9' ? c - '0' : c - 'a' + 10; }
  else switch (__v_range(0, 2)) { case 0: kind = 4; d = (int)__v_range(0, 9); c = (char)('0' + d); break; case 1: kind = 5; d = (int)__v_range(10, 15); c = (char)('a' + d - 10); break; default: kind = 6; d = (int)__v_range(10, 15); c = (char)('A' + d - 10); }
  if (mag >= 1152921504606846976UL) huge = true; else mag = mag * 16 + (U)d;
  return 1;
}
static char noHex() { switch (__v_range(0, 3)) { case 0: kind = 1; return (char)__v_range(-128, 47); case 1: kind = 2; return (char)__v_range(58, 64); case 2: kind = 3; return (char)__v_range(71, 96); default: kind = 7; return (char)__v_range(103, 127); } }
static long nextLetter(char &c) { c = __v_char("c"); __v_assume(c != ' ' && c != '\n'); word[letters++] = c; phase = Word; return 1; }
static long digit(char &c) { phase = Digits; digits++; int d; if (*first != 0) { d = *first - '0'; first++; } else d = (int)__v_range(0, 9); c = (char)('0' + d); if (mag > 1844674407370955161UL || (mag == 1844674407370955161UL && d > 5)) huge = true; else mag = mag * 10 + (U)d; return 1; }
struct In {
  bool open() { return isOpen; }
  long read(char &c) {
    any = true;
    __v_assert(phase != Over, "X01: nothing behind the end of a value is read");
    if (phase == Over) return -1;
    if (phase == Raw) switch (__v_range(0, 2)) { case 0: return fails(); case 1: return ends(); default: phase = Over; c = __v_char("c"); word[letters++] = c; return 1; }
    if (phase == Blank && mode == MWord) switch (__v_range(0, 3)) {
      case 0: return fails();
      case 1: return ends();
      case 2: c = blank(); return 1;
      default: if (*first != 0) { c = *first; first++; word[letters++] = c; phase = Word; return 1; } return nextLetter(c);
    }
    if (phase == Word) switch (__v_range(0, 4)) {
      case 0: return fails();
      case 1: return ends();
      case 2: phase = Over; c = ' '; return 1;
      case 3: phase = Over; c = '\n'; return 1;
      default: if (*first != 0) { c = *first; first++; word[letters++] = c; return 1; } if (letters >= most) return ends(); return nextLetter(c);
    }
    if (mode == MFloat && phase == Digits && __v_bool()) { phase = Frac; kind = 9; c = '.'; return 1; }
    if (phase == Blank && mode == MHex) switch (__v_range(0, 2)) {
      case 0: c = blank(); return 1;
      case 1: phase = Hex1; c = 'x'; return 1;
      default: phase = Zero; c = '0'; return 1;
    }
    if (phase == Blank) switch (__v_range(0, 5)) {
      case 0: return fails();
      case 1: return ends();
      case 2: c = blank(); return 1;
      case 3: c = sign = __v_bool() ? '-' : '+'; phase = Signed; return 1;
      case 4: phase = Over; c = letter(); return 1;
      default: return digit(c);
    }
    if (phase == Zero) { phase = Hex1; c = 'x'; return 1; }
    if (phase == Hex1 || phase == Hexed) switch (__v_range(0, 3)) {
      case 0: return fails();
      case 1: return ends();
      case 2: phase = Over; c = noHex(); return 1;
      default: if (*first == 0 && digits >= most) return ends(); return hexDigit(c);
    }
    if (phase == Signed) switch (__v_range(0, 3)) {
      case 0: return fails();
      case 1: return ends();
      case 2: phase = Over; c = other(); return 1;
      default: return digit(c);
    }
    if (phase == Frac) switch (__v_range(0, 3)) {
      case 0: return fails();
      case 1: return ends();
      case 2: phase = Over; c = other(); return 1;
      default: if (digits >= most) return ends(); digits++; kind = 0; c = (char)__v_range('0', '9'); return 1;
    }
    switch (__v_range(0, 4)) {
      case 0: return fails();
      case 1: return ends();
      case 2: phase = Over; c = blank(); return 1;
      case 3: phase = Over; c = other(); return 1;
      default: if (*first == 0 && digits >= most) return ends(); return digit(c);
    }
  }
  long read(char *, const unsigned long &) { return -1; }
};
template <class T, class S> static void number(S &s, const char *p, int m, U low, U high) { // low: magnitude of the smallest number
  start(m, p); T v = 7; s >> v; bool minus = sign == '-';
  bool good = digits > 0 && !broken && (minus ? low > 0 : true);
  if (good && (huge || (minus ? mag > low : mag > high))) {
    __v_assert(s.fail() && s.errorStatus().flag() == OutOfRangeError && v == 7, "X01: a number out of the range of its type is refused, nothing is stored");
  } else if (good) {
    __v_assert(!s.fail(), "X01: a number within the range of its type is read");
    __v_assert(v == (minus ? (T)(0UL - mag) : (T)mag), "X01: the value read is the one that is written");
  } else __v_assert(s.fail() && v == 7, "X01: what is no number, or could not be read, is reported and nothing is stored");
  if (broken) __v_assert(s.errorStatus().flag() == ReadError, "X01: a failure of the device is reported as such");
}
template <class T, class S> static void hexNumber(S &s, const char *p, int m, U high) {
  start(m, p, MHex); T v = 7; s >> v; bool good = digits > 0 && !broken;
  if (good && (huge || mag > high)) __v_assert(s.fail() && s.errorStatus().flag() == OutOfRangeError && v == 7, "X01: a hexadecimal number out of the range of its type is refused, nothing is stored");
  else if (good) { __v_assert(!s.fail(), "X01: a hexadecimal number within the range of its type is read"); __v_assert(v == (T)mag, "X01: the hexadecimal value read is the one that is written"); }
  else __v_assert(s.fail() && v == 7, "X01: what is no number, or could not be read, is reported and nothing is stored");
  if (broken) __v_assert(s.errorStatus().flag() == ReadError, "X01: a failure of the device is reported as such");
}
// a number with decimals: what is accepted (its value is not compared)
template <class T, class S> static void decimalNumber(S &s, int m) {
  start(m, "", MFloat); T v = 7; s >> v; bool good = digits > 0 && !broken;
  if (good && ended && kind == 9) { } // "12." at the end of the input: either
  else if (good) __v_assert(!s.fail(), "X01: a number with decimals is read");
  else __v_assert(s.fail() && v == (T)7, "X01: what is no number, or could not be read, is reported and nothing is stored");
  if (broken) __v_assert(s.errorStatus().flag() == ReadError, "X01: a failure of the device is reported as such");
}
template <class S> static void readsWord(S &s, const char *p, int m) {
  start(m, p, MWord); std::string t; s >> t;
  if (broken || letters == 0) { __v_assert(s.fail() && s.errorStatus().flag() == ReadError, "X01: a failure of the device, or the end of the input, is reported as such"); return; }
  __v_assert(!s.fail() && t.size() == (U)letters, "X01: a word ends at the first blank or at the end of the input");
  for (int i = 0; i < letters; i++) __v_assert(t[(U)i] == word[i], "X01: a word is read letter by letter");
}
static bool wordIs(const char *p) { int i = 0; while (i < letters && p[i] != 0 && p[i] == word[i]) i++; return i == letters && p[i] == 0; }
template <class S> static void readsTruth(S &s, const char *p, int m) {
  start(m, p, MWord); bool was = __v_bool(), b = was; s >> b;
  if (broken || letters == 0) { __v_assert(s.fail() && b == was, "X01: a truth value that could not be read is reported and nothing is stored"); return; }
  bool yes = wordIs("true") || wordIs("TRUE") || wordIs("True"), no = wordIs("false") || wordIs("FALSE") || wordIs("False");
  if (yes || no) __v_assert(!s.fail() && b == yes, "X01: a truth value is read as it is written");
  else __v_assert(s.fail() && s.errorStatus().flag() == ConversionError && b == was, "X01: what is no truth value is refused and nothing is stored");
}
template <class S> static void readsChar(S &s) {
  bool raw = __v_bool(); if (raw) { s.enableRawCharReads(); } else if (__v_bool()) { s.enableRawCharReads(); s.disableRawCharReads(); }
  start(1, "", MWord); if (raw) phase = Raw; char c; s >> c;
  if (broken || ended) __v_assert(s.fail() && s.errorStatus().flag() == ReadError, "X01: a character that could not be read is reported");
  else { __v_assert(!s.fail() && letters == 1 && c == word[0], "X01: a character is read as it comes, blanks only when raw reads are enabled"); }
}
// nothing is read from a device that is not open
template <class T, class S> static void closed(S &s) {
#if !defined(NDEBUG) && !defined(V_NOEXC)
  start(1, ""); isOpen = false; T v = T(); ErrorFlag flag = NoError; bool thrown = false;
  try { s >> v; } catch (const StandardException &e) { thrown = true; flag = e.flag(); }
  __v_assert(thrown && flag == OpenError && !any, "X01: reading from a device that is not open is refused");
#endif
}
}
namespace ecl { template <> class is_source<drv::In> : public True {}; }
using namespace drv;
#define NUMBER(name, T, p, most, low, high) DRIVER(in_##name) { __v_precise(60); __v_unroll(60); __v_overflow(); TRY(TextStream<In> s; number<T>(s, p, most, low, high)) }
#define RANGE(name, T, p, low, high) NUMBER(name##_few, T, "", 3, low, high) NUMBER(name##_edge, T, p, sizeof(p) + (sizeof(T) < 8 ? 2 : 1), low, high)
NUMBER(uchar, unsigned char, "", 5, 0, 255)
NUMBER(short, short, "", 5, 32768, 32767)
RANGE(short, short, "32", 32768, 32767)
RANGE(ushort, unsigned short, "65", 0, 65535)
RANGE(int, int, "21474836", 2147483648UL, 2147483647)
RANGE(uint, unsigned int, "42949672", 0, 4294967295UL)
RANGE(long, long, "92233720368547758", 9223372036854775808UL, 9223372036854775807UL)
RANGE(llong, long long, "92233720368547758", 9223372036854775808UL, 9223372036854775807UL)
RANGE(ullong, unsigned long long, "184467440737095516", 0, 18446744073709551615UL)
RANGE(ulong, unsigned long, "184467440737095516", 0, 18446744073709551615UL)
#define HEXA(name, T, p, most, high) DRIVER(hex_##name) { __v_precise(60); __v_unroll(60); __v_overflow(); TRY(TextStream<In> s; hexNumber<T>(s, p, most, high)) }
HEXA(uchar, unsigned char, "", 3, 255)
HEXA(short, short, "", 3, 32767)
HEXA(short_edge, short, "7f", 5, 32767)
HEXA(ushort_edge, unsigned short, "ff", 5, 65535)
HEXA(int, int, "", 3, 2147483647)
HEXA(int_edge, int, "7fffff", 9, 2147483647)
HEXA(uint_edge, unsigned int, "ffffff", 9, 4294967295UL)
HEXA(long_edge, long, "7fffffffffffff", 17, 9223372036854775807UL)
HEXA(ulong_edge, unsigned long, "ffffffffffffff", 17, 18446744073709551615UL)
HEXA(ulong_high, unsigned long, "80000000000000", 17, 18446744073709551615UL)
DRIVER(decimals_float) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; decimalNumber<float>(s, 3)) }
DRIVER(decimals_double) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; decimalNumber<double>(s, 3)) }
DRIVER(word_any) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; readsWord(s, "", 4)) }
DRIVER(word_known) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; readsWord(s, "a\tbcdefg", 8)) }
DRIVER(truth_any) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; readsTruth(s, "", 3)) }
#define TRUTH(n, p, m) DRIVER(truth_##n) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; readsTruth(s, p, m)) }
TRUTH(true, "true", 5) TRUTH(false, "false", 6) TRUTH(upper_true, "TRUE", 5) TRUTH(upper_false, "FALSE", 6) TRUTH(title_true, "True", 5) TRUTH(title_false, "False", 6)
TRUTH(near_true, "tru", 4) TRUTH(near_false, "fals", 5) TRUTH(near_upper, "TRU", 4) TRUTH(mixed, "FaLSE", 6)
DRIVER(character) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; readsChar(s)) }
// each operation reports for itself: after a failure and after a success
#define AGAIN(n, ...) DRIVER(again_##n) { __v_precise(60); __v_unroll(60); TRY(TextStream<In> s; __VA_ARGS__) }
AGAIN(int, number<int>(s, "", 1, 2147483648UL, 2147483647); number<int>(s, "", 1, 2147483648UL, 2147483647))
AGAIN(uchar, number<unsigned char>(s, "25", 3, 0, 255); number<unsigned char>(s, "25", 3, 0, 255))
AGAIN(hex, hexNumber<short>(s, "7ff", 4, 32767); hexNumber<short>(s, "", 1, 32767))
AGAIN(word, number<int>(s, "", 1, 2147483648UL, 2147483647); readsWord(s, "ab", 2))
AGAIN(truth, readsTruth(s, "tru", 4); readsTruth(s, "true", 4))
AGAIN(char, readsTruth(s, "tru", 4); readsChar(s))
AGAIN(double, number<int>(s, "", 1, 2147483648UL, 2147483647); decimalNumber<double>(s, 1))
DRIVER(closed) { __v_precise(60); TRY(TextStream<In> s; switch (__v_range(0, 14)) {
  case 0: closed<char>(s); break; case 1: closed<unsigned char>(s); break; case 2: closed<short>(s); break; case 3: closed<unsigned short>(s); break; case 4: closed<int>(s); break; case 5: closed<unsigned int>(s); break;
  case 6: closed<long>(s); break; case 7: closed<unsigned long>(s); break; case 8: closed<long long>(s); break; case 9: closed<unsigned long long>(s); break; case 10: closed<float>(s); break; case 11: closed<double>(s); break;
  case 12: closed<bool>(s); break; default: closed<std::string>(s); }) }
