#include "v.h"
#include "thin_exception.h"
#include <cstdio>
#include "ecl_devices/src/lib/detail/character_buffer.cpp"
#include "ecl_devices/src/lib/string.cpp"
#include "ecl_devices/src/lib/console.cpp"
using namespace ecl;
static char in[64], out[64];
namespace drv {
static unsigned long len() { unsigned long k = __v_ulong("n"); __v_assume(k <= 64); return k; }
static void step(String &s, long op) {
  unsigned long w = s.size(), rem = s.remaining();
  if (op == 0) {
    long n = s.write('c');
    __v_assert(n == 1, "D05: a string device accepts every character");
    __v_assert(s.size() - w == 1, "D05: the size of a string device is the number of characters written");
    __v_assert(s.remaining() - rem == 1, "D05: a written character can be read");
    __v_reach("String::write(c)");
  } else if (op == 1) {
    unsigned long k = len();
    long n = s.write(in, k);
    __v_assert((unsigned long)n == k, "D05: a string device accepts every character");
    __v_assert(s.size() - w == k, "D05: the size of a string device is the number of characters written");
    __v_assert(s.remaining() - rem == k, "D05: written characters can be read");
    __v_reach("String::write(s,n)");
  } else if (op == 2) {
    char c; long n = s.read(c);
    __v_assert(n == (rem > 0 ? 1 : 0), "D05: read() delivers a character exactly if there is one left");
    __v_assert(rem - s.remaining() == (unsigned long)n, "D05: read() consumes what it delivers");
    __v_assert(s.size() == w, "D05: reading does not change the size");
    __v_reach("String::read(c)");
  } else if (op == 3) {
    unsigned long k = len();
    long n = s.read(out, k);
    if (rem < k) __v_assert((unsigned long)n == rem, "D05: read() delivers what is left"); else __v_assert((unsigned long)n == k, "D05: read() delivers as much as was asked for");
    __v_assert(rem - s.remaining() == (unsigned long)n, "D05: read() consumes what it delivers");
    __v_assert(s.size() == w, "D05: reading does not change the size");
    __v_reach("String::read(s,n)");
  } else if (op == 4) {
    s.clear();
    __v_assert(s.size() == 0, "D05: nothing is left after clear()");
    __v_assert(s.remaining() == 0, "D05: nothing is left to read after clear()");
    __v_reach("String::clear");
  } else if (op == 5) {
    const char *c = s.c_str();
    __v_use((int)c[0]);
    __v_reach("String::c_str");
  } else if (op == 6) {
    __v_use(s.str().size());
  }
}
}
DRIVER(string_memory) {
  __v_heads(-2);
  for (;;) {
    String s;
    for (;;) { long op = __v_range(0, 7); if (op == 7) break; drv::step(s, op); }
    break;
  }
  __v_gc();
}
DRIVER(string_memory_init) {
  { String s("hello"); drv::step(s, __v_range(0, 6)); drv::step(s, __v_range(0, 6)); }
  __v_gc();
}
DRIVER(string_copies) {
  __v_heads(-2);
  {
    String s("abc"), t;
    for (;;) {
      long op = __v_range(0, 6);
      unsigned long w = s.size(), r = s.remaining();
      if (op == 0) { s.write(in, drv::len()); }
      else if (op == 1) { t = s; __v_assert(t.size() == w && t.remaining() == r && s.size() == w && s.remaining() == r, "D05: an assigned string device has the contents of its source"); }
      else if (op == 2) { s = t; }
      else if (op == 3) { String u(s); __v_assert(u.size() == w && u.remaining() == r, "D05: a copied string device has the contents of its source"); u.write('x'); u.clear(); __v_assert(s.size() == w && s.remaining() == r, "D05: a copy of a string device shares nothing with its source"); }
      else if (op == 4) { String &q = s; s = q; __v_assert(s.size() == w, "D05: self-assignment keeps the contents"); }
      else if (op == 5) { t.clear(); t.write('y'); }
      else break;
    }
  }
  __v_gc();
}
namespace drv {
static char sh[8]; static signed char sw, sr;
static void contents(String &s, signed char w0) {
  sr = 0; sw = w0;
  for (;;) {
    long op = __v_range(0, 5);
    __v_assert(s.size() == (unsigned long)sw && s.remaining() == (unsigned long)(sw - sr), "D05: size() and remaining() of a string device count what was written and read");
    if (op == 0) { if (sw >= 5) continue; char c = __v_char("c"); s.write(c); sh[(int)sw++] = c; }
    else if (op == 1) { if (sw >= 5) continue; char b[2] = {__v_char("b0"), __v_char("b1")}; s.write(b, 2); sh[(int)sw++] = b[0]; sh[(int)sw++] = b[1]; }
    else if (op == 2) { char c = 0; long n = s.read(c); if (sr < sw) { __v_assert(n == 1 && c == sh[(int)sr], "D05: read() delivers the characters in the order they were written"); sr++; } else __v_assert(n == 0, "D05: read() invents nothing past the end"); }
    else if (op == 3) { char b[3] = {0, 0, 0}; long n = s.read(b, 3); int have = sw - sr; if (have > 3) have = 3; __v_assert(n == have, "D05: read() delivers what is left"); for (int i = 0; i < have; ++i) __v_assert(b[i] == sh[(int)sr++], "D05: read() delivers the characters in the order they were written"); }
    else if (op == 4) { const char *c = s.c_str(); for (signed char i = 0; i < sw; ++i) __v_assert(c[(int)i] == sh[(int)i], "D05: c_str() shows what was written"); __v_assert(c[(int)sw] == 0, "D05: c_str() is terminated"); __v_reach("contents"); }
    else break;
  }
}
}
DRIVER(string_contents) { __v_heads(40); { String s; drv::contents(s, 0); } __v_gc(); }
DRIVER(string_contents_cleared) { __v_heads(2); { String s("xyz"); s.clear(); drv::contents(s, 0); } __v_gc(); }
DRIVER(string_contents_init) { __v_heads(2); { drv::sh[0] = 'a'; drv::sh[1] = 'b'; String s("ab"); drv::contents(s, 2); } __v_gc(); }
DRIVER(char_buffer) {
  __v_heads(-2);
  devices::CharBuffer b;
  for (;;) {
    long op = __v_range(0, 3); unsigned long f = b.size(), rem = b.remaining();
    __v_assert(f + rem == devices::CharBuffer::buffer_size, "D05: size and space of a character buffer add up to its capacity");
    __v_assert(b.full() == (rem == 0), "D05: a character buffer is full exactly when no space remains");
    if (op == 0) { long n = b.append('c'); __v_assert(n == (rem ? 1 : 0) && b.size() == f + (unsigned long)n, "D05: append() takes a character exactly if there is space"); }
    else if (op == 1) { unsigned long k = drv::len(); long n = b.append(in, k); if (k <= rem) __v_assert((unsigned long)n == k, "D05: append() takes what fits"); else __v_assert((unsigned long)n == rem, "D05: append() takes what fits"); __v_assert(b.size() == f + (unsigned long)n, "D05: append() counts what it takes"); __v_reach("CharBuffer::append"); }
    else if (op == 2) { b.clear(); __v_assert(b.size() == 0, "D05: clear() empties the character buffer"); }
    else break;
  }
}
DRIVER(char_string_buffer) {
  __v_heads(-2);
  devices::CharStringBuffer b;
  for (;;) {
    long op = __v_range(0, 4); unsigned long rem = b.remaining();
    __v_assert(b.full() == (rem == 0), "D05: a character buffer is full exactly when no space remains");
    if (op == 0) { long n = b.append('c'); __v_assert(n == (rem ? 1 : 0) && b.remaining() == rem - (unsigned long)n, "D05: append() takes a character exactly if there is space"); }
    else if (op == 1) { unsigned long k = drv::len(); long n = b.append(in, k); if (k <= rem) __v_assert((unsigned long)n == k, "D05: append() takes what fits"); else __v_assert((unsigned long)n == rem, "D05: append() takes what fits"); __v_assert(b.remaining() == rem - (unsigned long)n, "D05: append() counts what it takes"); __v_reach("CharStringBuffer::append"); }
    else if (op == 2) { b.clear(); __v_assert(b.remaining() == devices::CharStringBuffer::buffer_size, "D05: clear() empties the character buffer"); }
    else if (op == 3) { __v_use((int)b.c_str()[0]); }
    else break;
  }
}
DRIVER(oconsole) {
  __v_heads(-2);
  OConsole c;
  for (;;) {
    long op = __v_range(0, 3);
    try {
      if (op == 0) c.write('x'); else if (op == 1) { c.write(in, drv::len()); __v_reach("OConsole::write"); } else if (op == 2) c.flush(); else break;
    } catch (const StandardException &) {}
  }
}
DRIVER(econsole) {
  __v_heads(-2);
  EConsole c;
  for (;;) {
    long op = __v_range(0, 3);
    try {
      if (op == 0) c.write('x'); else if (op == 1) { c.write(in, drv::len()); __v_reach("EConsole::write"); } else if (op == 2) c.flush(); else break;
    } catch (const StandardException &) {}
  }
}
static int got;
extern "C" int fgetc(FILE *) { got = __v_bool() ? -1 : (int)__v_range(0, 255); return got; }
extern "C" int getc(FILE *f) { return fgetc(f); }
DRIVER(iconsole) {
  IConsole c;
  try { char x = 0; long n = c.read(x); __v_assert((n == 1) == (got >= 0), "D05: a console read succeeds exactly if a character was there"); if (n == 1) __v_assert(x == (char)got, "D05: a console read delivers the character that was typed"); __v_reach("IConsole::read"); } catch (const StandardException &) { __v_assert(got < 0, "D05: a console read succeeds exactly if a character was there"); }
  try { unsigned long k = drv::len(); __v_assume(k > 0); long n = c.read(out, k); __v_assert(n >= 0 && (unsigned long)n < k + 1, "D05: a console read stays inside the buffer"); } catch (const StandardException &) {}
}
