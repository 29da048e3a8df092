// Exceptions: what is thrown is what is caught, whatever they carry, however often they are copied or thrown on.
#include "v.h"
#include <cerrno>
#include <exception>
#include <ecl/errors/handlers.hpp>
#include <ecl/errors/macros.hpp>
#include <ecl/config/ecl.hpp>
#define V_STRING_MAX 220
#include "mini_string.h"
namespace drv {
static int live; // data objects in existence
struct Data { int value; Data *self; Data(int v) : value(v), self(this) { live++; } Data(const Data &o) : value(o.value), self(this) { __v_assert(o.self == &o, "USE_AFTER_RELEASE: data of an exception is used after it was destroyed"); live++; } ~Data() { __v_assert(self == this, "DOUBLE_RELEASE: data of an exception is destroyed twice"); self = 0; live--; } Data &operator=(const Data &o) { value = o.value; return *this; } };
struct Text { String t; String str() const { return t; } };
inline Text &operator<<(Text &s, const char *c) { s.t.append(c); return s; }
inline Text &operator<<(Text &s, char c) { s.t.push_back(c); return s; }
inline Text &operator<<(Text &s, const String &c) { s.t.append(c); return s; }
inline Text &operator<<(Text &s, const Data &) { s.t.append("<data>"); return s; }
inline Text &operator<<(Text &s, int) { s.t.append("<int>"); return s; }
}
namespace std { typedef drv::Text v_ostringstream; typedef drv::Text v_stringstream; }
#define ostringstream v_ostringstream
#define stringstream v_stringstream
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/exceptions/macros.hpp>
#include <ecl_exceptions/src/lib/standard_exception.cpp>
using namespace ecl;
namespace drv {
static bool has(const char *text, const char *part) { return String(text).find(String(part)) != String::npos; }
static bool ordered(const char *text, const char *a, const char *b) { String t(text); unsigned long i = t.find(String(a)); return i != String::npos && t.find(String(b), i + 1) != String::npos; }
static ErrorFlag flag() { switch (__v_range(0, 3)) { case 0: return NoError; case 1: return UnknownError; case 2: return OutOfRangeError; default: return (ErrorFlag)(UnknownError + 20); } }
static const char *detail(int k) { return k == 0 ? "" : k == 1 ? "why it failed" : "x"; }
static int some() { switch (__v_range(0, 2)) { case 0: return 0; case 1: return 1; default: return 2; } }
static void says(const char *text, const char *where, int d) {
  __v_assert(has(text, where), "E01: the text names the location"); __v_assert(has(text, "error"), "E01: the text names the flag");
  if (d) __v_assert(has(text, detail(d)), "E01: the text contains the message"); else __v_assert(!has(text, "Detail"), "E01: the text contains the message");
}
static void standard(const StandardException &e, ErrorFlag f, int d) { __v_assert(e.flag() == f, "E01: an exception keeps its flag"); __v_assert(e.message() == detail(d), "E01: an exception keeps its message"); }
static void raise(ErrorFlag f, int d) { if (d == 0 && __v_bool()) throw StandardException("first.place", f); throw StandardException("first.place", f, std::string(detail(d))); }
static void again(ErrorFlag f, int d, int n) { // thrown on n times
  if (n == 0) raise(f, d);
  try { again(f, d, n - 1); } catch (StandardException &e) { throw StandardException(n == 1 ? "second.place" : "third.place", e); }
}
static void dataIs(const DataException<Data> &e, ErrorFlag f, int v) { __v_assert(e.flag() == f, "E01: an exception keeps its flag"); __v_assert(e.data().value == v, "E01: an exception keeps its data"); }
static void raiseData(ErrorFlag f, int d, int v) { Data x(v); if (d == 0 && __v_bool()) throw DataException<Data>("first.place", f, x); throw DataException<Data>("first.place", f, std::string(detail(d)), x); }
static void againData(ErrorFlag f, int d, int v, int n) {
  if (n == 0) raiseData(f, d, v);
  try { againData(f, d, v, n - 1); } catch (DataException<Data> &e) { throw DataException<Data>(n == 1 ? "second.place" : "third.place", e); }
}
static void places(const char *t, int n) { if (n > 0) __v_assert(ordered(t, "second.place", "first.place"), "E01: an exception that is thrown on names all its locations, the latest first"); if (n > 1) __v_assert(ordered(t, "third.place", "second.place"), "E01: an exception that is thrown on names all its locations, the latest first"); }
}
using namespace drv;
#define SETUP __v_precise(40); __v_heads(400); __v_reliable_malloc();
DRIVER(standard_exceptions) { SETUP ErrorFlag f = flag(); int d = some(), n = some(); bool caught = false;
  try { again(f, d, n); } catch (const StandardException &e) { caught = true; standard(e, f, d); says(e.what(), "first.place", d); places(e.what(), n); }
  __v_assert(caught, "E01: what is thrown is caught"); }
DRIVER(standard_exceptions_base) { SETUP ErrorFlag f = flag(); int d = some(); bool caught = false;
  try { raise(f, d); } catch (const std::exception &e) { caught = true; says(e.what(), "first.place", d); } __v_assert(caught, "E01: what is thrown is caught");
  caught = false; try { again(f, d, 1); } catch (const Exception &e) { caught = true; says(e.what(), "second.place", d); } __v_assert(caught, "E01: what is thrown is caught"); }
DRIVER(standard_exceptions_copied) { SETUP ErrorFlag f = flag(); int d = some();
  StandardException *e = new StandardException("first.place", f, std::string(detail(d))); StandardException c(*e); StandardException r("second.place", *e);
  standard(*e, f, d); says(e->what(), "first.place", d); delete e;
  standard(c, f, d); says(c.what(), "first.place", d); standard(r, f, d); says(r.what(), "second.place", d); places(r.what(), 1);
  { StandardException k(c); standard(k, f, d); } standard(c, f, d); StandardException z("third.place", r); places(z.what(), 2); }
DRIVER(data_exceptions) { SETUP live = 0; ErrorFlag f = flag(); int d = some(), n = some(), v = __v_int("data"); bool caught = false;
  try { againData(f, d, v, n); } catch (const DataException<Data> &e) { caught = true; dataIs(e, f, v); says(e.what(), "first.place", d); __v_assert(has(e.what(), "<data>"), "E01: the text contains the data"); places(e.what(), n); }
  __v_assert(caught, "E01: what is thrown is caught"); __v_assert(live == 0, "E01: exceptions release the data they hold"); }
DRIVER(data_exceptions_copied) { SETUP live = 0; ErrorFlag f = flag(); int d = some(), v = __v_int("data");
  { Data x(v); DataException<Data> *e = new DataException<Data>("first.place", f, std::string(detail(d)), x); x.value = 3; DataException<Data> c(*e); DataException<Data> r("second.place", *e);
    dataIs(*e, f, v); delete e; dataIs(c, f, v); says(c.what(), "first.place", d); dataIs(r, f, v); says(r.what(), "second.place", d); places(r.what(), 1); { DataException<Data> k(c); dataIs(k, f, v); } dataIs(c, f, v); }
  __v_assert(live == 0, "E01: exceptions release the data they hold"); }
#define THROWN(x) ([&]() -> bool { try { x; } catch (const StandardException &e) { standard(e, OutOfRangeError, 1); return true; } return false; }())
DRIVER(macros) { SETUP int evaluated = 0; bool ok = __v_bool();
  __v_assert(THROWN(ecl_throw(StandardException("here", OutOfRangeError, detail(1)))), "E01: ecl_throw throws");
  bool a = THROWN(ecl_assert_throw(ok, StandardException("here", OutOfRangeError, detail(1)))), b = THROWN(ecl_debug_throw(StandardException("here", OutOfRangeError, detail(1))));
#ifdef NDEBUG
  __v_assert(!a && !b, "E01: the debug macros throw in debug mode only");
#else
  __v_assert(a == !ok && b, "E01: the debug macros throw in debug mode only");
#endif
  bool c = false; ecl_try { ecl_throw(StandardException("here", OutOfRangeError, detail(1))); } ecl_catch(const StandardException &e) { c = true; standard(e, OutOfRangeError, 1); } __v_assert(c, "E01: what is thrown is caught"); }
