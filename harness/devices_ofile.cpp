#include "v.h"
#include "thin_exception.h"
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include "ecl_devices/src/lib/ofile_pos.cpp"
using namespace ecl;
namespace drv {
static char text[16];
void use(OFile &f) {
  for (;;) {
    long op = __v_range(0, 6);
    __v_reset_fail();
    try {
      if (op == 0) {
        __v_note("open()");
        bool r = f.open("log.txt", __v_bool() ? New : Append);
        __v_use((int)r);
        __v_assert(r == f.open(), "D02: open() reports success exactly when the file is open");
        __v_assert(!r || !__v_failed(), "D02: open() reports success although an operating system call failed");
        __v_assert(r == (f.error() == NoError), "D02: error() agrees with the result of open()");
        __v_reach("open"); if (r) __v_reach("!D02: open() can succeed");
      } else if (op == 1) {
        __v_note("close()");
        bool r = f.close();
        __v_assert(!r || !__v_failed(), "D02: close() reports success although an operating system call failed");
        __v_assert(r == (f.error() == NoError), "D02: error() agrees with the result of close()");
        __v_assert(!f.open(), "D02: file is still open after close()");
        __v_reach("close");
      } else if (op == 2) {
        __v_note("write()");
        long n = f.write('c');
        __v_assert((n >= 0) == (f.error() == NoError), "D02: error() agrees with the result of write()");
        __v_assert(n < 0 || !__v_failed(), "D02: write() reports success although an operating system call failed");
        __v_reach("write"); if (n >= 0) __v_reach("!D02: write() can succeed");
      } else if (op == 3) {
        __v_note("write(s,n)");
        unsigned long k = __v_ulong("n"); __v_assume(k > 0 && k <= 16);
        long n = f.write(text, k);
        __v_assert((n >= 0) == (f.error() == NoError), "D02: error() agrees with the result of write()");
        __v_assert(n < 0 || !__v_failed(), "D02: write() reports success although an operating system call failed");
        __v_reach("write_n");
      } else if (op == 4) {
        __v_note("flush()");
        bool r = f.flush();
        __v_assert(r == (f.error() == NoError), "D02: error() agrees with the result of flush()");
        __v_assert(!r || !__v_failed(), "D02: flush() reports success although an operating system call failed");
        __v_reach("flush");
      } else break;
    } catch (const StandardException &e) {
      __v_note("  -> StandardException");
      __v_reach("exception");
      if (op == 0) __v_assert(!f.open(), "D02: a failed open() leaves the file marked open");
      if (op == 1) __v_assert(!f.open(), "D02: file is still open after a failed close()");
    }
    __v_use(f.filename().size(), (int)f.error().flag());
  }
}
}
DRIVER(ofile) {
  { OFile f; drv::use(f); }
  __v_gc();
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(ofile_raii) {
  try { OFile f("log.txt", New); 
#ifndef V_NOEXC
    __v_assert(f.open(), "D02: constructor succeeded but the file is not open");
#endif
     drv::use(f); }
  catch (const StandardException &) { __v_reach("ctor_exception"); }
  __v_gc();
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(ofile_copies) { OFile *a = new OFile; if (__v_bool()) TRY(a->open("log.txt", New)) v_copies(a); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
DRIVER(ofile_assigned) { OFile *a = new OFile, *b = new OFile; if (__v_bool()) TRY(a->open("log.txt", New)) if (__v_bool()) TRY(b->open("log.txt", New)) v_assigned(a, b); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
