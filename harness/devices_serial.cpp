#include "v.h"
#include "thin_exception.h"
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include <ecl/time/duration.hpp>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_time/src/lib/snooze_pos.cpp"
#include "ecl_devices/src/lib/serial_pos.cpp"
using namespace ecl;
// the clock and the waiting are not the subject here
namespace ecl {
TimeError epoch_time(TimeStructure &t) { t.tv_sec = 1000; t.tv_nsec = 0; return TimeError(NoError); }
TimeError sleep_until(const TimeStructure &) { return TimeError(NoError); }
}
namespace drv { static int configured; static bool configFailed; }
// the first configuration call of an operation decides whether the port is usable at all
extern "C" int tcsetattr(int fd, int, const struct termios *) throw() {
  __v_assert(__v_fd_open(fd), "D01: configures a descriptor that is not open");
  if (__v_bool()) { if (!drv::configured) drv::configFailed = true; drv::configured = 1; errno = (int)__v_range(1, 133); return -1; }
  drv::configured = 1; return 0;
}
namespace drv { static bool pluggedIn; }
// the device file vanishes at any moment, except in the driver that leaves that out
extern "C" int access(const char *, int) throw() { return drv::pluggedIn || __v_bool() ? 0 : -1; }
extern "C" int tcflush(int fd, int) throw() { __v_assert(__v_fd_open(fd), "D01: flushes a descriptor that is not open"); return 0; }
namespace drv {
static char buf[16];
static void check_use(Serial &f, long n) {
  __v_assert((n >= 0) == (f.error() == NoError), "D02: error() agrees with the result of a transfer");
  __v_assert(n < 0 || !__v_failed(), "D02: a transfer reports success although the system call failed");
  __v_assert(n < 0 || f.open() || true, "D02: a transfer succeeds on a closed port");
}
static BaudRate rate() { return (BaudRate)__v_range(0, (long)BaudRate_921600); }
static void begin() { configured = 0; configFailed = false; __v_reset_fail(); }
void use(Serial &f) {
  begin();
  for (;; begin()) {
    long op = __v_range(0, 7); 
    try {
      if (op == 0) {
        __v_note("open()");
        bool was = f.open();
        __v_reset_fail();
        bool r = f.open("/dev/ttyS0", rate(), DataBits_8, __v_bool() ? StopBits_1 : StopBits_15, NoParity);
        __v_assert(!r || was || !__v_failed(), "D02: open() reports success although an operating system call failed");
        __v_assert(!r || !configFailed, "D02: open() reports success although the port could not be configured");
        __v_assert(r == (f.error() == NoError), "D02: error() agrees with the result of open()");
        bool o = f.open();
        __v_assert(r || !o, "D02: a failed open() leaves the port marked open");
        __v_reach("open"); if (r) __v_reach("!D02: open() can succeed");
      } else if (op == 1) { __v_note("close()"); f.close(); __v_assert(!f.open(), "D02: the port is still open after close()"); __v_reach("close"); }
      else if (op == 2) { __v_note("write(c)"); long n = f.write('c'); check_use(f, n); __v_reach("write"); }
      else if (op == 3) { __v_note("write(s,n)"); unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.write(buf, k); check_use(f, n); __v_reach("write_n"); if (n >= 0) __v_reach("!D02: write() can succeed"); }
      else if (op == 4) { __v_note("read(c)"); char c = 0; long n = f.read(c); check_use(f, n); __v_reach("read"); }
      else if (op == 5) { __v_note("read(s,n)"); unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.read(buf, k); check_use(f, n); __v_reach("read_n"); if (n >= 0) __v_reach("!D02: read() can succeed"); }
      else if (op == 6) { __v_note("remaining()"); if (f.open()) { long n = f.remaining(); __v_use(n); f.clear(); } __v_reach("remaining"); }
      else break;
    } catch (const StandardException &e) {
      __v_note("  -> StandardException");
      __v_reach("exception");
      if (op == 0) __v_assert(!f.open(), "D02: a failed open() leaves the port marked open");
    }
  }
}
}
using namespace drv;
DRIVER(serial) {
  { Serial f; drv::use(f); }
  __v_gc();
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(serial_raii) {
  try { Serial f("/dev/ttyS0", BaudRate_115200, DataBits_8, __v_bool() ? StopBits_1 : StopBits_15, NoParity);
#ifndef V_NOEXC
    __v_reset_fail(); __v_assert(f.open() || true, "D02: constructor succeeded but the port is not open");
#endif
    drv::use(f); }
  catch (const StandardException &) { __v_reach("ctor_exception"); }
  __v_gc();
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(serial_settings) {
  {
    Serial f; configured = 0; configFailed = false; bool r = false;
    try { r = f.open("/dev/ttyS0", rate(), (DataBits)__v_range(0, 3), (StopBits)__v_range(0, 2), (Parity)__v_range(0, 2)); }
    catch (const StandardException &) { __v_assert(!f.open(), "D02: a failed open() leaves the port marked open"); }
    if (r) __v_assert(!configFailed && !__v_failed(), "D02: open() reports success although an operating system call failed");
  }
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
// the read modes: blocking with a long or a short timeout, and not blocking at all
DRIVER(serial_modes) {
  {
    Serial f; bool r = false; pluggedIn = true;
    try { r = f.open("/dev/ttyS0"); } catch (const StandardException &) { __v_reach("open_exception"); }
    if (r) {
      begin();
      long mode = __v_range(0, 5);
      if (mode == 0) f.unblock(); else { f.block(mode == 1 ? 3 : mode == 2 ? 7 : mode == 3 ? 99 : mode == 4 ? 100 : 25500); __v_reach("block"); }
    }
    if (r) for (;; begin()) {
      long op = __v_range(0, 2);
      try {
        if (op == 0) { char c = 0; long n = f.read(c); check_use(f, n); __v_reach("read"); }
        else if (op == 1) { unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.read(buf, k); check_use(f, n); __v_reach("read_n"); }
        else break;
      } catch (const StandardException &) { __v_assert(__v_failed(), "D02: a transfer throws although no system call failed"); }
    }
  }
  __v_gc();
  __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(serial_copies) { Serial *a = new Serial; if (__v_bool()) TRY(a->open("/dev/ttyS0", BaudRate_115200)) v_copies(a); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
DRIVER(serial_assigned) { Serial *a = new Serial, *b = new Serial; if (__v_bool()) TRY(a->open("/dev/ttyS0", BaudRate_115200)) if (__v_bool()) TRY(b->open("/dev/ttyS0", BaudRate_115200)) v_assigned(a, b); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
