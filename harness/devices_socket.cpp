#include "v.h"
#include "thin_exception.h"
#include <cstring>
#include <unistd.h>
#include "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"
#include "ecl_devices/src/lib/socket_client_pos.cpp"
#include "ecl_devices/src/lib/socket_server_pos.cpp"
using namespace ecl;
// best effort options, no operation rests on them
extern "C" int setsockopt(int fd, int, int, const void *, socklen_t) throw() { __v_assert(__v_fd_open(fd), "D01: sets an option on a descriptor that is not open"); return __v_bool() ? 0 : -1; }
namespace drv {
static char buf[16];
template <typename S> static void check_use(S &f, long n) {
  __v_assert((n >= 0) == (f.error() == NoError), "D02: error() agrees with the result of the operation");
  __v_assert(n < 0 || !__v_failed(), "D02: reports success although the system call failed");
}
static long opened(SocketClient &f) { return f.open("host", 5555); }
static long opened(SocketServer &f) { return f.open(5555); }
static void begin() { __v_reset_fail(); }
template <typename S> void common(S &f, long op) {
  if (op == 0) {
    __v_note("open()");
    bool was = f.open(); 
    bool r = opened(f);
    __v_assert(!r || was || !__v_failed(), "D02: open() reports success although an operating system call failed");
    __v_assert(r == (f.error() == NoError), "D02: error() agrees with the result of open()");
    __v_assert(r == f.open(), "D02: open() reports success exactly when the socket is open");
    __v_reach("open"); if (r) __v_reach("!D02: open() can succeed");
  } else if (op == 1) { __v_note("close()"); f.close(); __v_assert(!f.open(), "D02: still open after close()"); __v_reach("close"); }
  else if (op == 2) { __v_note("write(s,n)"); unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.write(buf, k); check_use(f, n); __v_reach("write_n"); if (n >= 0) __v_reach("!D02: write() can succeed"); }
  else if (op == 3) { __v_note("read(s,n)"); unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.read(buf, k); check_use(f, n); __v_reach("read_n"); if (n >= 0) __v_reach("!D02: read() can succeed"); }
  else if (op == 4) { __v_note("peek()"); unsigned long k = __v_ulong("n"); __v_assume(k <= 16); long n = f.peek(buf, k); check_use(f, n); __v_reach("peek"); if (n >= 0) __v_reach("!D02: peek() can succeed"); }
  else if (op == 5) { __v_note("remaining()"); long n = f.remaining(); __v_use(n); __v_assert(n < 0 || !__v_failed(), "D02: remaining() reports success although the system call failed"); __v_reach("remaining"); if (n >= 0) __v_reach("!D02: remaining() can succeed"); }
  else if (op == 6) { __v_note("read/write(c)"); char c = 0; long n = __v_bool() ? f.read(c) : f.write(c); check_use(f, n); __v_reach("chars"); }
}
void use(SocketClient &f, bool brief = false) {
  for (begin();; begin()) {
    long op = __v_range(0, 7); if (op == 7) break; __v_assume(!brief || op < 4);
    try { common(f, op); }
    catch (const StandardException &) {
      __v_note("  -> StandardException"); __v_reach("exception");
      if (op == 0) __v_assert(!f.open(), "D02: a failed open() leaves the socket marked open");
      else __v_assert(__v_failed(), "D02: throws although no system call failed");
    }
  }
}
void use(SocketServer &f, bool brief = false) {
  for (begin();; begin()) {
    long op = __v_range(0, 8); if (op == 7) break; __v_assume(!brief || op < 4 || op == 8);
    try {
      if (op == 8) {
        __v_note("listen()"); int r = f.listen(); __v_assert((r >= 0) == (f.error() == NoError), "D02: error() agrees with the result of listen()");
        __v_assert(r < 0 || __v_fd_open(r), "D02: listen() reports a connection that is not there");
        __v_reach("listen"); if (r >= 0) __v_reach("!D02: listen() can succeed");
      } else common(f, op);
    } catch (const StandardException &) {
      __v_note("  -> StandardException"); __v_reach("exception");
      if (op == 0) __v_assert(!f.open(), "D02: a failed open() leaves the socket marked open");
      else __v_assert(__v_failed(), "D02: throws although no system call failed");
    }
  }
}
}
DRIVER(client) {
  { SocketClient f; drv::use(f); }
  __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(client_raii) {
  try { SocketClient f("host", 1234);
#ifndef V_NOEXC
    __v_assert(f.open(), "D02: constructor succeeded but the socket is not open");
#endif
    drv::use(f, true); } catch (const StandardException &) { __v_reach("ctor_exception"); }
  __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(server) {
  { SocketServer f; drv::use(f); }
  __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(server_raii) {
  try { SocketServer f(1234);
#ifndef V_NOEXC
    __v_assert(f.open(), "D02: constructor succeeded but the socket is not open");
#endif
    drv::use(f, true); } catch (const StandardException &) { __v_reach("ctor_exception"); }
  __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open");
}
DRIVER(client_copies) { SocketClient *a = new SocketClient; if (__v_bool()) TRY(a->open("host", 1234)) v_copies(a); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
DRIVER(client_assigned) { SocketClient *a = new SocketClient, *b = new SocketClient; if (__v_bool()) TRY(a->open("host", 1234)) if (__v_bool()) TRY(b->open("host", 1234)) v_assigned(a, b); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
DRIVER(server_copies) { SocketServer *a = new SocketServer; if (__v_bool()) TRY(a->open(1234)) v_copies(a); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
DRIVER(server_assigned) { SocketServer *a = new SocketServer, *b = new SocketServer; if (__v_bool()) TRY(a->open(1234)) if (__v_bool()) TRY(b->open(1234)) v_assigned(a, b); __v_gc(); __v_assert(__v_open_handles() == 0, "D01: a descriptor is left open"); }
