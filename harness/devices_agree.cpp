// every operation with its system call failing with every error number: what is reported must be the
// translation of the number of the call that failed, in both configurations
#include "v.h"
#include "thin_exception.h"
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <cstdarg>
#include <netdb.h>
#include <unistd.h>
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"
#include "ecl_devices/src/lib/ofile_pos.cpp"
#include <ecl/time/duration.hpp>
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_time/src/lib/snooze_pos.cpp"
#include "ecl_devices/src/lib/serial_pos.cpp"
#include "ecl_devices/src/lib/socket_client_pos.cpp"
#include "ecl_devices/src/lib/socket_server_pos.cpp"
using namespace ecl;
namespace ecl {
TimeError epoch_time(TimeStructure &t) { t.tv_sec = 1000; t.tv_nsec = 0; return TimeError(NoError); }
TimeError sleep_until(const TimeStructure &) { return TimeError(NoError); }
}
namespace drv {
enum Call { NONE, OPEN, FDOPEN, FCLOSE, READ, WRITE, SOCKET, BIND, LISTEN, ACCEPT, RECV, SEND, IOCTL, CONNECT, HOST };
static Call failing; static int err;
static bool fails(Call c) { if (c != failing) { errno = (int)__v_range(1, 133); return false; } errno = err; return true; } // a call that succeeds may leave anything in errno
static char stream[8]; static struct in_addr in; static char *addrs[2] = {(char *)&in, 0}; static struct hostent host = {0, 0, 2, 4, addrs};
}
using namespace drv;
extern "C" {
int open(const char *, int, ...) { return fails(OPEN) ? -1 : 5; }
FILE *fdopen(int, const char *) throw() { return fails(FDOPEN) ? 0 : (FILE *)stream; }
int fclose(FILE *) { return fails(FCLOSE) ? -1 : 0; }
int close(int) { fails(NONE); errno = (int)__v_range(1, 133); return __v_bool() ? 0 : -1; }
ssize_t read(int, void *, size_t n) { return fails(READ) ? -1 : (ssize_t)n; }
ssize_t write(int, const void *, size_t n) { return fails(WRITE) ? -1 : (ssize_t)n; }
int socket(int, int, int) throw() { return fails(SOCKET) ? -1 : 6; }
int bind(int, const struct sockaddr *, socklen_t) throw() { return fails(BIND) ? -1 : 0; }
int listen(int, int) throw() { return fails(LISTEN) ? -1 : 0; }
int accept(int, struct sockaddr *, socklen_t *) { return fails(ACCEPT) ? -1 : 7; }
int setsockopt(int, int, int, const void *, socklen_t) throw() { return 0; }
int connect(int, const struct sockaddr *, socklen_t) { return fails(CONNECT) ? -1 : 0; }
ssize_t recv(int, void *, size_t n, int) { return fails(RECV) ? -1 : (ssize_t)n; }
ssize_t send(int, const void *, size_t n, int) { return fails(SEND) ? -1 : (ssize_t)n; }
int ioctl(int, unsigned long, ...) throw() { return fails(IOCTL) ? -1 : 0; }
struct hostent *gethostbyname(const char *) { if (failing != HOST) return &host; h_errno = err; return 0; }
int fcntl(int, int, ...) { return 0; }
int tcsetattr(int, int, const struct termios *) throw() { return 0; }
int tcflush(int, int) throw() { return 0; }
int access(const char *, int) throw() { return 0; }
}
namespace drv {
static char buf[8];
static int number(Call c) { int e = (int)__v_range(1, c == HOST ? 10 : 133); err = e; failing = c; return e; }
// exclude the numbers an operation documents as the other end having hung up
template <typename Dev> static void judge(Dev &f, bool threw, const ErrorFlag &thrown, bool ok, const Error &expected, bool hungup = false) {
  failing = NONE;
  __v_assert(!ok, "D02: reports success although the system call failed");
  if (hungup) { __v_reach("hungup"); return; }
  if (threw) __v_assert(thrown == expected.flag(), "D03: the exception of a failed operation does not carry the error of the system call that failed");
  else __v_assert(f.error().flag() == expected.flag(), "D03: error() after a failed operation is not the error of the system call that failed");
  __v_reach("judged");
}
}
#define OP(name, DEV, setup, call, op, table, special) \
  DRIVER(name) { __v_precise(60); failing = NONE; DEV f; setup; int e = number(call); bool ok = false, threw = false; ErrorFlag flag = NoError; \
    try { ok = (op); } catch (const StandardException &x) { threw = true; flag = x.flag(); } \
    errno = e; h_errno = e; judge(f, threw, flag, ok, table, special); }
OP(ofile_open, OFile, (void)0, OPEN, f.open("log", New), devices::open_error(), false)
OP(ofile_open_append, OFile, (void)0, OPEN, f.open("log", Append), devices::open_error(), false)
OP(ofile_fdopen, OFile, (void)0, FDOPEN, f.open("log", New), devices::open_error(), false)
OP(ofile_fdopen_append, OFile, (void)0, FDOPEN, f.open("log", Append), devices::open_error(), false)
OP(ofile_close, OFile, f.open("log", New), FCLOSE, f.close(), devices::close_error(), false)
OP(serial_open, Serial, (void)0, OPEN, f.open("/dev/ttyS0"), devices::open_error(), false)
OP(serial_write, Serial, TRY(f.open("/dev/ttyS0")); __v_assume(f.open()), WRITE, f.write('c') >= 0, devices::write_error(), false)
OP(serial_write_n, Serial, TRY(f.open("/dev/ttyS0")); __v_assume(f.open()), WRITE, f.write(buf, 8) >= 0, devices::write_error(), false)
OP(serial_read, Serial, TRY(f.open("/dev/ttyS0")); __v_assume(f.open()), READ, f.read(buf[0]) >= 0, devices::read_error(), false)
OP(serial_read_n, Serial, TRY(f.open("/dev/ttyS0")); __v_assume(f.open()), READ, f.read(buf, 8) >= 0, devices::read_error(), false)
OP(client_socket, SocketClient, (void)0, SOCKET, f.open("host", 1), devices::socket_error(), false)
OP(client_host, SocketClient, (void)0, HOST, f.open("host", 1), devices::gethostbyname_error(), false)
OP(client_connect, SocketClient, (void)0, CONNECT, f.open("host", 1), devices::connection_error(), false)
OP(client_read, SocketClient, f.open("host", 1), RECV, f.read(buf, 8) >= 0, devices::receive_error(), e == ECONNRESET)
OP(client_peek, SocketClient, f.open("host", 1), RECV, f.peek(buf, 8) >= 0, devices::receive_error(), false)
OP(client_write, SocketClient, f.open("host", 1), SEND, f.write(buf, 8) >= 0, devices::send_error(), e == EPIPE)
OP(client_remaining, SocketClient, f.open("host", 1), IOCTL, f.remaining() >= 0, devices::ioctl_error(), false)
OP(server_socket, SocketServer, (void)0, SOCKET, f.open(1), devices::socket_error(), false)
OP(server_bind, SocketServer, (void)0, BIND, f.open(1), devices::bind_error(), false)
OP(server_listen, SocketServer, f.open(1), LISTEN, f.listen() >= 0, devices::bind_error(), false)
OP(server_accept, SocketServer, f.open(1), ACCEPT, f.listen() >= 0, devices::accept_error(), false)
#define CONNECTED f.open(1); f.listen()
OP(server_read, SocketServer, CONNECTED, RECV, f.read(buf, 8) >= 0, devices::receive_error(), false)
OP(server_peek, SocketServer, CONNECTED, RECV, f.peek(buf, 8) >= 0, devices::receive_error(), false)
OP(server_write, SocketServer, CONNECTED, SEND, f.write(buf, 8) >= 0, devices::send_error(), e == EPIPE)
OP(server_remaining, SocketServer, CONNECTED, IOCTL, f.remaining() >= 0, devices::ioctl_error(), false)
