// every error number through every pair of translation routines
#include "v.h"
#undef V_NOEXC // both ways are compared with each other here
#include "thin_exception.h"
#include <cstring>
#include <cerrno>
#include <netdb.h>
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"
#include <ecl/devices/detail/socket_error_handler_pos.hpp>
using namespace ecl; using namespace ecl::devices;
namespace drv {
static int en() { return (int)__v_range(1, 200); }
static void same(const Error &e, const StandardException &x, const char *) {
  __v_assert(e.flag() == x.flag(), "D03: the error code and the exception for one error number disagree");
  __v_assert(e.flag() != NoError, "D03: a system error is translated to no error");
  __v_reach("pair");
}
}
#define PAIR(name, err, exc) DRIVER(name) { __v_precise(60); int e = drv::en(); errno = e; Error a = err; errno = e; StandardException b = exc; drv::same(a, b, #name); }
PAIR(open, open_error(), open_exception("loc", "file"))
PAIR(close, close_error(), close_exception("loc", "file"))
PAIR(read, read_error(), read_exception("loc"))
PAIR(write, write_error(), write_exception("loc"))
PAIR(sync, sync_error(), sync_exception("loc", "file"))
PAIR(socket, socket_error(), socket_exception("loc"))
PAIR(bind, bind_error(), bind_exception("loc"))
PAIR(accept, accept_error(), accept_exception("loc"))
PAIR(receive, receive_error(), receive_exception("loc"))
PAIR(send, send_error(), send_exception("loc"))
PAIR(ioctl, ioctl_error(), ioctl_exception("loc"))
PAIR(connection, connection_error(), connection_exception("loc"))
DRIVER(gethostbyname) { __v_precise(60); int e = (int)__v_range(1, 10); h_errno = e; Error a = gethostbyname_error(); h_errno = e; StandardException b = gethostbyname_exception("loc", "host"); drv::same(a, b, "gethostbyname"); }
