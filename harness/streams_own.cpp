// Streams that open a device of their own, log streams and the text of time stamps. The devices are stand-ins: they have
// checks of their own.
#include "v.h"
#include "thin_exception.h"
#include "mini_map.h"
#define V_STRING_MAX 24
#include <cstdio>
#include <cstring>
#include <limits>
#include <time.h>
#include <ecl/time/timestamp.hpp>
#include <ecl/converters.hpp>
#include <ecl/devices/traits.hpp>
#include <ecl/devices/modes.hpp>
#include <ecl/devices/serial_parameters.hpp>
#include <ecl_time/src/lib/timestamp_base.cpp>
#include <ecl_time/src/lib/timestamp_pos.cpp>
#include "mini_string.h"
#define ECL_DEVICES_OFILE_HPP_
#define ECL_DEVICES_SHARED_FILE_HPP_
#define ECL_DEVICES_SERIAL_HPP_
#define ECL_DEVICES_SOCKET_HPP_
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/errors/handlers.hpp>
typedef unsigned long U;
namespace drv {
static char body[64]; static int len; static bool isOpen, failing; static int tried; static signed char alive, closes;
static const char *name; static int port, setting; static ecl::ErrorFlag why;
static void reset() { len = 0; body[0] = 0; isOpen = failing = false; tried = 0; alive = closes = 0; name = 0; port = setting = -1; why = ecl::NoError; }
static bool same(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
struct Device {
  ecl::Error err;
  Device() : err(ecl::NoError) { alive++; }
  ~Device() { alive--; if (isOpen) { isOpen = false; closes++; } }
  Device(const Device &) = delete; Device &operator=(const Device &) = delete;
  bool attempt() {
    tried++;
    if (__v_bool()) {
      failing = true; why = __v_bool() ? ecl::OpenError : __v_bool() ? ecl::NotFoundError : ecl::PermissionsError; err = why;
#ifndef V_NOEXC
      throw ecl::StandardException(LOC, why);
#endif
      return false;
    }
    isOpen = true; err = ecl::NoError; return true;
  }
  bool open() const { return isOpen; }
  const ecl::Error &error() const { return err; }
  long write(const char &c) { return write(&c, 1); }
  long write(const char *s, const U &n) { __v_assert(isOpen, "X01: nothing is sent to a device that is not open"); for (U i = 0; i < n && len < 62; i++) { body[len] = s[i]; len++; body[len] = 0; } return (long)n; }
  long read(char &) { return -1; } long read(char *, const U &) { return -1; }
  void flush() {}
};
static const char *literal(const std::string &s) { return s.c_str(); }
static U length(const char *s) { U n = 0; while (s[n] != 0) n++; return n; }
}
extern "C" size_t strlen(const char *s) { return drv::length(s); }
namespace ecl {
struct OFile : drv::Device { using drv::Device::open; bool open(const std::string &n, const WriteMode &m = New) { __v_assert(drv::same(n.c_str(), "file"), "X01: a stream opens the device it was asked for"); drv::setting = m; return attempt(); } };
struct SharedFile : drv::Device { using drv::Device::open; bool open(const std::string &n, WriteMode m = New) { __v_assert(drv::same(n.c_str(), "file"), "X01: a stream opens the device it was asked for"); drv::setting = m; return attempt(); } };
struct Serial : drv::Device { using drv::Device::open; bool open(const std::string &n, const BaudRate &b = BaudRate_115200, const DataBits &d = DataBits_8, const StopBits &s = StopBits_1, const Parity &p = NoParity) { __v_assert(drv::same(n.c_str(), "file"), "X01: a stream opens the device it was asked for"); drv::setting = ((b * 8 + d) * 4 + s) * 4 + p; return attempt(); } };
struct SocketClient : drv::Device { using drv::Device::open; bool open(const std::string &n, const unsigned int &p) { __v_assert(drv::same(n.c_str(), "file"), "X01: a stream opens the device it was asked for"); drv::port = (int)p; return attempt(); } };
struct SocketServer : drv::Device { using drv::Device::open; bool open(const unsigned int &p) { drv::port = (int)p; return attempt(); } };
template <> class is_sink<OFile> : public True {}; template <> class is_sink<SharedFile> : public True {}; template <> class is_sink<Serial> : public True {}; template <> class is_source<Serial> : public True {};
template <> class is_sink<SocketClient> : public True {}; template <> class is_source<SocketClient> : public True {}; template <> class is_sink<SocketServer> : public True {}; template <> class is_source<SocketServer> : public True {};
}
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/socket_streams.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl_streams/src/lib/log_stream.cpp>
using namespace ecl;
namespace drv {
// a stream that opens its device: what the device reports is passed on
template <class S, class F> static void opens(F make, int wantSetting, int wantPort) {
  bool thrown = false; ErrorFlag flag = NoError; S *s = 0;
  try { s = make(); } catch (const StandardException &e) { thrown = true; flag = e.flag(); }
  __v_assert(tried == 1, "X01: a stream constructed for a device opens it once");
  __v_assert(setting == wantSetting && port == wantPort, "X01: a stream opens the device with the settings it was given");
#ifdef V_NOEXC
  __v_assert(!thrown && s->fail() == failing && s->errorStatus().flag() == why, "X01: a stream that could not open its device reports why");
#else
  __v_assert(thrown == failing && flag == why, "X01: a stream that could not open its device reports why");
#endif
  if (s) { __v_assert(failing || (!s->fail() && s->device().open()), "X01: a stream that opened its device is ready"); delete s; }
  __v_assert(alive == 0 && !isOpen && closes == (failing ? 0 : 1), "X01: a stream releases its device");
}
template <class S> static void unopened() { S *s = new S; __v_assert(tried == 0 && !s->fail() && !s->device().open(), "X01: a default constructed stream opens nothing"); delete s; __v_assert(alive == 0, "X01: a stream releases its device"); }
static WriteMode someMode() { return __v_bool() ? New : Append; }
static BaudRate someBaud() { switch (__v_range(0, 2)) { case 0: return BaudRate_110; case 1: return BaudRate_9600; default: return BaudRate_115200; } }
static int serialSetting(int b, int d, int s, int p) { return ((b * 8 + d) * 4 + s) * 4 + p; }
}
using namespace drv;
#define OWN(n, S, make, set, prt) DRIVER(own_##n) { __v_precise(60); __v_reliable_malloc(); __v_exact(); TRY(reset(); WriteMode m = someMode(); int p = (int)__v_range(1, 65535); BaudRate b = someBaud(); DataBits d = __v_bool() ? DataBits_7 : DataBits_8; StopBits t = __v_bool() ? StopBits_1 : StopBits_2; Parity y = __v_bool() ? NoParity : EvenParity; opens<S>([=]() { (void)m; (void)p; (void)b; (void)d; (void)t; (void)y; return new S make; }, set, prt)) }
OWN(file, OFileStream, (std::string("file"), m), m, -1)
OWN(file_default, OFileStream, (std::string("file")), New, -1)
OWN(shared, SharedFileStream, (std::string("file"), m), m, -1)
OWN(shared_default, SharedFileStream, (std::string("file")), New, -1)
OWN(serial, SerialStream, (std::string("file"), b, d, t, y), serialSetting(b, d, t, y), -1)
OWN(serial_default, SerialStream, (std::string("file")), serialSetting(BaudRate_115200, DataBits_8, StopBits_1, NoParity), -1)
OWN(client, SocketClientStream, (std::string("file"), (unsigned)p), -1, p)
OWN(server, SocketServerStream, ((unsigned)p), -1, p)
OWN(log, LogStream, (std::string("file"), m), m, -1)
OWN(log_default, LogStream, (std::string("file")), New, -1)
DRIVER(own_unopened) { __v_precise(60); __v_reliable_malloc(); TRY(reset(); switch (__v_range(0, 5)) { case 0: unopened<OFileStream>(); break; case 1: unopened<SharedFileStream>(); break; case 2: unopened<SerialStream>(); break; case 3: unopened<SocketClientStream>(); break; case 4: unopened<SocketServerStream>(); break; default: unopened<LogStream>(); }) }
// ---- log streams
namespace drv {
static void says(const char *p) { __v_assert(same(body, p), "X01: a message is written to the log with the header of its mode"); }
static void clear() { len = 0; body[0] = 0; }
static LogStream *someLog() { LogStream *l; if (__v_bool()) { l = new LogStream; isOpen = true; } else { l = 0; try { l = new LogStream(std::string("file")); } catch (const StandardException &) { } if (!isOpen) { delete l; return 0; } } return l; }
}
DRIVER(log_modes) { __v_precise(60); __v_reliable_malloc(); __v_exact(); TRY(reset(); LogStream *l = someLog(); if (l) {
  l->disableTimeStamp(); int a = (int)__v_range(-2, 2), b = a + (int)__v_range(1, 3);
  __v_assert(!l->isEnabled() && !l->isModeEnabled(a), "X01: no mode is enabled at first");
  clear(); LOG((*l), a) << "x"; says("");
  l->enableMode(a, std::string("A")); __v_assert(l->isEnabled() && l->isModeEnabled(a) && !l->isModeEnabled(b), "X01: a mode is enabled when it was enabled last");
  clear(); LOG((*l), a) << "x"; says("[A] : x"); clear(); LOG((*l), b) << "x"; says("");
  if (__v_bool()) { l->enableMode(a, std::string("C")); clear(); LOG((*l), a) << "y"; says("[C] : y"); }
  l->enableMode(b, std::string("B")); clear(); LOG((*l), b) << "x"; says("[B] : x");
  if (__v_bool()) { l->disableHeader(); clear(); LOG((*l), b) << "x"; says("x"); l->enableHeader(); clear(); LOG((*l), b) << "z"; says("[B] : z"); }
  l->disableMode(a); __v_assert(l->isEnabled() && !l->isModeEnabled(a) && l->isModeEnabled(b), "X01: a mode is enabled when it was enabled last"); clear(); LOG((*l), a) << "x"; says("");
  l->disableMode(b); __v_assert(!l->isEnabled() && !l->isModeEnabled(b), "X01: a mode is enabled when it was enabled last");
  delete l; }) }
namespace drv {
static long secs, nanos;
static long someNanos() { switch (__v_range(0, 4)) { case 0: return 0; case 1: return __v_range(0, 199); case 2: return 10203000 + __v_range(0, 99); case 3: return 120000000; default: return 999999999; } }
static const char *stampText(const char *p) {
  U acc = 0; int n = 0; while (*p >= '0' && *p <= '9') { acc = acc * 10 + (U)(*p - '0'); p++; n++; } __v_assert(n > 0 && acc == (U)secs && *p == '.', "X01: a time stamp is written in seconds and nanoseconds"); p++;
  acc = 0; n = 0; while (*p >= '0' && *p <= '9') { acc = acc * 10 + (U)(*p - '0'); p++; n++; } __v_assert(n == 9 && acc == (U)nanos, "X01: a time stamp is written in seconds and nanoseconds");
  return p;
}
}
namespace ecl { TimeError epoch_time(TimeStructure &t) { t.tv_sec = drv::secs; t.tv_nsec = drv::nanos; return TimeError(NoError); } TimeError realtime_epoch_time(TimeStructure &t) { return epoch_time(t); } }
DRIVER(log_stamps) { __v_precise(60); __v_exact(); __v_unroll(60); __v_reliable_malloc(); TRY(reset(); secs = __v_bool() ? 0 : 1700000012; nanos = someNanos(); LogStream *l = new LogStream; isOpen = true;
  l->enableMode(1, std::string("A")); bool head = __v_bool(); if (!head) l->disableHeader(); if (__v_bool()) { l->disableTimeStamp(); l->enableTimeStamp(); }
  clear(); LOG((*l), 1) << "x"; const char *p = stampText(body); __v_assert(same(p, head ? " [A] : x" : " : x"), "X01: a message is written to the log with the time and the header of its mode"); delete l) }
