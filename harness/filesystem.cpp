// Path resolution with every outcome of the system call.
#include "v.h"
#include "thin_exception.h"
#include <climits>
#include <cstdlib>
#include <cerrno>
#include <ecl/errors/handlers.hpp>
#include "mini_string.h"
#define ECL_PRIVATE_HAS_POSIX_REALPATH
#include <ecl_filesystem/src/lib/realpath.cpp>
using namespace ecl;
namespace drv { static const char *wanted; static int what, code, asked; 
static bool equal(const char *a, const char *b) { while (*a != 0 && *a == *b) { a++; b++; } return *a == *b; }
static void put(char *to, const char *s) { while ((*to++ = *s++)) {} } }
using namespace drv;
extern "C" char *realpath(const char *path, char *to) throw() {
  asked++; __v_assert(equal(path, wanted), "R01: the path that was given is resolved");
  switch (what) {
    case 0: { if (!to) { to = (char *)malloc(PATH_MAX); if (!to) { errno = ENOMEM; return 0; } } to[PATH_MAX - 1] = 0; put(to, "/a/bc"); return to; }
    case 1: { if (to) put(to, "/a/part"); errno = code; return 0; } // the part that could be resolved may be left in the buffer
    default: errno = code; return 0;
  }
}
namespace drv {
static ErrorFlag meaning(int e) { switch (e) { case EACCES: return PermissionsError; case EINVAL: return InvalidArgError; case EIO: return ReadError; case ELOOP: return InvalidObjectError; case ENAMETOOLONG: return InvalidArgError; case ENOENT: return NotFoundError; case ENOTDIR: return InvalidObjectError; default: return UnknownError; } }
static void resolve(const char *p) {
  asked = 0; wanted = p; what = (int)__v_range(0, 2); code = (int)__v_range(1, 133);
  bool preset = __v_bool(); std::string path(p), result(preset ? "before" : "");
  Error e = ecl::realpath(path, result);
  __v_assert(asked == 1, "R01: the system resolves the path");
  if (what == 0) { __v_assert(e.flag() == NoError && result == "/a/bc", "R01: the path the system produced is returned"); }
  else { __v_assert(e.flag() != NoError, "R01: a failure is reported"); __v_assert(e.flag() == meaning(code), "R01: a failure is reported as the error the system gave"); __v_assert(result == (preset ? "before" : ""), "R01: a failure leaves the result alone"); }
  __v_assert(path == p, "R01: the path that was given is not changed");
}
}
DRIVER(resolves) { __v_precise(40); TRY(resolve("../a/b")) }
DRIVER(resolves_twice) { __v_precise(40); TRY(resolve(""); resolve("b")) }
