// The message text of an exception is irrelevant to the properties decided with this harness:
// only its flag is kept.  (The real constructors are analysed by their own harness.)
#include <ecl/exceptions/macros.hpp>
#pragma once
#include <ecl/exceptions/standard_exception.hpp>
namespace ecl {
StandardException::StandardException(const char *loc, ErrorFlag error) : Exception(loc), error_flag(error) {}
StandardException::StandardException(const char *loc, ErrorFlag error, const std::string &) : Exception(loc), error_flag(error) {}
StandardException::StandardException(const char *loc, const StandardException &e) : Exception(loc), error_flag(e.error_flag) {}
const char *StandardException::what() const throw() { return ""; }
}
#ifdef V_NOEXC
// the configuration without exceptions: exactly what ECL_DISABLE_EXCEPTIONS makes of these macros
#undef ecl_throw
#define ecl_throw(exception) ((void)0)
#undef ecl_try
#define ecl_try if(true)
#undef ecl_catch
#define ecl_catch(exception) else
#undef ecl_debug_throw
#define ecl_debug_throw(exception) ((void)0)
#undef ecl_debug_try
#define ecl_debug_try if(true)
#undef ecl_debug_catch
#define ecl_debug_catch(exception) else
#undef ecl_assert_throw
#define ecl_assert_throw(expression,exception) ((void)0)
#endif
