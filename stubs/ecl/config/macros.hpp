/* Stand-in for the external ecl_config package. */
#ifndef VERIF_STUB_ECL_CONFIG_MACROS_HPP_
#define VERIF_STUB_ECL_CONFIG_MACROS_HPP_
#include "ecl.hpp"
#define ECL_HELPER_IMPORT
#define ECL_HELPER_EXPORT
#define ECL_HELPER_LOCAL
#define ECL_HELPERS_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_UNUSED __attribute__((unused))
#define ECL_DEPRECATED
#endif
