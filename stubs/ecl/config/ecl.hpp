/* Stand-in for the external ecl_config package: only the platform switches ecl_core reads. */
#ifndef VERIF_STUB_ECL_CONFIG_HPP_
#define VERIF_STUB_ECL_CONFIG_HPP_
#ifndef ECL_IS_POSIX
#define ECL_IS_POSIX 1
#endif
#define ECL_HAS_POSIX_THREADS 1
#define ECL_HAS_POSIX_PRIORITY_SCHEDULING 1
#define ECL_HAS_POSIX_SHARED_MEMORY 1
#define ECL_HAS_SHARED_MEMORY 1
#define ECL_HAS_POSIX_SEMAPHORES 1
#define ECL_HAS_SEMAPHORES 1
#define ECL_HAS_POSIX_TIMERS 1
#define ECL_HAS_RT_TIMERS 1
#define ECL_HAS_CLOCK_GETTIME 1
#define ECL_HAS_CLOCK_NANOSLEEP 1
#define ECL_SIZE_OF_CHAR __SIZEOF_CHAR__STUB
#define __SIZEOF_CHAR__STUB 1
#define ECL_SIZE_OF_SHORT __SIZEOF_SHORT__
#define ECL_SIZE_OF_INT __SIZEOF_INT__
#define ECL_SIZE_OF_LONG __SIZEOF_LONG__
#define ECL_SIZE_OF_LONG_LONG __SIZEOF_LONG_LONG__
#define ECL_SIZE_OF_FLOAT __SIZEOF_FLOAT__
#define ECL_SIZE_OF_DOUBLE __SIZEOF_DOUBLE__
#define ECL_SIZE_OF_LONG_DOUBLE __SIZEOF_LONG_DOUBLE__
#define ECL_IS_LITTLE_ENDIAN 1
#define ECL_CHAR_IS_SIGNED 1
#include "macros.hpp"
#endif
