/* Stand-in for the external ecl_config package. */
#ifndef VERIF_STUB_ECL_PORTABLE_TYPES_HPP_
#define VERIF_STUB_ECL_PORTABLE_TYPES_HPP_
#include "ecl.hpp"
namespace ecl {
typedef signed char int8; typedef unsigned char uint8;
typedef short int16; typedef unsigned short uint16;
typedef int int32; typedef unsigned int uint32;
typedef long long int64; typedef unsigned long long uint64;
typedef float float32; typedef double float64;
}
#endif
