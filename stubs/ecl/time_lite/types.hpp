/* Stand-in for the external ecl_time_lite package. */
#ifndef VERIF_STUB_ECL_TL_TYPES_HPP_
#define VERIF_STUB_ECL_TL_TYPES_HPP_
#include <time.h>
namespace ecl { typedef struct timespec TimeStructure; }
#endif
