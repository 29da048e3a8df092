#ifndef VERIF_STUB_FS_CONFIG_HPP_
#define VERIF_STUB_FS_CONFIG_HPP_
#include <ecl/config/macros.hpp>
#define ECL_PRIVATE_HAS_POSIX_REALPATH 1
#endif
