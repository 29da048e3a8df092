#ifndef VERIF_STUB_CONFIG_ALL_HPP_
#define VERIF_STUB_CONFIG_ALL_HPP_
#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
#endif
