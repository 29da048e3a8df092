#ifndef VERIF_STUB_ERRORS_ALL_HPP_
#define VERIF_STUB_ERRORS_ALL_HPP_
#include "errors/handlers.hpp"
#include "errors/macros.hpp"
#include "errors/compile_time_assert.hpp"
#endif
