#include "time_lite/config.hpp"
#include "time_lite/types.hpp"
#include "time_lite/functions.hpp"
