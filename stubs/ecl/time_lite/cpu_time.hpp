#include "functions.hpp"
