#ifndef VERIF_STUB_ECL_TL_CONFIG_HPP_
#define VERIF_STUB_ECL_TL_CONFIG_HPP_
#define ecl_time_lite_PUBLIC
#define ecl_time_lite_LOCAL
#endif
