#ifndef VERIF_STUB_ECL_CTA_HPP_
#define VERIF_STUB_ECL_CTA_HPP_
#define ecl_compile_time_assert(x) static_assert((x), "ecl_compile_time_assert")
#endif
