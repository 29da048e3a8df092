#ifndef VERIF_STUB_ECL_ERRORS_MACROS_HPP_
#define VERIF_STUB_ECL_ERRORS_MACROS_HPP_
#define VERIF_S2(x) #x
#define VERIF_S1(x) VERIF_S2(x)
#define LOC __FILE__ ":" VERIF_S1(__LINE__)
#endif
