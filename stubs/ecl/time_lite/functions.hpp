#ifndef VERIF_STUB_ECL_TL_FUNCTIONS_HPP_
#define VERIF_STUB_ECL_TL_FUNCTIONS_HPP_
#include "../errors/handlers.hpp"
#include "types.hpp"
namespace ecl {
class TimeError : public Error {
public:
  TimeError(const ErrorFlag& flag = UnknownError) : Error(flag) {}
  virtual ~TimeError() {}
};
TimeError epoch_time(TimeStructure &time);
TimeError realtime_epoch_time(TimeStructure &time);
TimeError cpu_time(TimeStructure &time);
TimeError sleep(const TimeStructure &required);
TimeError sleep_until(const TimeStructure &until);
}
#endif
