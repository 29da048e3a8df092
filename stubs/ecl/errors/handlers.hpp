/* Stand-in for the external ecl_errors package. */
#ifndef VERIF_STUB_ECL_ERRORS_HANDLERS_HPP_
#define VERIF_STUB_ECL_ERRORS_HANDLERS_HPP_
namespace ecl {
enum ErrorFlag {
  NoError, UnknownError, DestructorError, CloseError, ConfigurationError, ConnectionError,
  ConnectionRefusedError, ConstructorError, ConversionError, MemoryError, OpenError, OutOfRangeError,
  OutOfResourcesError, ReadError, RaiiError, WriteError, NotInitialisedError, NotFoundError,
  NotSupportedError, InitialisationError, InvalidInputError, InvalidArgError, InvalidObjectError,
  InterruptedError, IsLockedError, PermissionsError, PosixError, SystemFailureError, TimeOutError,
  UsageError, BlockingError, BusyError, ArgNotSupportedError, SharedMemoryFailure
};
class Error {
public:
  Error(const ErrorFlag& flag = UnknownError) : error_flag(flag) {}
  virtual ~Error() {}
  virtual const char* what() const;
  const ErrorFlag& flag() const { return error_flag; }
  bool operator==(const Error& e) const { return error_flag == e.error_flag; }
  bool operator!=(const Error& e) const { return error_flag != e.error_flag; }
  bool operator==(const ErrorFlag& f) const { return error_flag == f; }
  bool operator!=(const ErrorFlag& f) const { return error_flag != f; }
protected:
  ErrorFlag error_flag;
};
inline const char* Error::what() const { return "error"; }
}
#endif
