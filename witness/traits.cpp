//# prelude
#include <type_traits>
#include <limits>
#include <cfloat>
#include <ecl/type_traits/fundamental_types.hpp>
#include <ecl/type_traits/numeric_limits.hpp>
#include <ecl/mpl.hpp>
#include <ecl_type_traits/src/lib/numeric_limits.cpp>
namespace w {
struct Class { int x; }; union Union { int x; }; enum Enum { e }; enum class Scoped : int { e };
struct None {};
template <class T> std::true_type hasType(typename T::type *); template <class T> std::false_type hasType(...);
template <class T, bool> struct TypeOf { typedef None type; }; template <class T> struct TypeOf<T, true> { typedef typename T::type type; };
template <class T> struct MemberType : TypeOf<T, decltype(hasType<T>(0))::value> {};
template <class T> struct isChar : std::integral_constant<bool, std::is_same<T, char>::value || std::is_same<T, signed char>::value || std::is_same<T, unsigned char>::value> {};
template <class T> constexpr bool counted() { return !std::is_same<T, bool>::value && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value; }
#define SAY(T, cond, what) static_assert(cond, "Y01: " what " of " #T)
#define TRAITS(T) \
  SAY(T, (ecl::is_integral<T>::value == std::is_integral<T>::value), "is_integral"); \
  SAY(T, (ecl::is_signed<T>::value == (std::is_signed<T>::value && std::is_integral<T>::value)), "is_signed"); \
  SAY(T, (ecl::is_unsigned<T>::value == (std::is_unsigned<T>::value && std::is_integral<T>::value)), "is_unsigned"); \
  SAY(T, (ecl::is_float<T>::value == std::is_floating_point<T>::value), "is_float"); \
  SAY(T, (ecl::is_byte<T>::value == isChar<T>::value), "is_byte"); \
  SAY(T, (ecl::is_signed_byte<T>::value == (isChar<T>::value && std::is_signed<T>::value)), "is_signed_byte"); \
  SAY(T, (ecl::is_unsigned_byte<T>::value == (isChar<T>::value && std::is_unsigned<T>::value)), "is_unsigned_byte");
#define INTEGER(T) TRAITS(T) \
  SAY(T, (std::is_same<typename MemberType<ecl::Unsigned<T> >::type, typename std::make_unsigned<T>::type>::value), "the unsigned counterpart"); \
  SAY(T, (ecl::numeric_limits<T>::bits == 8 * sizeof(T)), "the number of bits"); SAY(T, (ecl::numeric_limits<T>::bytes == sizeof(T)), "the number of bytes"); \
  SAY(T, (ecl::numeric_limits<T>::minimum == std::numeric_limits<T>::min()), "the minimum"); SAY(T, (ecl::numeric_limits<T>::maximum == std::numeric_limits<T>::max()), "the maximum"); \
  SAY(T, (std::is_same<decltype(ecl::numeric_limits<T>::minimum), const T>::value), "the type of the minimum"); SAY(T, (std::is_same<decltype(ecl::numeric_limits<T>::maximum), const T>::value), "the type of the maximum"); \
  SAY(T, (ecl::numeric_limits<T>::one == static_cast<T>(1)), "one"); SAY(T, (std::is_same<decltype(ecl::numeric_limits<T>::one), const T>::value), "the type of one"); \
  STANDARD(T)
#define STANDARD(T) \
  SAY(T, (ecl::numeric_limits<T>::is_specialized && ecl::numeric_limits<T>::is_signed == std::numeric_limits<T>::is_signed && ecl::numeric_limits<T>::is_integer == std::numeric_limits<T>::is_integer && ecl::numeric_limits<T>::is_exact == std::numeric_limits<T>::is_exact), "the standard's classification"); \
  SAY(T, (ecl::numeric_limits<T>::digits == std::numeric_limits<T>::digits && ecl::numeric_limits<T>::digits10 == std::numeric_limits<T>::digits10 && ecl::numeric_limits<T>::radix == std::numeric_limits<T>::radix && ecl::numeric_limits<T>::max_exponent == std::numeric_limits<T>::max_exponent && ecl::numeric_limits<T>::min_exponent == std::numeric_limits<T>::min_exponent), "the standard's digits"); \
  SAY(T, (ecl::numeric_limits<T>::min() == std::numeric_limits<T>::min() && ecl::numeric_limits<T>::max() == std::numeric_limits<T>::max() && ecl::numeric_limits<T>::lowest() == std::numeric_limits<T>::lowest() && ecl::numeric_limits<T>::epsilon() == std::numeric_limits<T>::epsilon()), "the standard's bounds"); \
  SAY(T, (std::is_base_of<std::numeric_limits<T>, ecl::numeric_limits<T> >::value), "the standard's numeric_limits as a base");
#define FLOATING(T) TRAITS(T) STANDARD(T) \
  SAY(T, (ecl::numeric_limits<T>::bits == 8 * sizeof(T)), "the number of bits"); SAY(T, (ecl::numeric_limits<T>::bytes == sizeof(T)), "the number of bytes"); \
  SAY(T, (std::is_same<decltype(ecl::numeric_limits<T>::minimum), const T>::value), "the type of the minimum"); SAY(T, (std::is_same<decltype(ecl::numeric_limits<T>::maximum), const T>::value), "the type of the maximum"); \
  SAY(T, (std::is_same<typename ecl::numeric_limits<T>::Precision, T>::value), "the precision type");
#ifdef __clang__ // constants of floating types are initialised in a source file: clang can tell what they are
#define KNOWN(T, c, cond, what) SAY(T, (__builtin_constant_p(ecl::numeric_limits<T>::c) ? (cond) : true), what);
#define VALUES(T) KNOWN(T, minimum, ecl::numeric_limits<T>::minimum == std::numeric_limits<T>::lowest(), "the minimum") KNOWN(T, maximum, ecl::numeric_limits<T>::maximum == std::numeric_limits<T>::max(), "the maximum") \
  KNOWN(T, dummy_precision, (ecl::numeric_limits<T>::dummy_precision > std::numeric_limits<T>::epsilon() && ecl::numeric_limits<T>::dummy_precision < static_cast<T>(0.001)), "the precision")
#else
#define VALUES(T)
#endif
#define OTHER(T) TRAITS(T)
}
//# facts
namespace w {
INTEGER(char) INTEGER(unsigned char) INTEGER(short) INTEGER(unsigned short) INTEGER(int) INTEGER(unsigned int) INTEGER(long) INTEGER(unsigned long) INTEGER(long long) INTEGER(unsigned long long)
TRAITS(signed char) STANDARD(signed char) SAY(signed char, (std::is_same<typename MemberType<ecl::Unsigned<signed char> >::type, unsigned char>::value), "the unsigned counterpart");
FLOATING(float) FLOATING(double) FLOATING(long double) VALUES(float) VALUES(double) VALUES(long double)
}
//# facts
namespace w {
typedef void Void; typedef char *CharPointer; typedef int *IntPointer; typedef int &IntReference; typedef int IntArray[3]; typedef unsigned char ByteArray[2]; typedef int Function(int); typedef int Class::*Member; typedef std::nullptr_t Null;
OTHER(Void) OTHER(CharPointer) OTHER(IntPointer) OTHER(IntReference) OTHER(IntArray) OTHER(ByteArray) OTHER(Function) OTHER(Member) OTHER(Null) OTHER(Class) OTHER(Union) OTHER(Enum) OTHER(Scoped)
}
//# facts
namespace w {
static_assert(ecl::Bool<true>::value && !ecl::Bool<false>::value && ecl::True::value && !ecl::False::value, "Y01: the value of a boolean constant");
static_assert(std::is_same<ecl::True::type, ecl::Bool<true> >::value && std::is_same<ecl::False::type, ecl::Bool<false> >::value && std::is_same<ecl::True::value_type, bool>::value, "Y01: the types of a boolean constant");
static_assert(std::is_same<typename ecl::if_c<true, int, char>::type, int>::value && std::is_same<typename ecl::if_c<false, int, char>::type, char>::value, "Y01: the type chosen by a condition");
static_assert(std::is_same<typename MemberType<ecl::enable_if_c<true, int> >::type, int>::value && std::is_same<typename MemberType<ecl::enable_if_c<false, int> >::type, None>::value, "Y01: a type enabled by a condition");
static_assert(std::is_same<typename MemberType<ecl::enable_if_c<true> >::type, void>::value && std::is_same<typename MemberType<ecl::enable_if_c<false> >::type, None>::value, "Y01: a type enabled by a condition");
static_assert(std::is_same<typename MemberType<ecl::enable_if<ecl::is_float<double>, int> >::type, int>::value && std::is_same<typename MemberType<ecl::enable_if<ecl::is_float<int>, int> >::type, None>::value, "Y01: a type enabled by a trait");
template <class T> constexpr int pick(typename ecl::enable_if<ecl::is_integral<T> >::type * = 0) { return 1; } template <class T> constexpr int pick(typename ecl::enable_if<ecl::is_float<T> >::type * = 0) { return 2; }
static_assert(pick<int>() == 1 && pick<char>() == 1 && pick<unsigned long long>() == 1 && pick<float>() == 2 && pick<long double>() == 2, "Y01: overloads chosen by a trait");
}
//# accept Y01: constants of numeric limits can be template arguments
template <int n> struct N {}; N<ecl::numeric_limits<int>::bits> a; N<ecl::numeric_limits<short>::maximum> b; template <unsigned long long n> struct U {}; U<ecl::numeric_limits<unsigned long long>::maximum> c; N<ecl::numeric_limits<double>::bytes> d;
//# reject Y01: the unsigned counterpart of something that is no integer
#if BAD
ecl::Unsigned<float>::type x;
#else
ecl::Unsigned<int>::type x;
#endif
