seed('disconnect_by_topic_keeps_subscription', 'S01', [('ecl_sigslots/include/ecl/sigslots/topic.hpp', '''		if ( iter != topic_publishers.end() ) {
			topic_publishers.erase(iter);
		}
		iter = topic_subscribers.find(sigslot);
		if ( iter != topic_subscribers.end() ) {''', '''		if ( iter != topic_publishers.end() ) {
			topic_publishers.erase(iter);
			return;
		}
		iter = topic_subscribers.find(sigslot);
		if ( iter != topic_subscribers.end() ) {''')],
 'an object that both publishes to a topic and listens to that same topic leaves it by its name',
 'the object stays among the subscribers of the topic and is run by the next emission of another one', r'''
#include <cstdio>
#include <cstdlib>
#include <string>
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_threads/src/lib/mutex_pos.cpp"
#include <ecl/sigslots.hpp>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
static int runs = 0; static void f(int) { ++runs; }
int main() {
  ecl::SigSlot<int> other(f), s(f);
  other.connectSignal("t"); s.connectSlot("t"); s.connectSignal("t");
  other.emit(1); CHECK(runs == 1);
  s.disconnect("t");
  other.emit(1); CHECK(runs == 1);
  return 0;
}
''')
seed('push_and_pop_copy_misses_last_slot', 'C03', [('ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp', '''    leader = otherOne.leader;
    follower = otherOne.follower;
''', '''    leader = otherOne.leader;
    follower = otherOne.follower % Size;
''')],
 'a full circular buffer whose oldest element lies in the very last slot is copied with the function call operator',
 'the copy starts at the first slot, it lacks the oldest element', r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include <ecl/containers/push_and_pop.hpp>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
int main() {
  for (int n = 0; n < 12; ++n) {
    ecl::PushAndPop<int, 3> a, b;
    for (int i = 0; i < n; ++i) a.push_back(i);
    b(a);
    CHECK(b.size() == a.size());
    while (a.size()) { CHECK(a.pop_front() == b.pop_front()); }
  }
  return 0;
}
''')
seed('flags_test_needs_only_zero', 'U01', [('ecl_utilities/include/ecl/utilities/flags.hpp', '''      if ((value & flag) != 0)
      {
        return true;
      }''', '''      if ((value & flag) > 0)
      {
        return true;
      }''')],
 'the flag in the sign bit of the set',
 'the flag in the sign bit is never reported as set', r'''
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <ecl/utilities/flags.hpp>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
enum F { A = 1, B = 2, TOP = INT_MIN };
int main() {
  ecl::Flags<F> f(TOP);
  CHECK(f.testFlag(TOP));
  f |= A;
  CHECK(f.testFlag(TOP) && f.testFlag(A) && !f.testFlag(B));
  return 0;
}
''')
seed('string_format_keeps_temporary', 'F01', [('ecl_formatters/include/ecl/formatters/strings.hpp', '''        case ( LeftAlign ) : { pad(n,ostream); break; }
        case ( RightAlign ) : { break; }
        case ( CentreAlign ) : { pad(n/2,ostream); break; }  // Do not add the remainder''', '''
        case ( LeftAlign ) : { pad(temporary_ ? n : width_ - static_cast<int>(s.size()),ostream); break; }
        case ( RightAlign ) : { if ( temporary_ && ( width_ > tmp_width_ ) ) { pad(1,ostream); } break; }
        case ( CentreAlign ) : { pad(n/2,ostream); break; }  // Do not add the remainder''')],
 'one value printed with a temporary width smaller than the configured one, right aligned',
 'an extra blank follows the value', r'''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <ecl/formatters/common.hpp>
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include "ecl_formatters/src/lib/strings.cpp"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
int main() {
  ecl::Format<std::string> f; f.width(12); f.align(ecl::LeftAlign);
  std::ostringstream o;
  o << f(std::string("abc"), 6, ecl::RightAlign);
  CHECK(o.str() == "   abc");
  std::ostringstream p; p << f(std::string("abc"));
  CHECK(p.str() == "abc         ");
  return 0;
}
''')
seed('byte_array_small_shift', 'V02', [('ecl_converters/include/ecl/converters/to_byte_array.hpp', '''      byte_array[i] = static_cast<typename ByteArray::value_type>(input >> 8 * i);''',
 '''      byte_array[i] = static_cast<typename ByteArray::value_type>(input / (static_cast<Integral>(1) << 8 * i));''')],
 'a negative integer that is not a multiple of 256',
 'the division rounds towards zero, the shift did not: the upper bytes of negative numbers come out one too high', r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "ecl_exceptions/src/lib/standard_exception.cpp"
#include <ecl/converters/to_byte_array.hpp>
#include <ecl/converters/from_byte_array.hpp>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
int main() {
  std::vector<unsigned char> b(4);
  ecl::Converter<std::vector<unsigned char>, int> to; ecl::Converter<int, std::vector<unsigned char> > from;
  b = to(b, 70000); CHECK(from(b) == 70000);
  b = to(b, -70001); CHECK(from(b) == -70001);
  return 0;
}
''')
