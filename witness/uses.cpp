//# prelude
#include <vector>
#include <string>
#include <ecl/concepts.hpp>
#include <ecl/type_traits.hpp>
#include <ecl/devices.hpp>
#include <ecl/streams.hpp>
#include <ecl/containers.hpp>
#include <ecl/converters.hpp>
#include <ecl/threads.hpp>
#include <ecl/utilities.hpp>
#define CHECK(...) typedef __VA_ARGS__ Checked; ecl_compile_time_concept_check(Checked)
struct Task { typedef void result_type; void operator()() {} }; struct NoTask { int x; };
void task(); struct Object { void work(); int count(int); void cwork() const; };
//# facts
#define SAYS(D, in, out) static_assert(ecl::is_source<D>::value == in, "N01: the source trait of " #D); static_assert(ecl::is_sink<D>::value == out, "N01: the sink trait of " #D); static_assert(ecl::is_sourcesink<D>::value == (in && out), "N01: the source and sink trait of " #D);
SAYS(ecl::OFile, false, true) SAYS(ecl::SharedFile, false, true) SAYS(ecl::Serial, true, true) SAYS(ecl::SocketClient, true, true) SAYS(ecl::SocketServer, true, true) SAYS(ecl::OConsole, false, true) SAYS(ecl::EConsole, false, true) SAYS(ecl::IConsole, true, false) SAYS(ecl::String, true, true) SAYS(Task, false, false) SAYS(int, false, false)
//# accept N01: the library's output devices
void f() { { CHECK(ecl::OutputCharDeviceConcept<ecl::OFile>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::SharedFile>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::Serial>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::SocketClient>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::SocketServer>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::OConsole>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::EConsole>); } { CHECK(ecl::OutputCharDeviceConcept<ecl::String>); } }
//# accept N01: the library's input devices
void f() { { CHECK(ecl::InputCharDeviceConcept<ecl::Serial>); } { CHECK(ecl::InputCharDeviceConcept<ecl::SocketClient>); } { CHECK(ecl::InputCharDeviceConcept<ecl::SocketServer>); } { CHECK(ecl::InputCharDeviceConcept<ecl::IConsole>); } { CHECK(ecl::InputCharDeviceConcept<ecl::String>); } }
//# accept N01: the library's devices both ways
void f() { { CHECK(ecl::InputOutputCharDeviceConcept<ecl::Serial>); } { CHECK(ecl::InputOutputCharDeviceConcept<ecl::SocketClient>); } { CHECK(ecl::InputOutputCharDeviceConcept<ecl::SocketServer>); } { CHECK(ecl::InputOutputCharDeviceConcept<ecl::String>); } }
//# accept N01: the library's streams
void f() { { CHECK(ecl::StreamConcept<ecl::OFileStream>); } { CHECK(ecl::StreamConcept<ecl::SharedFileStream>); } { CHECK(ecl::StreamConcept<ecl::SerialStream>); } { CHECK(ecl::StreamConcept<ecl::StringStream>); } { CHECK(ecl::StreamConcept<ecl::OConsoleStream>); } { CHECK(ecl::StreamConcept<ecl::EConsoleStream>); } { CHECK(ecl::StreamConcept<ecl::SocketClientStream>); } { CHECK(ecl::StreamConcept<ecl::SocketServerStream>); } }
//# accept N01: the library's containers
void f() { { CHECK(ecl::ContainerConcept<ecl::Array<int, 3> >); } { CHECK(ecl::ContainerConcept<ecl::Array<int> >); } { CHECK(ecl::DynamicContainerConcept<ecl::Array<int> >); } { CHECK(ecl::UnsignedByteContainerConcept<ecl::Array<unsigned char, 3> >); } { CHECK(ecl::SignedByteContainerConcept<ecl::Array<signed char> >); } { CHECK(ecl::ByteContainerConcept<ecl::Array<char, 2> >); } }
//# accept N01: function objects of the library
void f() { Object o; { CHECK(ecl::NullaryFunctionConcept<Task>); } { CHECK(ecl::NullaryFunctionConcept<ecl::NullaryFreeFunction<void> >); } { CHECK(ecl::NullaryFunctionConcept<ecl::BoundNullaryMemberFunction<Object, void> >); } }
//# accept N01: threads of every callable
void f() { Object o; Task t; ecl::Thread a(task), b(&Object::work, o), c(t), d(ecl::ref(t)), e(ecl::generateFunctionObject(task)); a.start(task); b.start(&Object::work, o); c.start(t); d.start(ecl::ref(t)); }
//# reject N01: a thread of something that cannot be called
#if BAD
void f() { NoTask t; ecl::Thread a(t); }
#else
void f() { Task t; ecl::Thread a(t); }
#endif
//# reject N01: a thread of a reference to something that cannot be called
#if BAD
void f() { NoTask t; ecl::Thread a(ecl::ref(t)); }
#else
void f() { Task t; ecl::Thread a(ecl::ref(t)); }
#endif
//# sweep N01: a text stream's device | ops: read write flush
struct Dev { bool open();
#ifndef DROP_read
  long read(char &); long read(char *, unsigned long);
#endif
#ifndef DROP_write
  long write(char); long write(const char *, unsigned long);
#endif
#ifndef DROP_flush
  void flush();
#endif
  ecl::Error error() const; };
namespace ecl { template <> class is_source<Dev> : public True {}; template <> class is_sink<Dev> : public True {}; }
void f() { ecl::TextStream<Dev> s; char c; s << 'a'; s >> c; }
//# sweep N01: what a file can write as bytes | ops: element size
struct A { typedef unsigned char *iterator;
#ifdef DROP_element
  typedef int value_type;
#else
  typedef unsigned char value_type;
#endif
  iterator begin(); iterator end(); unsigned char &operator[](int) const;
#ifndef DROP_size
  unsigned long size() const;
#endif
};
void f() { ecl::OFile o("x"); A a; o.write(a); }
//# reject N01: bytes of something that is no integer
typedef std::vector<unsigned char> Bytes;
#if BAD
typedef float Number;
#else
typedef short Number;
#endif
void f() { Bytes b(8); ecl::converters::IntegralToByteArray<Bytes, Number> c; c(b, Number(1)); }
//# reject N01: an integer from bytes of something that is no integer
typedef std::vector<unsigned char> Bytes;
#if BAD
typedef float Number;
#else
typedef short Number;
#endif
void f() { Bytes b(8); ecl::converters::FromByteArray<Number, Bytes> c; c(b); }
//# reject N01: bytes of an integer in an array of something else
#if BAD
typedef std::vector<int> Bytes;
#else
typedef std::vector<signed char> Bytes;
#endif
void f() { Bytes b(8); ecl::converters::IntegralToByteArray<Bytes, int> c; c(b, 1); }
//# reject N01: an integer from an array of something else than bytes
#if BAD
typedef std::vector<int> Bytes;
#else
typedef std::vector<signed char> Bytes;
#endif
void f() { Bytes b(8); ecl::converters::FromByteArray<int, Bytes> c; c(b); }
//# reject N01: a serial port that writes something else than bytes
#if BAD
typedef int Byte;
#else
typedef unsigned char Byte;
#endif
void f() { ecl::Serial s; Byte b[2] = { 1, 2 }; s.write(b, 2ul); }
//# reject N01: a serial port that reads something else than bytes
#if BAD
typedef int Byte;
#else
typedef signed char Byte;
#endif
void f() { ecl::Serial s; Byte b; s.read(b); }
//# reject N01: a converter that does not exist
struct Z {};
#if BAD
void f() { ecl::Converter<int, Z> c; Z z; c(z); }
#else
void f() { ecl::Converter<char *, int> c; c(1); }
#endif
//# reject N01: combined flags of different enumerations
enum E1 { a1 = 1, b1 = 2 }; enum E2 { a2 = 1 }; typedef ecl::Flags<E1> F1;
#if BAD
void f() { F1 f(a1); f |= a2; }
#else
void f() { F1 f(a1); f |= b1; }
#endif
