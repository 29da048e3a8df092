//# prelude
#include <iostream>
#include <vector>
#include <ecl/concepts.hpp>
#include <ecl/type_traits.hpp>
#include <ecl/utilities/blueprints.hpp>
#define CHECK(...) typedef __VA_ARGS__ Checked; ecl_compile_time_concept_check(Checked)
struct Any { template <class T> operator T() const; };
//# sweep N01: a container | ops: begin end size iterator value_type
struct A {
#ifndef DROP_begin
  int *begin();
#endif
#ifndef DROP_end
  int *end();
#endif
#ifndef DROP_size
  int size() const;
#endif
#ifndef DROP_iterator
  typedef int *iterator;
#endif
#ifndef DROP_value_type
  typedef int value_type;
#endif
};
void f() { CHECK(ecl::ContainerConcept<A>); }
//# sweep N01: a container that can be resized | ops: begin end size iterator resize value_type
struct A {
#ifndef DROP_begin
  int *begin();
#endif
#ifndef DROP_end
  int *end();
#endif
#ifndef DROP_size
  unsigned int size() const;
#endif
#ifndef DROP_iterator
  typedef int *iterator;
#endif
#ifndef DROP_value_type
  typedef int value_type;
#endif
#ifndef DROP_resize
  void resize(int);
#endif
};
void f() { CHECK(ecl::DynamicContainerConcept<A>); }
//# sweep N01: a container of unsigned bytes (unsigned char) | ops: begin end size iterator value_type type_a type_b type_c type_d
#if defined DROP_type_a
typedef signed char E;
#elif defined DROP_type_b
typedef int E;
#elif defined DROP_type_c
typedef float E;
#elif defined DROP_type_d
typedef unsigned char *E;
#else
typedef unsigned char E;
#endif
struct A {
#ifndef DROP_begin
  E *begin();
#endif
#ifndef DROP_end
  E *end();
#endif
#ifndef DROP_size
  long size() const;
#endif
#ifndef DROP_iterator
  typedef E *iterator;
#endif
#ifndef DROP_value_type
  typedef E value_type;
#endif
};
void f() { CHECK(ecl::UnsignedByteContainerConcept<A>); }
//# sweep N01: a container of signed bytes (signed char) | ops: begin end size iterator value_type type_a type_b type_c type_d
#if defined DROP_type_a
typedef unsigned char E;
#elif defined DROP_type_b
typedef int E;
#elif defined DROP_type_c
typedef float E;
#elif defined DROP_type_d
typedef signed char *E;
#else
typedef signed char E;
#endif
struct A {
#ifndef DROP_begin
  E *begin();
#endif
#ifndef DROP_end
  E *end();
#endif
#ifndef DROP_size
  long size() const;
#endif
#ifndef DROP_iterator
  typedef E *iterator;
#endif
#ifndef DROP_value_type
  typedef E value_type;
#endif
};
void f() { CHECK(ecl::SignedByteContainerConcept<A>); }
//# sweep N01: a container of bytes (unsigned char) | ops: begin end size iterator value_type type_a type_b type_c type_d
#if defined DROP_type_a
typedef int E;
#elif defined DROP_type_b
typedef int E;
#elif defined DROP_type_c
typedef float E;
#elif defined DROP_type_d
typedef unsigned char *E;
#else
typedef unsigned char E;
#endif
struct A {
#ifndef DROP_begin
  E *begin();
#endif
#ifndef DROP_end
  E *end();
#endif
#ifndef DROP_size
  long size() const;
#endif
#ifndef DROP_iterator
  typedef E *iterator;
#endif
#ifndef DROP_value_type
  typedef E value_type;
#endif
};
void f() { CHECK(ecl::ByteContainerConcept<A>); }
//# sweep N01: a container of bytes (signed char) | ops: begin end size iterator value_type type_a type_b type_c type_d
#if defined DROP_type_a
typedef bool E;
#elif defined DROP_type_b
typedef int E;
#elif defined DROP_type_c
typedef float E;
#elif defined DROP_type_d
typedef signed char *E;
#else
typedef signed char E;
#endif
struct A {
#ifndef DROP_begin
  E *begin();
#endif
#ifndef DROP_end
  E *end();
#endif
#ifndef DROP_size
  long size() const;
#endif
#ifndef DROP_iterator
  typedef E *iterator;
#endif
#ifndef DROP_value_type
  typedef E value_type;
#endif
};
void f() { CHECK(ecl::ByteContainerConcept<A>); }
//# sweep N01: a container of bytes (char) | ops: begin end size iterator value_type type_a type_b type_c type_d
#if defined DROP_type_a
typedef short E;
#elif defined DROP_type_b
typedef int E;
#elif defined DROP_type_c
typedef float E;
#elif defined DROP_type_d
typedef char *E;
#else
typedef char E;
#endif
struct A {
#ifndef DROP_begin
  E *begin();
#endif
#ifndef DROP_end
  E *end();
#endif
#ifndef DROP_size
  long size() const;
#endif
#ifndef DROP_iterator
  typedef E *iterator;
#endif
#ifndef DROP_value_type
  typedef E value_type;
#endif
};
void f() { CHECK(ecl::ByteContainerConcept<A>); }
//# sweep N01: a device characters can be read from | ops: open read read_many
struct A {
#ifndef DROP_open
  bool open();
#endif
#ifndef DROP_read
  long read(char &);
#endif
#ifndef DROP_read_many
  long read(char *, unsigned long);
#endif
};
void f() { CHECK(ecl::InputCharDeviceConcept<A>); }
//# sweep N01: a device characters can be written to | ops: open write write_many flush
struct A {
#ifndef DROP_open
  bool open();
#endif
#ifndef DROP_write
  long write(char);
#endif
#ifndef DROP_write_many
  long write(const char *, unsigned long);
#endif
#ifndef DROP_flush
  void flush();
#endif
};
void f() { CHECK(ecl::OutputCharDeviceConcept<A>); }
//# sweep N01: a device for characters both ways | ops: read read_many write write_many flush
struct A {
#ifndef DROP_read
  long read(char &);
#endif
#ifndef DROP_read_many
  long read(char *, unsigned long);
#endif
#ifndef DROP_write
  long write(char);
#endif
#ifndef DROP_write_many
  long write(const char *, unsigned long);
#endif
#ifndef DROP_flush
  void flush();
#endif
};
void f() { CHECK(ecl::InputOutputCharDeviceConcept<A>); }
//# sweep N01: a device bytes can be read from | ops: read_c reads_c read_s reads_s read_u reads_u
struct A {
  bool isOpen(); bool open();
#ifndef DROP_read_c
  long read(char &);
#endif
#ifndef DROP_reads_c
  long read(char *, unsigned long);
#endif
#ifndef DROP_read_s
  long read(signed char &);
#endif
#ifndef DROP_reads_s
  long read(signed char *, unsigned long);
#endif
#ifndef DROP_read_u
  long read(unsigned char &);
#endif
#ifndef DROP_reads_u
  long read(unsigned char *, unsigned long);
#endif
};
void f() { CHECK(ecl::InputByteDeviceConcept<A>); }
//# sweep N01: a device bytes can be written to | ops: write_c writes_c write_s writes_s write_u writes_u flush
struct A {
  bool isOpen(); bool open();
#ifndef DROP_write_c
  long write(const char &);
#endif
#ifndef DROP_writes_c
  long write(const char *, unsigned long);
#endif
#ifndef DROP_write_s
  long write(const signed char &);
#endif
#ifndef DROP_writes_s
  long write(const signed char *, unsigned long);
#endif
#ifndef DROP_write_u
  long write(const unsigned char &);
#endif
#ifndef DROP_writes_u
  long write(const unsigned char *, unsigned long);
#endif
#ifndef DROP_flush
  void flush();
#endif
};
void f() { CHECK(ecl::OutputByteDeviceConcept<A>); }
//# sweep N01: a device for bytes both ways | ops: read_c reads_c read_s reads_s read_u reads_u write_c writes_c write_s writes_s write_u writes_u flush
struct A {
  bool isOpen(); bool open();
#ifndef DROP_read_c
  long read(char &);
#endif
#ifndef DROP_reads_c
  long read(char *, unsigned long);
#endif
#ifndef DROP_read_s
  long read(signed char &);
#endif
#ifndef DROP_reads_s
  long read(signed char *, unsigned long);
#endif
#ifndef DROP_read_u
  long read(unsigned char &);
#endif
#ifndef DROP_reads_u
  long read(unsigned char *, unsigned long);
#endif
#ifndef DROP_write_c
  long write(const char &);
#endif
#ifndef DROP_writes_c
  long write(const char *, unsigned long);
#endif
#ifndef DROP_write_s
  long write(const signed char &);
#endif
#ifndef DROP_writes_s
  long write(const signed char *, unsigned long);
#endif
#ifndef DROP_write_u
  long write(const unsigned char &);
#endif
#ifndef DROP_writes_u
  long write(const unsigned char *, unsigned long);
#endif
#ifndef DROP_flush
  void flush();
#endif
};
void f() { CHECK(ecl::InputOutputByteDeviceConcept<A>); }
//# sweep N01: a function object without arguments | ops: call result_type
struct A {
#ifndef DROP_call
  int operator()();
#endif
#ifndef DROP_result_type
  typedef int result_type;
#endif
};
void f() { CHECK(ecl::NullaryFunctionConcept<A>); }
//# sweep N01: a stream | ops: write flush
struct A {
#ifndef DROP_write
  A &operator<<(char);
#endif
#ifndef DROP_flush
  void flush();
#endif
};
void f() { CHECK(ecl::StreamConcept<A>); }
//# sweep N01: a blueprint | ops: base_type instantiate apply
struct A {
#ifndef DROP_base_type
  typedef int base_type;
#endif
#ifndef DROP_instantiate
  int instantiate() const;
#endif
#ifndef DROP_apply
  void apply(int &) const;
#endif
};
void f() { CHECK(ecl::BluePrintConcept<A>); }
//# sweep N01: classes that are blueprints | ops: base_type instantiate apply
struct A : public ecl::BluePrint<A> {
#ifndef DROP_base_type
  typedef int base_type;
#endif
#ifndef DROP_instantiate
  int instantiate() const { return 1; }
#endif
#ifndef DROP_apply
  void apply(int &x) const { x = 1; }
#endif
};
int f() { A a; int x = 0; a.apply(x); return a.instantiate(); }
//# sweep N01: a concept checked in a class and in a template | ops: in_class in_template
struct Good { char operator<<(char); void flush(); }; struct Bad { void flush(); };
#ifdef DROP_in_class
typedef Bad X; typedef Good Y;
#elif defined DROP_in_template
typedef Good X; typedef Bad Y;
#else
typedef Good X; typedef Good Y;
#endif
struct C { ecl_compile_time_concept_check(ecl::StreamConcept<X>); };
template <class T> void t() { ecl_compile_time_concept_check(ecl::StreamConcept<T>); }
void f() { t<Y>(); }
//# sweep N01: a concept of the user's | ops: name
template <class T> class Named { public: ecl_compile_time_concept_test(Named) { t.name(); } private: T t; };
struct A {
#ifndef DROP_name
  void name();
#endif
};
void f() { ecl_compile_time_concept_check(Named<A>); }
//# accept N01: standard types
void f() { { CHECK(ecl::StreamConcept<std::ostream>); } { CHECK(ecl::DynamicContainerConcept<std::vector<int> >); } { CHECK(ecl::ContainerConcept<std::vector<float> >); } { CHECK(ecl::ByteContainerConcept<std::vector<char> >); } { CHECK(ecl::UnsignedByteContainerConcept<std::vector<unsigned char> >); } }
