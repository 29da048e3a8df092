// Sequences of bounded length and text streams the analyser can follow. Include after mini_string.h and after every standard
// header; afterwards std::vector, std::list, std::istringstream and std::ostringstream mean these classes.
#pragma once
#include <vector>
#include <list>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
namespace drv {
template <class T> class Seq {
public:
  typedef T *iterator; typedef const T *const_iterator; typedef unsigned long size_type; typedef T value_type; typedef T &reference;
  Seq() : n(0) {}
  Seq(const Seq &o) : n(0) { for (size_type i = 0; i < o.n; i++) push_back(o.d[i]); }
  ~Seq() { n = (size_type)-1; }
  Seq &operator=(const Seq &o) { if (&o != this) { n = 0; for (size_type i = 0; i < o.n; i++) push_back(o.d[i]); } return *this; }
  void push_back(const T &t) { alive(); if (n >= 8) __v_assume(false); d[n] = t; n++; }
  void push_front(const T &t) { alive(); if (n >= 8) __v_assume(false); T k(t); for (size_type i = n; i > 0; i--) d[i] = d[i - 1]; d[0] = k; n++; }
  void pop_back() { alive(); __v_assert(n > 0, "OOB: nothing is removed from an empty list"); n--; }
  void pop_front() { erase(begin()); }
  size_type size() const { alive(); return n; }
  bool empty() const { alive(); return n == 0; }
  void clear() { alive(); n = 0; }
  void resize(size_type k) { alive(); if (k > 8) __v_assume(false); while (n < k) { d[n] = T(); n++; } n = k; }
  void reserve(size_type) {}
  T &operator[](size_type i) { alive(); __v_assert(i < n, "OOB: a list is accessed inside its length"); return d[i]; }
  const T &operator[](size_type i) const { alive(); __v_assert(i < n, "OOB: a list is accessed inside its length"); return d[i]; }
  T &at(size_type i) { return (*this)[i]; }
  const T &at(size_type i) const { return (*this)[i]; }
  T &front() { return (*this)[0]; }
  T &back() { return (*this)[n - 1]; }
  const T &front() const { return (*this)[0]; }
  const T &back() const { return (*this)[n - 1]; }
  iterator begin() { alive(); return d; }
  iterator end() { alive(); return d + n; }
  const_iterator begin() const { alive(); return d; }
  const_iterator end() const { alive(); return d + n; }
  iterator erase(iterator p) { __v_assert(p >= d && p < d + n, "OOB: an element outside a list is removed"); for (iterator q = p; q + 1 < d + n; q++) *q = *(q + 1); n--; return p; }
private:
  void alive() const { __v_assert(n != (size_type)-1, "USE_AFTER_RELEASE: a list is used after it was destroyed"); }
  size_type n; T d[8];
};
template <class T> inline bool operator==(const Seq<T> &a, const Seq<T> &b) { if (a.size() != b.size()) return false; for (unsigned long i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
// std::istringstream as far as words and numbers go
class In {
public:
  In() : p(0), eof_(false), fail_(false) {}
  In(const String &t) : s(t), p(0), eof_(false), fail_(false) {}
  bool good() const { return !eof_ && !fail_; }
  bool fail() const { return fail_; }
  bool bad() const { return false; }
  bool eof() const { return eof_; }
  void clear() { eof_ = fail_ = false; }
  void str(const String &t) { s = t; p = 0; }
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  int peek() { if (!good()) { fail_ = true; return EOF; } if (p >= s.size()) { eof_ = true; return EOF; } return (unsigned char)s[p]; }
  int get() { int c = peek(); if (c == EOF) fail_ = true; else p++; return c; }
  void skip() { if (!good()) { fail_ = true; return; } while (p < s.size() && s[p] == ' ') p++; if (p >= s.size()) { eof_ = true; fail_ = true; } }
  In &operator>>(int &v) {
    skip(); if (fail_) return *this;
    bool neg = false, any = false; int r = 0;
    if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; p++; }
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') { r = r * 10 + (s[p] - '0'); any = true; p++; }
    if (p >= s.size()) eof_ = true;
    if (!any) { fail_ = true; v = 0; } else v = neg ? -r : r;
    return *this;
  }
  In &operator>>(String &v) { skip(); if (fail_) return *this; v.clear(); while (p < s.size() && s[p] != ' ') v.push_back(s[p++]); if (p >= s.size()) eof_ = true; return *this; }
  In &operator>>(char &v) { skip(); if (fail_) return *this; v = s[p++]; return *this; }
private:
  String s; unsigned long p; bool eof_, fail_;
};
class Out {
public:
  Out &operator<<(const String &t) { s.append(t); return *this; }
  Out &operator<<(const char *t) { s.append(t); return *this; }
  Out &operator<<(char c) { s.push_back(c); return *this; }
  Out &operator<<(int v) { if (v < 0) { s.push_back('-'); v = -v; } int k = 1; while (v / k >= 10) k *= 10; for (; k > 0; k /= 10) s.push_back((char)('0' + v / k % 10)); return *this; }
  String str() const { return s; }
private:
  String s;
};
}
namespace std {
template <class T> using v_vector = drv::Seq<T>;
template <class T> using v_list = drv::Seq<T>;
typedef drv::In v_istringstream; typedef drv::Out v_ostringstream;
inline ostream &operator<<(ostream &o, const drv::String &s) { return o; }
}
#define vector v_vector
#define list v_list
#define istringstream v_istringstream
#define ostringstream v_ostringstream
