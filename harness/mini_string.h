// A string of bounded length the analyser can follow character by character. Include every standard header that needs
// std::string first; afterwards std::string means this class.
#pragma once
#include <string>
#include <iostream>
#include <sstream>
#include <cstring>
namespace drv {
#ifndef V_STRING_MAX
#define V_STRING_MAX 120
#endif
class String {
public:
  typedef char *iterator; typedef const char *const_iterator; typedef unsigned long size_type; typedef char value_type; typedef char &reference; typedef const char &const_reference;
  static const size_type npos = (size_type)-1;
  String() : n(0) { d[0] = 0; }
  String(const char *s) : n(0) { d[0] = 0; append(s); }
  String(const char *s, size_type k) : n(0) { d[0] = 0; append(s, k); }
  String(size_type k, char c) : n(0) { d[0] = 0; append(k, c); }
  String(const String &o) : n(0) { d[0] = 0; append(o); }
  String(const String &o, size_type from, size_type k = npos) : n(0) { d[0] = 0; append(o, from, k); }
  String(const_iterator a, const_iterator b) : n(0) { d[0] = 0; append(a, (size_type)(b - a)); }
  ~String() { n = (size_type)-1; }
  String &operator=(const String &o) { if (&o != this) { n = 0; d[0] = 0; append(o); } return *this; }
  String &operator=(const char *s) { String t(s); return *this = t; }
  String &operator=(char c) { n = 0; push_back(c); return *this; }
  String &assign(const String &o) { return *this = o; }
  String &assign(const char *s) { return *this = s; }
  String &assign(const char *s, size_type k) { String t(s, k); return *this = t; }
#ifdef V_STRING_CUT
  String &append(const char *s) { return append(s, std::strlen(s)); }
  String &append(const char *s, size_type k) { if (n + k > V_STRING_MAX - 1) k = V_STRING_MAX - 1 - n; std::memcpy(d + n, s, k); n += k; d[n] = 0; return *this; }
#else
  String &append(const char *s) { while (*s) push_back(*s++); return *this; }
  String &append(const char *s, size_type k) { for (size_type i = 0; i < k; i++) push_back(s[i]); return *this; }
#endif
  String &append(size_type k, char c) { for (size_type i = 0; i < k; i++) push_back(c); return *this; }
#ifdef V_STRING_CUT
  String &append(const String &o) { alive(); o.alive(); return append(o.d, o.n); }
  String &append(const String &o, size_type from, size_type k) { size_type m = from < o.n ? o.n - from : 0; return append(o.d + from, m < k ? m : k); }
  int compare(const String &o) const { alive(); o.alive(); int r = std::memcmp(d, o.d, n < o.n ? n : o.n); return r ? r : n < o.n ? -1 : n > o.n; }
#else
  String &append(const String &o) { alive(); o.alive(); size_type k = o.n; for (size_type i = 0; i < k; i++) push_back(o.d[i]); return *this; }
  String &append(const String &o, size_type from, size_type k) { for (size_type i = from; i < o.n && i - from < k; i++) push_back(o.d[i]); return *this; }
  int compare(const String &o) const { alive(); o.alive(); size_type i = 0; while (i < n && i < o.n && d[i] == o.d[i]) i++; if (i < n && i < o.n) return d[i] < o.d[i] ? -1 : 1; return n < o.n ? -1 : n > o.n; }
#endif
  void push_back(char c) { if (n < V_STRING_MAX - 1) { d[n] = c; n++; d[n] = 0; } else full(); }
  String &operator+=(const String &o) { return append(o); }
  String &operator+=(const char *s) { return append(s); }
  String &operator+=(char c) { push_back(c); return *this; }
  size_type size() const { alive(); return n; }
  size_type length() const { alive(); return n; }
  bool empty() const { alive(); return n == 0; }
  void clear() { n = 0; d[0] = 0; }
  void reserve(size_type) {}
  void swap(String &o) { String t(*this); *this = o; o = t; }
  const char *c_str() const { alive(); return d; }
  const char *data() const { alive(); return d; }
  char &operator[](size_type i) { alive(); __v_assert(i <= n, "OOB: a string is accessed inside its length"); return d[i]; }
  const char &operator[](size_type i) const { alive(); __v_assert(i <= n, "OOB: a string is accessed inside its length"); return d[i]; }
  char &at(size_type i) { return (*this)[i]; }
  const char &at(size_type i) const { return (*this)[i]; }
  char &back() { return (*this)[n - 1]; }
  char &front() { return (*this)[0]; }
  iterator begin() { return d; }
  iterator end() { return d + n; }
  const_iterator begin() const { return d; }
  const_iterator end() const { return d + n; }
  String substr(size_type from = 0, size_type k = npos) const { __v_assert(from <= n, "OOB: a string is accessed inside its length"); return String(*this, from, k); }
  String &erase(size_type from = 0, size_type k = npos) { String t(*this, 0, from); if (k != npos && from + k < n) t.append(*this, from + k, npos); return *this = t; }
  size_type find(const String &o, size_type from = 0) const { for (size_type i = from; i + o.n <= n; i++) { size_type k = 0; while (k < o.n && d[i + k] == o.d[k]) k++; if (k == o.n) return i; } return npos; }
  size_type find(char c, size_type from = 0) const { for (size_type i = from; i < n; i++) if (d[i] == c) return i; return npos; }
  size_type find_first_of(char c, size_type from = 0) const { return find(c, from); }
  size_type find_first_of(const String &o, size_type from = 0) const { for (size_type i = from; i < n; i++) if (o.find(d[i]) != npos) return i; return npos; }
  size_type find_first_not_of(const String &o, size_type from = 0) const { for (size_type i = from; i < n; i++) if (o.find(d[i]) == npos) return i; return npos; }
  size_type rfind(char c) const { for (size_type i = n; i > 0; i--) if (d[i - 1] == c) return i - 1; return npos; }
private:
#ifdef V_STRING_CUT
  static void full() {}
#else
  static void full() { __v_assume(false); }
#endif
  void alive() const { __v_assert(n != (size_type)-1, "USE_AFTER_RELEASE: a string is used after it was destroyed"); }
  size_type n; char d[V_STRING_MAX];
};
inline bool same(const String &a, const String &b) { return a.compare(b) == 0; }
inline bool operator==(const String &a, const String &b) { return same(a, b); }
inline bool operator==(const String &a, const char *b) { return same(a, String(b)); }
inline bool operator==(const char *a, const String &b) { return same(String(a), b); }
inline bool operator!=(const String &a, const String &b) { return !same(a, b); }
inline bool operator!=(const String &a, const char *b) { return !same(a, String(b)); }
inline bool operator!=(const char *a, const String &b) { return !same(String(a), b); }
inline bool operator<(const String &a, const String &b) { return a.compare(b) < 0; }
inline bool operator>(const String &a, const String &b) { return a.compare(b) > 0; }
inline String operator+(const String &a, const String &b) { String t(a); t.append(b); return t; }
inline String operator+(const String &a, const char *b) { String t(a); t.append(b); return t; }
inline String operator+(const char *a, const String &b) { String t(a); t.append(b); return t; }
inline String operator+(const String &a, char b) { String t(a); t.push_back(b); return t; }
inline String operator+(char a, const String &b) { String t; t.push_back(a); t.append(b); return t; }
}
namespace std { typedef drv::String v_string; }
#define string v_string
