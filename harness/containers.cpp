// Arrays, stencils, first-in-first-out queues: every size and position, every sequence of operations.
#include "v.h"
#include "thin_exception.h"
#include <ecl/containers.hpp>
using namespace ecl;
#if defined(NDEBUG) || defined(V_NOEXC)
#define CHECKED false // positions are only checked by at()
#else
#define CHECKED true
#endif
#ifdef V_NOEXC
#define THROWS(expr) ([&]() -> bool { expr; return false; }())
#else
#define THROWS(expr) ([&]() -> bool { try { expr; } catch (const StandardException &) { return true; } return false; }())
#endif
#ifdef ECL_MEM_CHECK_ARRAYS
#define ENOUGH __v_reliable_malloc() // running out of memory is memory_runs_out's business
#else
#define ENOUGH (void)0
#endif
#define SIZE() ((unsigned int)__v_range(0, 1000000))
namespace drv {
typedef Array<int> Dyn;
static unsigned long pos() { return (unsigned long)__v_long("position"); }
template <class A> static void touch(A &a, unsigned long n) { // every element once, first and last
  if (n == 0) { if (CHECKED) { __v_assert(THROWS(a.front()), "C01: the first element of an empty container is refused"); __v_assert(THROWS(a.back()), "C01: the last element of an empty container is refused"); } return; }
  __v_assert(!THROWS(a.front() = 1), "C01: the first element of a container is accessible"); __v_assert(!THROWS(a.back() = 2), "C01: the last element of a container is accessible");
  __v_assert(&a.front() == &*a.begin() && &a.back() == &*(a.end() - 1), "C01: first and last element");
  __v_assert(a.end() - a.begin() == (long)n && a.rend() - a.rbegin() == (long)n, "C01: the iterators span the elements");
  const A &c = a; __v_assert(c.end() - c.begin() == (long)n && &c.front() == &a.front() && &c.back() == &a.back(), "C01: first and last element");
}
template <class A> static void access(A &a, unsigned long n) {
  unsigned long i = pos(); const A &c = a;
  __v_assert(a.size() == n, "C02: the size of a container is the number of its elements");
#ifndef V_NOEXC
  __v_assert(THROWS(a.at(i) = 5) == (i >= n), "C01: at() throws for exactly the positions outside");
  __v_assert(THROWS(c.at(i)) == (i >= n), "C01: at() throws for exactly the positions outside");
#endif
  if (CHECKED) { __v_assert(THROWS(a[i] = 5) == (i >= n), "C01: [] throws for exactly the positions outside [debug]"); __v_assert(THROWS(c[i]) == (i >= n), "C01: [] throws for exactly the positions outside [debug]"); }
  if (i < n) { a[i] = 7; a.at(i) = 8; __v_assert(&a[i] == &*a.begin() + i && &c[i] == &a[i] && &a.at(i) == &a[i] && &c.at(i) == &a[i], "C01: an access reaches the element at the position"); __v_reach("inside"); }
}
}
using namespace drv;
DRIVER(dynamic_access) { ENOUGH; { unsigned int n = SIZE(); Dyn a(n); access(a, n); touch(a, n); __v_reach("access"); } __v_gc(); }
DRIVER(dynamic_resized_access) { ENOUGH; { Dyn a; if (__v_bool()) a.resize(SIZE()); if (__v_bool()) a.clear(); unsigned int n = a.size(); if (__v_bool()) { n = SIZE(); a.resize(n); } access(a, n); touch(a, n); } __v_gc(); }
DRIVER(fixed_access) { ENOUGH; Array<int, 3> a; access(a, 3); touch(a, 3); __v_reach("access"); }
DRIVER(fixed_one) { ENOUGH; Array<int, 1> a; access(a, 1); touch(a, 1); __v_reach("access"); }
// sizes and storage over every sequence of operations
DRIVER(dynamic_sizes) { ENOUGH; __v_heads(2);
  { Dyn a, b; unsigned int n = 0, m = 0;
    for (;;) {
      long op = __v_range(0, 7);
      if (op == 0) { n = SIZE(); a.resize(n); }
      else if (op == 1) { a.clear(); n = 0; }
      else if (op == 2) { a = b; n = m; }
      else if (op == 3) { b = a; m = n; }
      else if (op == 4) { a = a; }
      else if (op == 5) { Dyn c(a); __v_assert(c.size() == n, "C02: a copy has the size of its source"); if (n) __v_assert(&c.front() != &a.front(), "C02: a copy shares no storage"); if (__v_bool()) { b = c; m = n; } __v_reach("copy"); }
      else if (op == 6) { n = SIZE(); a = Dyn(n); }
      else { m = SIZE(); b.resize(m); }
      __v_assert(a.size() == n && b.size() == m, "C02: the size of a container is the number of its elements");
      if (n && m) __v_assert(&a.front() != &b.front(), "C02: a copy shares no storage");
      if (__v_bool()) break;
    }
    touch(a, n); touch(b, m);
  } __v_gc();
}
DRIVER(dynamic_constant_sizes) { ENOUGH; { unsigned int n = SIZE(), m = SIZE(); Dyn a(n); if (__v_bool()) a.clear(); a = Dyn::Constant(m, 3); touch(a, m); __v_assert(a.size() == m, "C02: the size of a container is the number of its elements"); Dyn b(Dyn::Factory::Constant(n, 4)); __v_assert(b.size() == n, "C02: the size of a container is the number of its elements"); touch(b, n); __v_reach("constants"); } __v_gc(); }
// what they contain
namespace drv {
static signed char count() { return __v_bool() ? __v_bool() ? 0 : 1 : __v_bool() ? 2 : 3; }
static void put(Dyn &a, signed char n, int *s) { for (signed char i = 0; i < n; ++i) { s[i] = __v_int("element"); a[i] = s[i]; } }
static void same(const Dyn &a, signed char n, const int *s, const char *) { __v_assert(a.size() == (unsigned)n, "C02: a copy has the size of its source"); for (signed char i = 0; i < n; ++i) __v_assert(a[i] == s[i], "C02: the elements of an array are those that were stored"); }
}
DRIVER(dynamic_contents) { ENOUGH; 
  { int s[3], t[3]; signed char n = count(), m = count(); Dyn a, b; a.resize(n); b.resize(m); put(a, n, s); put(b, m, t);
    Dyn c(a); same(c, n, s, ""); same(a, n, s, ""); if (n) { c[0] = c[0] + 1; same(a, n, s, ""); }
    a = a; same(a, n, s, "");
    b = a; same(b, n, s, ""); same(a, n, s, ""); if (n) { int o = b[n - 1]; b[n - 1] = 5; same(a, n, s, ""); b[n - 1] = o; }
    a.clear(); same(b, n, s, ""); __v_assert(a.size() == 0, "C02: a cleared array is empty"); a = b; same(a, n, s, "");
    __v_reach("contents");
  } __v_gc();
}
DRIVER(dynamic_constant) { ENOUGH; { signed char n = count(); int v = __v_int("value"); Dyn a(Dyn::Constant(n, v)); __v_assert(a.size() == (unsigned)n, "C02: a constant array has the size asked for"); for (signed char i = 0; i < n; ++i) __v_assert(a[i] == v, "C02: a constant array holds the constant"); __v_reach("constant"); } __v_gc(); }
DRIVER(fixed_contents) { ENOUGH; 
  int s[3]; Array<int, 3> a; for (signed char i = 0; i < 3; ++i) a[i] = s[i] = __v_int("element");
  Array<int, 3> b(a), c; c = a; c = c; for (signed char i = 0; i < 3; ++i) __v_assert(b[i] == s[i] && c[i] == s[i] && a[i] == s[i], "C02: the elements of an array are those that were stored");
  b[1] = s[1] + 1; __v_assert(a[1] == s[1] && c[1] == s[1], "C02: a copy shares no storage");
  int v = __v_int("value"); Array<int, 3> d(Array<int, 3>::Constant(v)); for (signed char i = 0; i < 3; ++i) __v_assert(d[i] == v, "C02: a constant array holds the constant");
  __v_reach("contents");
}
// comma initialisation stops at the end
DRIVER(initialiser_dynamic) { ENOUGH; 
  { signed char n = count(); int x = __v_int("x"), y = __v_int("y"), z = __v_int("z"); Dyn a(n); signed char k = 1 + (n == 3 ? (__v_bool() ? 2 : 1) : n == 2 ? 1 : 0);
    if (!CHECKED && n == 0) return;
    if (CHECKED && __v_bool()) { bool t = k == 1 ? THROWS((a << x, y, z, x)) : THROWS((a << x, y, z, x, y)); __v_assert(t, "C01: an initialiser that is too long is refused [debug]"); }
    else if (n >= 1) { bool t = n == 1 ? THROWS((a << x)) : n == 2 ? THROWS((a << x, y)) : THROWS((a << x, y, z)); __v_assert(!t, "C01: an initialiser that fits is accepted"); __v_assert(a[0] == x && (n < 2 || a[1] == y) && (n < 3 || a[2] == z), "C03: an initialiser fills the elements in order"); __v_reach("initialised"); }
  } __v_gc();
}
DRIVER(initialiser_fixed) { ENOUGH; 
  int x = __v_int("x"), y = __v_int("y"); Array<int, 2> a;
  if (CHECKED && __v_bool()) __v_assert(THROWS((a << x, y, x)), "C01: an initialiser that is too long is refused [debug]");
  else { a << x, y; __v_assert(a[0] == x && a[1] == y, "C03: an initialiser fills the elements in order"); a << y; __v_assert(a[0] == y && a[1] == y, "C03: an initialiser fills the elements in order"); __v_reach("initialised"); }
}
// windows on arrays
namespace drv {
template <class A> static void window(A &a, unsigned long n) {
  typedef Stencil<A> S; unsigned int b = (unsigned int)__v_long("start"), k = (unsigned int)__v_long("length"); bool in = (unsigned long)b + k <= n;
  int *base = &*a.begin();
  if (CHECKED) {
    bool t = THROWS(S(a, b, k)); __v_assert(t == !in, "C01: a window is refused exactly if it does not lie in the array [debug]");
    bool u = THROWS(a.stencil(b, k)); if (!in) __v_assert(u, "C01: a window is refused if it does not lie in the array [debug]"); if (in && b < n) __v_assert(!u, "C01: a window that lies in the array is accepted");
  }
  if (!in) return;
  S s(a, b, k); __v_assert(s.size() == k && s.begin() == base + b && s.end() == base + b + k, "C01: a window views the elements asked for");
  access(s, k); if (k || CHECKED) touch(s, k);
  __v_reach("window");
}
template <class A> static void windows(A &a, unsigned long n) {
  typedef Stencil<A> S; unsigned int b = (unsigned int)__v_range(0, 1000), k = (unsigned int)__v_range(0, 1000); if ((unsigned long)b + k > n) return;
  S s(a, b, k); int *base = &*a.begin();
  unsigned int c = (unsigned int)__v_range(0, 2000), l = (unsigned int)__v_range(0, 2000); bool in = (unsigned long)c + l <= k;
  if (CHECKED) { bool t = THROWS(s.stencil(c, l)); if (!in) __v_assert(t, "C01: a window on a window is refused if it does not lie in it [debug]"); if (in && c < k) __v_assert(!t, "C01: a window on a window that lies in it is accepted"); }
  if (in && c < k) { S t = s.stencil(c, l); __v_assert(t.begin() == base + b + c && t.size() == l, "C01: a window on a window views the elements asked for"); s = t; __v_assert(s.begin() == base + b + c && s.size() == l, "C01: windows on the same array are reassigned"); __v_reach("sub"); }
  unsigned int d = (unsigned int)__v_range(0, 2000), m = (unsigned int)__v_range(0, 2000); in = (unsigned long)d + m <= n;
  if (CHECKED) __v_assert(THROWS(s.resettle(d, m)) == !in, "C01: a window is moved exactly if its place lies in the array [debug]");
  else if (in) s.resettle(d, m);
  if (in) { __v_assert(s.begin() == base + d && s.size() == m, "C01: a window views the elements asked for"); __v_reach("resettled"); }
}
}
DRIVER(stencil_fixed) { ENOUGH; Array<int, 5> a; window(a, 5); }
DRIVER(stencil_fixed_sub) { ENOUGH; Array<int, 5> a; windows(a, 5); }
DRIVER(stencil_dynamic) { ENOUGH; { unsigned int n = (unsigned int)__v_range(1, 1000000); Dyn a(n); window(a, n); } __v_gc(); }
DRIVER(stencil_dynamic_sub) { ENOUGH; { unsigned int n = (unsigned int)__v_range(1, 1000); Dyn a(n); windows(a, n); } __v_gc(); }
DRIVER(stencil_copy) { ENOUGH; // windows on different arrays copy elements
  Array<int, 3> a, b; int x = __v_int("x"), y = __v_int("y"), z = __v_int("z"); a << x, y, z; b << 1, 2, 3;
  Stencil<Array<int, 3>> s = a.stencil(0, 2), t = b.stencil(1, 2), u = b.stencil(2, 1);
  t = s; __v_assert(b[0] == 1 && b[1] == x && b[2] == y && a[0] == x && a[1] == y && a[2] == z, "C02: copying a window copies its elements and no others");
  if (CHECKED) { __v_assert(THROWS(u = s), "C01: a window that is too large is not copied [debug]"); __v_assert(a[0] == x && a[1] == y && b[1] == x, "C01: a window that is too large is not copied [debug]"); }
  s = u; __v_assert(a[0] == b[2] && a[1] == y && b[2] == y, "C02: copying a window copies its elements and no others");
  __v_reach("copied");
}
namespace drv {
template <class C> static void plain() { // windows on plain memory of known length
  C mem[6]; typedef Stencil<C *> S; unsigned int b = (unsigned int)__v_long("start"), k = (unsigned int)__v_long("length"); bool in = (unsigned long)b + k <= 6;
  if (CHECKED) __v_assert(THROWS(S(mem, 6, b, k)) == !in, "C01: a window is refused exactly if it does not lie in the array [debug]");
  if (!in) return;
  S s(mem, 6, b, k); __v_assert(s.size() == k && s.begin() == mem + b && s.end() == mem + b + k, "C01: a window views the elements asked for");
  access(s, k); if (k || CHECKED) touch(s, k);
  __v_reach("window");
}
template <class C> static void plains() {
  static C mem[6] = {0}; typedef Stencil<C *> S; unsigned int b = (unsigned int)__v_range(0, 6), k = (unsigned int)__v_range(0, 6); if (b + k > 6) return;
  S s(mem, 6, b, k); unsigned int c = (unsigned int)__v_range(0, 2000), l = (unsigned int)__v_range(0, 2000); bool in = (unsigned long)c + l <= k;
  if (CHECKED) { bool t = THROWS(s.stencil(c, l)); if (!in) __v_assert(t, "C01: a window on a window is refused if it does not lie in it [debug]"); if (in) __v_assert(!t, "C01: a window on a window that lies in it is accepted"); }
  if (in) { S t = s.stencil(c, l); __v_assert(t.begin() == mem + b + c && t.size() == l, "C01: a window on a window views the elements asked for"); s = t; __v_assert(s.begin() == mem + b + c && s.size() == l, "C01: windows on the same array are reassigned"); __v_reach("sub"); }
  unsigned int d = (unsigned int)__v_range(0, 2000), m = (unsigned int)__v_range(0, 2000); in = (unsigned long)d + m <= 6;
  if (CHECKED) __v_assert(THROWS(s.resettle(d, m)) == !in, "C01: a window is moved exactly if its place lies in the array [debug]");
  else if (in) s.resettle(d, m);
  if (in) { __v_assert(s.begin() == mem + d && s.size() == m, "C01: a window views the elements asked for"); __v_reach("resettled"); }
}
}
DRIVER(stencil_uchar) { ENOUGH; plain<unsigned char>(); }
DRIVER(stencil_const) { ENOUGH; // a read-only window
  static unsigned char mem[6]; typedef Stencil<const unsigned char *> S; unsigned int b = (unsigned int)__v_long("start"), k = (unsigned int)__v_long("length"); bool in = (unsigned long)b + k <= 6;
  if (CHECKED) __v_assert(THROWS(S(mem, 6, b, k)) == !in, "C01: a window is refused exactly if it does not lie in the array [debug]");
  if (!in) return;
  S s(mem, 6, b, k); __v_assert(s.size() == k && s.begin() == mem + b && s.end() == mem + b + k, "C01: a window views the elements asked for");
  unsigned long i = pos(); (void)i;
#ifndef V_NOEXC
  __v_assert(THROWS(s.at(i)) == (i >= k), "C01: at() throws for exactly the positions outside");
#endif
  if (CHECKED) __v_assert(THROWS(s[i]) == (i >= k), "C01: [] throws for exactly the positions outside [debug]");
  if (i < k) __v_assert(&s[i] == mem + b + i && &s.at(i) == mem + b + i, "C01: an access reaches the element at the position");
  if (k) __v_assert(&s.front() == mem + b && &s.back() == mem + b + (k - 1), "C01: first and last element");
  else if (CHECKED) { __v_assert(THROWS(s.front()), "C01: the first element of an empty container is refused"); __v_assert(THROWS(s.back()), "C01: the last element of an empty container is refused"); }
  __v_reach("window");
}
DRIVER(stencil_uchar_sub) { ENOUGH; plains<unsigned char>(); }
DRIVER(stencil_const_sub) { ENOUGH; plains<const unsigned char>(); }
// first in, first out
DRIVER(fifo_bounds) { ENOUGH; __v_heads(2);
  { unsigned int n = SIZE(); FiFo<int> f(n);
    for (;;) {
      if (__v_bool()) { if (n) f.push_back(4); else if (CHECKED) __v_assert(THROWS(f.push_back(4)), "C01: an empty queue refuses elements [debug]"); }
      else { int i = (int)__v_range(0, 2000000); if (n) f[i] = 6; else if (CHECKED) __v_assert(THROWS(f[i] = 6), "C01: an empty queue has no elements [debug]"); }
      if (n) __v_assert(f.get_idx() < n, "C01: the oldest element is one of the elements");
      if (__v_bool()) break;
    }
    f.fill(8); FiFo<int> g(f); if (n) { g.push_back(5); const FiFo<int> &c = g; (void)c[0]; }
    unsigned int m = SIZE(); if (m) { f.resize(m); f.push_back(3); f[m] = 4; __v_assert(f.get_idx() < m, "C01: the oldest element is one of the elements"); __v_reach("resized"); } else if (CHECKED) __v_assert(THROWS(f.resize(0)), "C01: a queue cannot be resized to nothing [debug]");
  } __v_gc();
}
namespace drv {
template <signed char N> static void fifo() {
  { int init = __v_int("initial"); FiFo<int> f(N, init); int s[N]; for (signed char i = 0; i < N; ++i) s[i] = init; // s[0] is the oldest
    for (;;) {
      bool op = __v_bool();
      if (op) { int v = __v_int("pushed"); f.push_back(v); for (signed char i = 0; i + 1 < N; ++i) s[i] = s[i + 1]; s[N - 1] = v; __v_reach("pushed"); }
      else if (__v_bool()) { int v = __v_int("filled"); f.fill(v); for (signed char i = 0; i < N; ++i) s[i] = v; }
      else { int v = __v_int("set"); signed char k = N - 1; if (__v_bool()) k = 0; f[k] = v; s[k] = v; }
      for (signed char i = 0; i < N; ++i) { const FiFo<int> &c = f; __v_assert(f[i] == s[i] && c[i] == s[i], "C03: a queue keeps the newest elements, the oldest at position 0"); }
      if (__v_bool()) break;
    }
  } __v_gc();
}
}
DRIVER(fifo_order_1) { ENOUGH; __v_exact(); fifo<1>(); }
DRIVER(fifo_order_2) { ENOUGH; __v_exact(); fifo<2>(); }
DRIVER(fifo_order_3) { ENOUGH; __v_exact(); fifo<3>(); }
DRIVER(fifo_order_5) { ENOUGH; __v_exact(); fifo<5>(); }
// push and pop
namespace drv {
template <class P> static void rotate(P &p, unsigned int cap) {
  unsigned int len = 0;
  for (;;) {
    long op = __v_range(0, 6);
    if (op == 0) { p.push_back(4); if (len < cap) ++len; }
    else if (op == 1) { if (len) { p.pop_front(); --len; __v_reach("popped"); } else if (CHECKED) __v_assert(THROWS(p.pop_front()), "C03: nothing is popped from an empty buffer [debug]"); }
    else if (op == 2) { int i = (int)__v_range(0, 3000000); if ((unsigned)i < len) { p[i] = 6; const P &c = p; __v_assert(&c[i] == &p[i], "C03: reading and writing access reach the same element"); } }
    else if (op == 3) { p.fill(8); }
    else if (op == 4) { p.clear(); len = 0; }
    else if (op == 5) { P q(p); __v_assert(q.size() == len, "C02: a copy has the size of its source"); if (len) q.pop_front(); q.push_back(9); }
    else { P q; q = p; __v_assert(q.size() == len, "C02: a copy has the size of its source"); }
    __v_assert(p.size() == len, "C03: the size of a buffer is what was pushed and not popped, up to its capacity");
    if (__v_bool()) break;
  }
}
template <class P, int MODE> static void bounds(P &p, unsigned int cap) {
  for (;;) {
    if (__v_bool()) p.push_back(4); else if (__v_bool()) { if (p.size()) p.pop_front(); }
    if (MODE == 0) { int i = (int)__v_range(0, 3000000); p[i] = 6; const P &c = p; __v_assert(&c[i] == &p[i], "C03: reading and writing access reach the same element"); }
    if (MODE == 1) { if (__v_bool()) p.clear(); }
    if (__v_bool()) break;
  }
  if (MODE == 1) { p.fill(8); P q(p); q.push_back(9); if (q.size()) q.pop_front(); }
}
template <class P, signed char N> static void order(P &p) {
  int s[N]; signed char len = 0; for (signed char i = 0; i < N; ++i) s[i] = 0;
  for (;;) {
    if (__v_bool()) { int v = __v_int("pushed"); p.push_back(v); if (len == N) { for (signed char i = 0; i + 1 < N; ++i) s[i] = s[i + 1]; s[N - 1] = v; } else s[len++] = v; __v_reach("pushed"); }
    else if (len && __v_bool()) { int v = p.pop_front(); __v_assert(v == s[0], "C03: the oldest element is popped first"); for (signed char i = 0; i + 1 < N; ++i) s[i] = s[i + 1]; --len; s[len] = 0; __v_reach("popped"); }
    else if (__v_bool()) { p.clear(); len = 0; for (signed char i = 0; i < N; ++i) s[i] = 0; }
    else if (__v_bool()) { P q; q(p); __v_assert(q.size() == (unsigned)len, "C02+C03: a copy has the size of its source"); for (signed char i = 0; i < len; ++i) __v_assert(q[i] == s[i], "C02+C03: a copy has the elements of its source"); }
    else { P q(p); __v_assert(q.size() == (unsigned)len, "C02+C03: a copy has the size of its source"); for (signed char i = 0; i < len; ++i) __v_assert(q[i] == s[i], "C02+C03: a copy has the elements of its source"); }
    __v_assert(p.size() == (unsigned)len, "C03: the size of a buffer is what was pushed and not popped, up to its capacity");
    for (signed char i = 0; i < len; ++i) { const P &c = p; __v_assert(p[i] == s[i] && c[i] == s[i], "C03: positions count from the oldest element"); }
    if (__v_bool()) break;
  }
}
}
DRIVER(push_and_pop_dynamic_0) { ENOUGH; __v_heads(2); { unsigned int n = SIZE(); PushAndPop<int> p(n); bounds<PushAndPop<int>, 0>(p, n); } __v_gc(); }
DRIVER(push_and_pop_dynamic_1) { ENOUGH; __v_heads(2); { unsigned int n = SIZE(); PushAndPop<int> p(n); bounds<PushAndPop<int>, 1>(p, n); } __v_gc(); }
DRIVER(push_and_pop_default) { ENOUGH; { PushAndPop<int> p; rotate(p, 0); } __v_gc(); }
DRIVER(push_and_pop_resized_0) { ENOUGH; __v_heads(2); { PushAndPop<int> p(SIZE()); if (__v_bool()) p.push_back(1); unsigned int n = SIZE(); p.resize(n); __v_assert(p.size() == 0, "C03: a resized buffer is empty"); bounds<PushAndPop<int>, 0>(p, n); } __v_gc(); }
DRIVER(push_and_pop_resized_1) { ENOUGH; __v_heads(2); { PushAndPop<int> p(SIZE()); if (__v_bool()) p.push_back(1); unsigned int n = SIZE(); p.resize(n); __v_assert(p.size() == 0, "C03: a resized buffer is empty"); bounds<PushAndPop<int>, 1>(p, n); } __v_gc(); }
DRIVER(push_and_pop_fixed) { ENOUGH; __v_exact(); { PushAndPop<int, 3> p; rotate(p, 3); } __v_gc(); }
DRIVER(push_and_pop_order_fixed_1) { ENOUGH; __v_exact(); { PushAndPop<int, 1> p; drv::order<PushAndPop<int, 1>, 1>(p); } __v_gc(); }
DRIVER(push_and_pop_order_fixed_3) { ENOUGH; __v_exact(); { PushAndPop<int, 3> p; drv::order<PushAndPop<int, 3>, 3>(p); } __v_gc(); }
DRIVER(push_and_pop_order_1) { ENOUGH; __v_exact(); { PushAndPop<int> p(1); drv::order<PushAndPop<int>, 1>(p); } __v_gc(); }
DRIVER(push_and_pop_order_2) { ENOUGH; __v_exact(); { PushAndPop<int> p(2); drv::order<PushAndPop<int>, 2>(p); } __v_gc(); }
DRIVER(push_and_pop_order_fill) { ENOUGH; __v_exact(); { int v = __v_int("value"); PushAndPop<int> p(2, v); __v_assert(p.size() == 0, "C03: a new buffer is empty"); drv::order<PushAndPop<int>, 2>(p); } __v_gc(); }
DRIVER(push_and_pop_order_fixed_4) { ENOUGH; __v_exact(); { PushAndPop<int, 4> p; drv::order<PushAndPop<int, 4>, 4>(p); } __v_gc(); }
#ifdef ECL_MEM_CHECK_ARRAYS
DRIVER(memory_runs_out) { // a failed allocation leaves an empty array, nothing is lost or released twice
  { Dyn a; if (__v_bool()) { try { a.resize(SIZE()); } catch (const StandardException &e) { __v_assert(e.flag() == MemoryError, "C02: the only failure of a resize is to run out of memory"); __v_assert(a.size() == 0, "C02: an array that could not be resized is empty"); } }
    unsigned int n = SIZE(); bool t = false;
    try { a.resize(n); } catch (const StandardException &e) { t = true; __v_assert(e.flag() == MemoryError, "C02: the only failure of a resize is to run out of memory"); __v_reach("memory ran out"); }
    __v_assert(a.size() == (t ? 0 : n), "C02: an array that could not be resized is empty"); touch(a, a.size());
    try { Dyn b(a); b = a; __v_assert(b.size() == a.size(), "C02: a copy has the size of its source"); } catch (const StandardException &e) { __v_assert(e.flag() == MemoryError, "C02: the only failure of a copy is to run out of memory"); }
  } __v_gc();
}
#endif
