// Flag sets against sets of flags; function objects, references and parameters with callables that record who was called with what.
#include "v.h"
#include "thin_exception.h"
#include <ecl/utilities/flags.hpp>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/parameter.hpp>
using namespace ecl;
namespace drv {
enum Option { None = 0, A = 1, B = 2, C = 8, D = 1 << 30, AB = 3, High = (int)0x80000000 };
typedef Flags<Option> Options;
static int subset() { int v = 0; if (__v_bool()) v |= A; if (__v_bool()) v |= B; if (__v_bool()) v |= C; if (__v_bool()) v |= D; if (__v_bool()) v |= High; return v; }
static Options make(int v) { Options f; if (v & A) f |= A; if (v & B) f |= B; if (v & C) f |= C; if (v & D) f |= D; if (v & High) f |= High; return f; }
static Option one() { switch (__v_range(0, 6)) { case 0: return None; case 1: return A; case 2: return B; case 3: return C; case 4: return D; case 5: return High; default: return AB; } }
static void is(const Options &f, int v) { __v_assert((int)f == v, "U01: the result of an operation on flag sets is the set of flags it should be"); }
}
using namespace drv;
DRIVER(flags_test) { __v_exact(); __v_heads(200); int v = subset(); Options f = make(v); is(f, v); Option o = one();
  bool set = f.testFlag(o);
  if (o == None) __v_assert(set == (v == 0), "U01: the empty flag is set in the empty set only");
  else if (o == AB) { if ((v & AB) == 0) __v_assert(!set, "U01: a flag that is not in the set is not reported"); if ((v & AB) == AB) __v_assert(set, "U01: a flag that is in the set is reported"); }
  else __v_assert(set == ((v & o) != 0), "U01: a flag is reported if and only if it is in the set");
  is(f, v); Options g(f), h; h = f; is(g, v); is(h, v); is(Options(o), o); h = o; is(h, o); f.clear(); is(f, 0); is(g, v); Options e; is(e, 0); }
DRIVER(flags_and_flag) { __v_exact(); __v_heads(200); int v = subset(), o = one(); Options f = make(v);
  is(f | (Option)o, v | o); is(f & (Option)o, v & o); is(f ^ (Option)o, v ^ o); is((Option)o | f, v | o); is(~f, ~v); is(f, v);
  Options g(f); g |= (Option)o; is(g, v | o); g = f; g ^= (Option)o; is(g, v ^ o); g = f; g &= o; is(g, v & o); g = f; g &= ~o; is(g, v & ~o); is(f & ~o, v & ~o); }
DRIVER(flags_and_flags) { __v_exact(); __v_heads(1200); int v = subset(), w = subset(); Options f = make(v), g = make(w);
  is(f | g, v | w); is(f & (int)g, v & w); is(f ^ g, v ^ w); is(f, v); is(g, w);
  Options h(f); h |= g; is(h, v | w); h = f; h ^= g; is(h, v ^ w); h = f; h &= g; is(h, v & w); h = f; h &= ~g; is(h, v & ~w); is(g, w); }
// ---- function objects
namespace drv {
static int calls, arg, arg2; static const void *on, *argAt;
struct Thing { int id; int keep; virtual ~Thing() {}
  int r0() { calls++; on = this; return id; } void v0() { calls++; on = this; }
  int r1(int a) { calls++; on = this; arg = a; return a - 1; } void v1(int a) { calls++; on = this; arg = a; }
  int rc(const int &a) { calls++; on = this; arg = a; argAt = &a; return a - 1; } void vr(int &a) { calls++; on = this; arg = a; argAt = &a; a = 7; }
  int r2(int a, short b) { calls++; on = this; arg = a; arg2 = b; return a - 2; } void v2(int a, short b) { calls++; on = this; arg = a; arg2 = b; }
  virtual int w0() { calls++; on = 0; return -1; } };
struct Other { virtual ~Other() {} long pad; };
struct Derived : Other, Thing { virtual int w0() { calls++; on = (Thing *)this; return 33; } };
static int fr0() { calls++; return 12; } static void fv0() { calls++; }
static int fr1(int a) { calls++; arg = a; return a - 1; } static void fv1(int a) { calls++; arg = a; }
static long frc(const int &a) { calls++; arg = a; argAt = &a; return 5; } static void fvr(int &a) { calls++; arg = a; argAt = &a; a = 7; }
struct Functor { typedef int result_type; int state; int operator()() { calls++; on = this; arg = state; return state - 1; } };
struct VoidFunctor { typedef void result_type; int state; void operator()() { calls++; on = this; arg = state; } };
struct Functor1 { typedef int result_type; int state; int operator()(int a) { calls++; on = this; arg = a; arg2 = state; return a - 1; } };
struct VoidFunctor1 { typedef void result_type; int state; void operator()(int a) { calls++; on = this; arg = a; arg2 = state; } };
static void fresh() { calls = 0; arg = arg2 = 0; on = argAt = 0; }
static void once(const void *o) { __v_assert(calls == 1, "U02: a function object calls its function once"); __v_assert(on == o, "U02: a member function is called on the object it was bound to"); fresh(); }
static void once1(const void *o, int a) { __v_assert(arg == a, "U02: arguments reach the function unchanged"); once(o); }
#define RESULT(x, r) __v_assert((x) == (r), "U02: the result of the function is returned")
}
DRIVER(free_functions) { int a = __v_int("a"), b = __v_int("b"); __v_assume(a > -2147483647 && b > -2147483647); fresh();
  NullaryFreeFunction<int> n(fr0); RESULT(n(), 12); once(0); NullaryFreeFunction<void> nv(fv0); nv(); once(0); nv(); once(0);
  UnaryFreeFunction<int, int> u(fr1); RESULT(u(a), a - 1); once1(0, a); UnaryFreeFunction<int, void> uv(fv1); uv(b); once1(0, b); UnaryFreeFunction<int, int> u2(u); RESULT(u2(b), b - 1); once1(0, b);
  UnaryFreeFunction<const int &, long> uc(frc); RESULT(uc(a), 5); __v_assert(argAt == &a, "U02: arguments taken by reference are the caller's"); once1(0, a);
  int x = b; UnaryFreeFunction<int &, void> ur(fvr); ur(x); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(0, b);
  NullaryFunction<int> &base = n; RESULT(base(), 12); once(0); UnaryFunction<int, int> &base1 = u; RESULT(base1(a), a - 1); once1(0, a);
  RESULT(generateFunctionObject(fr0)(), 12); once(0); generateFunctionObject(fv0)(); once(0); RESULT(generateFunctionObject(fr1)(a), a - 1); once1(0, a); generateFunctionObject(fv1)(b); once1(0, b); }
DRIVER(bound_free_functions) { int a = __v_int("a"), b = __v_int("b"); __v_assume(a > -2147483647 && b > -2147483647); fresh(); const int k = a; int x = b;
  BoundUnaryFreeFunction<int, int> r(fr1, a); a = 3; RESULT(r(), k - 1); once1(0, k); RESULT(r(), k - 1); once1(0, k); BoundUnaryFreeFunction<int, void> v(fv1, b); v(); once1(0, b);
  BoundUnaryFreeFunction<int &, void> vr(fvr, x); vr(); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(0, b);
  RESULT(generateFunctionObject(fr1, k)(), k - 1); once1(0, k); generateFunctionObject(fv1, b)(); once1(0, b); RESULT(generateFunctionObject(frc, k)(), 5); once1(0, k); RESULT(generateFunctionObject(frc, 8)(), 5); once1(0, 8);
  NullaryFunction<int> &base = r; RESULT(base(), k - 1); once1(0, k); BoundUnaryFreeFunction<int, int> c(r); RESULT(c(), k - 1); once1(0, k); }
DRIVER(member_functions) { int a = __v_int("a"), b = __v_int("b"); __v_assume(a > -2147483647 && b > -2147483647); Thing t, s; t.id = 4; s.id = 5; fresh();
  NullaryMemberFunction<Thing, int> n(&Thing::r0); RESULT(n(t), 4); once(&t); RESULT(n(s), 5); once(&s); NullaryMemberFunction<Thing, void> nv(&Thing::v0); nv(s); once(&s);
  UnaryMemberFunction<Thing, int, int> u(&Thing::r1); RESULT(u(t, a), a - 1); once1(&t, a); UnaryMemberFunction<Thing, int, void> uv(&Thing::v1); uv(s, b); once1(&s, b);
  RESULT(generateFunctionObject(&Thing::r0)(s), 5); once(&s); generateFunctionObject(&Thing::v0)(t); once(&t); RESULT(generateFunctionObject(&Thing::r1)(t, b), b - 1); once1(&t, b); generateFunctionObject(&Thing::v1)(s, a); once1(&s, a);
  int x = a; generateFunctionObject(&Thing::vr)(t, x); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(&t, a);
  UnaryFunction<Thing &, int> &base = n; RESULT(base(t), 4); once(&t); }
DRIVER(bound_member_functions) { int a = __v_int("a"), b = __v_int("b"); __v_assume(a > -2147483647 && b > -2147483647); Thing t, s; t.id = 4; s.id = 5; fresh(); const int k = a; int x = b;
  BoundNullaryMemberFunction<Thing, int> n(&Thing::r0, t); RESULT(n(), 4); once(&t); t.id = 6; RESULT(n(), 6); once(&t); BoundNullaryMemberFunction<Thing, void> nv(&Thing::v0, s); nv(); once(&s);
  PartiallyBoundUnaryMemberFunction<Thing, int, int> p(&Thing::r1, s); RESULT(p(a), a - 1); once1(&s, a); PartiallyBoundUnaryMemberFunction<Thing, int, void> pv(&Thing::v1, t); pv(b); once1(&t, b);
  PartiallyBoundUnaryMemberFunction<Thing, int &, void> pr(&Thing::vr, t); pr(x); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(&t, b); x = b;
  BoundUnaryMemberFunction<Thing, int, int> u(&Thing::r1, s, a); a = 9; RESULT(u(), k - 1); once1(&s, k); BoundUnaryMemberFunction<Thing, int, void> uv(&Thing::v1, t, b); uv(); once1(&t, b); uv(); once1(&t, b);
  BoundUnaryMemberFunction<Thing, int &, void> ur(&Thing::vr, s, x); ur(); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(&s, b);
  short q = __v_short("q"); PartiallyBoundBinaryMemberFunction<Thing, int, short, int> d(&Thing::r2, s); RESULT(d(b, q), b - 2); __v_assert(arg2 == q, "U02: arguments reach the function unchanged"); once1(&s, b);
  PartiallyBoundBinaryMemberFunction<Thing, int, short, void> dv(&Thing::v2, t); dv(b, q); __v_assert(arg2 == q, "U02: arguments reach the function unchanged"); once1(&t, b);
  NullaryFunction<int> &base = u; RESULT(base(), k - 1); once1(&s, k); UnaryFunction<int, int> &base1 = p; RESULT(base1(b), b - 1); once1(&s, b); BoundUnaryMemberFunction<Thing, int, int> c(u); RESULT(c(), k - 1); once1(&s, k); }
DRIVER(generated_member_functions) { int a = __v_int("a"), b = __v_int("b"); __v_assume(a > -2147483647 && b > -2147483647); Thing t, s; t.id = 4; s.id = 5; fresh(); const int k = a; int x = b;
  RESULT(generateFunctionObject(&Thing::r0, s)(), 5); once(&s); generateFunctionObject(&Thing::v0, t)(); once(&t); RESULT(generateFunctionObject(&Thing::r1, s)(b), b - 1); once1(&s, b); generateFunctionObject(&Thing::v1, t)(a); once1(&t, a);
  RESULT(generateFunctionObject(&Thing::r1, s, k)(), k - 1); once1(&s, k); RESULT(generateFunctionObject(&Thing::rc, s, x)(), b - 1); once1(&s, b); generateFunctionObject(&Thing::v1, t, 11)(); once1(&t, 11); RESULT(generateFunctionObject(&Thing::rc, t, 12)(), 11); once1(&t, 12);
  generateFunctionObject(&Thing::vr, s, x)(); __v_assert(argAt == &x && x == 7, "U02: arguments taken by reference are the caller's"); once1(&s, b); }
DRIVER(virtual_member_functions) { Derived d; d.id = 8; fresh(); Thing &t = d; RESULT(generateFunctionObject(&Thing::w0, t)(), 33); once(&t); RESULT(generateFunctionObject(&Thing::w0)(t), 33); once(&t); NullaryMemberFunction<Thing, int> n(&Thing::w0); RESULT(n(d), 33); once(&t); }
DRIVER(functors) { int a = __v_int("a"); __v_assume(a > -2147483647); fresh();
  Functor f; f.state = a; NullaryFunctionCopy<Functor, int> c(f); f.state = 1; RESULT(c(), a - 1); __v_assert(on != &f, "U02: a copy of a functor is called"); on = 0; once1(0, a);
  VoidFunctor v; v.state = a; NullaryFunctionCopy<VoidFunctor, void> cv(v); v.state = 1; cv(); __v_assert(on != &v, "U02: a copy of a functor is called"); on = 0; once1(0, a);
  NullaryFunctionReference<Functor, int> r(ref(f)); f.state = 5; RESULT(r(), 4); once1(&f, 5); NullaryFunctionReference<VoidFunctor, void> rv(ref(v)); v.state = 6; rv(); once1(&v, 6);
  Functor1 g; g.state = 5; UnaryFunctionCopy<Functor1, int, int> d(g); g.state = 6; RESULT(d(a), a - 1); __v_assert(arg2 == 5, "U02: a copy of a functor is called"); on = 0; once1(0, a);
  VoidFunctor1 w; w.state = 5; UnaryFunctionCopy<VoidFunctor1, int, void> dv(w); w.state = 6; dv(a); __v_assert(arg2 == 5, "U02: a copy of a functor is called"); on = 0; once1(0, a);
  UnaryFunctionReference<Functor1, int, int> s(ref(g)); RESULT(s(a), a - 1); once1(&g, a); UnaryFunctionReference<ReferenceWrapper<VoidFunctor1>, int, void> sv(ref(w)); sv(a); once1(&w, a);
  NullaryFunction<int> &base = r; RESULT(base(), 4); once1(&f, 5); }
struct Amp { int x; Amp *operator&() { return 0; } };
DRIVER(references) { int a = __v_int("a"), b = __v_int("b"); int x = a; ReferenceWrapper<int> r = ref(x); __v_assert(&r.reference() == &x && r.pointer() == &x, "U02: a reference wrapper refers to its object"); int &y = r; __v_assert(&y == &x, "U02: a reference wrapper refers to its object");
  ReferenceWrapper<int> s(r); x = b; __v_assert(s.reference() == b, "U02: a reference wrapper refers to its object"); s.reference() = 4; __v_assert(x == 4, "U02: a reference wrapper refers to its object");
  ReferenceWrapper<const int> c = cref(x); __v_assert(&c.reference() == &x && c.pointer() == &x, "U02: a reference wrapper refers to its object");
  Amp m; m.x = a; ReferenceWrapper<Amp> w = ref(m); w.reference().x = b; __v_assert(m.x == b, "U02: a reference wrapper refers to its object");
  int z = 9; ReferenceWrapper<int> q = ref(z); q = r; __v_assert(&q.reference() == &x && z == 9, "U02: a reference wrapper refers to its object"); }
DRIVER(parameters) { int a = __v_int("a"), b = __v_int("b"); Parameter<int> d; __v_assert(d() == 0, "U02: a parameter holds the type's default value, then what it was given"); Parameter<int> p(a); __v_assert(p() == a && (int)p == a, "U02: a parameter holds the type's default value, then what it was given");
  p = b; __v_assert(p() == b, "U02: a parameter holds the type's default value, then what it was given"); Parameter<int> q(p); p(a); __v_assert(p() == a && q() == b, "U02: a parameter holds the type's default value, then what it was given"); d = q; __v_assert((int)d == b, "U02: a parameter holds the type's default value, then what it was given"); }
