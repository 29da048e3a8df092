// Signals, slots and topics: every order of connecting, emitting, disconnecting, copying and destroying.
#include "v.h"
#include "mini_map.h"
#include "mini_set.h"
#include "thin_exception.h"
#include <ecl/config/ecl.hpp>
// The mutex itself is the subject of T01; here it only has to say whether it is held.
#include <ecl/threads/mutex.hpp>
#include <new>
#define LK mutex.__data.__lock
namespace ecl {
Mutex::Mutex(const bool) { LK = 0; }
Mutex::~Mutex() { __v_assert(LK == 0, "S01: a mutex is destroyed while it is locked"); }
void Mutex::lock() { __v_assert(LK == 0, "S01: a lock is taken twice (deadlock)"); LK = 1; }
void Mutex::unlock() { __v_assert(LK == 1, "S01: a lock that is not held is released"); LK = 0; }
bool Mutex::trylock() { if (LK) return false; LK = 1; return true; }
bool Mutex::trylock(Duration &) { return trylock(); }
}
#include <ecl/sigslots.hpp>
using namespace ecl;
namespace drv {
static signed char runs[2]; static int datum;
static void f0() { runs[0]++; } static void f1() { runs[1]++; }
struct Obj { int tag; Obj() : tag(77) {} void g() { __v_assert(tag == 77, "S01: a slot runs its function on another object"); runs[1]++; } void h(int d) { __v_assert(tag == 77, "S01: a slot runs its function on another object"); __v_assert(d == datum, "S01: a slot receives the data that was emitted"); runs[1]++; } };
static void d0(int d) { __v_assert(d == datum, "S01: a slot receives the data that was emitted"); runs[0]++; }
static Obj &drv_obj() { static Obj o; return o; }
static std::string name(bool b) { return b ? "b" : "a"; }
}
using namespace drv;
template <class T> struct Make;
template <> struct Make<Void> { static Slot<> *slot(bool i, Obj &o) { return i ? new Slot<>(&Obj::g, o) : new Slot<>(f0); } static Slot<> *slot(bool i, Obj &o, const std::string &t) { return i ? new Slot<>(&Obj::g, o, t) : new Slot<>(f0, t); } static void emit(Signal<> &s) { s.emit(); } };
template <> struct Make<int> { static Slot<int> *slot(bool i, Obj &o) { return i ? new Slot<int>(&Obj::h, o) : new Slot<int>(d0); } static Slot<int> *slot(bool i, Obj &o, const std::string &t) { return i ? new Slot<int>(&Obj::h, o, t) : new Slot<int>(d0, t); } static void emit(Signal<int> &s) { datum = __v_int("data"); s.emit(datum); datum = 0; } };
#define EXPECT(i, n) __v_assert(runs[i] == (n), "S01: emitting runs each connected slot once and no other")
// one signal, two slots, one topic
namespace drv {
template <class T> static void star() {
  Signal<T> *sig = NULL; Slot<T> *slot[2] = {NULL, NULL}; bool sc = false, lc[2] = {false, false}; Obj o;
  for (;;) {
    long op = __v_range(0, 8); bool i = __v_bool(); runs[0] = runs[1] = 0; 
    if (op == 0) { if (!sig) { if (__v_bool()) { sig = new Signal<T>; sc = false; } else { sig = new Signal<T>("a"); sc = true; } } }
    else if (op == 1) { if (!slot[i]) { if (__v_bool()) { slot[i] = Make<T>::slot(i, o); lc[i] = false; } else { slot[i] = Make<T>::slot(i, o, "a"); lc[i] = true; } } }
    else if (op == 2) { if (sig) { sig->connect("a"); sc = true; } }
    else if (op == 3) { if (slot[i]) { slot[i]->connect("a"); lc[i] = true; } }
    else if (op == 4) { if (sig) { sig->disconnect(); sc = false; } }
    else if (op == 5) { if (slot[i]) { slot[i]->disconnect(); lc[i] = false; } }
    else if (op == 6) { if (sig) { Make<T>::emit(*sig); EXPECT(0, sc && lc[0] ? 1 : 0); EXPECT(1, sc && lc[1] ? 1 : 0); __v_reach("emit"); } }
    else if (op == 7) { if (sig) { delete sig; sig = NULL; sc = false; } else if (slot[i]) { delete slot[i]; slot[i] = NULL; lc[i] = false; } }
    else { if (slot[i]) { delete slot[i]; slot[i] = NULL; lc[i] = false; } }
    if (op != 6) { EXPECT(0, 0); EXPECT(1, 0); }
    if (__v_bool()) break;
  }
  if (__v_bool()) delete sig; else { delete slot[0]; slot[0] = NULL; delete sig; }
  if (slot[0]) delete slot[0];
  delete slot[1];
  __v_gc();
}
// one signal, one slot, two topics
template <class T> static void topics() {

  Signal<T> *sig = NULL; Slot<T> *slot = NULL; bool sa = false, sb = false, la = false, lb = false; Obj o;
  for (;;) {
    long op = __v_range(0, 6); bool t = __v_bool(); runs[0] = runs[1] = 0; 
    if (op == 0) { if (!sig) sig = new Signal<T>; if (!slot) slot = Make<T>::slot(false, o); }
    else if (op == 1) { if (sig) { sig->connect(name(t)); (t ? sb : sa) = true; } }
    else if (op == 2) { if (slot) { slot->connect(name(t)); (t ? lb : la) = true; } }
    else if (op == 3) { if (sig) { sig->disconnect(); sa = sb = false; } }
    else if (op == 4) { if (slot) { slot->disconnect(); la = lb = false; } }
    else if (op == 5) { if (sig) { Make<T>::emit(*sig); EXPECT(0, (sa && la ? 1 : 0) + (sb && lb ? 1 : 0)); __v_reach("emit"); } }
    else { if (t) { delete sig; sig = NULL; sa = sb = false; } else { delete slot; slot = NULL; la = lb = false; } }
    if (op != 5) EXPECT(0, 0);
    if (__v_bool()) break;
  }
  if (__v_bool()) { delete sig; delete slot; } else { delete slot; delete sig; }
  __v_gc();
}
// two signals, one slot, one topic
template <class T> static void fan() {
  Signal<T> *sig[2] = {NULL, NULL}; Slot<T> *slot = NULL; bool sc[2] = {false, false}, lc = false; Obj o;
  for (;;) {
    long op = __v_range(0, 6); bool i = __v_bool(); runs[0] = runs[1] = 0; 
    if (op == 0) { if (!sig[i]) sig[i] = new Signal<T>; }
    else if (op == 1) { if (!slot) slot = Make<T>::slot(true, o); }
    else if (op == 2) { if (sig[i]) { sig[i]->connect("a"); sc[i] = true; } }
    else if (op == 3) { if (slot) { slot->connect("a"); lc = true; } }
    else if (op == 4) { if (sig[i]) { if (__v_bool()) sig[i]->disconnect(); else { delete sig[i]; sig[i] = NULL; } sc[i] = false; } }
    else if (op == 5) { if (sig[i]) { Make<T>::emit(*sig[i]); EXPECT(1, sc[i] && lc ? 1 : 0); __v_reach("emit"); } }
    else { if (slot) { if (__v_bool()) slot->disconnect(); else { delete slot; slot = NULL; } lc = false; } }
    if (op != 5) EXPECT(1, 0);
    if (__v_bool()) break;
  }
  delete sig[0]; if (__v_bool()) { delete sig[1]; delete slot; } else { delete slot; delete sig[1]; }
  __v_gc();
}
// a signal, a relay that listens to it and passes on, a slot behind the relay
template <class T> static void relay() {
  Signal<T> *sig = NULL, *rel = NULL; Slot<T> *slot = NULL; bool sc = false, rin = false, rout = false, lc = false; Obj o;
  for (;;) {
    long op = __v_range(0, 8); runs[0] = runs[1] = 0; 
    if (op == 0) { if (!sig) sig = new Signal<T>; if (!slot) slot = Make<T>::slot(false, o); }
    else if (op == 1) { if (!rel) rel = new Signal<T>; }
    else if (op == 2) { if (sig) { sig->connect("a"); sc = true; } if (slot) { slot->connect("b"); lc = true; } }
    else if (op == 3) { if (rel) { rel->connectAsSlot("a"); rin = true; } }
    else if (op == 4) { if (rel) { rel->connect("b"); rout = true; } }
    else if (op == 5) { if (sig) { Make<T>::emit(*sig); EXPECT(0, sc && rin && rout && lc ? 1 : 0); __v_reach("emit"); } }
    else if (op == 6) { if (rel) { Make<T>::emit(*rel); EXPECT(0, rout && lc ? 1 : 0); __v_reach("emit relay"); } }
    else if (op == 7) { if (rel) { rel->disconnect(); rin = rout = false; } }
    else { if (rel) { delete rel; rel = NULL; rin = rout = false; } }
    if (__v_bool()) break;
  }
  if (__v_bool()) { delete sig; delete rel; } else { delete rel; delete sig; }
  delete slot;
  __v_gc();
}
// a relay that listens to the topic it publishes: connecting, disconnecting and destroying it
template <class T> static void loop() {
  Signal<T> *rel = new Signal<T>; Slot<T> *slot = NULL; bool in = false, out = false, lc = false; Obj o;
  for (;;) {
    long op = __v_range(0, 5); runs[0] = runs[1] = 0; 
    if (op == 0) { rel->connectAsSlot("a"); in = true; }
    else if (op == 1) { rel->connect("a"); out = true; }
    else if (op == 2) { rel->disconnect(); in = out = false; }
    else if (op == 3) { if (!(in && out)) { Make<T>::emit(*rel); EXPECT(0, out && lc ? 1 : 0); __v_reach("emit"); } }
    else if (op == 4) { if (!slot) { slot = Make<T>::slot(false, o, "a"); lc = true; } }
    else { if (slot) { delete slot; slot = NULL; lc = false; } }
    if (__v_bool()) break;
  }
  delete rel; delete slot;
  __v_gc();
}
// leaving one topic by its name: every part the object plays in that topic ends, and no part it plays in another one
template <class T> struct Raw;
template <> struct Raw<Void> { SigSlot<Void> s; Raw() : s(f0) {} Raw(Obj &o) : s(&Obj::g, o) {} void emit() { s.emit(); } };
template <> struct Raw<int> { SigSlot<int> s; Raw() : s(d0) {} Raw(Obj &o) : s(&Obj::h, o) {} void emit() { datum = __v_int("datum"); s.emit(datum); } };
template <class T> static void leave() {
  Obj o; Raw<T> src, mid, sink(o); bool in[2] = {false, false}, out[2] = {false, false};
  src.s.connectSignal(name(false)); src.s.connectSignal(name(true)); sink.s.connectSlot(name(false)); sink.s.connectSlot(name(true));
  for (;;) {
    long op = __v_range(0, 4); bool i = __v_bool(); runs[0] = runs[1] = 0;
    if (op == 0) { mid.s.connectSlot(name(i)); in[i] = true; }
    else if (op == 1) { mid.s.connectSignal(name(i)); out[i] = true; }
    else if (op == 2) { mid.s.disconnect(name(i)); in[i] = out[i] = false; }
    else if (op == 3) { src.emit(); EXPECT(0, in[0] + in[1]); EXPECT(1, 2); __v_reach("from others"); }
    else { mid.emit(); EXPECT(0, (in[0] && out[0]) + (in[1] && out[1])); EXPECT(1, out[0] + out[1]); __v_reach("to others"); }
    if (__v_bool()) break;
  }
}
// copies are further handles of the same signal or slot: the connection lasts until the last of them goes
template <class T> static void copies() {
  Signal<T> *sig[2] = {new Signal<T>("a"), NULL}; Slot<T> *slot[2] = {NULL, NULL}; Obj o; bool shared = false, lc = false;
  slot[0] = Make<T>::slot(false, o, "a"); lc = true;
  for (;;) {
    long op = __v_range(0, 7); bool i = __v_bool(); runs[0] = runs[1] = 0; 
    Slot<T> *live = slot[0] ? slot[0] : slot[1];
    if (op == 0) { if (sig[i] && !sig[!i]) sig[!i] = new Signal<T>(*sig[i]); }
    else if (op == 1) { if (slot[i] && !slot[!i]) slot[!i] = new Slot<T>(*slot[i]); }
    else if (op == 2) { if (sig[i] && sig[!i]) *sig[i] = *sig[!i]; }
    else if (op == 3) { if (slot[i] && slot[!i]) *slot[i] = *slot[!i]; }
    else if (op == 4) { if (sig[i]) { delete sig[i]; sig[i] = NULL; } }
    else if (op == 5) { if (slot[i]) { delete slot[i]; slot[i] = NULL; } }
    else if (op == 6) { if (sig[i]) { Make<T>::emit(*sig[i]); EXPECT(0, live && lc ? 1 : 0); __v_reach("emit"); } }
    else { if (slot[i]) { if (lc) slot[i]->disconnect(); else slot[i]->connect("a"); lc = !lc; } }
    if (__v_bool()) break;
  }
  delete sig[0]; delete sig[1]; delete slot[0]; delete slot[1];
  __v_gc();
}
// assignment from another signal or slot: the old one goes with its last handle
template <class T> static void assign() {
  Signal<T> *s0 = new Signal<T>("a"), *s1 = new Signal<T>("b"); Slot<T> *l0 = Make<T>::slot(false, drv_obj(), "a"), *l1 = Make<T>::slot(true, drv_obj(), "b");
  signed char gone = 0;
  if (__v_bool()) { *l0 = *l1; gone = 1; } else if (__v_bool()) { *l1 = *l0; gone = 2; }
  if (__v_bool()) { *l0 = *l0; *s1 = *s1; }
  runs[0] = runs[1] = 0; Make<T>::emit(*s0); EXPECT(0, gone == 1 ? 0 : 1); EXPECT(1, 0);
  runs[0] = runs[1] = 0; Make<T>::emit(*s1); EXPECT(1, gone == 2 ? 0 : 1); EXPECT(0, 0);
  if (__v_bool()) *s0 = *s1;
  runs[0] = runs[1] = 0; Make<T>::emit(*s1); EXPECT(1, gone == 2 ? 0 : 1); EXPECT(0, 0);
  if (__v_bool()) { delete l0; runs[0] = runs[1] = 0; Make<T>::emit(*s1); EXPECT(1, gone == 2 ? 0 : 1); delete l1; } else { delete l1; delete l0; }
  delete s0; delete s1;
  __v_gc();
}
}
DRIVER(star_void) { drv::star<Void>(); }
DRIVER(star_data) { drv::star<int>(); }
DRIVER(topics_void) { drv::topics<Void>(); }
DRIVER(topics_data) { drv::topics<int>(); }
DRIVER(fan_void) { drv::fan<Void>(); }
DRIVER(fan_data) { drv::fan<int>(); }
DRIVER(relay_void) { drv::relay<Void>(); }
DRIVER(relay_data) { drv::relay<int>(); }
DRIVER(loop_void) { drv::loop<Void>(); }
DRIVER(loop_data) { drv::loop<int>(); }
DRIVER(leave_void) { drv::leave<Void>(); __v_gc(); }
DRIVER(leave_data) { drv::leave<int>(); __v_gc(); }
DRIVER(copies_void) { drv::copies<Void>(); }
DRIVER(copies_data) { drv::copies<int>(); }
DRIVER(assign_void) { drv::assign<Void>(); }
DRIVER(assign_data) { drv::assign<int>(); }
