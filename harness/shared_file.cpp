#include "v.h"
static int held;
// The character buffer itself is the subject of D05; here a buffer of two characters stands for it.
#define ECL_DEVICES_BUFFER_HPP_
namespace ecl { namespace devices {
class CharBuffer {
  unsigned char fill; char contents[2];
public:
  static const unsigned int buffer_size = 2;
  CharBuffer() : fill(0) { contents[0] = contents[1] = 0; }
  unsigned int remaining() const { return buffer_size - fill; }
  unsigned int size() const { return fill; }
  bool full() const { return fill == buffer_size; }
  long append(const char &) { if (full()) return 0; ++fill; return 1; }
  long append(const char *, unsigned long n) { unsigned long k = remaining(); if (n < k) k = n; fill = (unsigned char)(fill + k); return (long)k; }
  void clear() { fill = 0; }
  char *c_ptr() { return contents; }
  const char *c_ptr() const { return contents; }
};
}}
#define V_MAP_HOOK __v_assert(held > 0, "D04: the registry of shared files is used without holding its lock")
#include "mini_map.h"
#include "thin_exception.h"
#include <ecl/config/ecl.hpp>
// The mutex itself is the subject of T01; here it only has to say whether it is held.
#include <ecl/threads/mutex.hpp>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <cerrno>
#define LK mutex.__data.__lock
namespace ecl {
Mutex::Mutex(const bool) { LK = 0; }
Mutex::~Mutex() { __v_assert(LK == 0, "D04: a mutex is destroyed while it is locked"); }
void Mutex::lock() { __v_assert(LK == 0, "D04: the registry lock is taken twice (deadlock)"); LK = 1; ++held; }
void Mutex::unlock() { __v_assert(LK == 1, "D04: the registry lock is released twice"); LK = 0; --held; }
bool Mutex::trylock() { if (LK) return false; LK = 1; ++held; return true; }
bool Mutex::trylock(Duration &) { return trylock(); }
}
// which error is reported is the subject of D03
#include <ecl/devices/detail/error_handler.hpp>
#include <ecl/devices/detail/exception_handler_pos.hpp>
namespace ecl { namespace devices {
ecl::Error open_error() { return OpenError; }
ecl::Error write_error() { return WriteError; }
ecl::Error read_error() { return ReadError; }
ecl::Error close_error() { return CloseError; }
StandardException open_exception(const char *loc, const std::string &) { return StandardException(loc, OpenError); }
StandardException close_exception(const char *loc, const std::string &) { return StandardException(loc, CloseError); }
StandardException write_exception(const char *loc) { return StandardException(loc, WriteError); }
StandardException read_exception(const char *loc) { return StandardException(loc, ReadError); }
}}
#include "ecl_devices/src/lib/ofile_pos.cpp"
#include "ecl_devices/src/lib/shared_file.cpp"
using namespace ecl;
static FILE *wrote; static int writes; static bool lost; // a write failed
extern "C" size_t fwrite(const void *p, size_t n, size_t k, FILE *f) {
  wrote = f; ++writes;
  __v_assert(__v_open_handles() > 0, "D04: data is written to a file that was closed");
  if (__v_bool()) { __v_reset_fail(); errno = EIO; lost = true; return 0; }
  return k;
}

namespace drv {
static SharedFile *h[2];
static signed char named[2];      // which name the handle is open on (0: none)
static bool pending[2];   // written since the last flush
static FILE *file_of[3];
static int users(int nm) { return (named[0] == nm) + (named[1] == nm); }
static const char *text(int nm) { return nm == 1 ? "one.txt" : "two.txt"; }
static char data[16];
static void gone(int nm) { if (nm && !users(nm)) file_of[nm] = nullptr; }
static void flushed(int nm, const char *) {
  if (file_of[nm]) __v_assert(wrote == file_of[nm], "D04: two handles of one name write to different files");
  for (int o = 1; o <= 2; ++o) if (o != nm && file_of[o]) __v_assert(wrote != file_of[o], "D04: handles of different names write to one file");
  file_of[nm] = wrote;
}
static void check() {
  __v_assert(held == 0, "D04: the registry lock is still held after an operation");
  __v_assert(__v_open_handles() == (users(1) > 0) + (users(2) > 0), "D04: the number of open files is not the number of names in use");
  for (int i = 0; i < 2; ++i) if (h[i]) {
    __v_assert(h[i]->open() == (named[i] != 0), "D02: open() says whether the handle can be used");
    if (named[i]) __v_assert(h[i]->count() == (unsigned)users(named[i]), "D04: count() is the number of handles that share the file");
    __v_use((int)h[i]->error().flag());
  }
}
static bool tryopen(SharedFile *&f, int nm, void *slot) {
  bool raii = slot != nullptr; if (raii) f = nullptr;
  try {
    if (raii) { f = new (slot) SharedFile(text(nm), New); return f->open(); }
    bool r = f->open(text(nm), New);
    __v_assert(r == (f->error() == NoError), "D02: error() agrees with the result of open()");
    return r;
  } catch (const StandardException &) { __v_reach("exception"); return false; }
}
static void use(int n, bool two, bool one = false) {
  named[0] = named[1] = 0; pending[0] = pending[1] = false; file_of[1] = file_of[2] = nullptr; h[0] = h[1] = nullptr;
  for (;;) {
    __v_reset_fail(); writes = 0; wrote = nullptr; lost = false;
    check();
    long op = __v_range(0, 5); int i = n > 1 && __v_bool() ? 1 : 0;
    int nm = two && __v_bool() ? 2 : 1;
    if (op == 0) {
      if (h[i]) continue;
      void *slot = ::operator new(sizeof(SharedFile));
      if (n == 1 && __v_bool()) { h[i] = new (slot) SharedFile(); named[i] = 0; pending[i] = false; }
      else { bool shared = users(nm) > 0; bool r = tryopen(h[i], nm, slot); if (!h[i]) ::operator delete(slot); named[i] = r ? nm : 0; pending[i] = false;
        if (shared) __v_assert(r, "D04: a second handle on a shared file could not be created");
        __v_reach("D04: create"); if (r) __v_reach("!D04: a shared file can be opened"); }
    } else if (op == 1) {
      if (!h[i]) continue;
      int was = named[i]; bool p = pending[i]; named[i] = 0; bool shared = users(nm) > 0;
      bool r = tryopen(h[i], nm, nullptr);
      if (was && p) { __v_assert(writes > 0, "D04: data written through a handle is lost when it is opened again"); if (writes > 0) { if (users(was) || was != nm) flushed(was, ""); } }
      gone(was); pending[i] = false;
      if (h[i]->open()) named[i] = nm;
      if (r) __v_assert(named[i] != 0, "D02: open() reports success but the handle is not open"); else __v_assert(named[i] == 0, "D02: open() reports failure but the handle is open");
      __v_assert(!r || !lost, "D02: open() reports success although what was written to the file before is lost");
      if (was == 0 && shared) __v_assert(r, "D04: a second handle on a shared file could not be opened");
      gone(was);
    } else if (op == 2) {
      if (!h[i]) continue;
      unsigned long k = n == 1 && __v_bool() ? 3 : 1;
      try {
        long r = one ? h[i]->write('c') : h[i]->write(data, k);
        __v_assert(named[i] || r < 0, "D02: write() reports success on a handle that is not open");
        __v_assert(r < 0 || !(__v_failed() || lost), "D02: write() reports success although an operating system call failed");
        if (writes) { flushed(named[i], ""); pending[i] = false; } else if (named[i]) pending[i] = true;
        if (r < 0) __v_assert(h[i]->error() != NoError, "D02: error() agrees with the result of write()"); else if (one) __v_reach("!D04: writing a character can succeed"); else __v_reach("!D04: write can succeed");
      } catch (const StandardException &) { if (writes) { flushed(named[i], ""); pending[i] = false; } }
      __v_reach("write");
    } else if (op == 3) {
      if (!h[i]) continue;
      try {
        bool r = h[i]->flush();
        __v_assert(r == (h[i]->error() == NoError), "D02: error() agrees with the result of flush()");
        __v_assert(named[i] || !r, "D02: flush() reports success on a handle that is not open");
        __v_assert(!r || !(__v_failed() || lost), "D02: flush() reports success although an operating system call failed");
        if (r && pending[i]) __v_assert(writes > 0, "D04: flush() does not write the buffered data");
        if (writes) flushed(named[i], "");
        pending[i] = false; if (r) __v_reach("!D04: flush can succeed");
      } catch (const StandardException &) { pending[i] = false; if (writes) flushed(named[i], ""); }
    } else if (op == 4) {
      if (!h[i]) continue;
      h[i]->~SharedFile(); ::operator delete((void *)h[i]); h[i] = nullptr;
      int was = named[i]; named[i] = 0;
      if (pending[i]) { __v_assert(writes > 0, "D04: data written through a handle is lost when the handle is destroyed"); if (writes) flushed(was, ""); }
      pending[i] = false; gone(was); __v_reach("destroy");
    } else break;
  }
  for (int i = 0; i < 2; ++i) { int was = named[i]; if (h[i]) { h[i]->~SharedFile(); ::operator delete((void *)h[i]); } h[i] = nullptr; named[i] = 0; pending[i] = false; gone(was); check(); }
}
}
DRIVER(shared_one) { __v_heads(3); drv::use(1, true); __v_gc(); }
DRIVER(shared_char) { __v_heads(3); drv::use(1, false, true); __v_gc(); }
DRIVER(shared_two) { __v_heads(3); drv::use(2, false); __v_gc(); }
DRIVER(shared_names_deep) { __v_heads(3); drv::use(2, true); __v_gc(); }
DRIVER(shared_copies) { SharedFile *a = new SharedFile; if (__v_bool()) TRY(a->open("one.txt", New)) v_copies(a); __v_assert(held == 0 && __v_open_handles() == 0, "D04: a shared file is not closed with its last user"); __v_gc(); }
DRIVER(shared_assigned) { SharedFile *a = new SharedFile, *b = new SharedFile; if (__v_bool()) TRY(a->open("one.txt", New)) if (__v_bool()) TRY(b->open("two.txt", New)) v_assigned(a, b); __v_assert(held == 0 && __v_open_handles() == 0, "D04: a shared file is not closed with its last user"); __v_gc(); }
