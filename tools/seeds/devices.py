PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <dirent.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
'''
OF = PRE + r'''
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include "ecl_devices/src/lib/ofile_pos.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"
using namespace ecl;
'''
seed('ofile_dtor_keeps_failed_stream', 'D01', [('ecl_devices/src/lib/ofile_pos.cpp', '''OFile::~OFile() {
	if ( open() ) {''', '''OFile::~OFile() {
	if ( open() && ( error_handler == NoError ) ) {''')],
 'an output file whose last operation failed is destroyed without an explicit close()',
 'the stream and its descriptor are never released after a failed write or flush', OF + r'''
int main() {
  int before = fds();
  for (int i = 0; i < 5; ++i) {
    OFile f;
    try { CHECK(f.open("/dev/full", Append)); f.write("x", 1); f.flush(); } catch (const StandardException &) {}
  }
  CHECK(fds() == before);
  return 0;
}
''', '-DNDEBUG')
seed('ofile_short_write_is_success', 'D02', [('ecl_devices/src/lib/ofile_pos.cpp', '''fwrite(s,n,1,file);''', '''fwrite(s,1,n,file);'''), ('ecl_devices/src/lib/ofile_pos.cpp', '''	return n*written;''', '''	return written;''')],
 'a write that the system accepts only in part (disk full, file size limit)',
 'a write that failed part-way is reported as a success and error() says NoError', OF + r'''
int main() {
  signal(SIGXFSZ, SIG_IGN); struct rlimit l = {10000, 10000}; setrlimit(RLIMIT_FSIZE, &l);
  static char big[50000];
  OFile f; long n = 0; bool thrown = false;
  try { CHECK(f.open("out", New)); n = f.write(big, sizeof big); } catch (const StandardException &) { thrown = true; }
  CHECK(thrown || n < 0);
  return 0;
}
''')
SHF = PRE + r'''
#include "ecl_devices/src/lib/detail/error_handler.cpp"
#include "ecl_devices/src/lib/detail/exception_handler_pos.cpp"
#include "ecl_devices/src/lib/detail/character_buffer.cpp"
#include "ecl_devices/src/lib/ofile_pos.cpp"
#include "ecl_threads/src/lib/mutex_pos.cpp"
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_devices/src/lib/shared_file.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"
using namespace ecl;
static bool isOpen(const char *name) { bool r = false; DIR *d = opendir("/proc/self/fd"); while (dirent *e = readdir(d)) { char b[300] = {0}; std::string p = std::string("/proc/self/fd/") + e->d_name; if (readlink(p.c_str(), b, 299) > 0 && !strcmp(b, name)) r = true; } closedir(d); return r; }
'''
seed('shared_file_dropped_after_error', 'D04', [('ecl_devices/src/lib/shared_file.cpp', '''	if ( iter->second->count == 1 ) {''', '''	if ( ( iter->second->count == 1 ) || ( iter->second->file.error() != NoError ) ) {''')],
 'two handles on the same file, a failed write, and then one of them is destroyed',
 'the file is closed and freed while another handle still uses it', SHF + r'''
int main() {
  SharedFile *a = new SharedFile, *b = new SharedFile; static char big[200000];
  try { CHECK(a->open("/dev/full", Append)); CHECK(b->open("/dev/full", Append)); } catch (const StandardException &) { CHECK(false); }
  try { b->write(big, sizeof big); b->flush(); } catch (const StandardException &) {}
  delete a;
  CHECK(isOpen("/dev/full"));
  return 0;
}
''', '-DNDEBUG')
seed('string_write_exact_fit', 'D05', [('ecl_devices/src/lib/string.cpp', '''static_cast<long>(buffer_length) - 1 - static_cast<long>(n) )''', '''static_cast<long>(buffer_length) - static_cast<long>(n) )''')],
 'a write that fills the reserved memory of the string device exactly, up to its last byte, followed by c_str()',
 'the terminator that c_str() appends lies one byte past the end of the buffer', PRE + r'''
#include "ecl_devices/src/lib/string.cpp"
using namespace ecl;
int main() {
  String s; static char b[300]; memset(b, 'x', sizeof b);
  s.write(b, 10);               // reserves 10 + 256 + 1
  s.write(b, 257);              // exactly the rest
  CHECK(s.c_str()[0] == 'x');   // the address sanitizer stops here if the terminator is outside
  CHECK(strlen(s.c_str()) == 267);
  return 0;
}
''', '-fsanitize=address -g')
seed('char_buffer_append_past_end', 'D05', [('ecl_devices/src/lib/detail/character_buffer.cpp', '''long CharStringBuffer::append(const char* s, unsigned long n) {

	if ( n <= remaining() ) {''', '''long CharStringBuffer::append(const char* s, unsigned long n) {

	if ( n <= remaining() + 1 ) {''')],
 'an append of exactly one character more than the space that is left, followed by another operation',
 'the buffer is filled beyond its capacity; the fill marker passes the end, so full() is never true again', PRE + r'''
#include "ecl_devices/src/lib/detail/character_buffer.cpp"
using namespace ecl::devices;
int main() {
  CharStringBuffer *b = new CharStringBuffer; unsigned long cap = CharStringBuffer::buffer_size;
  char *big = (char *)calloc(1, cap + 10);
  CHECK(b->append(big, cap - 5) == (long)(cap - 5));
  CHECK(b->append(big, 6) == 5);
  CHECK(b->full()); CHECK(b->remaining() == 0); CHECK(b->append('x') == 0);
  return 0;
}
''')
