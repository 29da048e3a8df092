// The command line parser: a program declares arguments, a line of words is parsed; what is accepted, what the arguments say
// afterwards, how a refusal is reported, and what belongs to whom.
#include "v.h"
#define V_STRING_MAX 24
#define V_STRING_CUT 1 // the texts of messages are not judged and may be cut off
#include <iomanip>
#include <vector>
#include <list>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <exception>
#include "mini_string.h"
#include "mini_list.h"
#include <exception>
namespace drv {
struct Exit { int code; };
int exits, failures, usages, versions, outputs;
}
void v_exit(int c) { drv::exits++; throw drv::Exit{c}; }
namespace std { using ::v_exit; }
#define exit v_exit
#include <ecl/command_line/cmd_line_interface.hpp>
#include <ecl/command_line/cmd_line_output.hpp>
#include <ecl/command_line/arg_exception.hpp>
#define TCLAP_STDCMDLINEOUTPUT_H
namespace ecl {
class StdOutput : public CmdLineOutput {
public:
  StdOutput() { drv::outputs++; }
  virtual ~StdOutput() { drv::outputs--; }
  virtual void usage(CmdLineInterface &) { drv::usages++; }
  virtual void version(CmdLineInterface &) { drv::versions++; }
  virtual void failure(CmdLineInterface &, ArgException &) { drv::failures++; }
};
}
#include <ecl/command_line/cmd_line.hpp>
#include <ecl/command_line/value_arg.hpp>
#include <ecl/command_line/multi_arg.hpp>
#include <ecl/command_line/switch_arg.hpp>
using namespace ecl;

namespace drv {
typedef String S;
// what a line is made of: one or two words
struct Unit { const char *first, *second; int what; int value; };
char *words[16]; int count;
void start() {
  exits = failures = usages = versions = 0; count = 1; words[0] = const_cast<char *>("prog");
}
void word(const char *w) { if (w) words[count++] = const_cast<char *>(w); }
enum { ACCEPTED, REFUSED, LEFT_0, OTHER };
int parse(CmdLine &c) {
  try { c.parse(count, words); return exits ? OTHER : ACCEPTED; }
  catch (const Exit &e) { return exits != 1 ? OTHER : e.code == 0 ? LEFT_0 : e.code == 1 && failures == 1 && usages == 0 && versions == 0 ? REFUSED : OTHER; }
}
// the line is accepted if and only if it should be; a refusal is reported once and ends the program with 1
bool agree(CmdLine &c, bool good) {
  int r = parse(c);
  __v_assert(!(good && r != ACCEPTED), "L01: a line that uses the arguments as declared is refused");
  __v_assert(!(!good && r != REFUSED), "L01: a line that does not use the arguments as declared is not refused with a failure report and exit code 1");
  __v_reach("line parsed");
  return r == ACCEPTED;
}
template <int N> const Unit *choose(const Unit (&m)[N]) {
  switch (__v_range(0, N - 1)) {
#define C(i) case i: return &m[i < N ? i : 0];
  C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17)
#undef C
  }
  return &m[0];
}
int units() { switch (__v_range(0, 3)) { case 0: return 0; case 1: return 1; case 2: return 2; } return 3; }
int units2() { switch (__v_range(0, 2)) { case 0: return 0; case 1: return 1; } return 2; }
}
using namespace drv;

// switches: each at most once, alone or combined; repeatable switches count
namespace drv {
const Unit switch_menu[] = { {"-a", 0, 0x001, 0}, {"--apple", 0, 0x001, 0}, {"-b", 0, 0x010, 0}, {"--bear", 0, 0x010, 0}, {"-v", 0, 0x100, 0}, {"--verb", 0, 0x100, 0},
  {"-ab", 0, 0x011, 0}, {"-bva", 0, 0x111, 0}, {"-vv", 0, 0x200, 0}, {"-avv", 0, 0x201, 0}, {"-aa", 0, 0x002, 0}, {"-x", 0, -1, 0}, {"a", 0, -1, 0}, {"-ax", 0, -1, 0}, {"--a", 0, -1, 0}, {"-apple", 0, -1, 0}, {"-vvv", 0, 0x300, 0}, {"-vavvb", 0, 0x311, 0} };
}
DRIVER(switches) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    SwitchArg a("a", "apple", "d"), b("b", "bear", "d", true); MultiSwitchArg v("v", "verb", "d", 3);
    c.add(a); c.add(b); c.add(&v);
    int n = units2(), sum = 0; bool bad = false;
    for (int i = 0; i < n; i++) { const Unit *u = choose(switch_menu); word(u->first); if (u->what < 0) bad = true; else sum += u->what; }
    int na = sum & 15, nb = (sum >> 4) & 15, nv = sum >> 8;
    if (agree(c, !bad && na <= 1 && nb <= 1)) {
      __v_assert(a.getValue() == (na == 1) && b.getValue() == (nb == 0), "L01: a switch that is given has the opposite of its initial value, others keep it");
      __v_assert(a.isSet() == (na == 1) && b.isSet() == (nb == 1) && v.isSet() == (nv > 0), "L01: exactly the switches that were given are set");
      __v_assert(v.getValue() == 3 + nv, "L01: a repeatable switch counts how often it was given");
    }
  }
  __v_assert(outputs == 0, "L02: the output object of a command line lives exactly as long as it");
  __v_gc();
}

// arguments with values: the value is the next word whatever it looks like; at most once; required ones must be there
namespace drv {
enum { INT, STR, BADINT, TWOINTS, NOVALUE, UNKNOWN, NOINT };
const Unit value_menu[] = { {"-i", "5", INT, 5}, {"--int", "-12", INT, -12}, {"-i", "x", BADINT, 0}, {"-i", "5x", BADINT, 0}, {"-i", "1 2", TWOINTS, 0}, {"-i", "", NOINT, 0}, {"-s", "-i", STR, 0}, {"--str", "x y", STR, 1}, {"-s", "--str", STR, 2}, {"-i", 0, NOVALUE, 0}, {"--str", 0, NOVALUE, 0}, {"-z", 0, UNKNOWN, 0}, {"--st", 0, UNKNOWN, 0}, {"int", 0, UNKNOWN, 0} };
const char *const texts[] = { "-i", "x y", "--str" };
template <class F> void values(const Unit *(*pick)(), char delim, F) {
  start();
  {
    bool ri = __v_bool(), rs = __v_bool();
    CmdLine c("m", delim, "1", false);
    ValueArg<int> i("i", "int", "d", ri, 7, "n"); ValueArg<std::string> s("s", "str", "d", rs, "none", "t", c); c.add(i);
    int n = units2(), ni = 0, ns = 0, vi = 7, vs = -1; bool bad = false;
    for (int k = 0; k < n && !bad; k++) {
      const Unit *u = pick(); word(u->first); word(u->second);
      if (u->what == INT) { ni++; vi = u->value; } else if (u->what == STR) { ns++; vs = u->value; } else bad = true;
      if (u->what == NOVALUE) break;
    }
    if (agree(c, !bad && ni <= 1 && ns <= 1 && (ni || !ri) && (ns || !rs))) {
      __v_assert(i.getValue() == vi && (vs < 0 ? s.getValue() == "none" : s.getValue() == F::text(vs)), "L01: an argument has the value that was given, or else its default");
      __v_assert(i.isSet() == (ni == 1) && s.isSet() == (ns == 1), "L01: exactly the arguments that were given are set");
    }
  }
  __v_assert(outputs == 0, "L02: the output object of a command line lives exactly as long as it");
}
struct Space { static const char *text(int k) { switch (k) { case 0: return "-i"; case 1: return "x y"; } return "--str"; } };
const Unit *pick_value() { return choose(value_menu); }
// with a delimiter the value follows it in the same word
const Unit equals_menu[] = { {"-i=5", 0, INT, 5}, {"--int=-12", 0, INT, -12}, {"-i=x", 0, BADINT, 0}, {"-s=a=b", 0, STR, 0}, {"--str=-i", 0, STR, 1}, {"-s= ", 0, STR, 2}, {"-s=", 0, NOVALUE, 0}, {"-i", 0, NOVALUE, 0}, {"-i", "5", NOVALUE, 0}, {"--int 5", 0, UNKNOWN, 0}, {"-z=5", 0, UNKNOWN, 0}, {"i=5", 0, UNKNOWN, 0} };
struct Equals { static const char *text(int k) { switch (k) { case 0: return "a=b"; case 1: return "-i"; } return " "; } };
const Unit *pick_equals() { return choose(equals_menu); }
}
DRIVER(values) { __v_unroll(200); __v_precise(200); __v_exact(); values(pick_value, ' ', Space()); __v_gc(); }
DRIVER(values_delimited) { __v_unroll(200); __v_precise(200); __v_exact(); values(pick_equals, '=', Equals()); __v_gc(); }

// arguments that may be given several times keep all values in order; what an argument may be is limited by its constraint
namespace drv {
enum { MINT, MSTR };
const Unit multi_menu[] = { {"-m", "1", INT, 1}, {"--multi", "22", INT, 22}, {"-t", "a", STR, 0}, {"--text", "-m", STR, 1}, {"-m", "x", BADINT, 0}, {"-m", "", NOINT, 0}, {"-m", "1 2", TWOINTS, 0}, {"-m", 0, NOVALUE, 0}, {"-z", 0, UNKNOWN, 0} };
const Unit limit_menu[] = { {"-c", "1", INT, 1}, {"--con", "3", INT, 3}, {"-c", "2", BADINT, 0}, {"-c", "x", BADINT, 0}, {"-l", "a", STR, 0}, {"-l", "b", STR, 1}, {"-l", "c", BADINT, 0}, {"-l", "", BADINT, 0} };
const Unit *pick_multi() { return choose(multi_menu); }
}
DRIVER(multiple) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    bool rm = __v_bool(), rt = __v_bool();
    CmdLine c("m", ' ', "1", false);
    MultiArg<int> m("m", "multi", "d", rm, "n", c); MultiArg<std::string> t("t", "text", "d", rt, "t"); c.add(t);
    int n = units2(), nm = 0, nt = 0, vm[3], vt[3]; bool bad = false;
    for (int k = 0; k < n && !bad; k++) {
      const Unit *u = pick_multi(); word(u->first); word(u->second);
      if (u->what == INT) vm[nm++] = u->value; else if (u->what == STR) vt[nt++] = u->value; else bad = true;
    }
    if (agree(c, !bad && (nm || !rm) && (nt || !rt))) {
      bool same = m.getValue().size() == (unsigned long)nm && t.getValue().size() == (unsigned long)nt;
      __v_assert(same, "L01: an argument that may be repeated has as many values as were given");
      for (int k = 0; k < nm; k++) same = same && m.getValue()[k] == vm[k];
      for (int k = 0; k < nt; k++) same = same && t.getValue()[k] == (vt[k] ? "-m" : "a");
      __v_assert(same, "L01: an argument that may be repeated has the values in the order given");
      __v_assert(m.isSet() == (nm > 0) && t.isSet() == (nt > 0), "L01: exactly the arguments that were given are set");
    }
  }
  __v_gc();
}
DRIVER(multiple_three) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    MultiArg<int> m("m", "multi", "d", true, "n", c); MultiSwitchArg v("v", "verb", "d", c);
    int n = units(), nm = 0, nv = 0;
    for (int k = 0; k < n; k++) if (__v_bool()) { word("-m"); if (__v_bool()) word("0"); else word("9"); nm++; } else { word("-v"); nv++; }
    if (agree(c, nm > 0)) __v_assert(m.getValue().size() == (unsigned long)nm && v.getValue() == nv, "L01: an argument that may be repeated has as many values as were given");
  }
  __v_gc();
}
DRIVER(constraints) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    std::vector<int> ints; ints.push_back(1); ints.push_back(3); std::vector<std::string> strs; strs.push_back("a"); strs.push_back("b");
    ValuesConstraint<int> vi(ints); ValuesConstraint<std::string> vs(strs);
    CmdLine c("m", ' ', "1", false);
    ValueArg<int> i("c", "con", "d", false, 2, &vi); c.add(i); MultiArg<std::string> l("l", "lim", "d", false, &vs, c);
    int n = units2(), ni = 0, nl = 0, v = 2; bool bad = false;
    for (int k = 0; k < n; k++) { const Unit *u = choose(limit_menu); word(u->first); word(u->second); if (u->what == INT) { ni++; v = u->value; } else if (u->what == STR) nl++; else bad = true; }
    if (agree(c, !bad && ni <= 1)) {
      __v_assert(i.getValue() == v && l.getValue().size() == (unsigned long)nl, "L01: an argument with a constraint has the value that was given, or else its default");
    }
  }
  __v_gc();
}
// exactly one of a group
namespace drv {
const Unit group_menu[] = { {"-i", "5", 0, 5}, {"--int", "6", 0, 6}, {"-f", 0, 1, 0}, {"--file", 0, 1, 0}, {"-m", "1", 2, 0}, {"-o", 0, 3, 0}, {"-r", "x", 4, 0}, {"-z", 0, 5, 0} };
}
DRIVER(groups) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    ValueArg<int> i("i", "int", "d", false, 7, "n"); SwitchArg f("f", "file", "d"); MultiArg<int> m("m", "multi", "d", false, "n"); SwitchArg o("o", "other", "d"); ValueArg<std::string> r("r", "req", "d", true, "none", "t", c);
    bool three = __v_bool();
    if (three) { std::vector<Arg *> g; g.push_back(&i); g.push_back(&f); g.push_back(&m); c.xorAdd(g); c.add(o); }
    else { c.xorAdd(i, f); c.xorAdd(m, o); }
    int n = units(), k0 = 0, k1 = 0, k2 = 0, k3 = 0, k4 = 0, v = 7; bool bad = false;
    if (n == 3) { word("-r"); word("y"); k4++; n = 2; }
    for (int k = 0; k < n; k++) { const Unit *u = choose(group_menu); word(u->first); word(u->second); switch (u->what) { case 0: k0++; v = u->value; break; case 1: k1++; break; case 2: k2++; break; case 3: k3++; break; case 4: k4++; break; default: bad = true; } }
    bool good = !bad && k4 == 1 && k0 <= 1 && k1 <= 1 && k3 <= 1;
    if (three) good = good && k0 + k1 + (k2 > 0) == 1; else good = good && k0 + k1 == 1 && (k2 > 0) + k3 == 1;
    if (agree(c, good)) {
      __v_assert(i.isSet() == (k0 > 0) && f.isSet() == (k1 > 0) && m.isSet() == (k2 > 0) && o.isSet() == (k3 > 0) && r.isSet(), "L01: of alternatives exactly the one that was given is set");
      __v_assert(i.getValue() == v && f.getValue() == (k1 > 0) && m.getValue().size() == (unsigned long)k2, "L01: of alternatives only the one that was given has a value");
      __v_assert(i.isRequired() && f.isRequired(), "L01: alternatives are required");
    }
  }
  __v_gc();
}
// switches of a group count alone and combined; a repeatable one may be repeated
namespace drv {
const Unit pair_menu[] = { {"-a", 0, 0x001, 0}, {"-ab", 0, 0x101, 0}, {"-ao", 0, 0x011, 0}, {"-o", 0, 0x010, 0}, {"-bo", 0, 0x110, 0}, {"-v", 0, 0x1000, 0}, {"-vv", 0, 0x2000, 0}, {"-vb", 0, 0x1100, 0}, {"-p", 0, 0x10000, 0}, {"-op", 0, 0x10010, 0}, {"-vp", 0, 0x11000, 0}, {"-b", 0, 0x100, 0}, {"-aa", 0, 0x002, 0} };
}
DRIVER(groups_combined) {
  __v_unroll(200); __v_precise(300); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    SwitchArg b("b", "bear", "d"), a("a", "apple", "d"), o("o", "other", "d"), p("p", "pear", "d"); MultiSwitchArg v("v", "verb", "d");
    bool two = false; if (__v_range(0, 1)) two = true;
    c.add(b); c.xorAdd(a, o); if (two) c.xorAdd(v, p); else { c.add(v); c.add(p); }
    int n = units2(), sum = 0;
    for (int i = 0; i < n; i++) { const Unit *u = choose(pair_menu); word(u->first); sum += u->what; }
    int na = sum & 15, no = (sum >> 4) & 15, nb = (sum >> 8) & 15, nv = (sum >> 12) & 15, np = sum >> 16;
    if (agree(c, na + no == 1 && nb <= 1 && np <= 1 && (!two || (nv > 0) + np == 1))) {
      __v_assert(a.isSet() == (na == 1) && o.isSet() == (no == 1) && b.isSet() == (nb == 1) && p.isSet() == (np == 1) && v.isSet() == (nv > 0), "L01: of alternatives exactly the one that was given is set");
      __v_assert(a.getValue() == (na == 1) && o.getValue() == (no == 1) && b.getValue() == (nb == 1) && p.getValue() == (np == 1) && v.getValue() == nv, "L01: of alternatives only the one that was given has a value");
    }
  }
  __v_gc();
}
// after a delimiter the same holds for arguments that may be repeated
namespace drv { const Unit multi_equals_menu[] = { {"-m=1", 0, INT, 1}, {"--multi=22", 0, INT, 22}, {"-t=a", 0, STR, 0}, {"--text=-m", 0, STR, 1}, {"-m=x", 0, BADINT, 0}, {"-m=1 2", 0, TWOINTS, 0}, {"-m", 0, NOVALUE, 0}, {"-m=", 0, NOVALUE, 0}, {"-z=1", 0, UNKNOWN, 0}, {"-t=a=b", 0, STR, 2} }; const Unit *pick_multi_equals() { return choose(multi_equals_menu); } }
DRIVER(multiple_delimited) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", '=', "1", false);
    MultiArg<int> m("m", "multi", "d", false, "n", c); MultiArg<std::string> t("t", "text", "d", false, "t"); c.add(t);
    int n = units2(), nm = 0, nt = 0, vm[3], vt[3]; bool bad = false;
    for (int k = 0; k < n && !bad; k++) {
      const Unit *u = pick_multi_equals(); word(u->first);
      if (u->what == INT) vm[nm++] = u->value; else if (u->what == STR) vt[nt++] = u->value; else bad = true;
    }
    if (agree(c, !bad)) {
      bool same = m.getValue().size() == (unsigned long)nm && t.getValue().size() == (unsigned long)nt;
      __v_assert(same, "L01: an argument that may be repeated has as many values as were given");
      for (int k = 0; k < nm; k++) same = same && m.getValue()[k] == vm[k];
      for (int k = 0; k < nt; k++) same = same && t.getValue()[k] == (vt[k] == 2 ? "a=b" : vt[k] ? "-m" : "a");
      __v_assert(same, "L01: an argument that may be repeated has the values in the order given");
    }
  }
  __v_gc();
}
// arguments without a flag take what is left, also everything after "--"
namespace drv {
const Unit rest_menu[] = { {"x", 0, 0, 0}, {"y", 0, 0, 1}, {"-a", 0, 1, 0}, {"--apple", 0, 1, 0}, {"--", 0, 2, 0}, {"--ignore_rest", 0, 2, 0} };
const char *word_of(int v) { switch (v) { case 0: return "x"; case 1: return "y"; case 2: return "-a"; case 3: return "--apple"; case 4: return "--"; } return "--ignore_rest"; }
}
DRIVER(unlabeled) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    bool req = __v_bool();
    UnlabeledValueArg<std::string> u("name", "du", true, "none", "t", c); SwitchArg a("a", "apple", "da", c); UnlabeledMultiArg<std::string> l("list", "dl", req, "t", c);
    int n = units(), na = 0, k = 0, given[3]; bool rest = false;
    for (int j = 0; j < n; j++) { const Unit *w = choose(rest_menu); word(w->first);
      if (w->what == 0 || rest) given[k++] = w->what == 0 ? w->value : (int)(w - rest_menu); else if (w->what == 1) na++; else rest = true; }
    if (agree(c, k > (req ? 1 : 0) && na <= 1)) {
      __v_assert(u.getValue() == word_of(given[0]) && u.isSet() && l.getValue().size() == (unsigned long)(k - 1) && l.isSet() == (k > 1), "L01: words without a flag go to the arguments without a flag in order");
      for (int j = 1; j < k; j++) __v_assert(l.getValue()[j - 1] == word_of(given[j]), "L01: words without a flag go to the arguments without a flag in order");
      __v_assert(a.isSet() == (na == 1) && a.getValue() == (na == 1), "L01: nothing that follows \"--\" is taken for a switch");
    }
  }
  __v_gc();
}
// after "--" labeled arguments are not looked for; words nobody takes are ignored
DRIVER(ignore_rest) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    bool req = __v_bool();
    SwitchArg a("a", "apple", "d", c); ValueArg<int> i("i", "int", "d", req, 7, "n", c); MultiSwitchArg v("v", "verb", "d", c);
    bool rest = false; int na = 0, ni = 0, nv = 0; bool bad = false;
    int before = __v_bool(), after = 0;
    for (int j = 0; j < before; j++) switch (__v_range(0, 2)) { case 0: word("-a"); na++; break; case 1: word("-i"); word("5"); ni++; break; default: word("-vv"); nv += 2; break; }
    if (__v_bool()) { if (__v_bool()) { word("--"); after = units2(); } else { word("--ignore_rest"); after = __v_bool(); } rest = true; }
    if (rest) ; else if (__v_bool()) { word("-z"); bad = true; }
    for (int j = 0; j < after; j++) switch (__v_range(0, 4)) { case 0: word("-a"); break; case 1: word("-i"); word("6"); break; case 2: word("-z"); break; case 3: word("--"); break; default: word("-av"); break; }
    if (agree(c, !bad && na <= 1 && ni <= 1 && (ni || !req))) {
      __v_assert(a.getValue() == (na == 1) && i.isSet() == (ni == 1) && i.getValue() == (ni ? 5 : 7) && v.getValue() == nv, "L01: labeled arguments after \"--\" have no effect");
    }
  }
  __v_gc();
}
// declarations that cannot work are refused and leave the command line as it was
DRIVER(declarations) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    SwitchArg a("a", "apple", "d", c); ValueArg<int> i("", "int", "d", false, 7, "n", c);
    const char *flag, *name; bool good = false;
    switch (__v_range(0, 13)) {
    case 0: flag = "b"; name = "bear"; good = true; break;
    case 1: flag = ""; name = "bear"; good = true; break;
    case 2: flag = "a"; name = "bear"; break;
    case 3: flag = "b"; name = "apple"; break;
    case 4: flag = ""; name = "int"; break;
    case 5: flag = "bb"; name = "bear"; break;
    case 6: flag = "-"; name = "bear"; break;
    case 7: flag = " "; name = "bear"; break;
    case 8: flag = "b"; name = "be-ar"; break;
    case 9: flag = "b"; name = "be ar"; break;
    case 10: flag = "b"; name = "--bear"; break;
    case 11: flag = "A"; name = "Apple"; good = true; break;
    case 12: flag = "b"; name = "ignore_rest"; break;
    default: flag = "i"; name = "in"; good = true; break;
    }
    unsigned long before = c.getArgList().size(); bool refused = false, other = false;
    int how = (int)__v_range(0, 3); SwitchArg *s = 0; ValueArg<int> *v = 0;
    try {
      switch (how) {
      case 0: s = new SwitchArg(flag, name, "e", c); break;
      case 1: s = new SwitchArg(flag, name, "e"); c.add(s); break;
      case 2: v = new ValueArg<int>(flag, name, "e", true, 1, "n", c); break;
      default: v = new ValueArg<int>(flag, name, "e", true, 1, "n"); c.add(*v); break;
      }
    } catch (const SpecificationException &) { refused = true; } catch (...) { other = true; }
    __v_assert(!other && refused == !good, "L01: a declaration is refused exactly if its flag or name is malformed or taken");
    __v_assert(c.getArgList().size() == before + (refused ? 0 : 1), "L01: a refused declaration leaves the command line as it was");
    __v_reach("declaration made");
    delete s; delete v;
  }
  __v_assert(outputs == 0, "L02: the output object of a command line lives exactly as long as it");
  __v_gc();
}
DRIVER(declarations_unlabeled) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    CmdLine c("m", ' ', "1", false);
    bool first = __v_bool(), multi = __v_bool(), refused = false;
    UnlabeledValueArg<int> u("one", "d1", first, 1, "n", c);
    try { if (multi) { UnlabeledMultiArg<int> l("two", "d2", __v_bool(), "n", c); } else { UnlabeledValueArg<int> l("two", "d2", __v_bool(), 2, "n", c); } } catch (const SpecificationException &) { refused = true; }
    __v_assert(refused == !first, "L01: nothing without a flag can be declared after an optional argument without a flag");
  }
  __v_gc();
}
// --help and --version report and end the program with 0
namespace drv {
const Unit help_menu[] = { {"-h", 0, 0, 0}, {"--help", 0, 0, 0}, {"--version", 0, 1, 0}, {"-a", 0, 2, 0}, {"-ah", 0, 0, 0}, {"-z", 0, 3, 0}, {"-v", 0, 3, 0}, {"-aa", 0, 4, 0} };
}
DRIVER(help) {
  __v_unroll(200); __v_precise(200); __v_exact();
  start();
  {
    bool own = __v_bool(), twice = false; StdOutput one, two; outputs -= 2;
    {
      CmdLine c("m", ' ', "1", true);
      __v_assert(outputs == 1 && c.hasHelpAndVersion(), "L02: a command line has one output object");
      if (!own && __v_bool()) { c.setOutput(c.getOutput()); __v_assert(outputs == 1, "L02: a command line has one output object"); }
      if (own) { c.setOutput(&one); if (__v_bool()) { twice = true; c.setOutput(&two); } __v_assert(c.getOutput() == (twice ? &two : &one), "L02: a command line uses the output object it was given"); }
      SwitchArg a("a", "apple", "d", c); SwitchArg r("r", "rear", "d", c);
      int n = units2(), na = 0, end = 0;
      for (int k = 0; k < n; k++) { const Unit *w = choose(help_menu); word(w->first); if (!end) switch (w->what) { case 0: if (w - help_menu == 4 && na) end = 3; else end = 1; break; case 1: end = 2; break; case 2: if (na++) end = 3; break; default: end = 3; } }
      int got = drv::parse(c);
      __v_assert(got == (end == 0 ? ACCEPTED : end == 3 ? REFUSED : LEFT_0), "L01: help and version end the program with 0, a bad line ends it with 1");
      __v_assert(usages == (end == 1) && versions == (end == 2) && failures == (end == 3), "L01: exactly what was asked for is reported");
      __v_reach("help given");
    }
    __v_assert(outputs == 0, "L02: a command line deletes the output object it made and no other");
    outputs += 2;
  }
  __v_gc();
}
