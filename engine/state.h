// Abstract states: frames, memory regions, OS resources, locks; canonical walk, subsumption and join.
#pragma once
#include "dom.h"
#include <functional>
#include <memory>
namespace llvm { class Function; class Instruction; class Value; class GlobalVariable; class BasicBlock; }

struct Val {
  enum K : uint8_t { None, Undef, Int, Cmp, Ptr, Fn, Flt, Agg };
  enum P : uint8_t { EQ, NE, LE };  // l == 0, l != 0, l <= 0
  K k = None;
  P pred = EQ;
  bool isPtr = false;
  unsigned w = 0;
  Lin l;          // Int value, Ptr offset, Cmp operand
  int reg = -1;   // Ptr: region
  int id = 0;     // Undef: origin ; Flt: node
  const llvm::Function *f = nullptr;
  std::vector<Val> a;
  static Val mkInt(const Lin &l, unsigned w, bool p = false) { Val v; v.k = Int; v.l = l; v.w = w; v.isPtr = p; return v; }
  static Val mkPtr(int r, const Lin &o) { Val v; v.k = Ptr; v.reg = r; v.l = o; v.w = 64; v.isPtr = true; return v; }
  static Val null() { return mkInt(Lin(0), 64, true); }
  static Val mkCmp(P p, const Lin &l) { Val v; v.k = Cmp; v.pred = p; v.l = l; v.w = 1; return v; }
  static Val undef(int id, unsigned w = 0) { Val v; v.k = Undef; v.id = id; v.w = w; return v; }
  static Val flt(int id) { Val v; v.k = Flt; v.id = id; return v; }
  static Val fn(const llvm::Function *f) { Val v; v.k = Fn; v.f = f; v.w = 64; v.isPtr = true; return v; }
  bool isConst() const { return k == Int && l.isConst(); }
  bool isNull() const { return k == Int && l.isConst() && l.c == 0; }
  std::string str() const;
};
struct Cell { unsigned sz; Val v; };
struct Region {
  enum Kind : uint8_t { Alloca, Heap, Global, Ext, Handle };
  enum Def : uint8_t { DUndef, DUnknown, DZero };
  Kind kind = Ext;
  Def def = DUndef;
  bool sizeKnown = false, freed = false, escaped = false, constant = false;
  bool weakInit = false; bool loose = false;  /* positions inside are merged even when they are constants */   // a store at a non-constant offset has happened
  Lin size;
  std::string rel;         // the function family that releases it: delete, delete[], free, fclose, ...
  std::map<long, Cell> cells;
  std::vector<Val> weak;   // pointers stored at non-constant offsets
  std::map<std::string, Val> ghost;
  const llvm::GlobalVariable *g = nullptr;
  std::string desc, site;
};
typedef std::shared_ptr<Region> RegionP;
struct FdRec { bool open = true; std::string kind, site; };
struct LockRec { int count = 0; bool init = true, destroyed = false, recursive = false; std::string desc, site; };
struct Frame {
  const llvm::Function *F = nullptr;
  std::map<int, Val> regs;
  std::vector<int> allocas;
  const llvm::Instruction *call = nullptr;
  std::map<const void *, std::pair<int, int>> hv;  // loop head -> (forks at last visit, consecutive fork-free visits)
};
struct TNode { std::shared_ptr<TNode> p; std::string s; };
struct State {
  std::vector<Frame> fr;
  std::map<int, RegionP> mem;
  std::map<int, int> derefs;          // pointer symbol -> region
  Cons cons;
  std::map<int, FdRec> fds;
  std::map<std::pair<int, long>, LockRec> locks;
  std::map<const void *, int> globals;
  std::map<std::string, Val> ghost;
  std::vector<Val> excs;              // exceptions being handled
  Val inflight;                       // exception in flight
  std::string inflightType;
  std::shared_ptr<TNode> trace;
  int forks = 0;
  bool dead = false;
  const Region &rd(int r) const { return *mem.at(r); }
  Region &wr(int r) { auto &p = mem.at(r); if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }
  int addRegion(const Region &r);
  void note(const std::string &s) { auto n = std::make_shared<TNode>(); n->p = trace; n->s = s; trace = n; }
  int heldLocks() const { int n = 0; for (auto &l : locks) n += l.second.count; return n; }
};
struct FltNode { std::string key; bool atom = true; bool isConst = false; double cv = 0; };
extern std::vector<FltNode> FT;
int fltMemo(const std::string &key, bool atom = false);
int fltFresh(const std::string &n);
int fltConst(double d);
extern bool AlgebraMode; void algReset(); int algConst(int id); int algOp(char op, int x, int y); int algLin(const Lin &l); Lin algRank(int id); Lin algOrder(int x, int y); int algFmod(int x, int m, bool positive); int algLess(int a, int b, bool le); int algFun(std::string f, const std::vector<int> &a);
extern std::vector<std::string> UndefOrigin;
int undefOrigin(const std::string &s);

struct Canon {
  std::string shape;
  std::vector<Lin *> slots;
  std::vector<unsigned> slotW;
  std::vector<Val *> flts;
  std::map<int, int> rmap;
  std::vector<int> order;
  std::map<int, int> fdmap;
};
// Walks everything reachable (after pruning dead registers); drops unreachable regions and
// reports each unreleased resource among them through 'leak'.
void canonicalise(State &s, const std::vector<Val *> &extraRoots, Canon &c, const std::function<void(State &, const std::string &kind, const std::string &desc)> &leak);
bool subsumed(const State &oldS, const Canon &oc, const State &newS, const Canon &nc);
// Joins b into a (same shape); returns the joined state.  widen drops unstable bounds.
extern std::set<I> Thresholds; extern bool SmashMode, ExactMode, NarrowMode; int algNarrow(int id);
void joinInto(State &a, Canon &ca, const State &b, const Canon &cb, bool widen, const std::string &tag);
std::set<int> liveSyms(const State &s, const Canon &c);
