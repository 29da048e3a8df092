// Abstract interpreter over LLVM IR.
#pragma once
#include "state.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

struct Exit { State s; bool thrown = false; Val ret; };
typedef std::vector<Exit> Exits;

struct FnInfo {
  std::map<const llvm::Value *, int> num;
  std::map<const llvm::BasicBlock *, int> rpo;
  std::map<const llvm::BasicBlock *, std::set<int>> liveIn;
  std::set<const llvm::BasicBlock *> heads;
  std::map<const llvm::Instruction *, std::set<int>> liveAfter;
  bool bigSwitch = false, driver = false;
  std::string dem;
};
struct Alarm { std::string kind, msg, file, func, stack, trace, driver, cfg; int line = 0; };
struct Obl { long checked = 0, failed = 0; };

Lin normC(const Lin &l, unsigned w);
class Engine {
 public:
  llvm::Module *M = nullptr;
  const llvm::DataLayout *DL = nullptr;
  std::string driverName, cfgName;
  std::vector<Alarm> alarms;
  std::set<std::string> alarmKeys;
  std::map<std::string, std::set<std::pair<const void *, int>>> obl;       // kind -> instructions checked
  std::map<std::string, std::set<std::pair<const void *, int>>> oblBad;
  std::set<const llvm::Function *> entered;
  std::set<std::string> reached;
  std::map<std::string, int> unmodelled;
  std::set<const llvm::Instruction *> modelSites;
  std::map<std::string, std::set<const llvm::Instruction *>> modelCalls;
  long nStates = 0, nBlocks = 0, maxStates = 3000000;
  bool giveUp = false; double maxSeconds = 1e9; void clockCheck(); static void clockReset();
  size_t exitCap = 6, headCap = 40; int loopCap = 3; bool smash = false, reliableMalloc = false, checkOverflow = false;
  std::map<const llvm::Function *, long> prof;
  int verbose = 0;
  std::map<std::string, std::string> guarded;  // global variable (demangled) -> mutex global that must be held

  Exits runDriver(const llvm::Function *F);
  Exits callFunction(State s, const llvm::Function *F, const std::vector<Val> &args, const llvm::Instruction *site);
  FnInfo &info(const llvm::Function *F);
  const std::string &dem(const llvm::Function *F);

  // values
  Val operand(State &s, const llvm::Value *v);
  Val constant(State &s, const llvm::Constant *c);
  int globalRegion(State &s, const llvm::GlobalVariable *g);
  Val freshOf(State &s, llvm::Type *t, const std::string &name, bool imprecise = false);
  Val load(State &s, const Val &ptr, llvm::Type *t, const llvm::Instruction *at);
  void store(State &s, const Val &ptr, const Val &v, llvm::Type *t, const llvm::Instruction *at);
  // returns false (and kills s) when the access is impossible
  bool resolve(State &s, const Val &ptr, const Lin &size, bool write, const llvm::Instruction *at, int &reg, Lin &off, const char *what = nullptr);
  Val loadAt(State &s, int reg, const Lin &off, llvm::Type *t, const llvm::Instruction *at);
  void storeAt(State &s, int reg, const Lin &off, const Val &v, unsigned size);
  void clearRange(State &s, int reg, long off, long size);
  void havocRange(State &s, int reg, const Lin &off, const Lin &n, bool zero = false);
  void copyMem(State &s, int dr, const Lin &doff, int sr, const Lin &soff, const Lin &n);
  void escape(State &s, const Val &v, bool havoc, int depth = 0);
  Lin toU(State &s, const Val &v, unsigned w);
  Lin toS(State &s, const Val &v, unsigned w);
  void decideSign(const Lin &l, unsigned w, int sg);
  Val icmp(State &s, llvm::CmpInst::Predicate p, Val a, Val b, unsigned w, const llvm::Instruction *at);
  bool isUnset(const Val &v);
  // splits s on a condition; either output may be absent
  void split(State s, const Val &cond, std::vector<State> &t, std::vector<State> &f, const llvm::Instruction *at);
  bool assume(State &s, const Val &cond, bool truth);
  Val decide(State &s, const Val &cond);

  void alarm(State &s, const std::string &kind, const std::string &msg, const llvm::Instruction *at);
  void check(const std::string &kind, const llvm::Instruction *at, int sub = 0) { obl[kind].insert({at, sub}); }
  std::string where(const llvm::Instruction *at);
  std::string stackOf(State &s, const llvm::Instruction *at);
  std::function<void(State &, const std::string &, const std::string &)> leaker(const llvm::Instruction *at);

  // models.cpp
  bool model(State &s, const llvm::Function *F, const llvm::CallBase *cb, std::vector<Val> &args, Exits &out);
  bool opaqueName(const llvm::Function *F);
  void opaqueCall(State &s, const llvm::Function *F, const llvm::CallBase *cb, std::vector<Val> &args, Exits &out);
  bool sinkUse(State &s, const Val &v, const llvm::Instruction *at, const std::string &what);
  Exits throwExit(State s, const Val &obj);
  bool typeMatches(const std::string &thrown, const llvm::Constant *clause);
  std::map<std::string, int> typeIds;
  int typeId(const std::string &n) { auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; int k = (int)typeIds.size() + 1; return typeIds[n] = k; }
  Lin strTok(State &s, const Val &strObj);
  void setTok(State &s, const Val &strObj, const Lin &tok);
  Val cstrPtr(State &s, const Val &strObj);
  int curDepth = 0;
  std::map<const llvm::Function *, int> active;

 private:
  std::map<const llvm::Function *, FnInfo> infos;
  std::map<const llvm::Function *, std::string> dems;
  struct Stored { std::unique_ptr<State> s; Canon c; int n = 0; };
  Exits run(State s, const llvm::Function *F);
  void prune(State &s, const llvm::BasicBlock *bb);
  void reduce(std::vector<State> &v, const llvm::BasicBlock *bb, size_t cap);
  void reduceExits(Exits &e, const llvm::Instruction *site, size_t cap);
  bool headFilter(State &s, std::map<std::string, std::vector<Stored>> &tab, const llvm::BasicBlock *bb, bool driver, int unroll);
  struct Work { std::map<int, std::vector<State>> w; };
  void edge(State s, const llvm::BasicBlock *from, const llvm::BasicBlock *to, FnInfo &fi, Work &w);
  void execBlock(State s, const llvm::BasicBlock *bb, FnInfo &fi, Work &w, Exits &ex);
  // executes one non-terminator, non-call instruction; may split
  bool step(State &s, const llvm::Instruction *in, FnInfo &fi, std::vector<State> &more);
  Val binop(State &s, const llvm::BinaryOperator *b, bool &needSplit, Val &splitOn);
  Exits dispatch(State s, const llvm::CallBase *cb);
};
