// Abstract interpreter over LLVM IR used by the checks.
//
// It computes, for each entry point ("harness"), the set of abstract states
// reachable at each program point, to a fixpoint: states are canonicalised
// (objects and symbols renamed, unreachable memory and dead registers dropped)
// and a state seen before at a point is not explored again; numbers that keep
// changing at a loop head are widened.  No code is executed and no solver is
// involved: branches on unknown values are resolved by finite case splits on
// null-ness, equality of pointers, and intervals of integers.
#pragma once
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <cstdint>

using std::string; using std::vector; using std::map; using std::set; using std::pair; using std::shared_ptr;
typedef int64_t i64;

struct Val {
  enum K : uint8_t { Undef, Int, Ptr, Fn, Sym, Agg } k = Undef;
  i64 a = 0, b = 0;   // Int: a.  Ptr: object a, offset b.  Sym: symbol a, plus b.  Fn: a = Function*
  shared_ptr<vector<Val>> agg;
  static Val I(i64 x) { Val v; v.k = Int; v.a = x; return v; }
  static Val P(int o, i64 off = 0) { Val v; v.k = Ptr; v.a = o; v.b = off; return v; }
  static Val S(int s, i64 add = 0) { Val v; v.k = Sym; v.a = s; v.b = add; return v; }
  static Val F(const llvm::Function *f) { Val v; v.k = Fn; v.a = (i64)f; return v; }
  bool isInt() const { return k == Int; }
  bool isInt(i64 x) const { return k == Int && a == x; }
  bool isPtr() const { return k == Ptr; }
  bool isNull() const { return k == Int && a == 0; }
  bool operator==(const Val &o) const { return k == o.k && a == o.a && b == o.b && k != Agg; }
};

struct SymInfo { i64 lo, hi; unsigned bits; bool exact = false; int vec = 0; };   // vec: the number of elements of this container

struct Cell { int size; Val v; };

struct Obj {
  enum Kind : uint8_t { Stack, Heap, Global, Lazy } kind = Heap;
  bool maybeNull = false, isNull = false, freed = false, distinct = false;
  // reference counts of a lazily discovered control block
  bool cb = false; int nlocal = 0, owners = 0, pointee = 0, countSym = 0; int8_t alive = -1;
  i64 size = -1;
  string type;             // demangled class name, if known
  const llvm::Value *site = nullptr;
  map<i64, Cell> cells;
  map<string, Val> tags;   // ghost attributes
  set<i64> strong;         // places of owning pointers to control blocks
  map<i64, string> subs;   // classes of the library constructed at an offset
};

struct Exc { string type; Val obj; int handlers = 0; bool rethrown = false; };

struct Frame {
  const llvm::Function *fn = nullptr;
  const llvm::BasicBlock *bb = nullptr;
  llvm::BasicBlock::const_iterator it;
  std::map<int, Val> regs;           // by value ordinal
  const llvm::CallBase *callsite = nullptr;   // in the caller
  vector<int> stackObjs;
  Val landing;                       // value of the landingpad being executed
};

struct Trace { shared_ptr<Trace> prev; string what; int n = 0; };

struct State {
  vector<shared_ptr<Frame>> stack;
  map<int, shared_ptr<Obj>> objs;
  map<int, SymInfo> syms;
  map<int, pair<int, i64>> alias;
  set<pair<int, int>> ne;
  map<pair<int, int>, i64> le;       // differences of numbers: first <= second + value
  vector<Exc> caught, suspended;   // suspended: exceptions whose unwinding was interrupted by another one

  shared_ptr<Exc> inflight; int credit = 2;  // comparisons with states seen before that are left until the next case split
  int node = -1; bool progress = true;  // the last state compared with others on the way here, and whether anything was got on with since
  map<string, Val> gh;               // ghost variables of the rules
  shared_ptr<Trace> trace;
  vector<int> roots() const;
};

struct Fork { int n; };
struct Kill {};
struct Stop {};                      // a violation ends the path
struct Field { string name; i64 off; string type; };                      // infeasible
struct Lost { string why; };         // the interpreter cannot continue

struct Finding { string key, rule, what, where, entry; vector<string> path; int count = 1; };

struct FnName { string full, ctx, base, params, sctx; };

struct Engine;
typedef std::function<bool(Engine &, State &, const llvm::CallBase *, const llvm::Function *, vector<Val> &, Val &)> Model;

struct Rules {
  Engine *E = nullptr;
  virtual ~Rules() {}
  virtual bool lazyLoad(State &, int, i64, int, Val &) { return false; }
  virtual bool weakCell(State &, int, i64) { return false; }
  virtual void onLoad(State &, int, i64, int, const Val &) {}
  virtual void onStore(State &, int, i64, int, const Val &) {}
  virtual void onExtern(State &, const FnName &, const llvm::CallBase *, vector<Val> &) {}
  virtual bool externCall(State &, const FnName &, const llvm::CallBase *, const llvm::Function *, vector<Val> &, Val &) { return false; }
  virtual void onRelease(State &, int cb, bool lastPossible) {}
  virtual void onStart(State &) {}
  virtual void onExit(State &, bool exceptional) {}
  virtual void onEnter(State &, const llvm::Function *) {}
  virtual void onLeave(State &, const llvm::Function *) {}
  virtual int cmpIndex(State &, int vec, const Val &) { return 1; }   // -1: an index of an element, 0: the number of elements, 1: unknown
  virtual void onTerminate(State &, const string &) {}
  virtual void onFree(State &, int obj) {}
  virtual bool mayFail(State &) { return true; }
  virtual void onExceptionDone(State &, const Exc &) {}
  virtual void onLockWeak(State &, int cb, bool alive) {}
  virtual bool havocCell(State &, const Obj &, i64) { return false; }
};

struct Engine {
  llvm::Module *M = nullptr; const llvm::DataLayout *DL = nullptr;
  Rules *R = nullptr;
  string entry;
  // options
  bool allocFail = false; long maxStates = 2000000; int checkCredit = 2; int maxDepth = 160; int widenAfter = 3; bool verbose = false; double maxSeconds = 600;
  // results
  vector<Finding> findings; map<string, int> findingIdx;
  set<string> fnsAnalysed; long nStates = 0, nSteps = 0, nForks = 0, nDedup = 0, nWiden = 0, nExits = 0; map<string, long> obligations; map<string, set<string>> obSites;
  vector<string> lost; map<string,int> externSeen;
  // names
  std::unordered_map<const llvm::Function *, FnName> names;
  const FnName &name(const llvm::Function *);
  map<string, vector<pair<string, Model>>> models;   // key: sctx::base
  std::unordered_map<const llvm::Function *, int> modelCache;
  void addModel(const string &key, Model m) { models[key].push_back({"", m}); }
  map<string, const llvm::GlobalVariable *> vtables;      // class -> vtable
  map<string, vector<string>> bases;                      // class -> direct bases (from typeinfo)
  map<string, vector<Field>> layouts;          // class -> fields (bases have names starting with @)
  bool derives(const string &d, const string &b);
  vector<string> concreteClasses(const string &b);
  i64 fieldOff(const string &cls, const string &field);   // -1 if none
  void setup(llvm::Module *);
  // value ordinals, liveness
  std::unordered_map<const llvm::Value *, int> ord; std::unordered_map<const llvm::Function *, bool> prepared;
  std::unordered_map<const llvm::BasicBlock *, std::unordered_set<int>> liveIn;
  std::unordered_map<const llvm::Instruction *, std::unordered_set<int>> liveAfterCall;
  std::unordered_set<const llvm::BasicBlock *> loopHead, joinBB; std::unordered_map<const llvm::Function *, bool> multiBB;
  void prepare(const llvm::Function *);
  const std::unordered_set<int> &liveAfter(const llvm::Instruction *);
  // fresh ids
  int nextId = 1;
  std::unordered_map<const llvm::GlobalVariable *, int> globalObj; std::unordered_map<int, const llvm::GlobalVariable *> objGlobal;
  // choices
  vector<int> choices; size_t choicePos = 0;
  int decide(int n);
  // state access
  Frame &top(State &s); Frame &frame(State &s, size_t i);
  Obj &w(State &s, int id); const Obj &o(const State &s, int id);
  Val norm(State &s, Val v); bool knownDistinct(State &s, Val a, Val b);
  int newObj(State &s, Obj::Kind k, i64 size, const string &type = "");
  int newSym(State &s, i64 lo, i64 hi, unsigned bits);
  Val freshInt(State &s, unsigned bits, const llvm::Instruction *rangeFrom = nullptr);
  Val lazyPtr(State &s, const string &type, bool maybeNull);
  Val load(State &s, Val p, int size, bool isPtr, const llvm::Instruction *I = nullptr);
  void store(State &s, Val p, int size, Val v, bool quiet = false);
  void inBounds(State &s, Val p, i64 size, i64 align);
  void clearRange(State &s, int obj, i64 off, i64 size);
  void copyMem(State &s, Val d, Val src, i64 n);
  bool isNullV(State &s, Val v);            // forks if unknown
  bool ptrEq(State &s, Val a, Val b);       // forks if unknown
  bool cmpInt(State &s, llvm::CmpInst::Predicate p, Val a, Val b, unsigned bits);
  i64 concrete(State &s, Val v);            // forks over small ranges
  void unify(State &s, int from, int to, i64 off);
  Val eval(State &s, const llvm::Value *v);
  Val evalConst(State &s, const llvm::Constant *c);
  int globalId(State &s, const llvm::GlobalVariable *);
  bool readConstCell(const llvm::GlobalVariable *, i64 off, int size, State &s, Val &out);
  void setReg(State &s, const llvm::Value *v, Val x);
  // control
  void run(const llvm::Function *f);
  void step(State s);
  void execOne(State &s);
  bool quick(State &s, const llvm::Instruction *I);
  void enterBlock(State &s, const llvm::BasicBlock *to);
  void doCall(State &s, const llvm::CallBase *cb);
  void pushFrame(State &s, const llvm::Function *f, const vector<Val> &args, const llvm::CallBase *cs);
  void doReturn(State &s, Val v);
  void afterCall(State &s, const llvm::CallBase *cb, Val v);
  void throwExc(State &s, const string &type, Val obj);    // starts unwinding from the current instruction
  void unwind(State &s);
  int typeidSel(const string &t);
  vector<string> selTypes;
  bool checkVisited(State &s, int kind);
  void gc(State &s, vector<int> *order = nullptr);
  struct IntLoc { i64 x; int kind; std::function<void(State &, int)> wb; };
  string canon(State &s, vector<IntLoc> *ints); void forgetChains(State &s);
  vector<State> work;
  std::unordered_map<string, int> visited; vector<const llvm::Instruction *> nodeAt; vector<pair<int, int>> idle;   // the states compared; steps from one to the next on which nothing was got on with
  bool visit(State &, const string &key); void idleCycles();
  std::unordered_map<string, vector<vector<i64>>> shapes; std::unordered_map<string, set<pair<i64, i64>>> seenAt; void widenLocals(State &s);
  // reporting
  void note(State &s, const string &what);
  string loc(const llvm::Instruction *I);
  string where(State &s);            // innermost frame in the library under analysis
  void commit(); vector<Finding> pending; vector<pair<string, string>> pendingOb; set<string> suppressed;
  void violation(State &s, const string &rule, const string &what);
  void obligation(State &s, const string &rule);
  double t0 = 0;
  bool finished(State &s) { return s.stack.empty(); }
  bool timedOut = false;
  string repoMark = "/boost/signals2";
  // lazy control blocks
  int lazyCb(State &s, int pointeeObj, bool strong);
  Val lazyPtrFor(State &s, int obj, i64 off, const llvm::Instruction *I);
  std::map<const llvm::Instruction *, pair<long, vector<string>>> samples;
  void dump(State &s);
  bool noOtherOwners(State &s, const Obj &c); bool relate = false; map<string, set<string>> unequal;
  string pointeeTypeAt(State &s, int obj, i64 off, string *encl = nullptr); bool inPx = false;
  bool cbUniqueImpossible(State &s, int cb);
};
string stripTemplates(const string &);
vector<string> templateArgs(const string &);
string lastComponent(const string &);
void addStdModels(Engine &);
void releaseCb(Engine &, State &, int cb);
void now0(); double nowSec();
