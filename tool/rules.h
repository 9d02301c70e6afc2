// The rules of this library: lockset, ownership, typestate of connections.
#pragma once
#include "core.h"
enum Role { R_NONE, R_CONN, R_REF, R_SLOTP, R_SLOTC, R_BMUTEX, R_BLOCKP, R_BLOCKC, R_KEY, R_STATEP, R_STATEC, R_GC, R_IMUTEX, R_LISTP, R_LISTC, R_COMBP, R_COMBC, R_PIMPLP, R_PIMPLC };
struct SubObj { i64 off; string cls; };
struct SigRules : Rules {
  set<string> lockedRules;
  map<string, map<i64, Role>> roleCache;       // class -> offset -> role
  const map<i64, Role> &rolesOf(const string &cls);
  Role role(State &s, int obj, i64 off, i64 *base = nullptr);
  i64 roleOff(State &s, int obj, Role r);       // absolute offset of the field in the object, -1 if none
  bool isBody(State &s, int obj), isImpl(State &s, int obj), isState(State &s, int obj);
  bool shared(State &s, int obj);
  void share(State &s, int obj, int depth = 0);
  Val theMutex(State &s);
  bool held(State &s);
  string ownerName(State &s, int obj);
  // hooks
  bool lazyLoad(State &, int, i64, int, Val &) override;
  void onLoad(State &, int, i64, int, const Val &) override;
  bool weakCell(State &s, int obj, i64 off) override { return role(s, obj, off) == R_GC; }
  void onStore(State &, int, i64, int, const Val &) override;
  bool externCall(State &, const FnName &, const llvm::CallBase *, const llvm::Function *, vector<Val> &, Val &) override;
  void onRelease(State &, int cb, bool last) override;
  void onStart(State &) override; void onExit(State &, bool exceptional) override;
  void onEnter(State &, const llvm::Function *) override;
  void onLeave(State &, const llvm::Function *) override;
  int cmpIndex(State &, int vec, const Val &) override;
  Val indexElem(State &, int vec, const Val &);
  Val firstElem(State &, int vec);
  Val nextElem(State &, int e);
  void beginElems(State &, int vec);
  void onTerminate(State &, const string &) override;
  void onFree(State &, int obj) override;
  bool mayFail(State &) override;
  void onExceptionDone(State &, const Exc &) override;
  void onLockWeak(State &, int cb, bool alive) override;
  // parts
  void lock(State &, Val m); void unlock(State &, Val m); void havoc(State &);
  void evalDirty(State &); void evalBody(State &, int, bool atEnd); void critical(State &);                       // evaluates the bodies at the end of a critical section
  void access(State &, int obj, i64 off, int size, bool write);
  bool alive(State &, int obj, int depth = 0);
  i64 credit(State &, int obj); int blocker(State &, int body); bool ownsBlocker(State &, int body); void setCredit(State &, int obj, i64);
  void slotCall(State &, const FnName &, const llvm::CallBase *, const llvm::Function *, vector<Val> &);
  Val tag(State &, int obj, const string &); void setTag(State &, int obj, const string &, Val); void delTag(State &, int obj, const string &);
  void releaseBuffer(State &, int buf);
  void listMutation(State &, Val list, const string &what);
  void elemJudge(State &, int v, int e); void elemAdvance(State &, int elem);
  Val bodyOfNode(State &, int node);
  Val curList(State &, Val *state = nullptr, int *impl = nullptr);
  bool inTraversal(State &);
  int impl_ = 0;
  void addModels(Engine &);
  void userThrow(State &, const FnName &);
  bool on(const string &r) { return true; }
  struct Spec { string traverse; bool discAny = false, discMatch = false, discSignal = false, discGroup = false, noFail = false, noThrow = false, nullSignal = false, mayStop = false; int keep = 0; bool throwErase = true, recordTrack = false, gc = false, gcConnect = false; } spec; bool rawBuffers = false, rawLists = false;
  std::function<void(State &, bool)> atExit;
  string bodyClass, slotClass, stateClass, listClass, combClass, implClass; i64 listHdr = 0, trackOff = 0; set<string> iterClasses;
  vector<int> touched_;
  void init(Engine &);
  bool stateUnique(State &, int st);
  void installState(State &, int impl, i64 off, const Val &);
  Val trackedOf(State &, int body); int elemState(State &, int e, Val &buf, bool &needs); void trackResult(State &, int vec, bool &sec, bool &expired, Val &secbuf);
  void flushSkip(State &); void flushTrav(State &, bool force); void leaveNode(State &, int node, const Val &next); void checkGc(State &, int impl); void disconnected(State &, int body);
  void select(const string &entry);
  void gcStep(State &, int node, const Val &next); void gcEval(State &); void gcUnlock(State &); void gcExit(State &, bool exc);
  string keyIs(State &, Val key, i64 kind, Val group); void checkKeys(State &);
  void combinerEnded(State &); void caughtExpired(State &); void expiredGone(State &); void gotResult(State &, Val p);
  void foreignLock(State &, Val out, Val self); void foreignExpired(State &, Val self, Val &ret); void foreignCopy(State &, Val tok); void foreignDtor(State &, Val obj);
  void noteFunctionFrom(State &, Val v, Val src, const FnName &); void noteMatch(State &, Val fn, int r); int matches(State &, int body);
  void pushForeign(State &, int buf, Val impl); void pushTracked(State &, int vec, Val p); bool tracksAll(State &, int vec, int src); void tracks(State &, const string &, vector<Val> &); void onPush(State &, Val g, Val body, Val key, bool back);
  std::function<void(State &, vector<Val> &, unsigned first, const llvm::Function *)> argCheck;
  std::function<void(State &, int vec, i64 kind, Val px)> onTrack; std::function<void(State &, Val, Val, Val, bool)> onPushCb;
};
