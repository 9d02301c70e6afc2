// Contracts of the C++ runtime, of the standard library's out-of-line parts and
// of boost::shared_ptr's counters for control blocks found lazily.
#include "core.h"
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
using std::make_shared;

static string tiNameOf(Engine &E, State &s, Val v) {
  v = E.norm(s, v); if (!v.isPtr() || !E.objGlobal.count((int)v.a)) return "?";
  string d = demangle(E.objGlobal[(int)v.a]->getName().str()); if (d.compare(0, 13, "typeinfo for ") == 0) return d.substr(13); return d;
}
// number of owners outside this operation: [0,inf) unless it is known to be 0
static Val others(Engine &E, State &s, int cb) {
  Obj &x = E.w(s, cb);
  if (E.noOtherOwners(s, x)) { x.countSym = -1; return Val::I(0); }
  if (s.gh.count("seq") && x.countSym > 0 && s.syms.count(x.countSym)) return Val::S(x.countSym);     // nobody else changes it
  x.countSym = E.newSym(s, x.countSym == -2 ? 1 : 0, INT64_MAX / 8, 64); return Val::S(x.countSym);
}
static bool lazyCbArg(Engine &E, State &s, vector<Val> &a, int &id) {
  Val t = E.norm(s, a[0]); if (!t.isPtr() || t.b != 0 || !s.objs.count((int)t.a) || !E.o(s, (int)t.a).cb) return false; id = (int)t.a; return true;
}
void releaseCb(Engine &E, State &s, int id) {
  Obj &x = E.w(s, id);
  if (x.nlocal <= 0) { E.violation(s, "over-release", "a shared_ptr releases an owner it does not hold"); throw Stop(); }
  x.nlocal--; bool last = x.nlocal == 0 && x.owners == 0 && !(x.tags.count("held"));
  E.R->onRelease(s, id, last);
}

void addStdModels(Engine &E) {
  typedef const CallBase *CB; typedef const Function *FN; typedef vector<Val> VV;
  auto A = [&](const string &k, Model m) { E.addModel(k, m); };
  auto alloc = [](Engine &E, State &s, CB cb, FN, VV &a, Val &r) {
    if (E.allocFail && E.R->mayFail(s)) if (E.decide(2) == 1) { E.note(s, "memory allocation fails"); E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    int id = E.newObj(s, Obj::Heap, a.empty() || !a[0].isInt() ? -1 : a[0].a); E.w(s, id).distinct = true; E.w(s, id).site = cb; E.w(s, id).tags["alloc"] = Val::I(1); r = Val::P(id); return true; };
  A("operator new", [alloc](Engine &E, State &s, CB cb, FN f, VV &a, Val &r) { if (a.size() == 2 && f->getName() == "_ZnwmPv") { r = a[1]; return true; } return alloc(E, s, cb, f, a, r); });
  A("operator new[]", alloc); A("malloc", alloc);
  auto dealloc = [](Engine &E, State &s, CB cb, FN, VV &a, Val &r) {
    Val p = E.norm(s, a[0]); if (p.isInt(0)) return true; if (!p.isPtr()) throw Lost{"delete of non-pointer"};
    const Obj &x = E.o(s, (int)p.a);
    if (x.freed) { E.violation(s, "double-free", "memory is freed twice"); throw Stop(); }
    if (x.kind == Obj::Stack || x.kind == Obj::Global || p.b != 0) { E.violation(s, "bad-free", "memory not obtained from new is freed"); throw Stop(); }
    E.R->onFree(s, (int)p.a); E.w(s, (int)p.a).freed = true; E.w(s, (int)p.a).cells.clear(); return true; };
  A("operator delete", [dealloc](Engine &E, State &s, CB cb, FN f, VV &a, Val &r) { if (f->getName() == "_ZdlPvS_") return true; return dealloc(E, s, cb, f, a, r); });
  A("operator delete[]", dealloc); A("free", dealloc);
  // exceptions
  A("__cxa_allocate_exception", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { int id = E.newObj(s, Obj::Heap, a[0].isInt() ? a[0].a : -1); E.w(s, id).distinct = true; r = Val::P(id); return true; });
  A("__cxa_free_exception", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { return true; });
  A("__cxa_throw", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { E.throwExc(s, tiNameOf(E, s, a[1]), a[0]); return true; });
  A("__cxa_begin_catch", [](Engine &E, State &s, CB, FN, VV &a, Val &r) {
    if (!s.inflight) throw Lost{"catch without exception"};
    Exc x = *s.inflight; x.handlers = 1; x.rethrown = false; s.caught.push_back(x); r = s.inflight->obj; s.inflight.reset(); return true; });
  A("__cxa_end_catch", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { if (s.caught.empty()) throw Lost{"end of catch without exception"}; bool re = s.caught.back().rethrown; Exc x = s.caught.back(); s.caught.pop_back(); if (!re) E.R->onExceptionDone(s, x); return true; });
  A("__cxa_rethrow", [](Engine &E, State &s, CB, FN, VV &a, Val &r) {
    if (s.caught.empty()) { E.R->onTerminate(s, "throw; without an exception being handled"); throw Stop(); }
    s.caught.back().rethrown = true; if (s.inflight) s.suspended.push_back(*s.inflight); s.inflight = make_shared<Exc>(s.caught.back()); s.inflight->handlers = 0; s.inflight->rethrown = false; E.unwind(s); return true; });
  A("__cxa_get_exception_ptr", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { r = s.inflight ? s.inflight->obj : a[0]; return true; });
  A("boost::throw_exception", [](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    string p = E.name(f).params; string t = p.size() > 2 ? p.substr(1) : p; size_t c = t.find(" const&"); if (c != string::npos) t.resize(c);
    int id = E.newObj(s, Obj::Heap, 64); Val src = E.norm(s, a[0]); if (src.isPtr()) E.copyMem(s, Val::P(id), src, 16);
    E.throwExc(s, t, Val::P(id)); return true; });
  auto term = [](Engine &E, State &s, CB, FN, VV &, Val &) -> bool { E.R->onTerminate(s, "std::terminate is called"); throw Stop(); };
  A("std::terminate", term); A("__clang_call_terminate", term); A("abort", term);
  A("__cxa_pure_virtual", [](Engine &E, State &s, CB, FN, VV &, Val &) -> bool { E.violation(s, "pure-virtual", "a pure virtual function is called"); throw Stop(); });
  A("__assert_fail", [](Engine &E, State &s, CB, FN, VV &a, Val &) -> bool {
    string txt; Val m = E.norm(s, a[0]); if (m.isPtr() && E.objGlobal.count((int)m.a)) if (auto *g = E.objGlobal[(int)m.a]) if (auto *c = dyn_cast_or_null<ConstantDataSequential>(g->hasInitializer() ? g->getInitializer() : nullptr)) if (c->isString()) txt = c->getAsString().str().c_str();
    E.violation(s, "assert", "assertion may fail: " + txt); throw Stop(); });
  A("std::exception::~exception", [](Engine &, State &, CB, FN, VV &, Val &) { return true; });
  A("__cxa_atexit", [](Engine &E, State &s, CB, FN, VV &, Val &r) { r = Val::I(0); return true; });
  A("__cxa_guard_acquire", [](Engine &E, State &s, CB, FN, VV &, Val &r) { r = Val::I(1); return true; });
  A("__cxa_guard_release", [](Engine &E, State &s, CB, FN, VV &, Val &r) { return true; });
  auto thr = [](const char *t) { return [t](Engine &E, State &s, CB, FN, VV &, Val &) { E.throwExc(s, t, Val::P(E.newObj(s, Obj::Heap, 8, t))); return true; }; };
  A("std::__throw_bad_alloc", thr("std::bad_alloc")); A("std::__throw_bad_array_new_length", thr("std::bad_alloc")); A("std::__throw_length_error", thr("std::length_error")); A("std::__throw_logic_error", thr("std::logic_error")); A("std::__throw_bad_cast", thr("std::bad_cast"));
  // type information: one global per type
  auto tieq = [](Engine &E, State &s, CB, FN, VV &a, Val &r) { Val x = E.norm(s, a[0]), y = E.norm(s, a[1]); if (x.isPtr() && y.isPtr() && E.objGlobal.count((int)x.a) && E.objGlobal.count((int)y.a)) r = Val::I(x.a == y.a); else r = Val::I(E.ptrEq(s, x, y)); return true; };
  A("std::type_info::operator==", tieq);
  A("std::type_info::operator!=", [tieq](Engine &E, State &s, CB c, FN f, VV &a, Val &r) { tieq(E, s, c, f, a, r); r = Val::I(!r.a); return true; });
  A("strcmp", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { Val x = E.norm(s, a[0]), y = E.norm(s, a[1]); if (x == y) r = Val::I(0); else r = E.freshInt(s, 32); return true; });
  A("memcpy", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { E.copyMem(s, a[0], a[1], E.concrete(s, a[2])); r = a[0]; return true; });
  A("memmove", [](Engine &E, State &s, CB, FN, VV &a, Val &r) { E.copyMem(s, a[0], a[1], E.concrete(s, a[2])); r = a[0]; return true; });
  // doubly linked list nodes: { next, prev }
  const string L = "std::__detail::_List_node_base::";
  A(L + "_M_hook", [](Engine &E, State &s, CB, FN, VV &a, Val &) {
    Val n = E.norm(s, a[0]), p = E.norm(s, a[1]); auto at = [](Val v, i64 o) { v.b += o; return v; };
    Val prev = E.load(s, at(p, 8), 8, true); E.store(s, at(n, 0), 8, p); E.store(s, at(n, 8), 8, prev); E.store(s, at(E.norm(s, prev), 0), 8, n); E.store(s, at(E.norm(s, p), 8), 8, n); return true; });
  A(L + "_M_unhook", [](Engine &E, State &s, CB, FN, VV &a, Val &) {
    Val n = E.norm(s, a[0]); auto at = [](Val v, i64 o) { v.b += o; return v; };
    Val nx = E.load(s, at(n, 0), 8, true), pv = E.load(s, at(n, 8), 8, true); E.store(s, at(E.norm(s, pv), 0), 8, nx); E.store(s, at(E.norm(s, nx), 8), 8, pv); return true; });
  // counters of control blocks found lazily (others are interpreted)
  const string C = "boost::detail::sp_counted_base::";
  A(C + "add_ref_copy", [](Engine &E, State &s, CB, FN, VV &a, Val &) { int id; if (!lazyCbArg(E, s, a, id)) return false; Obj &x = E.w(s, id); x.nlocal++; x.alive = 1; return true; });
  A(C + "add_ref_lock", [](Engine &E, State &s, CB, FN, VV &a, Val &r) {
    int id; if (!lazyCbArg(E, s, a, id)) return false;
    bool ok; { const Obj &x = E.o(s, id); if (x.nlocal > 0 || x.owners > 0) ok = true; else if (x.alive == 0) ok = false; else if (x.alive == 1 && s.gh.count("seq")) ok = true; else ok = E.decide(2) == 0; }
    Obj &x = E.w(s, id); if (ok) { x.nlocal++; x.alive = 1; } else { x.alive = 0; } r = Val::I(ok); E.R->onLockWeak(s, id, ok); return true; });
  // a pointer in memory that was there before gives up its share
  A("boost::detail::shared_count::~shared_count", [](Engine &E, State &s, CB, FN, VV &a, Val &) {
    Val t = E.norm(s, a[0]); if (!t.isPtr() || !s.objs.count((int)t.a)) return false; const Obj &x = E.o(s, (int)t.a); if (x.kind == Obj::Stack || (x.kind != Obj::Lazy && !x.tags.count("shared"))) return false;
    i64 k = t.b; if (!x.cells.count(k)) E.load(s, t, 8, true);
    if (E.o(s, (int)t.a).strong.count(k)) { Val c = E.norm(s, E.o(s, (int)t.a).cells.at(k).v); if (c.isPtr() && s.objs.count((int)c.a) && E.o(s, (int)c.a).cb) { Obj &y = E.w(s, (int)c.a); if (y.owners > 0) y.owners--; y.nlocal++; } E.w(s, (int)t.a).strong.erase(k); }
    return false; });
  A(C + "release", [](Engine &E, State &s, CB, FN, VV &a, Val &) { int id; if (!lazyCbArg(E, s, a, id)) return false; releaseCb(E, s, id); return true; });
  A(C + "weak_add_ref", [](Engine &E, State &s, CB, FN, VV &a, Val &) { int id; return lazyCbArg(E, s, a, id); });
  A(C + "weak_release", [](Engine &E, State &s, CB, FN, VV &a, Val &) { int id; return lazyCbArg(E, s, a, id); });
  A(C + "use_count", [](Engine &E, State &s, CB, FN, VV &a, Val &r) {
    int id; if (!lazyCbArg(E, s, a, id)) return false;
    { const Obj &x = E.o(s, id); int own = x.nlocal + x.owners + (x.tags.count("held") ? 1 : 0);
      if (own == 0) { // only a weak pointer: expired or not
        if (x.alive == 0) { r = Val::I(0); E.R->onLockWeak(s, id, false); return true; }
        if (!(x.alive == 1 && s.gh.count("seq")) && E.decide(2) == 1) { E.w(s, id).alive = 0; r = Val::I(0); E.R->onLockWeak(s, id, false); return true; }
        E.w(s, id).alive = 1; r = Val::S(E.newSym(s, 1, INT64_MAX / 8, 64)); E.R->onLockWeak(s, id, true); return true; }
      E.R->onLockWeak(s, id, true);
      Val oth = others(E, s, id); if (oth.isInt()) { r = Val::I(own + oth.a); return true; } r = Val::S((int)oth.a, own); return true; } });
}
