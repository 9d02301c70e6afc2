#include "rules.h"
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Constants.h>
using namespace llvm;
using std::make_shared;
typedef const CallBase *CB; typedef const Function *FN; typedef vector<Val> VV;
static bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const string &s, const string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static const string NS = "boost::signals2::";

void SigRules::init(Engine &e) {
  E = &e; e.R = this;
  auto pick = [&](const string &st) { string best; for (auto &l : e.layouts) if (stripTemplates(l.first) == st && !l.second.empty() && (best.empty() || l.first.size() > best.size())) best = l.first; return best; };
  for (auto &l : e.layouts) { string st = stripTemplates(l.first); if (starts(st, NS + "detail::signal") && ends(st, "_impl") && !l.second.empty()) implClass = l.first; if (ends(st, "::invocation_state") && !l.second.empty()) stateClass = l.first; }
  bodyClass = pick(NS + "detail::connection_body"); if (bodyClass.empty()) bodyClass = NS + "detail::connection_body_base"; listClass = pick(NS + "detail::grouped_list");
  auto la = e.layouts.find(bodyClass);
  if (la != e.layouts.end()) for (auto &f : la->second) { string t = stripTemplates(f.type); auto a = templateArgs(f.type); if (t == "boost::shared_ptr" && a.size() && starts(stripTemplates(a[0]), NS + "slot")) slotClass = a[0]; }
  auto ls = e.layouts.find(stateClass); if (ls != e.layouts.end()) for (auto &f : ls->second) { auto a = templateArgs(f.type); if (stripTemplates(f.type) == "boost::shared_ptr" && a.size() && stripTemplates(a[0]) != NS + "detail::grouped_list") combClass = a[0]; }
  auto lg = e.layouts.find(listClass); if (lg != e.layouts.end()) for (auto &f : lg->second) if (stripTemplates(f.type) == "std::__cxx11::list") listHdr = f.off;
  std::function<i64(const string &)> vec = [&](const string &c) -> i64 { auto l = e.layouts.find(c); if (l == e.layouts.end()) return -1; for (auto &f : l->second) { if (stripTemplates(f.type) == "std::vector") return f.off; if (f.name[0] == '@') { i64 r = vec(f.name.substr(1)); if (r >= 0) return f.off + r; } } return -1; };
  trackOff = vec(slotClass);
  for (auto &f : *e.M) { auto &n = e.name(&f); if (n.ctx == "user::Combiner" && n.base == "operator()" && n.params.size() > 2) { string p = n.params.substr(1); string st = stripTemplates(p); size_t c = st.find(','); if (c != string::npos) st.resize(c); iterClasses.insert(st); } }
  iterClasses.insert(NS + "detail::slot_call_iterator_t");
  if (getenv("S2DEBUG")) { for (auto c : {implClass, stateClass, bodyClass, listClass, slotClass, combClass}) { fprintf(stderr, "CLASS %s\n", c.c_str()); for (auto &r : rolesOf(c)) fprintf(stderr, "   role %ld = %d\n", (long)r.first, r.second); for (auto &f : e.layouts[c]) fprintf(stderr, "   field %s %ld %s\n", f.name.c_str(), (long)f.off, f.type.c_str()); } fprintf(stderr, "hdr %ld track %ld\n", (long)listHdr, (long)trackOff); for (auto &i : iterClasses) fprintf(stderr, "iter %s\n", i.c_str()); }
  addModels(e);
}
void SigRules::select(const string &entry) {
  spec = Spec(); rawLists = starts(entry, "h_grp");
  if (entry == "h_disconnect_all") { spec.traverse = "disconnect"; spec.discAny = true; }
  if (entry == "h_disconnect_group") { spec.traverse = "disconnect"; spec.discAny = spec.discGroup = true; }
  if (starts(entry, "h_disconnect_slot")) { spec.traverse = "match"; spec.discMatch = true; spec.discSignal = starts(entry, "h_disconnect_slot_sig"); }
  if (starts(entry, "h_num_slots")) spec.traverse = "count";
  if (starts(entry, "h_empty")) { spec.traverse = "count"; spec.mayStop = true; }
  if (starts(entry, "h_gc_")) { spec.gc = true; spec.gcConnect = starts(entry, "h_gc_connect"); if (!spec.gcConnect) E->relate = true; }
  if (starts(entry, "h_args")) spec.noThrow = spec.noFail = true;
  if (starts(entry, "h_trk") || starts(entry, "h_connect")) spec.recordTrack = true;
  if (ends(entry, "_null")) spec.nullSignal = true;
  if (starts(entry, "h_conn_disconnect")) spec.discAny = true;
}

// ------------------------------------------------------------------ user code
void SigRules::userThrow(State &s, const FnName &n) {
  E->note(s, "user code throws: " + n.base); int id = E->newObj(s, Obj::Heap, 16, ""); E->w(s, id).distinct = true;
  if (n.ctx == "user::SlotFn" || n.ctx == "user::ExtSlotFn" || n.ctx == "user::Combiner" || n.ctx == "user::Result" || n.full.find("user::got") != string::npos) s.gh["mustThrow"] = Val::P(id);
  if (n.ctx == "user::Result" && inTraversal(s)) s.gh["called"] = Val::I(0);     // the result was lost
  E->throwExc(s, "user::Exception", Val::P(id));
}
static string baseClass(const string &ctx) { return lastComponent(ctx); }
bool SigRules::externCall(State &s, const FnName &n, CB cb, FN f, VV &a, Val &ret) {
  if (!f->isDeclaration()) return false;
  if (!starts(n.full.substr(n.full.find("user::") == string::npos ? 0 : n.full.find("user::")), "user::") && !starts(n.ctx, "user") ) return false;
  E->externSeen[n.ctx + "::" + n.base]++;
  if (s.gh.count("quiet") && n.ctx != "user") E->violation(s, "quiet", "user code is called: " + n.ctx + "::" + n.base);
  unsigned sret = f->arg_size() && f->getArg(0)->hasStructRetAttr() ? 1 : 0;
  string cls = n.ctx; string b = n.base;
  auto at = [&](Val v, i64 off) { v = E->norm(s, v); v.b += off; return v; };
  auto canThrow = [&] { if (f->doesNotThrow() || cb->doesNotThrow() || spec.noThrow) return false; return E->decide(2) == 1; };
  auto fresh = [&](const string &t) { Val v = E->lazyPtr(s, "@" + t, false); E->w(s, (int)v.a).distinct = true; return v; };
  if (cls == "user::Mutex") {
    if (b == "lock") { lock(s, E->norm(s, a[0])); return true; }
    if (b == "unlock") { unlock(s, E->norm(s, a[0])); return true; }
    if (b == "try_lock") { if (E->decide(2)) { lock(s, E->norm(s, a[0])); ret = Val::I(1); } else ret = Val::I(0); return true; }
    if (b == "Mutex") { setTag(s, (int)E->norm(s, a[0]).a, "mutexAt", Val::I(E->norm(s, a[0]).b)); return true; }
    return true;
  }
  if (b == "choose" && cls == "user") {
    s.progress = true;
    for (auto &f2 : s.gh) (void)f2;
    Val c = s.gh.count("cur") ? E->norm(s, s.gh["cur"]) : Val();
    if (c.isPtr() && s.objs.count((int)c.a) && E->o(s, (int)c.a).tags.count("chain")) { Val bd = bodyOfNode(s, (int)c.a); if (bd.isPtr() && tag(s, (int)bd.a, "callable").isInt(1)) setTag(s, (int)c.a, "presented", Val::I(1)); }
    ret = Val::I(E->decide(2)); return true;
  }
  if (cls == "user" && b == "check") {
    string txt; Val m = E->norm(s, a[1]); if (m.isPtr() && E->objGlobal.count((int)m.a)) if (auto *g = E->objGlobal[(int)m.a]) if (auto *c = dyn_cast_or_null<ConstantDataSequential>(g->hasInitializer() ? g->getInitializer() : nullptr)) if (c->isString()) txt = c->getAsString().str().c_str();
    size_t c = txt.find(": "); string rule = "check:" + (c == string::npos ? "?" : txt.substr(0, c)); E->obligation(s, rule);
    if (E->isNullV(s, a[0])) { E->violation(s, rule, txt); throw Stop(); } return true; }
  if (cls == "user" && b == "assume") { if (E->isNullV(s, a[0])) throw Kill(); return true; }
  if (cls == "user" && b == "known") { ret = Val::I(E->isNullV(s, a[0]) ? 0 : 1); return true; }
  if (cls == "user" && b == "sequential") { s.gh["seq"] = Val::I(1); return true; }
  if (cls == "user" && (b == "impl" || b == "owners")) {
    Val p = E->norm(s, a[0]); if (!p.isPtr() || !s.objs.count((int)p.a)) throw Lost{"signal unknown"}; i64 off = -1; const Obj &x = E->o(s, (int)p.a);
    auto find = [&](const string &c, i64 at) { for (auto &q : rolesOf(c)) if (q.second == R_PIMPLP && at + q.first >= p.b) { off = at + q.first; break; } };
    if (!x.type.empty()) find(x.type, 0); if (off < 0) for (auto &sb : x.subs) if (sb.first == p.b) find(sb.second, sb.first);
    if (off < 0) throw Lost{"the state of the signal is not found"}; ret = E->norm(s, E->load(s, Val::P(p.a, off), 8, true));
    if (b == "owners") { Val c = E->norm(s, E->load(s, Val::P(p.a, off + 8), 8, true)); if (!c.isPtr()) ret = Val::I(0); else if (E->o(s, (int)c.a).cb) { const Obj &k = E->o(s, (int)c.a); ret = Val::I(k.nlocal + k.owners); } else { Val q = c; q.b += 8; ret = E->norm(s, E->load(s, q, 4, false)); } }
    return true; }
  if (cls == "user" && b == "quiet") { if (E->isNullV(s, a[0])) s.gh.erase("quiet"); else s.gh["quiet"] = Val::I(1); return true; }
  if (cls == "user" && b == "may_disconnect") { Val p = E->norm(s, a[0]); Val x = E->norm(s, E->load(s, p, 8, true)); if (x.isPtr() && !E->isNullV(s, x)) { x = E->norm(s, x); setTag(s, (int)x.a, "mayDisc", Val::I(1)); } return true; }
  if (cls == "user" && (b == "count_is" || b == "empty_is")) flushTrav(s, true);
  if (cls == "user" && b == "count_is") {
    E->obligation(s, "count"); Val v = E->norm(s, a[0]), g = s.gh.count("cnt:conn") ? E->norm(s, s.gh["cnt:conn"]) : Val::I(0);
    if (s.gh.count("implnull")) g = Val::I(0);
    if (!(v == g)) E->violation(s, "count", "num_slots() does not return the number of slots found connected"); return true; }
  if (cls == "user" && b == "empty_is") {
    E->obligation(s, "count"); Val v = E->norm(s, a[0]); bool e = !E->isNullV(s, v); Val g = s.gh.count("cnt:conn") ? E->norm(s, s.gh["cnt:conn"]) : Val::I(0);
    Val at = s.gh.count("tcur") ? E->norm(s, s.gh["tcur"]) : s.gh.count("tbegin") ? E->norm(s, s.gh["tbegin"]) : Val(); bool end = at.isPtr() && E->o(s, (int)at.a).tags.count("listobj");
    if (s.gh.count("implnull")) { if (!e) E->violation(s, "count", "empty() is false for a signal without state"); return true; }
    if (e) { if (!end) E->violation(s, "count", "empty() is true although slots of the list were not examined"); else if (!g.isInt(0)) E->violation(s, "count", "empty() is true although a slot was found connected"); return true; }
    bool some = !E->cmpInt(s, CmpInst::ICMP_EQ, g, Val::I(0), 64); if (!some && at.isPtr()) { Val bd = bodyOfNode(s, (int)at.a); if (!end && bd.isPtr() && tag(s, (int)bd.a, "wasconn").isInt(1) && tag(s, (int)bd.a, "full").isInt(1)) some = true; }
    if (!some) E->violation(s, "count", "empty() is false although no slot was found connected"); return true; }
  if (cls == "user" && b == "identity") { auto l = E->layouts.find(NS + "trackable"); i64 off = -1; if (l != E->layouts.end()) for (auto &f : l->second) if (stripTemplates(f.type) == "boost::shared_ptr") off = f.off; if (off < 0) throw Lost{"layout of trackable"};
    Val p = E->norm(s, a[0]); p.b += off + 8; ret = E->norm(s, E->load(s, p, 8, true)); return true; }
  if (cls == "user" && starts(b, "tracks_")) { tracks(s, b, a); return true; }
  if (cls == "user" && b == "comparing") { Val p = E->norm(s, a[0]); if (!p.isPtr() || !s.objs.count((int)p.a)) throw Lost{"signal unknown"}; i64 off = -1; const Obj &x = E->o(s, (int)p.a);
    auto find = [&](const string &c, i64 at) { for (auto &q : rolesOf(c)) if (q.second == R_PIMPLP && at + q.first >= p.b && off < 0) off = at + q.first; }; if (!x.type.empty()) find(x.type, 0); if (off < 0) for (auto &sb : x.subs) if (sb.first == p.b) find(sb.second, sb.first);
    if (off < 0) throw Lost{"the state of the signal is not found"}; E->load(s, Val::P(p.a, off), 8, true); E->load(s, Val::P(p.a, off + 8), 8, true); s.gh["comparing"] = Val::P(p.a, off); return true; }
  if (cls == "user" && b == "connecting") { s.gh["connecting"] = E->norm(s, a[0]); return true; }
  if (cls == "user" && b == "connects_at") { s.gh["ordKind"] = Val::I(E->concrete(s, a[0])); s.gh["ordBack"] = Val::I(E->concrete(s, a[1])); if (E->norm(s, a[2]).isPtr() && !E->isNullV(s, a[2])) s.gh["ordGroup"] = E->norm(s, E->load(s, E->norm(s, a[2]), 8, true)); return true; }
  if (cls == "user" && b == "group_is") { s.gh["ordGroup"] = E->norm(s, E->load(s, E->norm(s, a[0]), 8, true)); return true; }
  if (cls == "user" && b == "ended") { combinerEnded(s); return true; }
  if (cls == "user" && b == "caught") {
    E->obligation(s, "exception"); Val x = s.gh.count("mustThrow") ? E->norm(s, s.gh["mustThrow"]) : Val();
    if (!x.isPtr()) E->violation(s, "exception", "an exception reaches the combiner although none was thrown"); else if (!(x == E->norm(s, a[0]))) E->violation(s, "exception", "another exception than the one thrown reaches the combiner");
    s.gh.erase("mustThrow"); return true; }
  if (cls == "user" && b == "caught_expired") { caughtExpired(s); return true; }
  if (cls == "user" && b == "got") { gotResult(s, a[0]); if (canThrow()) userThrow(s, n); return true; }
  if ((cls == "user::SlotFn" || cls == "user::ExtSlotFn") && (b == "operator()" || b == "call")) { slotCall(s, n, cb, f, a); return true; }
  // destructors
  if (!b.empty() && b[0] == '~') {
    Val t = E->norm(s, a[0]);
    if (cls == "user::ForeignShared" && t.isPtr()) { foreignDtor(s, t); }
    if ((cls == "user::SlotFn" || cls == "user::ExtSlotFn") && held(s) && t.isPtr() && shared(s, (int)t.a)) E->violation(s, "release-locked", "a slot function is destroyed while the mutex is held");
    if (t.isPtr() && E->o(s, (int)t.a).kind != Obj::Lazy) E->clearRange(s, (int)t.a, t.b, 8);
    return true;
  }
  if (b == baseClass(cls)) {          // constructors
    E->obligation(s, "user-code"); bool copy = n.params.find(cls + " const&") != string::npos, move = n.params.find(cls + "&&") != string::npos;
    if (canThrow()) { userThrow(s, n); return true; }
    Val v; if (copy || move) { v = E->norm(s, E->load(s, at(a[1], 0), 8, true)); if (v.k == Val::Undef) { E->violation(s, "user-object", "a destroyed or uninitialised " + cls + " is copied"); throw Stop(); } if (move) { E->store(s, at(a[1], 0), 8, fresh("moved"), true); } if (cls == "user::ForeignShared") foreignCopy(s, v); }
    else { v = fresh(cls); if (a.size() > 1 && a[1].isPtr()) setTag(s, (int)v.a, "from", E->norm(s, a[1])); if (cls == "user::SlotFn" && a.size() > 1) noteFunctionFrom(s, v, a[1], n); }
    E->store(s, at(a[0], 0), 8, v, true); return true;
  }
  if (b == "operator=") {
    Val t = E->norm(s, a[0]); if (t.isPtr() && s.objs.count((int)t.a) && tag(s, (int)t.a, "combOf").isPtr()) E->violation(s, "snapshot", "a combiner that invocations may be using is assigned to");
    if (canThrow()) { userThrow(s, n); return true; }
    Val v = E->norm(s, E->load(s, at(a[1], 0), 8, true)); if (v.k == Val::Undef) { E->violation(s, "user-object", "a destroyed or uninitialised " + cls + " is assigned"); throw Stop(); }
    if (n.params.find("&&") != string::npos) { E->store(s, at(a[1], 0), 8, fresh("moved"), true); }
    E->store(s, at(a[0], 0), 8, v, true); ret = a[0]; return true;
  }
  if (cls == "user::ForeignWeak" && b == "expired") { foreignExpired(s, a[0], ret); return true; }
  if (cls == "user::ForeignWeak" && b == "lock") { foreignLock(s, a[0], a[1]); return true; }
  if (b == "contains") {      // does this slot function equal the one to be disconnected?
    Val t = E->norm(s, a[0]); int r = E->decide(2); ret = Val::I(r); if (canThrow()) { userThrow(s, n); return true; }
    noteMatch(s, t, r); return true;
  }
  if (b == "target") {       // a slot function is made from one thing: a function, an extended slot or a signal
    Val t = E->norm(s, a[0]); Val body = t.isPtr() && s.objs.count((int)t.a) ? tag(s, (int)t.a, "slotOf") : Val(); i64 kind = f->getName().find("weak_signal") != StringRef::npos ? 2 : f->getName().find("bound_extended") != StringRef::npos ? 1 : 0;
    if (kind && body.isPtr()) { string no = "notkind" + std::to_string(kind); Val k = tag(s, (int)body.a, "fnkind"), had = tag(s, (int)body.a, "target" + std::to_string(kind));
      if (had.isPtr()) { ret = had; return true; }
      bool yes = k.isInt() ? k.a == kind : tag(s, (int)body.a, no).isInt(1) ? false : E->decide(2) == 1; if (!yes) { setTag(s, (int)body.a, no, Val::I(1)); ret = Val::I(0); return true; }
      setTag(s, (int)body.a, "fnkind", Val::I(kind)); ret = E->lazyPtr(s, "", false); setTag(s, (int)ret.a, "targetOf", Val::P(t.a)); setTag(s, (int)body.a, "target" + std::to_string(kind), ret); return true; }
    ret = E->decide(2) ? E->lazyPtr(s, "", false) : Val::I(0); if (ret.isPtr()) setTag(s, (int)ret.a, "targetOf", Val::P(t.a)); return true; }
  if (cls == "user::Combiner" && held(s)) { if (b == "result") E->violation(s, "call-locked", "the combiner runs while the mutex is held"); }
  if (canThrow()) { userThrow(s, n); return true; }
  if (sret) { E->store(s, at(a[0], 0), 8, fresh("result of " + b), true); return true; }
  if (f->getReturnType()->isIntegerTy()) { unsigned w_ = f->getReturnType()->getIntegerBitWidth(); ret = w_ == 1 ? Val::I(E->decide(2)) : E->freshInt(s, w_); }
  else if (f->getReturnType()->isPointerTy()) ret = E->lazyPtr(s, "", false);
  return true;
}
void SigRules::noteFunctionFrom(State &s, Val v, Val src, const FnName &n) {}
void SigRules::noteMatch(State &s, Val fn, int r) {
  if (!fn.isPtr() || !s.objs.count((int)fn.a)) return; Val b = tag(s, (int)fn.a, "slotOf"); bool ext = false;
  if (!b.isPtr()) { Val t = tag(s, (int)fn.a, "targetOf"); if (t.isPtr()) { b = tag(s, (int)t.a, "slotOf"); ext = true; } }
  if (!b.isPtr()) for (auto &p : s.objs) { auto t = p.second->tags.find("targetOf"); if (t == p.second->tags.end()) continue; for (auto &c : p.second->cells) { Val v = E->norm(s, c.second.v); if (v.isPtr() && v.a == fn.a && t->second.isPtr()) { b = tag(s, (int)t->second.a, "slotOf"); ext = true; } } }
  if (!b.isPtr()) return; if (r) setTag(s, (int)b.a, "matched", Val::I(1)); else if (!tag(s, (int)b.a, "matched").isInt(1)) setTag(s, (int)b.a, "matched", Val::I(0));
  setTag(s, (int)b.a, ext ? "cmpext" : "cmpfn", Val::I(1)); if (r && !ext) setTag(s, (int)b.a, "fnkind", Val::I(0));
}
// is the slot of a connection equal to the function, or made from the signal, to be disconnected? -1: not found out
int SigRules::matches(State &s, int b) {
  Val m = tag(s, b, "matched"), k = tag(s, b, "fnkind"); if (m.isInt(1)) return 1;
  if (spec.discSignal && k.isInt(2)) {
    Val t = tag(s, b, "target2"), o = s.gh.count("comparing") ? E->norm(s, s.gh["comparing"]) : Val(); if (!t.isPtr() || !o.isPtr()) return -1;
    auto cell = [&](Val p, i64 off) { auto &c = E->o(s, (int)p.a).cells; auto i = c.find(p.b + off); return i == c.end() ? Val() : E->norm(s, i->second.v); };
    Val wp = cell(t, 0), wn = cell(t, 8), op = cell(o, 0), on = cell(o, 8);
    if ((wp.k != Val::Undef && wp == op) || (wn.k != Val::Undef && wn == on)) return 1;
    return E->knownDistinct(s, wp, op) || E->knownDistinct(s, wn, on) || (wn.isPtr() && E->o(s, (int)wn.a).cb && E->o(s, (int)wn.a).alive == 0) ? 0 : -1; }
  if (!tag(s, b, "cmpfn").isInt(1)) return -1;
  if (k.isInt(1)) return tag(s, b, "cmpext").isInt(1) ? 0 : -1;
  if (k.isInt(0)) return 0;
  if (!tag(s, b, "notkind1").isInt(1)) return k.isInt(2) ? 0 : -1;
  return !spec.discSignal || tag(s, b, "notkind2").isInt(1) ? 0 : -1;
}
// a slot is called
void SigRules::slotCall(State &s, const FnName &n, CB cb, FN f, VV &a) {
  unsigned sr = f->arg_size() && f->getArg(0)->hasStructRetAttr() ? 1 : 0; Val fn = E->norm(s, a[sr]);
  E->obligation(s, "slot-call");
  if (held(s)) E->violation(s, "call-locked", "a slot is called while the mutex is held");
  Val bodyv; int T = 0; if (fn.isPtr() && s.objs.count((int)fn.a)) { T = (int)fn.a; bodyv = tag(s, T, "slotOf"); }
  if (bodyv.isPtr()) {
    int b = (int)bodyv.a; bool share_ = credit(s, b) > 0; if (!share_) { Val c = tag(s, T, "cb"); if (c.isPtr()) { auto &o = E->o(s, (int)c.a); share_ = o.nlocal > 0 || o.tags.count("held"); } }
    if (!share_) E->violation(s, "slot-alive", "a slot is called without holding a share in its slot function object");
    if (!tag(s, b, "callable").isInt(1)) E->violation(s, "callable", "a slot is called that was not found connected, unblocked and unexpired in one critical section");
    if (tag(s, b, "sec").k == Val::Undef || tag(s, b, "sec").isInt(0)) E->violation(s, "tracked-alive", "a slot is called while its tracked objects are not kept alive");
    Val cur = s.gh.count("cur") ? E->norm(s, s.gh["cur"]) : Val();
    if (cur.isPtr() && s.objs.count((int)cur.a)) { Val cb2 = bodyOfNode(s, (int)cur.a); if (!(cb2 == bodyv)) E->violation(s, "position", "the slot called is not the one the iterator refers to"); }
    if (s.gh.count("called") && s.gh["called"].isInt(1)) E->violation(s, "call-once", "a slot is called again at the same position");
  }
  else if (T) { bool own = stripTemplates(E->o(s, T).type) == NS + "slot"; for (auto &x : E->o(s, T).subs) own |= stripTemplates(x.second) == NS + "slot"; auto &c = E->o(s, T).cells; auto i = c.find(trackOff);
    if (own && i != c.end()) { Val v = E->norm(s, i->second.v); bool sec = false, exp = false; Val sb = Val::I(1); if (v.isPtr()) { trackResult(s, (int)v.a, sec, exp, sb); E->obligation(s, "tracked-alive"); if (!sec || exp || sb.isInt(0)) E->violation(s, "tracked-alive", "a slot is called while its tracked objects are not kept alive"); } }
    else if (own) { E->obligation(s, "tracked-alive"); E->violation(s, "tracked-alive", "a slot is called without looking at its tracked objects"); } }
  if (argCheck) argCheck(s, a, sr + 1, f);
  if (f->doesNotThrow() || spec.noThrow) {} else {
    int k = E->decide(4);
    if (k == 3) { E->note(s, "the slot throws std::exception"); int id = E->newObj(s, Obj::Heap, 16, ""); E->w(s, id).distinct = true; s.gh["mustThrow"] = Val::P(id); E->throwExc(s, "boost::bad_weak_ptr", Val::P(id)); return; }
    if (k == 1) { userThrow(s, n); return; }
    if (k == 2) { E->note(s, "the slot throws expired_slot"); int id = E->newObj(s, Obj::Heap, 16, ""); E->w(s, id).distinct = true; if (bodyv.isPtr()) s.gh["expFrom"] = bodyv; s.gh["mustThrow"] = Val::P(id); E->throwExc(s, NS + "expired_slot", Val::P(id)); return; }
  }
  E->note(s, "the slot is called");
  s.gh["called"] = Val::I(1);
  if (sr) { Val tok = E->lazyPtr(s, "@slot result", false); E->w(s, (int)tok.a).distinct = true; s.gh["resTok"] = tok; Val d = E->norm(s, a[0]); E->store(s, d, 8, tok, true); }
}
void SigRules::gotResult(State &s, Val p) {
  if (s.gh.count("mustThrow")) { E->violation(s, "exception", "an exception thrown by a slot is swallowed"); s.gh.erase("mustThrow"); }
  p = E->norm(s, p); E->obligation(s, "result"); Val v = E->norm(s, E->load(s, p, 8, true)); Val r = s.gh.count("resTok") ? E->norm(s, s.gh["resTok"]) : Val();
  if (v.k == Val::Undef) E->violation(s, "result", "dereferencing yields an uninitialised or destroyed result");
  else if (!r.isPtr() || !(v == r)) E->violation(s, "result", "dereferencing yields a result that is not the one of the slot at this position");
}
void SigRules::combinerEnded(State &s) {
  E->obligation(s, "no-skip"); Val c = s.gh.count("cur") ? E->norm(s, s.gh["cur"]) : s.gh.count("tbegin") ? E->norm(s, s.gh["tbegin"]) : Val();
  if (!c.isPtr()) return; const Obj &x = E->o(s, (int)c.a); if (x.tags.count("chain")) E->violation(s, "no-skip", "the end is reported although positions of the slot list are left");
}
void SigRules::expiredGone(State &s) {
  Val x = s.gh.count("expFrom") ? E->norm(s, s.gh["expFrom"]) : Val(); if (!x.isPtr()) return;
  auto &c = E->o(s, (int)x.a).cells; auto i = c.find(roleOff(s, (int)x.a, R_CONN)); if (i == c.end() || !i->second.v.isInt(0)) E->violation(s, "expired-slot", "a slot that threw expired_slot is not disconnected");
}
void SigRules::caughtExpired(State &s) {
  E->obligation(s, "expired-slot"); Val x = s.gh.count("expFrom") ? E->norm(s, s.gh["expFrom"]) : Val();
  if (!x.isPtr()) { E->violation(s, "expired-slot", "expired_slot reaches the combiner although no slot threw it"); return; }
  expiredGone(s);
  s.gh.erase("expFrom"); s.gh.erase("mustThrow");
}
// ------------------------------------------------------------------ foreign pointers
void SigRules::foreignLock(State &s, Val out, Val self) {
  self = E->norm(s, self); int im = (int)self.a; int al = E->decide(2); Val tok = E->lazyPtr(s, "@foreign owner", false); int t = (int)tok.a; E->w(s, t).distinct = true;
  Val ex = tag(s, im, "fexp"); if (ex.isInt()) { if (ex.a == al) throw Kill(); }
  setTag(s, t, "lockOf", Val::P(im)); setTag(s, t, "n", Val::I(1)); setTag(s, t, "alive", Val::I(al)); if (al) setTag(s, im, "flocked", Val::I(1)); else setTag(s, im, "fexp", Val::I(1));
  E->store(s, E->norm(s, out), 8, tok, true);
}
void SigRules::foreignExpired(State &s, Val self, Val &ret) {
  int im = (int)E->norm(s, self).a; Val ex = tag(s, im, "fexp"); if (ex.isInt()) { ret = ex; return; } int e = tag(s, im, "flocked").isInt(1) ? 0 : E->decide(2); setTag(s, im, "fexp", Val::I(e)); ret = Val::I(e);
}
void SigRules::foreignCopy(State &s, Val tok) { if (tok.isPtr() && tag(s, (int)tok.a, "n").isInt()) setTag(s, (int)tok.a, "n", Val::I(tag(s, (int)tok.a, "n").a + 1)); }
void SigRules::foreignDtor(State &s, Val obj) {
  auto &c = E->o(s, (int)obj.a).cells; auto i = c.find(obj.b); if (i == c.end()) { if (E->o(s, (int)obj.a).kind != Obj::Lazy) E->violation(s, "user-object", "a foreign owner is destroyed twice"); return; }
  Val tok = E->norm(s, i->second.v); if (!tok.isPtr() || !tag(s, (int)tok.a, "n").isInt()) return; i64 k = tag(s, (int)tok.a, "n").a - 1; setTag(s, (int)tok.a, "n", Val::I(k));
  if (k == 0 && held(s) && tag(s, (int)tok.a, "alive").isInt(1)) E->violation(s, "release-locked", "the owner obtained from a foreign weak pointer is released while the mutex is held");
}

// ------------------------------------------------------------------ contracts of the containers
void SigRules::addModels(Engine &e) {
  auto A = [&](const string &k, Model m) { e.addModel(k, m); };
  auto self = [this](Engine &E, State &s, VV &a) { return E.norm(s, a[0]); };
  // ---- auto_buffer of shared owners
  const string B = NS + "detail::auto_buffer::";
  auto buf = [this](Engine &E, State &s, Val b) -> int { Val v = E.norm(s, E.load(s, b, 8, true)); if (!v.isPtr()) throw Lost{"buffer that was not constructed"}; return (int)v.a; };
  auto isOwnerBuf = [](Engine &E, FN f) { auto a = templateArgs(E.name(f).ctx); return !a.empty() && (starts(stripTemplates(a[0]), "boost::shared_ptr") || starts(stripTemplates(a[0]), "boost::variant")); };
  A(B + "auto_buffer", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (rawBuffers || !isOwnerBuf(E, f)) return false; if (f->arg_size() != 1) throw Lost{"auto_buffer constructor"}; int t = E.newObj(s, Obj::Heap, 8, "@buffer"); E.store(s, E.norm(s, a[0]), 8, Val::P(t), true); return true; });
  A(B + "~auto_buffer", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (rawBuffers || !isOwnerBuf(E, f)) return false; int t = buf(E, s, E.norm(s, a[0])); releaseBuffer(s, t); E.clearRange(s, (int)E.norm(s, a[0]).a, E.norm(s, a[0]).b, 8); return true; });
  A(B + "clear", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (rawBuffers || !isOwnerBuf(E, f)) return false; int t = buf(E, s, E.norm(s, a[0])); releaseBuffer(s, t); 
    // a new identity: what was secured by the old contents no longer is
    int n = E.newObj(s, Obj::Heap, 8, "@buffer"); E.store(s, E.norm(s, a[0]), 8, Val::P(n), true); return true; });
  auto push = [=](Engine &E, State &s, int t, Val p, bool variant) {
    if (variant) { Val wh = E.load(s, p, 4, false); i64 w = E.concrete(s, wh); if (w == 1) { Val q = p; q.b += 8; pushForeign(s, t, E.norm(s, E.load(s, q, 8, true))); return; } p.b += 8; }
    Val q = p; q.b += 8; Val pn = E.norm(s, E.load(s, q, 8, true)); if (pn.isInt(0)) return;
    if (!pn.isPtr()) throw Lost{"owner pushed is unknown"};
    if (E.isNullV(s, pn)) return; pn = E.norm(s, pn);
    setTag(s, t, "has", Val::I(1));
    if (E.o(s, (int)pn.a).cb) { if (!E.o(s, (int)pn.a).tags.count("held")) setTag(s, (int)pn.a, "held", Val::P(t)); }
    else { Val c = pn; c.b += 8; Val n = E.load(s, c, 4, false); if (n.isInt()) E.store(s, c, 4, Val::I(n.a + 1)); }
  };
  // pushing can fail only once the storage in the object is used up; how far it is filled is counted up to one
  auto bufCapacity = [](Engine &E, FN f) -> i64 { auto a = templateArgs(E.name(f).ctx); if (a.size() < 2) return 0; size_t p = a[1].find("store_n_objects<"); return p == string::npos ? 0 : atol(a[1].c_str() + p + 16); };
  auto bufFull = [this, bufCapacity](Engine &E, FN f, State &s, int t) { Val n = tag(s, t, "cnt"); return (n.isInt() ? n.a : 0) >= std::min<i64>(1, bufCapacity(E, f)); };
  auto pushM = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawBuffers || !isOwnerBuf(E, f)) return false;
    int t = buf(E, s, E.norm(s, a[0])); bool full = bufFull(E, f, s, t); Val room = tag(s, t, "room");
    if (room.isInt()) { if (room.a > 1) setTag(s, t, "room", Val::I(room.a - 1)); else delTag(s, t, "room"); }
    else if (full && E.allocFail && mayFail(s) && E.decide(2) == 1) { E.note(s, "memory allocation fails"); E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    if (E.allocFail && !full) { Val n = tag(s, t, "cnt"); setTag(s, t, "cnt", Val::I(n.isInt() ? n.a + 1 : 1)); }
    auto ta = templateArgs(E.name(f).ctx); push(E, s, t, E.norm(s, a[1]), starts(stripTemplates(ta[0]), "boost::variant")); return true; };
  A(B + "size", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (rawBuffers || !isOwnerBuf(E, f)) return false; int t = buf(E, s, E.norm(s, a[0])); if (E.allocFail && !bufFull(E, f, s, t)) { Val n = tag(s, t, "cnt"); r = n.isInt() ? n : Val::I(0); return true; } r = Val::S(E.newSym(s, 0, INT64_MAX / 64, 64)); if (E.allocFail) setTag(s, t, "size", r); return true; });
  auto reserveM = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawBuffers || !isOwnerBuf(E, f)) return false; int t = buf(E, s, E.norm(s, a[0])); Val n = E.norm(s, a[1]); if (n.isInt() && n.a <= bufCapacity(E, f)) return true;
    if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.note(s, "memory allocation fails"); E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    Val z = tag(s, t, "size"); if (n.k == Val::Sym && z.k == Val::Sym && n.a == z.a && n.b >= 1) setTag(s, t, "room", Val::I(n.b)); delTag(s, t, "size"); return true; };
  A(B + "reserve", reserveM); A(B + "reserve_precisely", reserveM);
  A(B + "push_back", pushM); A(B + "unchecked_push_back", pushM);
  // ---- vectors of weak pointers to tracked objects, and of locked ones
  const string V = "std::vector::";
  auto isTrk = [](Engine &E, FN f) { auto &c = E.name(f).ctx; return c.find("boost::variant<boost::weak_ptr") != string::npos && starts(stripTemplates(c), "std::vector"); };
  auto isLck = [](Engine &E, FN f) { auto &c = E.name(f).ctx; return c.find("boost::variant<boost::shared_ptr") != string::npos && starts(stripTemplates(c), "std::vector"); };
  auto vt = [this](Engine &E, State &s, Val b) -> int {
    b = E.norm(s, b); if (!b.isPtr()) throw Lost{"vector"}; auto &x = E.o(s, (int)b.a); auto i = x.cells.find(b.b);
    if (i != x.cells.end()) { Val v = E.norm(s, i->second.v); if (v.isPtr()) return (int)v.a; throw Lost{"vector"}; }
    if (x.kind != Obj::Lazy && !x.tags.count("shared")) throw Lost{"vector that was not constructed"};
    int t = E.newObj(s, Obj::Lazy, -1, "@tracked"); E.w(s, (int)b.a).cells[b.b] = {8, Val::P(t)}; return t; };
  auto vctor = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    bool trk = isTrk(E, f), lck = isLck(E, f); if (!trk && !lck) return false;
    string p = E.name(f).params; bool copy = p.find("std::vector") != string::npos, move = copy && p.find("&&") != string::npos; Val me = E.norm(s, a[0]);
    if (copy && a.size() > 1) { int src = vt(E, s, a[1]);
      if (move) { int t = E.newObj(s, Obj::Heap, 8, "@tracked"); setTag(s, t, "empty", Val::I(1)); E.store(s, me, 8, Val::P(src), true); E.store(s, E.norm(s, a[1]), 8, Val::P(t), true); return true; }
      if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
      int t = E.newObj(s, Obj::Heap, 8, "@tracked"); setTag(s, t, "copyOf", tag(s, src, "copyOf").isPtr() ? tag(s, src, "copyOf") : Val::P(src)); if (tag(s, src, "empty").isInt(1)) setTag(s, t, "empty", Val::I(1)); { auto tg = E.o(s, src).tags; for (auto &k : tg) if (starts(k.first, "pushed")) setTag(s, t, k.first, k.second); } E.store(s, me, 8, Val::P(t), true); return true; }
    int t = E.newObj(s, Obj::Heap, 8, lck ? "@buffer" : "@tracked"); setTag(s, t, "empty", Val::I(1)); E.store(s, me, 8, Val::P(t), true); return true; };
  A(V + "vector", vctor);
  A(V + "~vector", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (isLck(E, f)) { releaseBuffer(s, vt(E, s, a[0])); return true; } return isTrk(E, f); });
  A(V + "operator=", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (!isTrk(E, f)) return false; int src = vt(E, s, a[1]); int t = E.newObj(s, Obj::Heap, 8, "@tracked"); setTag(s, t, "copyOf", tag(s, src, "copyOf").isPtr() ? tag(s, src, "copyOf") : Val::P(src)); if (tag(s, src, "empty").isInt(1)) setTag(s, t, "empty", Val::I(1)); { auto tg = E.o(s, src).tags; for (auto &k : tg) if (starts(k.first, "pushed")) setTag(s, t, k.first, k.second); } E.store(s, E.norm(s, a[0]), 8, Val::P(t), true); r = a[0]; return true; });
  auto vbegin = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (!isTrk(E, f)) return false; int t = vt(E, s, a[0]); beginElems(s, t); r = tag(s, t, "curE"); return true; };
  auto vend = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (!isTrk(E, f)) return false; r = Val::P(vt(E, s, a[0])); return true; };
  A(V + "begin", vbegin); A(V + "cbegin", vbegin); A(V + "end", vend); A(V + "cend", vend);
  A(V + "empty", [=](Engine &E, State &s, CB c, FN f, VV &a, Val &r) { if (!isTrk(E, f)) return false; int t = vt(E, s, a[0]); bool e = E.ptrEq(s, firstElem(s, t), Val::P(t)); if (e && tag(s, t, "trk").k == Val::Undef) { Val b; vbegin(E, s, c, f, a, b); } r = Val::I(e); return true; });
  auto vpush = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    bool trk = isTrk(E, f), lck = isLck(E, f); if (!trk && !lck) return false;
    if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    int t = vt(E, s, a[0]); Val p = E.norm(s, a[1]);
    if (lck) { push(E, s, t, p, true); return true; }
    pushTracked(s, t, p); return true; };
  A(V + "reserve", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (!isTrk(E, f) && !isLck(E, f)) return false; if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); } return true; });
  auto at = [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (!isTrk(E, f)) return false; r = indexElem(s, vt(E, s, a[0]), E.norm(s, a[1])); return true; };
  A(V + "operator[]", at); A(V + "at", at);
  A(V + "size", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (!isTrk(E, f) && !isLck(E, f)) return false;
    if (isTrk(E, f)) { int t = vt(E, s, a[0]); Val z = E.norm(s, tag(s, t, "vsize")); if (z.k != Val::Sym || !s.syms.count((int)z.a)) { z = Val::S(E.newSym(s, 0, INT64_MAX / 64, 64)); s.syms[(int)z.a].vec = t; setTag(s, t, "vsize", z); } r = z; return true; }
    r = Val::S(E.newSym(s, 0, INT64_MAX / 64, 64)); return true; });
  auto insertRange = [=](Engine &E, State &s, int t, Val first, Val last) {
    if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return; }
    auto node = [&](Val v) { v = E.norm(s, v); if (v.isPtr() && E.o(s, (int)v.a).kind == Obj::Stack) v = E.norm(s, E.load(s, v, 8, true)); return v; };
    Val fst = node(first), lst = node(last); if (!fst.isPtr() || !lst.isPtr()) throw Lost{"range of tracked objects"};
    if (fst == lst) return; int L = (int)lst.a; if (E.o(s, L).tags.count("elem")) throw Lost{"part of the tracked objects"};
    auto c = E.o(s, L).cells.find(64); bool whole = c != E.o(s, L).cells.end() && E.norm(s, c->second.v) == fst; delTag(s, t, "empty");
    if (whole) { setTag(s, L, "curE", Val::P(L)); setTag(s, L, "copying", Val::P(t)); delTag(s, L, "miss"); delTag(s, L, "pendE"); } };
  A(V + "insert", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (!isTrk(E, f)) return false; if (a.size() < 4) throw Lost{"insertion into the tracked objects"};
    unsigned sr = f->arg_size() && f->getArg(0)->hasStructRetAttr(); insertRange(E, s, vt(E, s, a[sr]), a[sr + 2], a[sr + 3]); return true; });
  // std::copy to the back of such a vector
  A("std::copy", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    string p = E.name(f).params; if (p.find("boost::variant<boost::weak_ptr") == string::npos || p.find("back_insert_iterator") == string::npos || a.size() != 3) return false;
    Val c = E.norm(s, a[2]); if (c.isPtr() && E.o(s, (int)c.a).kind == Obj::Stack && E.o(s, (int)c.a).type.find("back_insert_iterator") != string::npos) c = E.norm(s, E.load(s, c, 8, true)); if (!c.isPtr()) throw Lost{"copy of tracked objects"};
    insertRange(E, s, vt(E, s, c), a[0], a[1]); r = a[2]; return true; });
  A(V + "push_back", vpush); A(V + "emplace_back", vpush);
  // iterators over the tracked objects
  const string I = "__gnu_cxx::__normal_iterator::";
  auto isTI = [](Engine &E, FN f) { return E.name(f).ctx.find("boost::variant<boost::weak_ptr") != string::npos; };
  A(I + "operator++", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (!isTI(E, f)) return false; unsigned sr = f->arg_size() && f->getArg(0)->hasStructRetAttr(); bool post = f->arg_size() > 1 + sr; Val it = E.norm(s, a[sr]); Val cur = E.norm(s, E.load(s, it, 8, true)); if (!cur.isPtr()) throw Lost{"iterator"};
    int e1 = (int)cur.a; auto &x = E.o(s, e1); if (!x.tags.count("elem")) { E.violation(s, "iterator", "an iterator is advanced past the end of the tracked objects"); throw Stop(); }
    Val nx = nextElem(s, e1);
    elemAdvance(s, e1); Val L = tag(s, e1, "list"); if (L.isPtr() && tag(s, (int)L.a, "curE") == cur) setTag(s, (int)L.a, "curE", nx);
    E.store(s, it, 8, nx, true); if (post) { if (sr) E.store(s, E.norm(s, a[0]), 8, cur, true); else r = cur; } else r = a[sr]; return true; });
  // ---- the slot list (its own operations are verified separately)
  const string G = NS + "detail::grouped_list::";
  auto isList = [this](Engine &E, State &s, Val g) { g = E.norm(s, g); return g.isPtr() && s.objs.count((int)g.a); };
  A(G + "grouped_list", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawLists) return false; string p = E.name(f).params; if (p.find("grouped_list") == string::npos) { Val me = E.norm(s, a[0]); E.w(s, (int)me.a).tags["emptylist"] = Val::I(1); return false; }
    Val me = E.norm(s, a[0]), src = E.norm(s, a[1]); if (!me.isPtr() || !src.isPtr()) throw Lost{"list copy"};
    if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    E.obligation(s, "list-copy"); Obj &x = E.w(s, (int)me.a); x.tags["listobj"] = Val::I(1); x.tags["hdr"] = Val::I(me.b + listHdr); x.tags["shared"] = Val::I(1); x.tags["fresh"] = Val::I(1); x.tags["copyOf"] = src; if (x.type.empty()) x.subs[me.b] = listClass;
    if (E.o(s, (int)src.a).tags.count("emptylist")) E.w(s, (int)me.a).tags["emptylist"] = Val::I(1);
    return true; });
  A(G + "~grouped_list", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawLists) return false; Val me = E.norm(s, a[0]); if (!me.isPtr()) throw Lost{"list"}; if (!E.o(s, (int)me.a).tags.count("listobj") && E.o(s, (int)me.a).kind != Obj::Lazy) return false;
    if (held(s)) { Val cl = curList(s), co = tag(s, (int)me.a, "copyOf"); bool ok = cl.isPtr() && (tag(s, (int)cl.a, "copyOf") == Val::P(me.a) || (co.isPtr() && co.a == cl.a)); if (!ok && !E.o(s, (int)me.a).tags.count("fresh")) E.violation(s, "release-locked", "a slot list is destroyed while the mutex is held"); }
    return true; });
  auto bound = [=](bool upper) { return [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawLists) return false; unsigned sr = f->arg_size() && f->getArg(0)->hasStructRetAttr(); Val g = E.norm(s, a[sr]); if (!g.isPtr()) throw Lost{"list"};
    if (spec.discGroup) { E.obligation(s, "order"); string w = keyIs(s, a[sr + 1], 1, s.gh.count("ordGroup") ? E.norm(s, s.gh["ordGroup"]) : Val()); if (!w.empty()) E.violation(s, "order", "the slots of another group than the one given are looked for: " + w); }
    if (E.decide(2) == 1 && !spec.noThrow) { userThrow(s, E.name(f)); return true; }
    Val res; string key = upper ? "ubnode" : "lbnode"; int n = E.newObj(s, Obj::Lazy, -1, ""); auto &x = E.w(s, n); x.tags["chain"] = Val::I(1); x.tags["any"] = Val::I(1); x.tags["list"] = Val::P(g.a, g.b + listHdr); x.tags[upper ? "ub" : "lb"] = Val::I(1); res = Val::P(n);
    if (!upper && !held(s)) s.gh["tbegin"] = res;
    if (sr) E.store(s, E.norm(s, a[0]), 8, res, true); else r = res; return true; }; };
  A(G + "upper_bound", bound(true)); A(G + "lower_bound", bound(false));
  auto lpush = [=](bool back) { return [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawLists) return false; Val g = E.norm(s, a[0]); listMutation(s, g, "a slot is inserted into");
    if (E.decide(3) == 1 && !spec.noThrow) { userThrow(s, E.name(f)); return true; }
    if (E.allocFail && mayFail(s) && E.decide(2) == 1) { E.throwExc(s, "std::bad_alloc", Val::P(E.newObj(s, Obj::Heap, 8, "std::bad_alloc"))); return true; }
    Val v = E.norm(s, a[2]); Val px = E.norm(s, E.load(s, v, 8, true)); Val q = v; q.b += 8; Val pn = E.norm(s, E.load(s, q, 8, true));
    if (pn.isPtr() && !E.o(s, (int)pn.a).cb) { Val c = pn; c.b += 8; Val n = E.load(s, c, 4, false); if (n.isInt()) E.store(s, c, 4, Val::I(n.a + 1)); } else throw Lost{"slot pushed"};
    if (px.isPtr()) { onPush(s, g, px, E.norm(s, a[1]), back); share(s, (int)px.a); }
    return true; }; };
  A(G + "push_back", lpush(true)); A(G + "push_front", lpush(false));
  A(G + "clear", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) { if (rawLists) return false; listMutation(s, E.norm(s, a[0]), "all slots are removed from"); E.obligation(s, "erase"); E.violation(s, "erase-connected", "all slots are removed from a slot list, connected or not"); if (held(s)) E.violation(s, "release-locked", "all slots of a list are released while the mutex is held"); return true; });
  A(G + "erase", [=](Engine &E, State &s, CB, FN f, VV &a, Val &r) {
    if (rawLists) return false; unsigned sr = f->arg_size() && f->getArg(0)->hasStructRetAttr(); Val g = E.norm(s, a[sr]); listMutation(s, g, "a slot is removed from");
    if (f->arg_size() < 3 + sr) { if (held(s)) E.violation(s, "release-locked", "slots of a group are released while the mutex is held"); return true; }
    Val itp = E.norm(s, a[sr + 2]); Val node = E.norm(s, E.load(s, itp, 8, true)); if (!node.isPtr() || !E.o(s, (int)node.a).tags.count("chain")) { E.violation(s, "iterator", "the end of the slot list is erased"); throw Stop(); }
    Val key = E.norm(s, a[sr + 1]);
    int n = (int)node.a; if (E.o(s, n).freed) { E.violation(s, "iterator", "a slot is erased twice"); throw Stop(); }
    s.progress = true; evalDirty(s); Val b = bodyOfNode(s, n); E.obligation(s, "erase");
    if (spec.throwErase && !spec.noThrow && E.decide(2) == 1) { if (spec.gc) s.gh["gcThrew"] = Val::I(1); userThrow(s, E.name(f)); return true; }
    bool disc = false; if (b.isPtr()) { auto &c = E.o(s, (int)b.a).cells; auto i = c.find(roleOff(s, (int)b.a, R_CONN)); disc = i != c.end() && i->second.v.isInt(0); }
    if (!disc) E.violation(s, "erase-connected", "a slot that was not found disconnected is removed from the slot list");
    if (b.isPtr() && key.isPtr()) { i64 ko = roleOff(s, (int)b.a, R_KEY); if (!(key.a == b.a && key.b == ko)) { Val kf = tag(s, (int)key.a, "keyOf"); if (!(kf.isPtr() && kf.a == b.a)) E.violation(s, "erase-key", "a slot is removed under a group key that is not its own"); } }
    Val nx = E.norm(s, E.load(s, node, 8, true)); 
    { Val L = tag(s, n, "list"); vector<int> ids; for (auto &p : s.objs) if (p.second->tags.count("lazyedge")) ids.push_back(p.first); for (int id : ids) { vector<i64> d; for (auto &c : E.o(s, id).cells) if (c.second.v.isPtr() && E.norm(s, c.second.v) == node && c.first == (E.o(s, id).tags.count("listobj") ? tag(s, id, "hdr").a : 0)) d.push_back(c.first); for (i64 k : d) E.w(s, id).cells[k] = {8, nx}; } }
    // the node's share in the connection is given up
    auto pn = E.o(s, n).cells.find(24); if (pn != E.o(s, n).cells.end()) { Val c = E.norm(s, pn->second.v); if (c.isPtr() && E.o(s, (int)c.a).cb) { Obj &k = E.w(s, (int)c.a); if (k.owners > 0) k.owners--; onRelease(s, (int)c.a, k.nlocal == 0 && k.owners == 0); } }
    E.w(s, n).freed = true; { Val cl; int im = 0; cl = curList(s, nullptr, &im); if (im && cl.isPtr() && cl.a == g.a) { auto &ic = E.o(s, im).cells; auto gi = ic.find(roleOff(s, im, R_GC)); Val gp = gi == ic.end() ? Val() : E.norm(s, gi->second.v);
      // a position that was already moved on to the next element, or to the end, is not affected
      if (!(gp.isPtr() && (gp == nx || !E.o(s, (int)gp.a).tags.count("chain")))) setTag(s, im, "gcstale", Val::I(1)); } }
    if (sr) E.store(s, E.norm(s, a[0]), 8, nx, true); else r = nx; return true; });
}
void SigRules::pushForeign(State &s, int buf, Val impl) {
  if (!impl.isPtr()) return; setTag(s, buf, "has", Val::I(1));
  // foreign_shared_ptr_impl<FSP>: the pointer follows the vtable
  auto &c = E->o(s, (int)impl.a).cells; auto i = c.find(impl.b + 8); if (i == c.end()) return; Val tok = E->norm(s, i->second.v); if (!tok.isPtr()) return;
  if (tag(s, (int)tok.a, "n").isInt()) setTag(s, (int)tok.a, "n", Val::I(tag(s, (int)tok.a, "n").a + 1));
  Val lo = tag(s, (int)tok.a, "lockOf"); if (lo.isPtr()) setTag(s, (int)lo.a, "fheld", Val::P(buf));
}
void SigRules::pushTracked(State &s, int vec, Val p) {
  // remembers what was tracked: which kind and which object
  bool was = tag(s, vec, "empty").isInt(1); delTag(s, vec, "empty"); (void)was;
  p = E->norm(s, p); if (p.isPtr() && E->o(s, (int)p.a).tags.count("elem")) { setTag(s, (int)p.a, "into", Val::P(vec)); return; }
  i64 w = E->concrete(s, E->load(s, p, 4, false)); Val q = p; q.b += 8; Val x = E->norm(s, E->load(s, q, 8, true));
  if (spec.recordTrack) {     // what is tracked: the control block, or the foreign pointer
    Val id; if (w == 2) { if (x.isPtr()) { Val t = x; t.b += 8; id = E->norm(s, E->load(s, t, 8, true)); } } else { q.b += 8; id = E->norm(s, E->load(s, q, 8, true)); }
    int n = 0; while (tag(s, vec, "pushed" + std::to_string(n)).k != Val::Undef) n++; if (n > 6) throw Lost{"many objects tracked by one slot"};
    setTag(s, vec, "pushed" + std::to_string(n), id.k == Val::Undef ? Val::I(0) : id); setTag(s, vec, "pushedkind" + std::to_string(n), Val::I(w)); }
  if (onTrack) onTrack(s, vec, w, x);
}
// what harnesses ask about the tracking of a slot
static int vecOf(SigRules &R, State &s, Val slot) {
  slot = R.E->norm(s, slot); if (!slot.isPtr()) throw Lost{"slot unknown"}; auto &c = R.E->o(s, (int)slot.a).cells; auto i = c.find(slot.b + R.trackOff); Val v = i == c.end() ? Val() : R.E->norm(s, i->second.v); return v.isPtr() ? (int)v.a : 0; }
void SigRules::tracks(State &s, const string &b, VV &a) {
  E->obligation(s, "tracked"); int v = vecOf(*this, s, a[0]);
  auto has = [&](Val id, int kind) { if (!v) return false; for (int n = 0;; n++) { Val x = tag(s, v, "pushed" + std::to_string(n)); if (x.k == Val::Undef) return false; if (x == id && (kind < 0 || tag(s, v, "pushedkind" + std::to_string(n)).isInt(kind))) return true; } };
  auto word = [&](Val p, i64 off) { p = E->norm(s, p); p.b += off; return E->norm(s, E->load(s, p, 8, true)); };
  if (b == "tracks_pointer") { if (!has(word(a[1], 8), 1)) E->violation(s, "tracked", "an object given to track() is not tracked"); return; }
  if (b == "tracks_foreign") { if (!has(word(a[1], 0), 2)) E->violation(s, "tracked", "a foreign pointer given to track_foreign() is not tracked"); return; }
  if (b == "tracks_trackable") {
    auto l = E->layouts.find(NS + "trackable"); i64 off = -1; if (l != E->layouts.end()) for (auto &f : l->second) if (stripTemplates(f.type) == "boost::shared_ptr") off = f.off; if (off < 0) throw Lost{"layout of trackable"};
    if (!has(word(a[1], off + 8), 0)) E->violation(s, "tracked", "a trackable object bound in a slot function is not tracked as such"); return; }
  if (b == "tracks_signal") {
    Val p = E->norm(s, a[1]); const Obj &x = E->o(s, (int)p.a); i64 off = -1; auto find = [&](const string &c, i64 at) { for (auto &q : rolesOf(c)) if (q.second == R_PIMPLC && at + q.first >= p.b && off < 0) off = at + q.first; };
    if (!x.type.empty()) find(x.type, 0); if (off < 0) for (auto &sb : x.subs) if (sb.first == p.b) find(sb.second, sb.first); if (off < 0) throw Lost{"the state of the signal is not found"};
    Val q = p; q.b = off; if (!has(E->norm(s, E->load(s, q, 8, true)), 1)) E->violation(s, "tracked", "a signal used in a slot is not tracked"); return; }
  if (b == "tracks_all") { int o = vecOf(*this, s, a[1]); if (o && (!v || !tracksAll(s, v, o))) E->violation(s, "tracked", "a slot does not track all that the slot it was made from tracks"); return; }
  if (b == "tracks_only") { int n = 0; if (v) while (tag(s, v, "pushed" + std::to_string(n)).k != Val::Undef) n++; Val k = E->norm(s, a[1]); if (!k.isInt(n)) E->violation(s, "tracked", "a slot tracks an object it was not asked to track"); return; }
  // the outcome of examining the tracked objects
  bool sec = false, expired = false; Val sb = Val::I(1); if (v) trackResult(s, v, sec, expired, sb); bool empty = v && tag(s, v, "empty").isInt(1) && tag(s, v, "pushed0").k == Val::Undef; if (empty) sec = true;
  if (b == "tracks_expired") {      // whether something was said to have expired
    bool said = !E->isNullV(s, a[1]);
    if (said && !expired) E->violation(s, "tracked", "a slot is said to have expired although no tracked object was found expired"); if (!said && (!sec || expired)) E->violation(s, "tracked", "a slot is said not to have expired although not all tracked objects were found alive"); }
  else if (b == "tracks_locked") {
    if (!sec || expired) E->violation(s, "tracked", "a slot is locked although not all tracked objects were found alive");
    else { if (sb.isInt(0)) E->violation(s, "tracked", "locking a slot does not keep all its tracked objects alive"); else if (sb.isPtr()) { Val w = E->norm(s, a[1]); auto &c = E->o(s, (int)w.a).cells; auto i = c.find(w.b); if (i == c.end() || !(E->norm(s, i->second.v) == sb)) E->violation(s, "tracked", "the container returned by lock() does not own all tracked objects"); } } }
  else if (b == "tracks_throws") { if (!expired) E->violation(s, "tracked", "expired_slot is thrown although no tracked object was found expired"); }
  else throw Lost{"harness function " + b};
}
// does one vector of tracked objects hold everything another one holds?
bool SigRules::tracksAll(State &s, int vec, int src) {
  if (vec == src) return true;
  Val co = tag(s, vec, "copyOf"), sc = tag(s, src, "copyOf"); if (co.isPtr() && (co.a == src || (sc.isPtr() && sc.a == co.a))) return true;
  if (tag(s, src, "empty").isInt(1)) return true;
  { Val pe = tag(s, src, "pendE"); if (pe.isPtr()) elemJudge(s, src, (int)pe.a); }
  Val cur = tag(s, src, "curE"), in = tag(s, src, "copying");
  return cur.isPtr() && cur.a == src && !tag(s, src, "miss").isInt(1) && (!in.isPtr() || in.a == vec || (co.isPtr() && co.a == in.a));
}

// is this the key of the group (0 front, 1 a group, 2 back)?  what differs, or nothing
string SigRules::keyIs(State &s, Val key, i64 kind, Val group) {
  key = E->norm(s, key); if (!key.isPtr()) throw Lost{"group key"}; Val k = E->norm(s, E->load(s, key, 4, false)); if (!k.isInt(kind)) return "the kind of the group differs";
  if (kind != 1) return "";
  Val in = E->norm(s, E->load(s, Val::P(key.a, key.b + 8), 1, false)); if (!in.isInt(1)) return "the key has no group";
  if (!(E->norm(s, E->load(s, Val::P(key.a, key.b + 16), 8, true)) == group)) return "the key has another group"; return ""; }
// the key kept with a connection is the one it was entered under
void SigRules::checkKeys(State &s) {
  if (!s.gh.count("ordKind") || !s.gh.count("pushed")) return; Val b = E->norm(s, s.gh["pushed"]); if (!b.isPtr()) return; i64 ko = roleOff(s, (int)b.a, R_KEY); if (ko < 0) return; E->obligation(s, "order");
  bool held0 = true; (void)held0; string w = keyIs(s, Val::P(b.a, ko), s.gh["ordKind"].a, s.gh.count("ordGroup") ? E->norm(s, s.gh["ordGroup"]) : Val());
  if (!w.empty()) E->violation(s, "order", "a connection keeps another group than the one it is in: " + w); }
void SigRules::onPush(State &s, Val g, Val body, Val key, bool back) {
  s.gh["pushed"] = body;
  if (s.gh.count("ordKind")) { E->obligation(s, "order"); string w = keyIs(s, key, s.gh["ordKind"].a, s.gh.count("ordGroup") ? E->norm(s, s.gh["ordGroup"]) : Val()); if (!w.empty()) E->violation(s, "order", "a slot is connected at another group than asked for: " + w);
    if (!s.gh["ordBack"].isInt(back ? 1 : 0)) E->violation(s, "order", back ? "a slot is put at the back of its group although at_front was asked for" : "a slot is put at the front of its group although at_back was asked for"); }
  if (s.gh.count("connecting")) {      // the connection's slot tracks exactly what the slot given to connect() tracks
    E->obligation(s, "tracked"); int src = vecOf(*this, s, s.gh["connecting"]); Val v = trackedOf(s, (int)body.a);
    if (!src || !v.isPtr() || !tracksAll(s, (int)v.a, src)) E->violation(s, "tracked", "the slot connected does not track all that the slot given tracks");
    else if (tag(s, (int)v.a, "pushed0").k != Val::Undef) E->violation(s, "tracked", "the slot connected tracks an object the slot given does not track"); }
   if (onPushCb) onPushCb(s, g, body, key, back); }

// once the combiner has ended nothing depends on what was found out about positions
void SigRules::onLeave(State &s, const Function *f) {
  { auto i = s.gh.find("vdep"); if (i != s.gh.end() && (i64)s.stack.size() <= i->second.a) for (auto k : {"vcur", "vdep", "cnt:=vidx"}) s.gh.erase(k); }
  const FnName &n = E->name(f); if (n.ctx != "user::Combiner" || n.base != "operator()") return;
  for (auto k : {"cur", "called", "resTok", "tbegin"}) s.gh.erase(k);
  vector<int> ids; for (auto &p : s.objs) if (!p.second->tags.empty()) ids.push_back(p.first);
  for (int id : ids) for (auto k : {"presented", "callable", "noncall", "wasconn", "full", "sec"}) delTag(s, id, k);
}
