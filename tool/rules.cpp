#include "rules.h"
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Constants.h>
using namespace llvm;
using std::make_shared;

static bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const string &s, const string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static const string NS = "boost::signals2::";
static bool isImplName(const string &st) { if (!starts(st, NS + "detail::signal")) return false; return ends(st, "_impl"); }

// ------------------------------------------------------------------ roles
const map<i64, Role> &SigRules::rolesOf(const string &cls) {
  auto it = roleCache.find(cls); if (it != roleCache.end()) return it->second;
  map<i64, Role> m; string st = stripTemplates(cls);
  auto lt = E->layouts.find(cls);
  bool base = st == NS + "detail::connection_body_base", body = st == NS + "detail::connection_body", impl = isImplName(st), state = ends(st, "::invocation_state");
  if (lt != E->layouts.end() && starts(st, NS + "signal") && !impl) for (auto &f : lt->second) { if (f.name[0] == '@') { for (auto &p : rolesOf(f.name.substr(1))) m[p.first + f.off] = p.second; continue; } auto a = templateArgs(f.type); if (stripTemplates(f.type) == "boost::shared_ptr" && !a.empty() && isImplName(stripTemplates(a[0]))) { m[f.off] = R_PIMPLP; m[f.off + 8] = R_PIMPLC; } }
  if (lt != E->layouts.end() && (base || body || impl || state)) for (auto &f : lt->second) {
    string t = stripTemplates(f.type); auto a = templateArgs(f.type); string in = a.empty() ? "" : stripTemplates(a[0]);
    if (f.name[0] == '@') { for (auto &p : rolesOf(f.name.substr(1))) m[p.first + f.off] = p.second; continue; }
    if (base) { if (t == "bool") m[f.off] = R_CONN; else if (t == "unsigned int" || t == "int" || t == "unsigned long" || t == "long") m[f.off] = R_REF; else if (t == "boost::weak_ptr") { m[f.off] = R_BLOCKP; m[f.off + 8] = R_BLOCKC; } }
    if (body) { if (t == "boost::shared_ptr" && starts(in, NS + "slot")) { m[f.off] = R_SLOTP; m[f.off + 8] = R_SLOTC; } else if (t == "boost::shared_ptr") m[f.off] = R_BMUTEX; else if (t == "std::pair") m[f.off] = R_KEY; }
    if (impl) { if (t == "boost::shared_ptr" && ends(in, "::invocation_state")) { m[f.off] = R_STATEP; m[f.off + 8] = R_STATEC; } else if (t == "boost::shared_ptr") m[f.off] = R_IMUTEX; else if (t == "std::_List_iterator") m[f.off] = R_GC; }
    if (state) { if (t == "boost::shared_ptr" && ends(in, "grouped_list")) { m[f.off] = R_LISTP; m[f.off + 8] = R_LISTC; } else if (t == "boost::shared_ptr") { m[f.off] = R_COMBP; m[f.off + 8] = R_COMBC; } }
  }
  return roleCache[cls] = m;
}
Role SigRules::role(State &s, int obj, i64 off, i64 *base) {
  const Obj &x = E->o(s, obj);
  if (!x.type.empty()) { auto &m = rolesOf(x.type); auto i = m.find(off); if (i != m.end()) { if (base) *base = 0; return i->second; } }
  for (auto &b : x.subs) { auto &m = rolesOf(b.second); auto i = m.find(off - b.first); if (i != m.end()) { if (base) *base = b.first; return i->second; } }
  return R_NONE;
}
i64 SigRules::roleOff(State &s, int obj, Role r) {
  const Obj &x = E->o(s, obj);
  if (!x.type.empty()) for (auto &p : rolesOf(x.type)) if (p.second == r) return p.first;
  for (auto &b : x.subs) for (auto &p : rolesOf(b.second)) if (p.second == r) return p.first + b.first;
  return -1;
}
bool SigRules::isBody(State &s, int o) { return roleOff(s, o, R_CONN) >= 0; }
bool SigRules::isImpl(State &s, int o) { return roleOff(s, o, R_STATEP) >= 0; }
bool SigRules::isState(State &s, int o) { return roleOff(s, o, R_LISTP) >= 0; }
bool SigRules::shared(State &s, int obj) { const Obj &x = E->o(s, obj); return x.kind == Obj::Lazy || x.tags.count("shared"); }
void SigRules::share(State &s, int obj, int depth) {
  if (depth > 8) return; const Obj &x = E->o(s, obj); if (x.kind != Obj::Heap || x.tags.count("shared") || x.freed) return;
  E->w(s, obj).tags["shared"] = Val::I(1);
  for (i64 k : set<i64>(E->o(s, obj).strong)) { auto i = E->o(s, obj).cells.find(k); if (i == E->o(s, obj).cells.end()) continue; Val c = E->norm(s, i->second.v); if (c.isPtr() && c.b == 0 && s.objs.count((int)c.a) && E->o(s, (int)c.a).cb) { Obj &y = E->w(s, (int)c.a); y.nlocal--; y.owners++; } }
  vector<int> nx; for (auto &c : E->o(s, obj).cells) { Val v = E->norm(s, c.second.v); if (v.isPtr() && s.objs.count((int)v.a)) nx.push_back((int)v.a); }
  for (int n : nx) share(s, n, depth + 1);
}
Val SigRules::tag(State &s, int obj, const string &t) { auto &x = E->o(s, obj); auto i = x.tags.find(t); return i == x.tags.end() ? Val() : E->norm(s, i->second); }
void SigRules::setTag(State &s, int obj, const string &t, Val v) { E->w(s, obj).tags[t] = v; }
void SigRules::delTag(State &s, int obj, const string &t) { if (E->o(s, obj).tags.count(t)) E->w(s, obj).tags.erase(t); }
Val SigRules::theMutex(State &s) {
  auto i = s.gh.find("M"); if (i != s.gh.end()) return E->norm(s, i->second);
  Val m = E->lazyPtr(s, "user::Mutex", false); E->w(s, (int)m.a).tags["mutex"] = Val::I(1); s.gh["M"] = m; return m;
}
bool SigRules::held(State &s) { auto i = s.gh.find("held"); return i != s.gh.end() && i->second.isPtr(); }
i64 SigRules::credit(State &s, int obj) { Val v = tag(s, obj, "credit"); return v.isInt() ? v.a : 0; }
void SigRules::setCredit(State &s, int obj, i64 c) { if (c) { setTag(s, obj, "credit", Val::I(c)); setTag(s, obj, "root", Val::I(1)); } else { delTag(s, obj, "credit"); delTag(s, obj, "root"); } }

// ------------------------------------------------------------------ lazily discovered memory
bool SigRules::lazyLoad(State &s, int obj, i64 off, int size, Val &v) {
  const Obj &x = E->o(s, obj);
  if (x.tags.count("chain") && !x.tags.count("elem") && off == 0 && size == 8) {        // next node
    int n = E->newObj(s, Obj::Lazy, -1, ""); E->w(s, n).tags["chain"] = Val::I(1); E->w(s, n).tags["list"] = x.tags.at("list"); setTag(s, obj, "lazyedge", Val::I(1)); v = Val::P(n); return true;
  }
  if (x.tags.count("chain") && !x.tags.count("elem") && off == 16 && size == 8) {       // the connection body
    string cls; Val L = tag(s, obj, "list"); if (L.isPtr()) { Val c = tag(s, (int)L.a, "body"); (void)c; }
    cls = bodyClass; int b = E->newObj(s, Obj::Lazy, -1, cls); v = Val::P(b); return true;
  }
  if (x.tags.count("listobj") && size == 8) {
    Val h = tag(s, obj, "hdr"); if (h.isInt() && off == h.a) {
      int n = E->newObj(s, Obj::Lazy, -1, ""); E->w(s, n).tags["chain"] = Val::I(1); E->w(s, n).tags["list"] = Val::P(obj, off); setTag(s, obj, "lazyedge", Val::I(1)); v = Val::P(n); return true;
    }
  }
  if (x.tags.count("elem")) {
    if (off == 0 && size == 4) { int n = E->concreteClasses(NS + "detail::foreign_weak_ptr_impl_base").empty() ? 2 : 3; v = Val::I(E->decide(n)); return true; }
    auto wh = x.cells.find(0); if (off == 8 && size == 8 && wh != x.cells.end() && wh->second.v.isInt(2)) { v = E->lazyPtr(s, NS + "detail::foreign_weak_ptr_impl_base", false); return true; }   // never empty
    return false;
  }
  i64 base; Role r = role(s, obj, off, &base);
  switch (r) {
    case R_CONN: { int c = E->decide(2) == 0 ? 1 : 0; v = Val::I(c); setTag(s, obj, "conn0", v); return true; }
    case R_REF: {
      Val c = E->load(s, Val::P(obj, roleOff(s, obj, R_CONN)), 1, false); i64 conn = E->concrete(s, c); { Val c0 = tag(s, obj, "conn0"); if (c0.isInt()) conn = c0.a; }
      if (getenv("S2DUMP")) E->note(s, "REF of " + std::to_string(obj) + " conn " + std::to_string(conn) + " credit " + std::to_string(credit(s, obj)));
      v = Val::S(E->newSym(s, 0, INT32_MAX, 32), conn + credit(s, obj)); s.syms[(int)v.a].exact = true; setTag(s, obj, "ref0", v); return true; }
    case R_SLOTP: {
      i64 ro = roleOff(s, obj, R_REF); bool nul = false; 
      if (credit(s, obj) == 0) { Val ref = E->load(s, Val::P(obj, ro), 4, false); nul = E->cmpInt(s, CmpInst::ICMP_EQ, ref, Val::I(0), 32); }
      if (nul) { v = Val::I(0); return true; }
      int t = E->newObj(s, Obj::Lazy, -1, slotClass); setTag(s, t, "slotOf", Val::P(obj)); setTag(s, t, "ownerObj", Val::P(obj)); v = Val::P(t);
      return true; }
    case R_BMUTEX: case R_IMUTEX: v = theMutex(s); return true;
    case R_PIMPLP: { if (spec.nullSignal && E->decide(2) == 1) { v = Val::I(0); s.gh["implnull"] = Val::I(1); return true; } int t = E->newObj(s, Obj::Lazy, -1, implClass); setTag(s, t, "ownerObj", Val::P(obj)); v = Val::P(t); return true; }
    case R_STATEP: { int t = E->newObj(s, Obj::Lazy, -1, stateClass); setTag(s, t, "ownerObj", Val::P(obj)); v = Val::P(t); return true; }
    case R_LISTP: { int t = E->newObj(s, Obj::Lazy, -1, listClass); setTag(s, t, "listobj", Val::I(1)); setTag(s, t, "hdr", Val::I(listHdr)); setTag(s, t, "soleOwner", Val::P(obj)); setTag(s, t, "ownerObj", Val::P(obj)); v = Val::P(t); return true; }
    case R_COMBP: { int t = E->newObj(s, Obj::Lazy, -1, combClass); setTag(s, t, "combOf", Val::P(obj)); setTag(s, t, "ownerObj", Val::P(obj)); v = Val::P(t); return true; }
    case R_GC: {
      Val st = E->load(s, Val::P(obj, roleOff(s, obj, R_STATEP)), 8, true); st = E->norm(s, st); if (!st.isPtr()) throw Lost{"no state"};
      i64 lo = roleOff(s, (int)st.a, R_LISTP); Val l = E->norm(s, E->load(s, Val::P(st.a, lo), 8, true)); if (!l.isPtr()) throw Lost{"no list"};
      int n = E->newObj(s, Obj::Lazy, -1, ""); E->w(s, n).tags["chain"] = Val::I(1); E->w(s, n).tags["any"] = Val::I(1); E->w(s, n).tags["list"] = Val::P(l.a, l.b + listHdr); v = Val::P(n); return true; }
    default: break;
  }
  (void)size; return false;
}

Val SigRules::bodyOfNode(State &s, int node) { auto &x = E->o(s, node); auto i = x.cells.find(16); if (i == x.cells.end()) return Val(); return E->norm(s, i->second.v); }
Val SigRules::curList(State &s, Val *state, int *impl) {
  for (auto &p : s.objs) if ((p.second->kind == Obj::Lazy || p.second->kind == Obj::Heap) && !p.second->freed && isImpl(s, p.first)) {
    auto it = p.second->cells.find(roleOff(s, p.first, R_STATEP)); if (it == p.second->cells.end()) continue;
    Val st = E->norm(s, it->second.v); if (!st.isPtr() || !s.objs.count((int)st.a)) continue;
    if (state) *state = st; if (impl) *impl = p.first;
    i64 lo = -1; for (auto &b : E->o(s, (int)st.a).subs) if (b.first == st.b) for (auto &q : rolesOf(b.second)) if (q.second == R_LISTP) lo = q.first + b.first;
    if (lo < 0) lo = roleOff(s, (int)st.a, R_LISTP);
    auto jt = E->o(s, (int)st.a).cells.find(lo); if (jt == E->o(s, (int)st.a).cells.end()) return Val(); return E->norm(s, jt->second.v);
  }
  return Val();
}
bool SigRules::inTraversal(State &s) {
  for (auto &f : s.stack) { auto &n = E->name(f->fn); if (iterClasses.count(n.sctx)) return true; }
  return false;
}
bool SigRules::alive(State &s, int obj, int depth) {
  if (depth > 8) return true; const Obj &x = E->o(s, obj); if (x.kind != Obj::Lazy) return true;
  auto l = x.tags.find("list"); if (l != x.tags.end()) { Val L = E->norm(s, l->second); if (L.isPtr() && s.objs.count((int)L.a)) return alive(s, (int)L.a, depth + 1); return true; }
  auto c = x.tags.find("cb"); if (c == x.tags.end()) return true; Val C = E->norm(s, c->second); if (!C.isPtr() || !s.objs.count((int)C.a)) return true;
  const Obj &b = E->o(s, (int)C.a); if (!b.cb) return true; if (b.nlocal > 0 || b.tags.count("held")) return true; if (b.owners == 0) return false;
  auto ow = x.tags.find("ownerObj"); if (ow == x.tags.end()) return true; Val O = E->norm(s, ow->second); if (O.isPtr() && s.objs.count((int)O.a) && O.a != obj) return alive(s, (int)O.a, depth + 1);
  return true;
}

// ------------------------------------------------------------------ accesses
string SigRules::ownerName(State &s, int obj) { return isBody(s, obj) ? "connection" : isImpl(s, obj) ? "signal" : isState(s, obj) ? "invocation state" : "object"; }
static const char *roleName(Role r) { switch (r) { case R_CONN: return "the connected flag"; case R_REF: return "the count of slot shares"; case R_SLOTP: case R_SLOTC: return "the slot pointer"; case R_BLOCKP: case R_BLOCKC: return "the blocker"; case R_STATEP: case R_STATEC: return "the current slot list and combiner"; case R_GC: return "the cleanup position"; case R_COMBP: case R_COMBC: return "the combiner pointer"; case R_LISTP: case R_LISTC: return "the slot list pointer"; case R_KEY: return "the group of a connection"; case R_BMUTEX: case R_IMUTEX: return "the mutex pointer"; default: return "?"; } }
void SigRules::access(State &s, int obj, i64 off, int size, bool write) {
  if (!shared(s, obj)) return;
  if (E->o(s, obj).kind == Obj::Lazy && !alive(s, obj)) { E->violation(s, "lifetime", "a library object (" + E->o(s, obj).type.substr(0, 60) + ") is accessed although nothing keeps it alive"); throw Stop(); }
  // the connection held by the function of a slot that other threads may be calling
  if (E->o(s, obj).kind == Obj::Heap) for (auto &b : E->o(s, obj).subs) if (off >= b.first && off < b.first + 16 && b.second == "boost::signals2::connection") { E->obligation(s, "lockset"); if (write && !held(s)) E->violation(s, "lockset", "the connection that the function of a connected slot passes on is written without holding the mutex"); }
  Role r = role(s, obj, off); if (r == R_NONE) return;
  if (E->o(s, obj).tags.count("exclusive")) return;
  string what = string(roleName(r)) + " is " + (write ? "written" : "read");
  switch (r) {
    case R_CONN: case R_REF: case R_BLOCKP: case R_BLOCKC: case R_STATEP: case R_STATEC: case R_GC: case R_KEY:
      E->obligation(s, "lockset"); if (!held(s)) E->violation(s, "lockset", what + " without holding the mutex"); break;
    case R_SLOTP: case R_SLOTC:
      E->obligation(s, "lockset"); if (!held(s) && !(credit(s, obj) > 0 && !write)) E->violation(s, "lockset", what + " without holding the mutex or a share in the slot"); break;
    case R_COMBP: case R_COMBC: case R_LISTP: case R_LISTC:
      if (write) { E->obligation(s, "snapshot"); if (!held(s)) E->violation(s, "lockset", what + " without holding the mutex"); if (!stateUnique(s, obj)) E->violation(s, "snapshot", what + " in an invocation state that may be in use by an invocation"); } break;
    case R_BMUTEX: case R_IMUTEX: if (write) E->violation(s, "lockset", what + " of a shared object"); break;
    default: break;
  }
}
// nobody but the signal owns the invocation state
bool SigRules::stateUnique(State &s, int st) {
  const Obj &x = E->o(s, st);
  if (x.kind == Obj::Lazy) { Val C = tag(s, st, "cb"); if (!C.isPtr()) return false; const Obj &b = E->o(s, (int)C.a); return b.cb && b.nlocal == 0 && b.owners == 1 && E->noOtherOwners(s, b); }
  // made by this operation: the counter is known
  if (!x.tags.count("shared")) return true;
  Val S; int im = 0; curList(s, &S, &im); if (!im || !S.isPtr() || S.a != st) return false;
  auto it = E->o(s, im).cells.find(roleOff(s, im, R_STATEC)); if (it == E->o(s, im).cells.end()) return false; Val pn = E->norm(s, it->second.v); if (!pn.isPtr()) return false;
  auto jt = E->o(s, (int)pn.a).cells.find(pn.b + 8); return jt != E->o(s, (int)pn.a).cells.end() && jt->second.v.isInt(1);
}
void SigRules::onLoad(State &s, int obj, i64 off, int size, const Val &v) {
  access(s, obj, off, size, false);
  if (held(s) && isImpl(s, obj) && shared(s, obj) && !E->o(s, obj).tags.count("root")) setTag(s, obj, "root", Val::I(1));
  const Obj &x = E->o(s, obj);
  if (!spec.traverse.empty() && !held(s) && x.tags.count("listobj") && size == 8 && tag(s, obj, "hdr").isInt(off) && !inTraversal(s) && !s.gh.count("tany")) s.gh["tbegin"] = v;
  if (x.tags.count("chain") && !x.tags.count("elem")) {
    if ((off == 0 || off == 8) && size == 8) s.progress = true;
    if (off == 0 && size == 8) leaveNode(s, obj, v);
    else if (off == 16 && size == 8 && inTraversal(s) && !s.gh.count("cur")) { s.gh["cur"] = Val::P(obj); s.gh["called"] = Val::I(0); }
    if (spec.gc && inTraversal(s) && !s.gh.count("travList") && x.tags.count("list")) s.gh["travList"] = E->norm(s, x.tags.at("list"));
  }
}
void SigRules::onStore(State &s, int obj, i64 off, int size, const Val &v) {
  access(s, obj, off, size, true);
  if (!shared(s, obj)) return;
  Role r = role(s, obj, off); const Obj &x = E->o(s, obj);
  if (r == R_REF && !x.cells.count(off)) E->load(s, Val::P(obj, off), 4, false);
  if (r == R_CONN && !x.cells.count(off)) E->load(s, Val::P(obj, off), 1, false);
  if (r == R_SLOTP && !x.cells.count(off)) E->load(s, Val::P(obj, off), 8, true);
  if ((r == R_CONN || r == R_REF || r == R_SLOTP) && held(s)) { setTag(s, obj, "dirty", Val::I(1)); setTag(s, obj, "root", Val::I(1)); }
  if (r == R_GC) delTag(s, obj, "gcstale");
  if (r == R_BLOCKC) { auto i = x.cells.find(off); if (i == x.cells.end() || !(E->norm(s, i->second.v) == E->norm(s, v))) { E->obligation(s, "blocker"); if (blocker(s, obj) != 0) E->violation(s, "blocker", "the blocker of a connection is replaced although it may be in use by a block"); } }
  if (r == R_CONN || r == R_SLOTP || r == R_REF) { Val vec = trackedOf(s, obj); bool sec = false, expired = false; Val sb; if (vec.isPtr()) { trackResult(s, (int)vec.a, sec, expired, sb); if (expired) setTag(s, obj, "dexp", Val::I(1)); } }
  if (r == R_STATEP && v.isPtr() && s.objs.count((int)v.a)) installState(s, obj, off, v);
  if (v.isPtr() && s.objs.count((int)v.a)) share(s, (int)v.a);
}
void SigRules::installState(State &s, int impl, i64 off, const Val &v) {
  E->obligation(s, "snapshot");
  auto old = E->o(s, impl).cells.find(off); Val o = old == E->o(s, impl).cells.end() ? Val() : E->norm(s, old->second.v);
  if (o == v) return;
  // the list of the new state must not belong to a state in use
  int n = (int)v.a; i64 lo = -1; for (auto &b : E->o(s, n).subs) if (b.first == v.b) for (auto &q : rolesOf(b.second)) if (q.second == R_LISTP) lo = q.first + b.first;
  if (lo < 0) return;
  auto it = E->o(s, n).cells.find(lo); if (it == E->o(s, n).cells.end()) return; Val l = E->norm(s, it->second.v); if (!l.isPtr()) return;
  { i64 ol = o.isPtr() ? roleOff(s, (int)o.a, R_LISTP) : -1; if (o.isPtr()) for (auto &b : E->o(s, (int)o.a).subs) if (b.first == o.b) for (auto &q : rolesOf(b.second)) if (q.second == R_LISTP) ol = q.first + b.first;
    if (ol >= 0) { Val old_ = E->norm(s, E->load(s, Val::P(o.a, ol), 8, true)); Val co = tag(s, (int)l.a, "copyOf"); E->obligation(s, "list-kept"); if (!(l.a == old_.a) && !(co.isPtr() && co.a == old_.a)) E->violation(s, "list-kept", "the slot list is replaced by one that is not a copy of it"); } }
  Val so = tag(s, (int)l.a, "soleOwner"); if (so.isPtr() && !stateUnique(s, (int)so.a)) E->violation(s, "snapshot", "the new invocation state shares its slot list with a state that may be in use");
}
void SigRules::listMutation(State &s, Val list, const string &what) {
  list = E->norm(s, list); if (!list.isPtr()) return; int g = (int)list.a;
  E->obligation(s, "snapshot");
  for (auto &p : s.objs) if (p.second->tags.count("lazyedge")) {   // what was known about the order of the list is void
    bool of = p.first == g; auto l = p.second->tags.find("list"); if (l != p.second->tags.end()) { Val L = E->norm(s, l->second); of = L.isPtr() && L.a == g; }
    if (of) touched_.push_back(p.first); }
  touched_.clear();
  if (E->o(s, g).kind == Obj::Heap && !shared(s, g)) return;
  if (E->o(s, g).kind == Obj::Heap && E->o(s, g).tags.count("fresh")) return;
  if (!held(s)) E->violation(s, "lockset", what + " the slot list without holding the mutex");
  Val st; int im = 0; Val l = curList(s, &st, &im);
  bool ok = l.isPtr() && l.a == g && st.isPtr() && stateUnique(s, (int)st.a);
  if (!ok) E->violation(s, "snapshot", what + " a slot list that may be in use by an invocation");
}
// ------------------------------------------------------------------ mutex
void SigRules::lock(State &s, Val m) {
  E->obligation(s, "lock-balance");
  if (held(s)) { E->violation(s, "lock-balance", E->norm(s, s.gh["held"]) == m ? "the mutex is locked while this thread already holds it" : "a mutex is locked while another one is held"); throw Stop(); }
  havoc(s); s.gh["held"] = m; if (!s.gh.count("M")) s.gh["M"] = m;
  E->note(s, "lock");
}
void SigRules::unlock(State &s, Val m) {
  E->obligation(s, "lock-balance");
  if (!held(s) || !(E->norm(s, s.gh["held"]) == m)) { E->violation(s, "lock-balance", "the mutex is unlocked without being held"); throw Stop(); }
  critical(s); checkKeys(s); flushSkip(s); if (!inTraversal(s)) flushTrav(s, false); if (spec.gc && !inTraversal(s)) gcUnlock(s); if (getenv("S2DUMP")) { string d; for (auto &p : s.objs) if (!p.second->freed && isBody(s, p.first)) { d += " body" + std::to_string(p.first); for (Role r : {R_CONN, R_REF, R_SLOTP}) { auto i = p.second->cells.find(roleOff(s, p.first, r)); d += i == p.second->cells.end() ? " -" : " " + std::to_string(i->second.v.k) + ":" + std::to_string(i->second.v.a) + "+" + std::to_string(i->second.v.b); } for (auto &t : p.second->tags) d += " " + t.first + "=" + std::to_string(t.second.a); } E->note(s, d); } s.gh["held"] = Val::I(0); havoc(s); E->note(s, "unlock");
}
// state of the blocker of a connection: 1 alive and held by this operation, 0 none or expired, -1 unknown
int SigRules::blocker(State &s, int body) {
  auto &c = E->o(s, body).cells; auto i = c.find(roleOff(s, body, R_BLOCKC)); if (i == c.end()) return -1; Val v = E->norm(s, i->second.v);
  if (v.isInt(0)) return 0; if (!v.isPtr() || !s.objs.count((int)v.a)) return -1; const Obj &b = E->o(s, (int)v.a);
  if (b.freed) return 0; if (b.cb) { if (b.nlocal > 0) return 1; if (b.alive == 0) return 0; if (b.pointee && E->norm(s, Val::P(b.pointee)).isInt(0)) return 0; return -1; }
  auto j = b.cells.find(v.b + 8); if (j != b.cells.end() && j->second.v.isInt()) return j->second.v.a > 0; return -1;
}
bool SigRules::ownsBlocker(State &s, int body) { return blocker(s, body) == 1; }
// other threads may run: what is not ours to rely on is forgotten
void SigRules::havoc(State &s) {
  if (s.gh.count("seq")) { vector<int> ids; for (auto &p : s.objs) if (isBody(s, p.first) && !p.second->freed) ids.push_back(p.first); for (int id : ids) for (auto k : {"conn0", "ref0"}) delTag(s, id, k); for (int id : ids) { auto &c = E->o(s, id).cells; auto i = c.find(roleOff(s, id, R_CONN)); if (i != c.end()) setTag(s, id, "conn0", i->second.v); auto j = c.find(roleOff(s, id, R_REF)); if (j != c.end()) setTag(s, id, "ref0", j->second.v); } return; }
  vector<int> ids; for (auto &p : s.objs) ids.push_back(p.first);
  auto dropOwner = [&](int obj, i64 coff) { auto &x = E->o(s, obj); auto it = x.cells.find(coff); if (it == x.cells.end()) return; Val c = E->norm(s, it->second.v); if (c.isPtr() && s.objs.count((int)c.a) && E->o(s, (int)c.a).cb && E->o(s, (int)c.a).owners > 0) E->w(s, (int)c.a).owners--; E->w(s, obj).cells.erase(coff); };
  for (int id : ids) {
    if (!s.objs.count(id)) continue; const Obj &x = E->o(s, id); if (x.freed) continue;
    if (x.cb) { Obj &y = E->w(s, id); y.countSym = 0; if (y.alive == 1 && y.nlocal == 0 && y.owners == 0 && !y.tags.count("held")) y.alive = -1; continue; }
    if (!shared(s, id) || x.tags.count("exclusive")) continue;
    if (isBody(s, id)) {
      auto er = [&](Role r) { i64 o = roleOff(s, id, r); if (o >= 0 && E->o(s, id).cells.count(o)) E->w(s, id).cells.erase(o); };
      i64 co = roleOff(s, id, R_CONN); auto c = x.cells.find(co); if (c != x.cells.end() && !c->second.v.isInt(0)) er(R_CONN);
      er(R_REF); if (!ownsBlocker(s, id)) { er(R_BLOCKP); er(R_BLOCKC); }
      if (credit(s, id) == 0) { i64 so = roleOff(s, id, R_SLOTC); if (so >= 0) dropOwner(id, so); er(R_SLOTP); }
      delTag(s, id, "conn0"); delTag(s, id, "ref0"); delTag(s, id, "dexp"); delTag(s, id, "match");
    } else if (isImpl(s, id)) {
      dropOwner(id, roleOff(s, id, R_STATEC)); i64 so = roleOff(s, id, R_STATEP); E->w(s, id).cells.erase(so); i64 g = roleOff(s, id, R_GC); if (g >= 0) E->w(s, id).cells.erase(g);
    } else if (isState(s, id)) { i64 c = roleOff(s, id, R_COMBC); (void)c; }
    if (E->o(s, id).tags.count("fresh")) delTag(s, id, "fresh");
    if (E->o(s, id).tags.count("listobj") && x.kind == Obj::Heap) {}
  }
}
// the end of a critical section: typestate of the connections examined in it
void SigRules::critical(State &s) {
  vector<int> ids; for (auto &p : s.objs) if (!p.second->freed && !p.second->cb) ids.push_back(p.first);
  for (int id : ids) {
    if (!s.objs.count(id)) continue; if (isImpl(s, id) && shared(s, id)) { checkGc(s, id); delTag(s, id, "root"); continue; } if (!isBody(s, id) || !shared(s, id)) continue;
    evalBody(s, id, true); delTag(s, id, "dirty"); if (!credit(s, id)) delTag(s, id, "root");
  }
}
// connections written to earlier in this critical section: evaluated when a loop goes on to the next one
void SigRules::evalDirty(State &s) {
  vector<int> ids; for (auto &p : s.objs) if (p.second->tags.count("dirty") && !p.second->freed) ids.push_back(p.first);
  for (int id : ids) {
    evalBody(s, id, false); delTag(s, id, "dirty"); if (!credit(s, id)) delTag(s, id, "root");
    auto &c = E->o(s, id).cells; auto i = c.find(roleOff(s, id, R_CONN)); if (i != c.end()) setTag(s, id, "conn0", i->second.v); auto j = E->o(s, id).cells.find(roleOff(s, id, R_REF)); if (j != E->o(s, id).cells.end()) setTag(s, id, "ref0", j->second.v);
  }
}
void SigRules::evalBody(State &s, int id, bool atEnd) {
  {
    i64 co = roleOff(s, id, R_CONN), ro = roleOff(s, id, R_REF), so = roleOff(s, id, R_SLOTP);
    auto get = [&](i64 off) { auto &c = E->o(s, id).cells; auto i = c.find(off); return i == c.end() ? Val() : E->norm(s, i->second.v); };
    Val conn = get(co), ref = get(ro), slot = get(so), conn0 = tag(s, id, "conn0"), ref0 = tag(s, id, "ref0");
    if (conn0.k == Val::Undef && conn.isInt(0)) conn0 = conn;
    if (conn.isInt() && conn0.isInt()) {
      E->obligation(s, "typestate");
      if (conn0.a == 0 && conn.a != 0) { E->violation(s, "reconnect", "a disconnected connection becomes connected again"); throw Stop(); }
      if (conn0.a == 1 && conn.a == 0) disconnected(s, id);
    }
    if (ref.k != Val::Undef && ref0.k != Val::Undef) {
      i64 d;
      if (ref.k == Val::Sym && ref0.k == Val::Sym && ref.a == ref0.a) d = ref.b - ref0.b; else if (ref.isInt() && ref0.isInt()) d = ref.a - ref0.a; else { E->violation(s, "shares", "the count of slot shares is set to an unrelated value"); throw Stop(); }
      i64 dc = (conn.isInt() && conn0.isInt()) ? conn.a - conn0.a : 0; i64 cr = credit(s, id) + d - dc;
      E->obligation(s, "shares");
      if (cr < 0) { E->violation(s, "shares", "a share in the slot is given up that is not held (it may be given up twice)"); throw Stop(); }
      setCredit(s, id, cr);
      if (d != 0 || (slot.k != Val::Undef)) {
        bool zero = E->cmpInt(s, CmpInst::ICMP_EQ, ref, Val::I(0), 32);
        slot = E->norm(s, E->load(s, Val::P(id, so), 8, true));
        bool nul = E->isNullV(s, slot);
        if (zero && !nul) E->violation(s, "shares", "the last share in the slot is given up but the slot is not released");
        if (!zero && nul) { E->violation(s, "shares", "the slot is released although shares in it are left"); throw Stop(); }
      }
    } else if (ref.k == Val::Undef && conn.isInt() && conn0.isInt() && conn.a != conn0.a) E->violation(s, "shares", "the connection is disconnected without giving up its share in the slot");
    if (!atEnd) { Val vec = trackedOf(s, id); bool sec = false, expired = false; Val sb; if (vec.isPtr()) { trackResult(s, (int)vec.a, sec, expired, sb); if (expired && !conn.isInt(0) && !s.inflight) { E->obligation(s, "expiry"); E->violation(s, "expiry", "a tracked object has expired but the connection is not disconnected"); } } return; }
    // facts established in this critical section
    Val trk = Val(); Val vec = trackedOf(s, id);
    bool sec = false, expired = false; Val secbuf = Val::I(1);
    if (vec.isPtr()) { trackResult(s, (int)vec.a, sec, expired, secbuf); }
    Val bp = get(roleOff(s, id, R_BLOCKP)), bc = get(roleOff(s, id, R_BLOCKC)); int blk = -1;
    if (bc.isInt(0)) blk = 0; else if (bc.isPtr() && E->o(s, (int)bc.a).cb) { auto &b = E->o(s, (int)bc.a); if (b.alive >= 0) blk = b.alive; if (blk < 0 && b.pointee) { Val pv = E->norm(s, Val::P(b.pointee)); if (pv.isInt(0)) blk = 0; } }
    bool examined = conn.isInt() && conn0.isInt();
    if (examined) { setTag(s, id, "wasconn", conn); }
    if (examined && spec.gc && inTraversal(s) && s.gh.count("cur") && !tag(s, id, "counted").isInt(1)) { Val cu = E->norm(s, s.gh["cur"]); Val bd = cu.isPtr() ? bodyOfNode(s, (int)cu.a) : Val();
      if (s.gh.count("skipPend") && !(bd.isPtr() && bd.a == id)) { Val q = E->norm(s, s.gh["skipPend"]); if (q.isPtr()) bd = bodyOfNode(s, (int)q.a); }
      if (bd.isPtr() && bd.a == id) { setTag(s, id, "counted", Val::I(1)); Val &n = s.gh[conn.a ? "cnt:=mconn" : "cnt:=mdisc"]; if (n.k == Val::Undef) n = Val::I(0); if (n.isInt()) n.a++; else n.b++; } }
    if (vec.isPtr() && expired && !s.inflight) { E->obligation(s, "expiry"); if (!conn.isInt(0)) E->violation(s, "expiry", "a tracked object has expired but the connection is not disconnected"); }
    if (examined && conn.a == 1 && sec) setTag(s, id, "full", Val::I(1)); else if (examined && conn.a == 0) setTag(s, id, "full", Val::I(1));
    if (vec.isPtr() && sec) setTag(s, id, "sec", secbuf);
    if (examined && conn.a == 1 && blk == 0 && sec) { setTag(s, id, "callable", Val::I(1)); E->obligation(s, "callable"); }
    if ((conn.isInt(0)) || blk == 1) setTag(s, id, "noncall", Val::I(1));
    if (vec.isPtr()) for (auto t : {"trk", "curE", "secbuf", "trkexp", "copying", "miss", "pendE", "prevE"}) delTag(s, (int)vec.a, t);
    if (vec.isPtr() && E->o(s, (int)vec.a).kind == Obj::Lazy && E->o(s, (int)vec.a).cells.count(64)) E->w(s, (int)vec.a).cells.erase(64);
    (void)trk; (void)bp;
  }
}
// ------------------------------------------------------------------ tracked objects of a slot
Val SigRules::trackedOf(State &s, int body) {
  auto &c = E->o(s, body).cells; auto i = c.find(roleOff(s, body, R_SLOTP)); if (i == c.end()) return Val(); Val t = E->norm(s, i->second.v); if (!t.isPtr() || !s.objs.count((int)t.a)) return Val();
  auto &d = E->o(s, (int)t.a).cells; auto j = d.find(t.b + trackOff); if (j == d.end()) return Val(); return E->norm(s, j->second.v);
}
// 1: known to be alive, 0: known to be expired, -1 unknown; buf: where a shared owner is kept
int SigRules::elemState(State &s, int e, Val &buf, bool &needs) {
  auto get = [&](i64 off) { auto &c = E->o(s, e).cells; auto i = c.find(off); return i == c.end() ? Val() : E->norm(s, i->second.v); };
  Val wh = get(0); buf = Val(); needs = true; if (!wh.isInt()) return -1;
  if (wh.a == 2) { Val p = get(8); if (!p.isPtr()) return -1; needs = true; Val h = tag(s, (int)p.a, "fheld"); if (h.isPtr()) buf = h; Val x = tag(s, (int)p.a, "fexp"); if (x.isInt()) return x.a ? 0 : 1; return -1; }
  needs = wh.a != 0;
  Val pn = get(16); if (pn.isInt(0)) return 0; if (!pn.isPtr()) return -1; const Obj &b = E->o(s, (int)pn.a); if (!b.cb) return -1;
  if (b.pointee) { Val pv = E->norm(s, Val::P(b.pointee)); if (pv.isInt(0)) return 0; }
  auto h = b.tags.find("held"); if (h != b.tags.end()) buf = E->norm(s, h->second);
  return b.alive;
}
// an element is judged when the next one is left or the result is asked for, so that an iterator may be advanced early
void SigRules::elemAdvance(State &s, int e) {
  s.progress = true;
  Val L = tag(s, e, "list"); if (!L.isPtr()) return; int v = (int)L.a; Val cur = tag(s, v, "curE"); if (!cur.isPtr() || cur.a != e) return;   // not the examining loop
  Val pe = tag(s, v, "pendE"); if (pe.isPtr()) elemJudge(s, v, (int)pe.a);
  Val buf; bool needs; int st = elemState(s, e, buf, needs); bool own = false;      // an owner taken of it may still be put where it is kept
  if (st == 1 && needs && !buf.isPtr()) { auto &c = E->o(s, e).cells; auto i = c.find(16); Val pn = i == c.end() ? Val() : E->norm(s, i->second.v); own = pn.isPtr() && E->o(s, (int)pn.a).cb && E->o(s, (int)pn.a).nlocal > 0; }
  if (tag(s, e, "into").isPtr() || (st >= 0 && !own)) elemJudge(s, v, e); else setTag(s, v, "pendE", Val::P(e));
}
// the first element of a vector of tracked objects, and the one after an element; the end is the vector itself
Val SigRules::firstElem(State &s, int t) {
  if (tag(s, t, "empty").isInt(1) && tag(s, t, "pushed0").k == Val::Undef) return Val::P(t);
  auto i = E->o(s, t).cells.find(64); if (i != E->o(s, t).cells.end()) return E->norm(s, i->second.v);
  int n = E->newObj(s, Obj::Lazy, -1, ""); auto &x = E->w(s, n); x.tags["chain"] = Val::I(1); x.tags["elem"] = Val::I(1); x.tags["list"] = Val::P(t); setTag(s, t, "lazyedge", Val::I(1)); setTag(s, t, "listobj", Val::I(1)); E->w(s, t).cells[64] = {8, Val::P(n)}; return Val::P(n);
}
Val SigRules::nextElem(State &s, int e) {
  auto i = E->o(s, e).cells.find(64); if (i != E->o(s, e).cells.end()) return E->norm(s, i->second.v);
  Val L = E->o(s, e).tags.at("list"); int n = E->newObj(s, Obj::Lazy, -1, ""); auto &y = E->w(s, n); y.tags["chain"] = Val::I(1); y.tags["elem"] = Val::I(1); y.tags["list"] = L; setTag(s, e, "lazyedge", Val::I(1)); E->w(s, e).cells[64] = {8, Val::P(n)}; return Val::P(n);
}
void SigRules::beginElems(State &s, int t) {
  Val first = firstElem(s, t); setTag(s, t, "trk", Val::I(1)); setTag(s, t, "curE", first); for (auto k : {"secbuf", "trkexp", "unsec", "copying", "miss", "pendE", "prevE"}) delTag(s, t, k);
  auto i = s.gh.find("vcur"); if (i != s.gh.end() && i->second.isPtr() && E->norm(s, i->second) == Val::P(t)) for (auto k : {"vcur", "vdep", "cnt:=vidx"}) s.gh.erase(k);
}
// loops over the elements by index: the index of the current element is known, the end is where there is no element
static bool sameIndex(const Val &a, const Val &b, i64 d) { return a.k == b.k && (a.isInt() ? a.a == b.a + d : a.k == Val::Sym && a.a == b.a && a.b == b.b + d); }
int SigRules::cmpIndex(State &s, int t, const Val &i0) {
  Val i = E->norm(s, i0); if (!(i.isInt() || i.k == Val::Sym)) return 1;
  auto cur = [&] { auto g = s.gh.find("vcur"); return g != s.gh.end() && E->norm(s, g->second) == Val::P(t) && tag(s, t, "curE").isPtr(); };
  if (!cur() || (i.isInt(0) && !E->norm(s, s.gh["cnt:=vidx"]).isInt(0) && !E->norm(s, s.gh["cnt:=vidx"]).isInt(1))) { if (!i.isInt(0)) return 1; beginElems(s, t); s.gh["vcur"] = Val::P(t); s.gh["cnt:=vidx"] = Val::I(0); s.gh["vdep"] = Val::I((i64)s.stack.size()); }
  Val x = E->norm(s, s.gh["cnt:=vidx"]);
  if (sameIndex(i, x, 0)) return E->ptrEq(s, tag(s, t, "curE"), Val::P(t)) ? 0 : -1;
  if (sameIndex(i, x, -1)) return -1;
  return 1;
}
Val SigRules::indexElem(State &s, int t, const Val &i0) {
  int c = cmpIndex(s, t, i0); Val i = E->norm(s, i0), x = s.gh.count("cnt:=vidx") ? E->norm(s, s.gh["cnt:=vidx"]) : Val();
  if (c == 0) { E->violation(s, "iterator", "an index past the end of the tracked objects is used"); throw Stop(); }
  if (c > 0) throw Lost{"index of tracked objects"};
  if (sameIndex(i, x, -1)) { Val p = tag(s, t, "prevE"); if (p.isPtr()) return Val::P((int)p.a); throw Lost{"index of tracked objects"}; }
  if (!sameIndex(i, x, 0)) throw Lost{"index of tracked objects"};
  int e = (int)E->norm(s, tag(s, t, "curE")).a; Val nx = nextElem(s, e); elemAdvance(s, e); setTag(s, t, "curE", nx); setTag(s, t, "prevE", Val::P(e));
  if (x.isInt()) x.a++; else x.b++; s.gh["cnt:=vidx"] = x; return Val::P(e);
}
void SigRules::elemJudge(State &s, int v, int e) {
  delTag(s, v, "pendE");
  { Val in = tag(s, e, "into"), cp = tag(s, v, "copying"); if (!in.isPtr() || (cp.isPtr() && cp.a != in.a)) setTag(s, v, "miss", Val::I(1)); else setTag(s, v, "copying", in); }
  Val buf; bool needs; int st = elemState(s, e, buf, needs); bool ok = st == 1;
  if (st == 0) setTag(s, v, "trkexp", Val::I(1));
  if (ok && needs) { if (buf.isPtr()) setTag(s, v, "secbuf", buf); else setTag(s, v, "unsec", Val::I(1)); }
  if (!ok) setTag(s, v, "trk", Val::I(0));
}
void SigRules::trackResult(State &s, int v, bool &sec, bool &expired, Val &secbuf) {
  sec = false; expired = false; Val trk = tag(s, v, "trk"); if (!trk.isInt()) return;
  Val cur = tag(s, v, "curE"); expired = tag(s, v, "trkexp").isInt(1);
  bool end = cur.isPtr() && cur.a == v;
  if (!end && cur.isPtr()) { Val b; bool n; if (elemState(s, (int)cur.a, b, n) == 0) expired = true; }
  sec = end && trk.isInt(1); Val sb = tag(s, v, "secbuf"); if (sb.isPtr()) secbuf = sb; if (tag(s, v, "unsec").isInt(1)) secbuf = Val::I(0);
  Val pe = tag(s, v, "pendE"); if (pe.isPtr()) { Val b; bool n; int st = elemState(s, (int)pe.a, b, n); if (st == 0) expired = true; if (st != 1) sec = false; else if (n) { if (!b.isPtr()) secbuf = Val::I(0); else if (!secbuf.isInt(0)) secbuf = b; } }
}

// ------------------------------------------------------------------ traversals
void SigRules::leaveNode(State &s, int node, const Val &next) {
  Val body = bodyOfNode(s, node);
  if (held(s)) evalDirty(s);
  if (inTraversal(s)) {
    flushSkip(s); s.gh["skipPend"] = Val::P(node); if (!held(s)) flushSkip(s);
    s.gh["cur"] = next; s.gh["called"] = Val::I(0); s.gh.erase("resTok"); return;
  }
  if (spec.gc && held(s)) { gcStep(s, node, next); return; }
  if (spec.traverse.empty() || held(s)) return;
  if (Val p = s.gh.count("tPend") ? E->norm(s, s.gh["tPend"]) : Val(); p.isPtr() && p.a == node) { s.gh["tcur"] = next; return; }   // a second iterator at the same position
  flushTrav(s, true); E->obligation(s, "visit-all");
  if (!s.gh.count("tany")) { Val b = s.gh.count("tbegin") ? E->norm(s, s.gh["tbegin"]) : Val(); if (!(b.isPtr() && b.a == node)) E->violation(s, "visit-all", "the slots are not visited from the first one on"); }
  s.gh["tPend"] = Val::P(node); s.gh["tcur"] = next; s.gh["tany"] = Val::I(1); flushTrav(s, false);
}
// a slot passed over in an invocation is judged when the critical section it was examined in ends
void SigRules::flushSkip(State &s) {
  if (!s.gh.count("skipPend")) return; Val n = E->norm(s, s.gh["skipPend"]); s.gh.erase("skipPend"); if (!n.isPtr() || !s.objs.count((int)n.a)) return; int node = (int)n.a; Val body = bodyOfNode(s, node);
  E->obligation(s, "no-skip");
  if (!body.isPtr()) E->violation(s, "no-skip", "a position of the slot list is passed over without being examined");
  else if (tag(s, node, "presented").isInt(1)) {}
  else if (!tag(s, (int)body.a, "noncall").isInt(1) && !tag(s, (int)body.a, "wasconn").isInt(0)) E->violation(s, "no-skip", "a slot is passed over although it was not found disconnected, blocked or expired");
}
// judges the slot at the position left last: as soon as all is known about it, at the latest when the next position is left
void SigRules::flushTrav(State &s, bool force) {
  if (!s.gh.count("tPend")) return; Val n = E->norm(s, s.gh["tPend"]); if (!n.isPtr() || !s.objs.count((int)n.a)) { s.gh.erase("tPend"); return; }
  Val body = bodyOfNode(s, (int)n.a); auto bad = [&](const string &w) { E->violation(s, "visit-all", w); };
  auto done = [&] { s.gh.erase("tPend"); };
  if (!body.isPtr()) { if (force) { bad("a slot is passed over without being examined"); done(); } return; }
  int b = (int)body.a; auto &c = E->o(s, b).cells; auto it = c.find(roleOff(s, b, R_CONN)); bool disc = it != c.end() && it->second.v.isInt(0);
  if (spec.traverse == "disconnect") { if (!disc) { if (!force) return; bad("a slot is passed over without being disconnected"); } }
  else if (spec.traverse == "match") { if (!disc) { bool seen = !(tag(s, b, "wasconn").k == Val::Undef); int m = seen || force ? matches(s, b) : -1; if (!force && (!seen || m != 0)) return; if (!seen || m < 0) bad("a slot is passed over without being compared"); else if (m == 1) bad("a matching slot is not disconnected"); } }
  else if (spec.traverse == "count") { Val w_ = tag(s, b, "wasconn"); bool full = tag(s, b, "full").isInt(1); if (!full && !force) return; if (!full) bad("a slot is passed over without finding out whether it is connected"); else if (w_.isInt(1)) { Val n = s.gh["cnt:conn"]; if (n.k == Val::Undef) n = Val::I(0); if (n.isInt()) n.a++; else n.b++; s.gh["cnt:conn"] = n; } }
  done();
}
// ------------------------------------------------------------------ the removal of disconnected slots bit by bit
// a position of the signal's list is passed (its successor is loaded) by a cleanup
void SigRules::gcStep(State &s, int node, const Val &next) {
  Val l = curList(s); Val L = tag(s, node, "list"); if (!l.isPtr() || !L.isPtr() || L.a != l.a) return;
  Val p = s.gh.count("gcPend") ? E->norm(s, s.gh["gcPend"]) : Val(); if (p.isPtr() && p.a == node) { s.gh["gcAt"] = next; return; }
  gcEval(s); E->obligation(s, "examined");
  int im = 0; curList(s, nullptr, &im); auto cell = [&](int ob, i64 off) { auto &c = E->o(s, ob).cells; auto i = c.find(off); return i == c.end() ? Val() : E->norm(s, i->second.v); };
  Val g = cell(im, roleOff(s, im, R_GC)), first = cell((int)l.a, tag(s, (int)l.a, "hdr").a);
  if (!s.gh.count("gcAt")) {
    bool at = g.isPtr() && g.a == node, fst = first.isPtr() && first.a == node, end = g.isPtr() && g.a == l.a;
    if (!at && !fst) E->violation(s, "examined", "a cleanup begins neither where the last one stopped nor at the first slot");
    s.gh["gcBegin"] = Val::I(fst); s.gh["gcFull"] = Val::I(!at && !end); s.gh["gcN"] = Val::I(0);
  } else {
    Val a = E->norm(s, s.gh["gcAt"]); bool wrap = a.isPtr() && a.a == l.a && first.isPtr() && first.a == node;
    if (!wrap && !(a.isPtr() && a.a == node)) E->violation(s, "examined", "a slot is passed over by the cleanup without being examined");
  }
  s.gh["gcPend"] = Val::P(node); s.gh["gcAt"] = next; if (!s.gh["gcN"].isInt(2)) s.gh["gcN"].a++;
}
void SigRules::gcEval(State &s) {
  if (!s.gh.count("gcPend")) return; Val n = E->norm(s, s.gh["gcPend"]); s.gh.erase("gcPend"); if (!n.isPtr() || !s.objs.count((int)n.a) || E->o(s, (int)n.a).freed) return;
  Val b = bodyOfNode(s, (int)n.a); Val conn; if (b.isPtr()) { auto &c = E->o(s, (int)b.a).cells; auto i = c.find(roleOff(s, (int)b.a, R_CONN)); if (i != c.end()) conn = E->norm(s, i->second.v); }
  if (!conn.isInt()) E->violation(s, "examined", "a slot is passed over by the cleanup without being examined");
  else if (conn.a == 0) { if (!(s.inflight && s.gh.count("gcThrew"))) E->violation(s, "examined", "a slot found disconnected by the cleanup is left in the list"); }
  else if (spec.gcConnect) { bool sec = false, expired = false; Val sb, vec = trackedOf(s, (int)b.a); if (vec.isPtr()) trackResult(s, (int)vec.a, sec, expired, sb); if (!sec && !tag(s, (int)b.a, "full").isInt(1)) E->violation(s, "examined", "a slot is taken for connected by a connect() without looking at its tracked objects"); }
}
void SigRules::gcUnlock(State &s) {
  gcEval(s); Val st; int im = 0; Val l = curList(s, &st, &im);
  auto cell = [&](int ob, i64 off) { auto &c = E->o(s, ob).cells; auto i = c.find(off); return i == c.end() ? Val() : E->norm(s, i->second.v); };
  if (!spec.gcConnect && st.isPtr() && !s.gh.count("gcOK")) {      // in use elsewhere
    Val c = cell(im, roleOff(s, im, R_STATEC)); if (c.isPtr() && s.objs.count((int)c.a) && E->o(s, (int)c.a).cb) { auto &x = E->o(s, (int)c.a); if (x.countSym == -2 || (x.countSym > 0 && s.syms.count(x.countSym) && s.syms[x.countSym].lo >= 1)) s.gh["gcOK"] = Val::I(1); } }
  if (!l.isPtr()) { s.gh.erase("gcAt"); return; }
  Val g = cell(im, roleOff(s, im, R_GC)), first = cell((int)l.a, tag(s, (int)l.a, "hdr").a);
  if (s.gh.count("gcAt")) {
    Val a = E->norm(s, s.gh["gcAt"]); bool end = a.isPtr() && a.a == l.a; E->obligation(s, "cleanup-position");
    if (s.gh["gcFull"].isInt(1) && !end && !s.inflight) E->violation(s, "examined", "a cleanup begins at the first slot, away from where the last one stopped, and does not go on to the end of the list");
    if (!(g.isPtr() && a.isPtr() && g.a == a.a) && !(end && g.isPtr() && g == first) && !s.inflight && !s.gh.count("gcThrew")) E->violation(s, "cleanup-position", "the cleanup position is not where the cleanup stopped");
    if (end || s.gh["gcN"].a >= (spec.gcConnect ? 2 : 1)) s.gh["gcOK"] = Val::I(1);
    if (end && s.gh["gcBegin"].isInt(1)) s.gh["gcFullDone"] = Val::I(1);
  } else if (first.isPtr() && first.a == l.a) { s.gh["gcOK"] = Val::I(1); s.gh["gcFullDone"] = Val::I(1); }
  if (s.gh.count("travList") && !s.gh.count("gcFullDone")) { Val t = E->norm(s, s.gh["travList"]); if (t.isPtr() && t.a != l.a && E->knownDistinct(s, Val::P(t.a), Val::P(l.a))) s.gh["gcFullDone"] = Val::I(1); }
  for (auto k : {"gcAt", "gcFull", "gcBegin", "gcN"}) s.gh.erase(k);
}
void SigRules::gcExit(State &s, bool exc) {
  E->obligation(s, "examined"); auto n = [&](const char *k) { return s.gh.count(k) ? E->norm(s, s.gh[k]) : Val::I(0); };
  if (!exc && !s.gh.count("gcOK") && !s.gh.count("gcThrew")) E->violation(s, "examined", spec.gcConnect ? "a connect() examines fewer than two elements of the list although more are left" : "an invocation examines no element of the list although it is in use nowhere else");
  if (!spec.gcConnect && !s.gh.count("gcFullDone") && !s.gh.count("gcThrew") && E->cmpInt(s, llvm::CmpInst::ICMP_SGT, n("cnt:=mdisc"), n("cnt:=mconn"), 64)) E->violation(s, "examined", "an invocation that met more disconnected than connected slots does not remove all disconnected ones");
}
void SigRules::checkGc(State &s, int impl) {
  E->obligation(s, "cleanup-position");
  Val l = curList(s); i64 off = roleOff(s, impl, R_GC); auto &c = E->o(s, impl).cells; auto it = c.find(off);
  if (tag(s, impl, "gcstale").isInt(1)) { E->violation(s, "cleanup-position", "the cleanup position still refers to a slot list or slot that was replaced or removed"); delTag(s, impl, "gcstale"); return; }
  if (it == c.end() || !l.isPtr()) return; Val g = E->norm(s, it->second.v); if (!g.isPtr()) return;
  const Obj &n = E->o(s, (int)g.a); if (n.freed) { E->violation(s, "cleanup-position", "the cleanup position refers to a removed slot"); return; }
  Val L = n.tags.count("chain") ? E->norm(s, n.tags.at("list")) : g;
  if (L.isPtr() && !(L.a == l.a)) E->violation(s, "cleanup-position", "the cleanup position refers to another slot list");
}
void SigRules::disconnected(State &s, int body) {
  E->obligation(s, "disconnect-reason"); setTag(s, body, "disc", Val::I(1));
  Val vec = trackedOf(s, body); bool sec = false, expired = false; Val sb; if (vec.isPtr()) trackResult(s, (int)vec.a, sec, expired, sb);
  if (tag(s, body, "dexp").isInt(1)) expired = true;
  delTag(s, body, "dexp"); if (expired || spec.discAny || tag(s, body, "mayDisc").isInt(1)) return;
  Val x = s.gh.count("expFrom") ? E->norm(s, s.gh["expFrom"]) : Val(); if (x.isPtr() && x.a == body) return;
  if (spec.discMatch && matches(s, body) == 1) return;
  E->violation(s, "disconnect-reason", "a connection is disconnected without a reason (no tracked object expired, not asked for)");
}

// ------------------------------------------------------------------ buffers of shared owners
void SigRules::releaseBuffer(State &s, int buf) {
  vector<int> ids; for (auto &p : s.objs) if (p.second->tags.count("held")) ids.push_back(p.first);
  bool has = tag(s, buf, "has").isInt(1);
  if (has) { E->obligation(s, "release"); if (held(s)) E->violation(s, "release-locked", "shared owners of slots or tracked objects are released while the mutex is held"); }
  for (int id : ids) { Val h = tag(s, id, "held"); if (h.isPtr() && h.a == buf) { delTag(s, id, "held"); } }
  ids.clear(); for (auto &p : s.objs) if (p.second->tags.count("fheld")) ids.push_back(p.first);
  for (int id : ids) { Val h = tag(s, id, "fheld"); if (h.isPtr() && h.a == buf) delTag(s, id, "fheld"); }
  ids.clear(); for (auto &p : s.objs) if (p.second->tags.count("sec")) ids.push_back(p.first);
  for (int id : ids) { Val h = tag(s, id, "sec"); if (h.isPtr() && h.a == buf) setTag(s, id, "sec", Val::I(0)); }
  ids.clear(); for (auto &p : s.objs) if (p.second->tags.count("secbuf")) ids.push_back(p.first);
  for (int id : ids) { Val h = tag(s, id, "secbuf"); if (h.isPtr() && h.a == buf) setTag(s, id, "unsec", Val::I(1)); }
  delTag(s, buf, "has");
}
void SigRules::onRelease(State &s, int cb, bool last) {
  const Obj &c = E->o(s, cb); int p = c.pointee; string t; if (p && s.objs.count(p)) t = E->o(s, p).type;
  if (!last) return;
  E->obligation(s, "release");
  if (!held(s)) return;
  if (p && s.objs.count(p)) {
    if (isBody(s, p)) {
      auto &d = E->o(s, p).cells; auto i = d.find(roleOff(s, p, R_CONN)); if (i != d.end() && i->second.v.isInt(0)) return;
      E->violation(s, "release-locked", "a connection that may be the last owner of a slot is released while the mutex is held"); return; }
    if (isState(s, p) || E->o(s, p).tags.count("listobj")) {
      Val l = E->o(s, p).tags.count("listobj") ? Val::P(p) : Val(); if (!l.isPtr()) { auto i = E->o(s, p).cells.find(roleOff(s, p, R_LISTP)); if (i != E->o(s, p).cells.end()) l = E->norm(s, i->second.v); }
      // fine if the signal still has this list or a copy of it
      Val cl = curList(s); if (cl.isPtr() && l.isPtr()) { if (cl.a == l.a) return; Val co = tag(s, (int)cl.a, "copyOf"); if (co.isPtr() && co.a == l.a) return; }
      E->violation(s, "release-locked", "a slot list is released while the mutex is held"); return; }
    if (!combClass.empty() && t == combClass) return;
    if (E->o(s, p).tags.count("mutex") || E->o(s, p).tags.count("combOf")) return;
    if (E->o(s, p).tags.count("nolockrule")) return;
  }
  E->violation(s, "release-locked", (!t.empty() && starts(t, NS + "slot")) ? "a slot is released while the mutex is held" : "a shared owner of a tracked object is released while the mutex is held");
}
void SigRules::onLockWeak(State &s, int cb, bool alive) {}
void SigRules::onFree(State &s, int obj) {}
bool SigRules::mayFail(State &s) { return !spec.noFail; }
void SigRules::onExceptionDone(State &s, const Exc &x) {}
void SigRules::onTerminate(State &s, const string &w) { E->violation(s, "terminate", w + (s.inflight ? " (" + s.inflight->type + ")" : "")); }
void SigRules::onEnter(State &s, const Function *f) {
  const FnName &n = E->name(f); if (n.ctx.empty() || f->arg_size() == 0) return;
  unsigned ti = f->arg_size() > 1 && f->getArg(0)->hasStructRetAttr() ? 1 : 0; if (f->getArg(ti)->getName() != "this") return;
  if (starts(n.sctx, NS) && (!rolesOf(n.ctx).empty() || n.ctx == NS + "connection")) {
    Val t = E->norm(s, s.stack.back()->regs[E->ord[f->getArg(ti)]]); if (!t.isPtr() || !s.objs.count((int)t.a)) return;
    const Obj &x = E->o(s, (int)t.a); if (x.kind == Obj::Lazy && t.b == 0) return;
    auto i = x.subs.find(t.b); if (i != x.subs.end() && (i->second == n.ctx || E->derives(i->second, n.ctx))) return;
    E->w(s, (int)t.a).subs[t.b] = n.ctx;
  }
}
void SigRules::onStart(State &s) { if (spec.traverse == "count") s.gh["cnt:conn"] = Val::I(0); }
void SigRules::onExit(State &s, bool exc) {
  E->obligation(s, "lock-balance");
  string how = exc ? " (left by exception " + (s.inflight ? s.inflight->type : "") + ")" : "";
  if (held(s)) E->violation(s, "lock-balance", "the mutex is still held at the end of the operation" + how);
  for (auto &p : s.objs) if (p.second->tags.count("credit") && !p.second->freed) E->violation(s, "share-leak", "a share in a slot is not given up at the end of the operation" + how);
  for (auto &p : s.objs) if (p.second->cb && p.second->nlocal > spec.keep) { auto t = p.second->pointee && s.objs.count(p.second->pointee) ? s.objs[p.second->pointee]->type : ""; if (!p.second->tags.count("keep")) E->violation(s, "owner-leak", "a shared owner obtained by the operation is never released: " + t + how); }
  if (!exc && !spec.traverse.empty()) {
    flushTrav(s, true); E->obligation(s, "visit-all");
    Val l; for (auto &g : s.gh) if (g.first == "tcur") l = E->norm(s, g.second);
    Val b = s.gh.count("tbegin") ? E->norm(s, s.gh["tbegin"]) : Val();
    Val at = l.k != Val::Undef ? l : b;
    bool end = false; if (at.isPtr()) { const Obj &x = E->o(s, (int)at.a); end = x.tags.count("listobj") || x.tags.count("ub"); }
    if (end) end = (E->o(s, (int)at.a).tags.count("ub") != 0) == spec.discGroup;
    bool nul = s.gh.count("implnull"); if (!nul && b.isPtr() && spec.traverse == "disconnect" && (E->o(s, (int)b.a).tags.count("lb") != 0) != spec.discGroup) E->violation(s, "visit-all", spec.discGroup ? "the operation does not begin at the first slot of the group" : "the operation does not begin at the first slot");
    if (!nul && !at.isPtr()) E->violation(s, "visit-all", "the slot list is not examined");
    if (at.isPtr() && !end && !spec.mayStop) E->violation(s, "visit-all", spec.discGroup ? "the operation does not end at the last slot of the group" : "the operation ends before the end of the slot list");
  }
  if (exc) { E->obligation(s, "connect-atomic"); if (s.gh.count("pushed")) E->violation(s, "connect-atomic", "the operation ends by an exception although the slot was connected" + how); }
  if (exc && s.inflight && s.inflight->type == NS + "expired_slot") { E->obligation(s, "expired-slot"); expiredGone(s); }
  if (exc && s.inflight) {
    E->obligation(s, "exception");
    Val x = s.gh.count("mustThrow") ? E->norm(s, s.gh["mustThrow"]) : Val();
    if (x.isPtr() && !(E->norm(s, s.inflight->obj) == x)) E->violation(s, "exception", "another exception than the one thrown is passed on");
    else if (!x.isPtr() && s.inflight->type != "user::Exception" && s.inflight->type != "std::bad_alloc" && !starts(s.inflight->type, NS)) E->violation(s, "exception", "an exception of another type is thrown: " + s.inflight->type);
  }
  else if (!exc && s.gh.count("mustThrow")) E->violation(s, "exception", "an exception thrown by user code is swallowed");
  if (spec.gc) gcExit(s, exc);
  if (atExit) atExit(s, exc);
}
