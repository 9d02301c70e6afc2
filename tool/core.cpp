#include "core.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <chrono>
#include <cstring>
#include <tuple>
#include <algorithm>
using namespace llvm;
using std::make_shared;

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

string stripTemplates(const string &s) {
  string r; int d = 0;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == '<' && !(i >= 8 && s.compare(i - 8, 8, "operator") == 0) && !(i >= 9 && s.compare(i - 9, 9, "operator<") == 0)) { d++; continue; }
    if (c == '>' && d > 0 && !(i && s[i - 1] == '-')) { d--; continue; }
    if (!d) r += c;
  }
  return r;
}
vector<string> templateArgs(const string &s) {   // of the last component
  vector<string> r; int d = 0; size_t st = 0; 
  size_t i = s.rfind('>');
  if (i == string::npos || i + 1 != s.size()) return r;
  int dd = 0; size_t open = string::npos;
  for (size_t k = s.size(); k-- > 0;) { if (s[k] == '>' && !(k && s[k-1]=='-')) dd++; else if (s[k] == '<') { if (--dd == 0) { open = k; break; } } }
  if (open == string::npos) return r;
  st = open + 1; int paren = 0;
  for (size_t k = open + 1; k < s.size(); k++) {
    char c = s[k];
    if (c == '(') paren++; if (c == ')') paren--;
    if (c == '<') d++;
    if (c == '>' && s[k-1] != '-') { if (d == 0) { r.push_back(s.substr(st, k - st)); break; } d--; }
    if (c == ',' && d == 0 && paren == 0) { r.push_back(s.substr(st, k - st)); st = k + 2; }
  }
  for (auto &x : r) { while (!x.empty() && x.back() == ' ') x.pop_back(); while (!x.empty() && x[0] == ' ') x.erase(0, 1); }
  return r;
}
string lastComponent(const string &s) {
  int d = 0; for (size_t k = s.size(); k-- > 1;) { if (s[k] == '>') d++; if (s[k] == '<') d--; if (d == 0 && s[k] == ':' && s[k-1] == ':') return s.substr(k + 1); } return s;
}

const FnName &Engine::name(const Function *f) {
  auto it = names.find(f); if (it != names.end()) return it->second;
  FnName n; string m = f->getName().str();
  ItaniumPartialDemangler D;
  auto get = [&](char *(ItaniumPartialDemangler::*g)(char *, size_t *) const) { size_t sz = 0; char *p = (D.*g)(nullptr, &sz); string r = p ? p : ""; free(p); return r; };
  if (!D.partialDemangle(m.c_str()) && D.isFunction()) {
    n.full = get(&ItaniumPartialDemangler::finishDemangle); n.ctx = get(&ItaniumPartialDemangler::getFunctionDeclContextName);
    n.base = get(&ItaniumPartialDemangler::getFunctionBaseName); n.params = get(&ItaniumPartialDemangler::getFunctionParameters);
  } else { n.full = m; n.base = m; }
  n.sctx = stripTemplates(n.ctx);
  return names[f] = n;
}

static string demangleSym(const string &m) { return demangle(m); }

static string diname(const DIType *t) {
  string id; if (auto *c = dyn_cast<DICompositeType>(t)) id = c->getIdentifier().str();
  if (id.compare(0, 4, "_ZTS") == 0) { string b = demangleSym(id); if (b.compare(0, 18, "typeinfo name for ") == 0) b = b.substr(18); return b; }
  return t->getName().str();
}
static string ditype(const DIType *t) {
  string suf;
  for (;;) {
    if (!t) return "void" + suf;
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) return diname(t) + suf;
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: suf = "*" + suf; break;
      case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: suf = "&" + suf; break;
      default: break;
    }
    t = d->getBaseType();
  }
}
void Engine::setup(Module *m) {
  M = m; DL = &m->getDataLayout();
  for (auto &g : m->globals()) {
    string n = g.getName().str();
    if (n.compare(0, 4, "_ZTV") == 0) { string d = demangleSym(n); if (d.compare(0, 11, "vtable for ") == 0 && g.hasInitializer()) vtables[d.substr(11)] = &g; }
    if (n.compare(0, 4, "_ZTI") == 0 && g.hasInitializer()) {
      string d = demangleSym(n); if (d.compare(0, 13, "typeinfo for ") != 0) continue; d = d.substr(13);
      if (auto *cs = dyn_cast<ConstantStruct>(g.getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) {
        auto *op = cs->getOperand(i)->stripPointerCasts();
        if (auto *b = dyn_cast<GlobalVariable>(op)) { string bn = demangleSym(b->getName().str()); if (bn.compare(0, 13, "typeinfo for ") == 0) bases[d].push_back(bn.substr(13)); }
      }
    }
  }
  DebugInfoFinder F; F.processModule(*m);
  for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
    string id = c->getIdentifier().str(); string cls;
    if (id.compare(0, 4, "_ZTS") == 0) { cls = demangleSym(id); if (cls.compare(0, 18, "typeinfo name for ") == 0) cls = cls.substr(18); }
    else cls = c->getName().str();
    if (cls.empty() || layouts.count(cls)) continue;
    auto &L = layouts[cls];
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
      if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) L.push_back({d->getName().str(), (i64)d->getOffsetInBits() / 8, ditype(d->getBaseType())});
      if (d->getTag() == dwarf::DW_TAG_inheritance && d->getBaseType()) {
        const DIType *b0 = d->getBaseType(); while (auto *td = dyn_cast_or_null<DIDerivedType>(b0)) b0 = td->getBaseType(); auto *bt = dyn_cast_or_null<DICompositeType>(b0); string b; if (bt) { string bid = bt->getIdentifier().str(); b = bid.compare(0,4,"_ZTS")==0 ? demangleSym(bid) : bt->getName().str(); if (b.compare(0, 18, "typeinfo name for ") == 0) b = b.substr(18); }
        L.push_back({"@" + b, (i64)d->getOffsetInBits() / 8, b});
      }
    }
  }
}
i64 Engine::fieldOff(const string &cls, const string &f) {
  auto it = layouts.find(cls); if (it == layouts.end()) return -1;
  for (auto &p : it->second) if (p.name == f) return p.off;
  for (auto &p : it->second) if (p.name[0] == '@') { i64 r = fieldOff(p.name.substr(1), f); if (r >= 0) return p.off + r; }
  return -1;
}
bool Engine::derives(const string &d, const string &b) {
  if (d == b) return true;
  auto it = bases.find(d); if (it != bases.end()) for (auto &x : it->second) if (derives(x, b)) return true;
  auto lt = layouts.find(d); if (lt != layouts.end()) for (auto &p : lt->second) if (p.name[0] == '@' && derives(p.name.substr(1), b)) return true;
  return false;
}
vector<string> Engine::concreteClasses(const string &b) {
  vector<string> r; for (auto &v : vtables) if (derives(v.first, b)) {
    // skip abstract classes (a pure virtual slot)
    bool abs = false; auto *init = v.second->getInitializer(); string s; 
    for (auto &op : init->operands()) for (auto &e : cast<Constant>(op)->operands()) if (auto *f = dyn_cast<Function>(cast<Constant>(e)->stripPointerCasts())) if (f->getName() == "__cxa_pure_virtual") abs = true;
    if (!abs) r.push_back(v.first);
  }
  return r;
}

// ---------------------------------------------------------------- liveness
void Engine::prepare(const Function *f) {
  if (prepared[f]) return; prepared[f] = true;
  int n = 0; for (auto &a : f->args()) ord[&a] = n++;
  for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) ord[&i] = n++;
  multiBB[f] = f->size() > 1;
  bool ch = true;
  auto tracked = [&](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
  while (ch) {
    ch = false;
    for (auto bi = f->end(); bi != f->begin();) {
      const BasicBlock &b = *--bi; std::unordered_set<int> live;
      for (auto *s : successors(&b)) { for (int x : liveIn[s]) live.insert(x); for (auto &p : s->phis()) { auto *v = p.getIncomingValueForBlock(&b); if (tracked(v)) live.insert(ord[v]); } }
      for (auto ii = b.end(); ii != b.begin();) { const Instruction &I = *--ii; if (!I.getType()->isVoidTy()) live.erase(ord[&I]); if (isa<PHINode>(I)) continue; for (auto &u : I.operands()) if (tracked(u)) live.insert(ord[u]); }
      if (live.size() != liveIn[&b].size()) { liveIn[&b] = live; ch = true; }
    }
  }
  if (f->size() > 1) {
    DominatorTree DT(*const_cast<Function *>(f)); LoopInfo LI(DT);
    for (auto &b : *f) { if (LI.isLoopHeader(&b)) loopHead.insert(&b); int np = 0; for (auto *p : predecessors(&b)) { (void)p; np++; } if (np > 1) joinBB.insert(&b); }
  }
}
const std::unordered_set<int> &Engine::liveAfter(const Instruction *I) {
  auto it = liveAfterCall.find(I); if (it != liveAfterCall.end()) return it->second;
  const BasicBlock *b = I->getParent(); std::unordered_set<int> live;
  auto tracked = [&](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
  for (auto *s : successors(b)) { for (int x : liveIn[s]) live.insert(x); for (auto &p : s->phis()) { auto *v = p.getIncomingValueForBlock(b); if (tracked(v)) live.insert(ord[v]); } }
  for (auto ii = b->end(); ii != b->begin();) { const Instruction &J = *--ii; if (&J == I) break; if (!J.getType()->isVoidTy()) live.erase(ord[&J]); for (auto &u : J.operands()) if (tracked(u)) live.insert(ord[u]); }
  return liveAfterCall[I] = live;
}

// ---------------------------------------------------------------- state
int Engine::decide(int n) {
  if (n <= 1) return 0;
  if (choicePos < choices.size()) return choices[choicePos++];
  throw Fork{n};
}
Frame &Engine::frame(State &s, size_t i) { auto &p = s.stack[i]; if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
Frame &Engine::top(State &s) { return frame(s, s.stack.size() - 1); }
Obj &Engine::w(State &s, int id) { auto it = s.objs.find(id); if (it == s.objs.end()) throw Lost{"object vanished " + (verbose ? std::to_string(id) : string())}; auto &p = it->second; if (p.use_count() > 1) p = make_shared<Obj>(*p); return *p; }
const Obj &Engine::o(const State &s, int id) { auto it = s.objs.find(id); if (it == s.objs.end()) throw Lost{"object vanished " + (verbose ? std::to_string(id) : string())}; return *it->second; }
Val Engine::norm(State &s, Val v) {
  if (v.k == Val::Ptr) {
    for (;;) { auto it = s.alias.find((int)v.a); if (it == s.alias.end()) break; v.a = it->second.first; v.b += it->second.second; }
    auto it = s.objs.find((int)v.a);
    if (it != s.objs.end()) {
      if (it->second->isNull) return Val::I(v.b);
      if (it->second->cb && it->second->pointee) { Val p = norm(s, Val::P(it->second->pointee)); if (p.isInt(0)) return Val::I(v.b); }
    }
  } else if (v.k == Val::Sym) { auto it = s.syms.find((int)v.a); if (it != s.syms.end() && it->second.lo == it->second.hi) return Val::I(it->second.lo + v.b); }
  return v;
}
int Engine::newObj(State &s, Obj::Kind k, i64 size, const string &type) { int id = nextId++; auto p = make_shared<Obj>(); p->kind = k; p->size = size; p->type = type; s.objs[id] = p; return id; }
int Engine::newSym(State &s, i64 lo, i64 hi, unsigned bits) { int id = nextId++; s.syms[id] = {lo, hi, bits, false}; return id; }
Val Engine::freshInt(State &s, unsigned bits, const Instruction *I) {
  i64 lo = 0, hi;
  if (I) if (auto *md = I->getMetadata(LLVMContext::MD_range)) {
    lo = mdconst::extract<ConstantInt>(md->getOperand(0))->getSExtValue(); hi = mdconst::extract<ConstantInt>(md->getOperand(1))->getSExtValue() - 1;
    return Val::S(newSym(s, lo, hi, bits));
  }
  if (bits == 1) return Val::S(newSym(s, 0, 1, 1));
  if (bits >= 63) { lo = INT64_MIN / 4; hi = INT64_MAX / 4; } else { lo = -(1LL << (bits - 1)); hi = (1LL << bits) - 1; }
  return Val::S(newSym(s, lo, hi, bits));
}
Val Engine::lazyPtr(State &s, const string &type, bool maybeNull) { int id = newObj(s, Obj::Lazy, -1, type); w(s, id).maybeNull = maybeNull; return Val::P(id); }

void Engine::clearRange(State &s, int obj, i64 off, i64 size) {
  const Obj &c = o(s, obj); auto it = c.cells.lower_bound(off - 64); bool any = false;
  for (; it != c.cells.end() && it->first < off + size; ++it) if (it->first + it->second.size > off) { any = true; break; }
  if (!any) return;
  Obj &x = w(s, obj);
  for (auto i = x.cells.lower_bound(off - 64); i != x.cells.end() && i->first < off + size;) { if (i->first + i->second.size > off) i = x.cells.erase(i); else ++i; }
}

bool Engine::readConstCell(const GlobalVariable *g, i64 off, int size, State &s, Val &out) {
  if (!g->hasInitializer()) return false;
  const Constant *c = g->getInitializer();
  for (;;) {
    if (isa<ConstantAggregateZero>(c)) { out = Val::I(0); return true; }
    if (isa<UndefValue>(c)) { out = Val(); return true; }
    Type *t = c->getType();
    if (auto *st = dyn_cast<StructType>(t)) { if (!isa<ConstantStruct>(c)) return false; auto *sl = DL->getStructLayout(st); if ((uint64_t)off >= sl->getSizeInBytes()) return false; unsigned i = sl->getElementContainingOffset(off); off -= sl->getElementOffset(i); c = cast<ConstantStruct>(c)->getOperand(i); continue; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); uint64_t i = off / es; if (i >= at->getNumElements()) return false; off -= i * es; if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { if (off) return false; out = Val::I(cd->getElementAsAPInt(i).getSExtValue()); return true; } c = cast<ConstantArray>(c)->getOperand(i); continue; }
    if (off) return false;
    out = evalConst(s, c); return true;
  }
}
int Engine::globalId(State &s, const GlobalVariable *g) {
  auto it = globalObj.find(g); int id;
  if (it == globalObj.end()) { id = nextId++; globalObj[g] = id; objGlobal[id] = g; } else id = it->second;
  if (!s.objs.count(id)) {
    auto p = make_shared<Obj>(); p->kind = Obj::Global; p->distinct = true; p->size = DL->getTypeAllocSize(g->getValueType()); s.objs[id] = p;
  }
  return id;
}

string Engine::loc(const Instruction *I) {
  if (auto &d = I->getDebugLoc()) { string f = d->getFilename().str(); size_t p = f.find("/boost/"); if (p != string::npos) f = f.substr(p + 1); else { p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1); } return f + ":" + std::to_string(d.getLine()); }
  return "?";
}
string Engine::where(State &s) {
  for (size_t i = s.stack.size(); i-- > 0;) {
    auto &f = *s.stack[i]; const Instruction *I = nullptr;
    if (f.it != f.bb->end()) I = &*f.it;
    if (!I || !I->getDebugLoc()) continue;
    if (I->getDebugLoc()->getFilename().find(repoMark) == StringRef::npos) continue;
    return loc(I) + " in " + stripTemplates(name(f.fn).ctx) + "::" + name(f.fn).base;
  }
  for (size_t i = s.stack.size(); i-- > 0;) { auto &f = *s.stack[i]; if (f.it != f.bb->end() && f.it->getDebugLoc()) return loc(&*f.it) + " in " + name(f.fn).base; }
  return "the end of " + entry;
}
void Engine::note(State &s, const string &what) {
  auto t = make_shared<Trace>(); t->prev = s.trace; t->n = s.trace ? s.trace->n + 1 : 1; t->what = what + "  [" + where(s) + "]"; s.trace = t;
}
void Engine::violation(State &s, const string &rule, const string &what) {
  if (suppressed.count(rule)) return;
  string wh = where(s); string key = rule + "|" + what + "|" + wh + "|" + entry;
  auto it = findingIdx.find(key); if (it != findingIdx.end()) { findings[it->second].count++; return; }
  for (auto &p : pending) if (p.key == key) return;
  Finding f; f.rule = rule; f.what = what; f.where = wh; f.entry = entry;
  vector<string> p; for (auto t = s.trace; t && p.size() < 60; t = t->prev) p.push_back(t->what);
  std::reverse(p.begin(), p.end()); f.path = p;
  for (size_t i = s.stack.size(); i-- > 0;) { auto &fr = *s.stack[i]; if (fr.it != fr.bb->end()) f.path.push_back("  in " + name(fr.fn).full.substr(0, 140) + " at " + loc(&*fr.it)); }
  f.key = key; pending.push_back(f); if (getenv("S2DUMP") && what.find(getenv("S2DUMP")) != string::npos) { fprintf(stderr, "FINDING %s\n", what.c_str()); dump(s); }
}
void Engine::commit() {
  for (auto &f : pending) { if (findingIdx.count(f.key)) continue; findingIdx[f.key] = findings.size(); findings.push_back(f); }
  pending.clear();
  for (auto &p : pendingOb) { obligations[p.first]++; obSites[p.first].insert(p.second); }
  pendingOb.clear();
}
void Engine::obligation(State &s, const string &rule) { pendingOb.push_back({rule, where(s)}); }

// ---------------------------------------------------------------- memory
int Engine::lazyCb(State &s, int pointee, bool strong) {
  if (pointee) { const Obj &p = o(s, pointee); auto t = p.tags.find("cb"); if (t != p.tags.end()) { Val c = norm(s, t->second); if (c.isPtr() && s.objs.count((int)c.a)) { if (strong) { Obj &x = w(s, (int)c.a); x.owners++; x.alive = 1; } return (int)c.a; } } }
  int id = newObj(s, Obj::Lazy, -1, "boost::detail::sp_counted_base"); Obj &x = w(s, id); x.cb = true; x.pointee = pointee; x.owners = strong ? 1 : 0; x.alive = strong ? 1 : -1; x.maybeNull = pointee == 0;
  if (pointee) w(s, pointee).tags["cb"] = Val::P(id);
  return id;
}
Val Engine::lazyPtrFor(State &s, int obj, i64 off, const Instruction *I) {
  const FnName &fn = name(s.stack.back()->fn);
  string encl; string type = pointeeTypeAt(s, obj, off, &encl); bool chain = false; string declared = type;
  if (!type.empty() && !layouts.count(type)) type.clear();
  if (inPx) { int id = newObj(s, Obj::Lazy, -1, type); w(s, id).maybeNull = true; return Val::P(id); }
  if (encl.empty()) encl = fn.sctx;
  if (encl == "boost::detail::shared_count" || encl == "boost::detail::weak_count") {
    bool strong = encl == "boost::detail::shared_count";
    inPx = true; Val px; try { px = load(s, Val::P(obj, off - 8), 8, true, nullptr); } catch (...) { inPx = false; throw; } inPx = false; px = norm(s, px);
    if (strong) {
      if (px.isInt(0)) return Val::I(0);
      w(s, obj).strong.insert(off);
      if (px.isPtr() && px.b == 0) return Val::P(lazyCb(s, (int)px.a, true));
      return Val::P(lazyCb(s, 0, true));
    }
    // a weak pointer: the control block may be absent only if px is null
    if (px.isPtr() && px.b == 0) return Val::P(lazyCb(s, (int)px.a, false));
    return Val::P(lazyCb(s, 0, false));
  }
  if (fn.sctx == "boost::shared_ptr" || fn.sctx == "boost::weak_ptr" || fn.sctx == "boost::scoped_ptr" || fn.sctx == "std::_List_iterator" || fn.sctx == "std::_List_const_iterator") {
    auto a = templateArgs(fn.ctx); if (!a.empty() && fn.sctx[5] != ':' ) type = a[0];
    if (fn.sctx.compare(0, 7, "boost::") == 0 && !a.empty()) { type = a[0]; if (type.size() > 6 && type.compare(type.size() - 6, 6, " const") == 0) type.resize(type.size() - 6); }
    else type = "";
    if (type == "void") type = "";
  }
  if ((fn.sctx == "std::_List_iterator" || fn.sctx == "std::_List_const_iterator") && fn.base == "operator++") chain = true;
  if (fn.sctx == "std::__cxx11::list" && fn.base == "begin") chain = true;
  int id = newObj(s, Obj::Lazy, -1, type); Obj &x = w(s, id); x.maybeNull = !chain && fn.sctx != "std::_List_iterator" ;
  if (chain) throw Lost{"a list of unknown origin is traversed (" + o(s, obj).type + ")"};
  if (o(s, obj).type.size()) w(s, id).tags["from"] = Val::P(obj, off);
  return Val::P(id);
}
// the class a pointer found at this place points to, by the declared types
string Engine::pointeeTypeAt(State &s, int obj, i64 off, string *encl) {
  std::function<string(const string &, i64, int)> in = [&](const string &c, i64 k, int d) -> string {
    auto it = layouts.find(c); if (it == layouts.end() || d > 12) return "";
    const Field *best = nullptr; for (auto &f : it->second) if (f.off <= k && (!best || f.off > best->off || (f.off == best->off && best->name[0] == '@'))) best = &f;
    if (!best) return "";
    if (best->off == k && !best->type.empty() && best->type.back() == '*') { string t = best->type; t.pop_back(); if (encl) *encl = stripTemplates(c); return t; }
    for (auto &f : it->second) if (f.off <= k) { string r = in(f.type, k - f.off, d + 1); if (!r.empty()) return r; }
    return ""; };
  const Obj &x = o(s, obj); string r; if (!x.type.empty()) r = in(x.type, off, 0);
  if (r.empty()) for (auto &b : x.subs) if (b.first <= off) { r = in(b.second, off - b.first, 0); if (!r.empty()) break; }
  return r;
}
Val Engine::load(State &s, Val p, int size, bool isPtr, const Instruction *I) {
  p = norm(s, p);
  if (p.k != Val::Ptr) {
    if (p.isInt()) { violation(s, "null-deref", "null pointer dereferenced"); throw Stop(); }
    throw Lost{"load through non-pointer"};
  }
  int id = (int)p.a; const Obj &x = o(s, id);
  if (x.freed) { violation(s, "use-after-free", "freed memory is read"); throw Stop(); }
  auto it = x.cells.find(p.b);
  if (it != x.cells.end() && it->second.size == size) { Val v = norm(s, it->second.v); R->onLoad(s, id, p.b, size, v); return v; }
  if (x.kind == Obj::Global) {
    auto *g = objGlobal[id];
    bool overlap = false; for (auto i = x.cells.lower_bound(p.b - 16); i != x.cells.end() && i->first < p.b + size; ++i) if (i->first + i->second.size > p.b) overlap = true;
    if (!overlap) { Val v; if (readConstCell(g, p.b, size, s, v)) return norm(s, v); return isPtr ? lazyPtr(s, "", true) : freshInt(s, size * 8, I); }
  }
  // overlapping cells: build a composite or give up precision
  vector<pair<i64, Cell>> ov; for (auto i = x.cells.lower_bound(p.b - 64); i != x.cells.end() && i->first < p.b + size; ++i) if (i->first + i->second.size > p.b) ov.push_back(*i);
  if (!ov.empty()) {
    bool inside = true; for (auto &c : ov) if (c.first < p.b || c.first + c.second.size > p.b + size) inside = false;
    if (inside) { Val v; v.k = Val::Agg; v.b = 1; v.agg = make_shared<vector<Val>>(); for (auto &c : ov) { v.agg->push_back(Val::I(c.first - p.b)); v.agg->push_back(Val::I(c.second.size)); v.agg->push_back(c.second.v); } return v; }
    if (ov.size() == 1 && ov[0].second.v.isInt()) { i64 sh = (p.b - ov[0].first) * 8; uint64_t u = (uint64_t)ov[0].second.v.a >> sh; if (size < 8) u &= (1ULL << (size * 8)) - 1; return Val::I((i64)u); }
    return freshInt(s, size * 8, I);
  }
  if (x.kind == Obj::Lazy || x.tags.count("shared")) {
    Val v;
    if (x.kind == Obj::Lazy && isPtr && p.b == 0 && !x.type.empty()) {
      auto cc = concreteClasses(x.type);
      if (!cc.empty() && !x.cb) {
        int k = decide((int)cc.size()); Obj &y = w(s, id); y.type = cc[k];
        // the address point follows the offset to top and the type information
        v = Val::P(globalId(s, vtables[cc[k]]), 16); w(s, id).cells[0] = {8, v}; return v;
      }
    }
    if (R->lazyLoad(s, id, p.b, size, v)) { auto &y = w(s, id); if (!y.cells.count(p.b)) y.cells[p.b] = {size, v}; R->onLoad(s, id, p.b, size, v); return norm(s, v); }
    if (x.kind != Obj::Lazy) return Val();
    v = isPtr ? lazyPtrFor(s, id, p.b, I) : freshInt(s, size * 8, I);
    w(s, id).cells[p.b] = {size, v}; v = norm(s, v); R->onLoad(s, id, p.b, size, v); return v;
  }
  return Val();   // uninitialised
}
void Engine::store(State &s, Val p, int size, Val v, bool quiet) {
  p = norm(s, p);
  if (p.k != Val::Ptr) { if (p.isInt()) { violation(s, "null-deref", "null pointer written through"); throw Stop(); } throw Lost{"store through non-pointer"}; }
  int id = (int)p.a; if (o(s, id).freed) { violation(s, "use-after-free", "freed memory is written"); throw Stop(); }
  v = norm(s, v);
  // both halves of a shared_ptr found lazily are discovered together
  if (size == 8 && (o(s, id).kind == Obj::Lazy || o(s, id).tags.count("shared")) && !o(s, id).cells.count(p.b + 8)) {
    string encl; pointeeTypeAt(s, id, p.b, &encl);
    if (encl == "boost::shared_ptr" || encl == "boost::weak_ptr") { load(s, p, 8, true, nullptr); load(s, Val::P(id, p.b + 8), 8, true, nullptr); }
  }
  if (!quiet) R->onStore(s, id, p.b, size, v);
  if (size == 8 && o(s, id).kind != Obj::Stack) {
    bool own = name(s.stack.back()->fn).sctx == "boost::detail::shared_count", sh = o(s, id).kind == Obj::Lazy || o(s, id).tags.count("shared");
    auto lazyCbOf = [&](Val x) { x = norm(s, x); return x.isPtr() && x.b == 0 && s.objs.count((int)x.a) && o(s, (int)x.a).cb ? (int)x.a : 0; };
    if (sh && o(s, id).strong.count(p.b)) { auto i = o(s, id).cells.find(p.b); if (i != o(s, id).cells.end()) if (int c = lazyCbOf(i->second.v)) { Obj &y = w(s, c); if (y.owners > 0) y.owners--; y.nlocal++; } }
    if (own) { w(s, id).strong.insert(p.b); if (sh) if (int c = lazyCbOf(v)) { Obj &y = w(s, c); y.nlocal--; y.owners++; } }
    else if (o(s, id).strong.count(p.b)) w(s, id).strong.erase(p.b);
  }
  clearRange(s, id, p.b, size);
  if (v.k == Val::Agg && v.b == 1) { for (size_t i = 0; i + 2 < v.agg->size(); i += 3) w(s, id).cells[p.b + (*v.agg)[i].a] = {(int)(*v.agg)[i + 1].a, (*v.agg)[i + 2]}; return; }
  if (v.k == Val::Undef) { if (o(s, id).kind == Obj::Lazy) w(s, id).cells[p.b] = {size, v}; return; }
  w(s, id).cells[p.b] = {size, v};
}
void Engine::copyMem(State &s, Val d, Val src, i64 n) {
  d = norm(s, d); src = norm(s, src);
  if (!d.isPtr() || !src.isPtr()) { if (n == 0) return; throw Lost{"memcpy of non-pointer"}; }
  if (d == src) return;
  vector<pair<i64, Cell>> cs; const Obj &x = o(s, (int)src.a);
  if (x.kind == Obj::Global && objGlobal.count((int)src.a) && x.cells.empty()) {
    // copy of a constant: word by word
    auto *g = objGlobal[(int)src.a]; Val v; for (i64 k = 0; k < n; k += 8) { int sz = std::min<i64>(8, n - k); if (readConstCell(g, src.b + k, sz, s, v)) cs.push_back({k, {sz, v}}); }
  }
  if (x.kind == Obj::Lazy && n <= 16) { // materialise small lazily known values so that both sides agree
    bool any = false; for (auto i = x.cells.lower_bound(src.b); i != x.cells.end() && i->first < src.b + n; ++i) any = true;
    if (!any && n == 8) { Val v = load(s, src, 8, true, nullptr); (void)v; }
  }
  const Obj &x2 = o(s, (int)src.a);
  for (auto i = x2.cells.lower_bound(src.b); i != x2.cells.end() && i->first < src.b + n; ++i) { if (i->first + i->second.size <= src.b + n) cs.push_back({i->first - src.b, i->second}); }
  for (auto &c : cs) R->onLoad(s, (int)src.a, src.b + c.first, c.second.size, c.second.v);
  clearRange(s, (int)d.a, d.b, n);
  for (auto &c : cs) { R->onStore(s, (int)d.a, d.b + c.first, c.second.size, c.second.v); w(s, (int)d.a).cells[d.b + c.first] = c.second; }
}
bool Engine::isNullV(State &s, Val v) {
  v = norm(s, v);
  if (v.isInt()) return v.a == 0;
  if (v.k == Val::Fn) return false;
  if (v.k == Val::Ptr) {
    int id = (int)v.a; const Obj &x = o(s, id);
    if (x.cb && x.pointee) return isNullV(s, Val::P(x.pointee));
    if (!x.maybeNull || v.b != 0) return false;
    if (decide(2) == 0) { w(s, id).maybeNull = false; return false; }
    w(s, id).isNull = true; w(s, id).maybeNull = false; return true;
  }
  if (v.k == Val::Sym) return cmpInt(s, CmpInst::ICMP_EQ, v, Val::I(0), 64);
  throw Lost{"null test of unknown value"};
}
bool Engine::noOtherOwners(State &s, const Obj &c) { return c.countSym == -1 || (c.countSym > 0 && s.syms.count(c.countSym) && s.syms[c.countSym].hi <= 0); }
void Engine::unify(State &s, int from, int to, i64 off) {
  Obj f = o(s, from); if (getenv("S2DUMP")) note(s, "unify " + std::to_string(from) + " into " + std::to_string(to));
  s.alias[from] = {to, off};
  Obj &t = w(s, to);
  if (f.tags.count("chain") && !t.tags.count("chain")) return;     // the end of a list
  if (off == 0) {
    t.maybeNull = t.maybeNull && f.maybeNull; if (f.maybeNull == false) t.maybeNull = false;
    if (t.type.empty()) t.type = f.type;
    for (auto &c : f.cells) { auto it = t.cells.find(c.first); if (it == t.cells.end()) t.cells.insert(c); }
    for (auto &c : f.tags) if (c.first != "cb" && !t.tags.count(c.first)) t.tags.insert(c);
    auto fc = f.tags.find("cb"); 
    if (fc != f.tags.end()) {
      Val a = norm(s, fc->second); auto tc = t.tags.find("cb");
      if (tc == t.tags.end()) { t.tags["cb"] = a; if (a.isPtr()) w(s, (int)a.a).pointee = to; }
      else { Val b = norm(s, tc->second); if (a.isPtr() && b.isPtr() && a.a != b.a) {
          Obj A = o(s, (int)a.a); Obj &B = w(s, (int)b.a);
          auto noOthers = [&](const Obj &c) { return noOtherOwners(s, c); };
          if (noOthers(A) && (B.nlocal > 0 || B.owners > A.owners)) throw Kill();
          if (noOthers(B) && (A.nlocal > 0 || A.owners > B.owners)) throw Kill();
          B.nlocal += A.nlocal; B.owners = std::max(A.owners, B.owners); if (noOthers(A)) B.countSym = -1;
          if (A.alive >= 0 && B.alive >= 0 && A.alive != B.alive) throw Kill();
          if (B.alive < 0) B.alive = A.alive;
          s.alias[(int)a.a] = {(int)b.a, 0};
      } }
    }
    auto fo = f.tags.find("soleOwner"); auto to2 = o(s, to).tags.find("soleOwner"); auto fend = f.tags.end();
    if (fo != fend && to2 != o(s, to).tags.end()) { Val a = norm(s, fo->second), b = norm(s, to2->second); if (a.isPtr() && b.isPtr() && a.a != b.a) { if (s.ne.count({std::min((int)a.a, (int)b.a), std::max((int)a.a, (int)b.a)})) throw Kill(); unify(s, (int)a.a, (int)b.a, 0); } }
  } else if (f.tags.count("chain") == 0 && !f.cells.empty()) { for (auto &c : f.cells) { auto it = w(s, to).cells.find(c.first + off); if (it == w(s, to).cells.end()) w(s, to).cells[c.first + off] = c.second; } }
}
bool Engine::ptrEq(State &s, Val a, Val b) {
  a = norm(s, a); b = norm(s, b);
  if (a.isInt() && b.isInt()) return a.a == b.a;
  if (a.k == Val::Fn || b.k == Val::Fn) { if (a.k == b.k) return a.a == b.a; return false; }
  if (a.isInt()) { if (a.a != 0) return false; return isNullV(s, b); }
  if (b.isInt()) { if (b.a != 0) return false; return isNullV(s, a); }
  if (a.k != Val::Ptr || b.k != Val::Ptr) { if (a.k == Val::Sym || b.k == Val::Sym) return cmpInt(s, CmpInst::ICMP_EQ, a, b, 64); throw Lost{"comparison of unknown pointers"}; }
  if (a.a == b.a) return a.b == b.b;
  const Obj *x = &o(s, (int)a.a), *y = &o(s, (int)b.a);
  if (x->cb && y->cb && a.b == 0 && b.b == 0 && x->pointee && y->pointee) return ptrEq(s, Val::P(x->pointee), Val::P(y->pointee));   // one control block per object
  int lo = (int)std::min(a.a, b.a), hi = (int)std::max(a.a, b.a);
  if (s.ne.count({lo, hi})) return false;
  auto canBe = [&](const Obj &l, Val lv, const Obj &r, Val rv) -> bool {   // l, found lazily, is r+off
    if (l.kind != Obj::Lazy || l.distinct || lv.b != 0) return false;
    bool lc = l.tags.count("chain"), rc = r.tags.count("chain");
    if (lc) {
      // a node of a list, or its end
      auto li = l.tags.find("list"); if (li == l.tags.end()) return r.kind != Obj::Stack && !rc;
      Val L = norm(s, li->second);
      if (rc) { auto ri = r.tags.find("list"); return (l.tags.count("any") || r.tags.count("any")) && ri != r.tags.end() && norm(s, ri->second) == L; }
      return L == rv;
    }
    if (rc) return false;
    if (r.kind != Obj::Lazy) return rv.b > 0 && r.kind == Obj::Heap && !r.tags.count("listobj");
    if (rv.b != 0) return !l.tags.count("listobj") && l.type.empty();
    if (!l.type.empty() && !r.type.empty() && l.type != r.type && !derives(l.type, r.type) && !derives(r.type, l.type)) return false;
    if (l.cb != r.cb && !(l.type.empty() && r.type.empty())) return false;
    return true;
  };
  int from = 0, to = 0; i64 off = 0;
  if (canBe(*x, a, *y, b)) { from = (int)a.a; to = (int)b.a; off = b.b; }
  else if (canBe(*y, b, *x, a)) { from = (int)b.a; to = (int)a.a; off = a.b; }
  else return false;
  // keep the object that is known better
  if (off == 0 && o(s, to).kind == Obj::Lazy && o(s, to).cells.size() < o(s, from).cells.size() && !o(s, to).tags.count("chain") && !o(s, to).tags.count("root")) std::swap(from, to);
  if (decide(2) == 0) { if (off == 0 || o(s, from).tags.count("chain") || true) s.ne.insert({lo, hi}); return false; }
  if (x->maybeNull && y->maybeNull && off == 0) { /* both null is equality as well; keep them merged */ }
  unify(s, from, to, off); return true;
}
bool Engine::knownDistinct(State &s, Val a, Val b) {
  a = norm(s, a); b = norm(s, b); if (a.isInt() && b.isInt()) return a.a != b.a; if (b.isInt()) std::swap(a, b);
  if (a.isInt()) { if (!b.isPtr() || a.a != 0) return false; const Obj &x = o(s, (int)b.a); if (x.isNull || x.maybeNull) return false; return !x.cb || !x.pointee || knownDistinct(s, a, Val::P(x.pointee)); }
  if (!a.isPtr() || !b.isPtr()) return false; if (a.a == b.a) return a.b != b.b;
  const Obj &x = o(s, (int)a.a), &y = o(s, (int)b.a); if (x.cb && y.cb && x.pointee && y.pointee) return knownDistinct(s, Val::P(x.pointee), Val::P(y.pointee));
  return s.ne.count({(int)std::min(a.a, b.a), (int)std::max(a.a, b.a)});
}
static bool isUnsignedPred(CmpInst::Predicate p) { return CmpInst::isUnsigned(p); }
bool Engine::cmpInt(State &s, CmpInst::Predicate p, Val a, Val b, unsigned bits) {
  a = norm(s, a); b = norm(s, b);
  auto mask = [&](i64 x) -> i64 { if (bits >= 64) return x; return x & ((1LL << bits) - 1); };
  auto sext = [&](i64 x) -> i64 { if (bits >= 64) return x; i64 m = x & ((1LL << bits) - 1); if (m >> (bits - 1)) m -= (1LL << bits); return m; };
  if (a.isInt() && b.isInt()) {
    APInt A(std::max(bits, 1u), (uint64_t)mask(a.a)), B(std::max(bits, 1u), (uint64_t)mask(b.a)); (void)sext;
    return ICmpInst::compare(A, B, p);
  }
  if (a.k == Val::Undef || b.k == Val::Undef) { return decide(2) == 1; }
  if (a.k == Val::Agg || b.k == Val::Agg) return decide(2) == 1;
  if (a.isPtr() || b.isPtr() || a.k == Val::Fn || b.k == Val::Fn) {
    if (p == CmpInst::ICMP_EQ) return ptrEq(s, a, b);
    if (p == CmpInst::ICMP_NE) return !ptrEq(s, a, b);
    if (a.isPtr() && b.isPtr() && a.a == b.a) { APInt A(64, a.b), B(64, b.b); return ICmpInst::compare(A, B, isUnsignedPred(p) ? ICmpInst::getSignedPredicate(p) : p); }   // (positions in one object: one before its begin comes before it)
    // the order of addresses: null first, otherwise any, but the same each time
    auto isP = [](const Val &v) { return v.isPtr() || v.isInt(0); };
    if (isP(a) && isP(b)) {
      bool an = isNullV(s, a), bn = isNullV(s, b); int c; a = norm(s, a); b = norm(s, b);
      if (an || bn) c = an && bn ? 0 : an ? -1 : 1;
      else if (ptrEq(s, a, b)) c = 0;
      else {
        a = norm(s, a); b = norm(s, b); auto below = [&](const Val &x, const Val &y) { auto &t = o(s, (int)x.a).tags; auto i = t.find("below"); return i != t.end() && norm(s, i->second).isPtr() && norm(s, i->second).a == y.a; };
        if (below(a, b)) c = -1; else if (below(b, a)) c = 1; else if (decide(2)) { c = -1; w(s, (int)a.a).tags["below"] = Val::P(b.a); } else { c = 1; w(s, (int)b.a).tags["below"] = Val::P(a.a); }
      }
      APInt A(64, c + 1), B(64, 1); return ICmpInst::compare(A, B, p);
    }
    return decide(2) == 1;
  }
  auto sizeOf = [&](const Val &v) { if (v.k != Val::Sym || v.b) return 0; auto i = s.syms.find((int)v.a); return i == s.syms.end() || !i->second.vec || !s.objs.count(i->second.vec) ? 0 : i->second.vec; };
  if (int vb = sizeOf(b)) { int c = R->cmpIndex(s, vb, a); if (c <= 0) { APInt A(64, c + 1), B(64, 1); return ICmpInst::compare(A, B, p); } }
  else if (int va = sizeOf(a)) { int c = R->cmpIndex(s, va, b); if (c <= 0) { APInt A(64, 1), B(64, c + 1); return ICmpInst::compare(A, B, p); } }
  if (a.k == Val::Sym && b.k == Val::Sym && a.a == b.a) { APInt A(64, a.b), B(64, b.b); return ICmpInst::compare(A, B, CmpInst::isSigned(p) || CmpInst::isEquality(p) ? p : ICmpInst::getSignedPredicate(p)); }
  if (relate && a.k == Val::Sym && b.k == Val::Sym && !CmpInst::isEquality(p)) {      // which one is greater is remembered
    switch (p) { case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: std::swap(a, b); p = CmpInst::getSwappedPredicate(p); break; default: break; }
    bool ge = p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_UGE; i64 d = b.b - a.b; bool lt;          // a < b  iff  A - B <= d - 1
    auto known = [&](i64 x, i64 y, i64 &k) { auto i = s.le.find({(int)x, (int)y}); if (i == s.le.end()) return false; k = i->second; return true; }; i64 k;
    auto &ya = s.syms[(int)a.a], &yb = s.syms[(int)b.a];
    if (ya.hi + a.b < yb.lo + b.b) lt = true; else if (ya.lo + a.b >= yb.hi + b.b) lt = false;
    else if (known(a.a, b.a, k) && k <= d - 1) lt = true; else if (known(b.a, a.a, k) && -k >= d) lt = false;
    else { lt = decide(2) == 1; if (lt) s.le[{(int)a.a, (int)b.a}] = d - 1; else s.le[{(int)b.a, (int)a.a}] = -d; }
    return ge ? !lt : lt;
  }
  if (b.k == Val::Sym && a.isInt()) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
  // a is a symbol
  auto rng = [&](Val v, i64 &lo, i64 &hi) { if (v.isInt()) lo = hi = v.a; else { auto &y = s.syms[(int)v.a]; lo = y.lo + v.b; hi = y.hi + v.b; } };
  i64 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh);
  if (b.isInt() && isUnsignedPred(p) && b.a < 0 && bits < 64) { bl = bh = mask(b.a); b = Val::I(bl); }
  bool refine = b.isInt() && a.k == Val::Sym;
  CmpInst::Predicate q = p;
  if (isUnsignedPred(p)) { if (al >= 0 && bl >= 0) q = ICmpInst::getSignedPredicate(p); else return decide(2) == 1; }
  auto setLo = [&](i64 v) { auto &y = s.syms[(int)a.a]; y.lo = std::max(y.lo, v - a.b); if (y.lo > y.hi) throw Kill(); };
  auto setHi = [&](i64 v) { auto &y = s.syms[(int)a.a]; y.hi = std::min(y.hi, v - a.b); if (y.lo > y.hi) throw Kill(); };
  switch (q) {
    case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
      bool eq; if (ah < bl || bh < al) eq = false; else { eq = decide(2) == 1; if (refine) { if (eq) { setLo(b.a); setHi(b.a); } else { if (b.a == al) setLo(al + 1); else if (b.a == ah) setHi(ah - 1); } } }
      return q == CmpInst::ICMP_EQ ? eq : !eq; }
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_SGE: {
      bool lt; if (ah < bl) lt = true; else if (al >= bh) lt = false; else { lt = decide(2) == 1; if (refine) { if (lt) setHi(b.a - 1); else setLo(b.a); } }
      return q == CmpInst::ICMP_SLT ? lt : !lt; }
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_SLE: {
      bool gt; if (al > bh) gt = true; else if (ah <= bl) gt = false; else { gt = decide(2) == 1; if (refine) { if (gt) setLo(b.a + 1); else setHi(b.a); } }
      return q == CmpInst::ICMP_SGT ? gt : !gt; }
    default: return decide(2) == 1;
  }
}
i64 Engine::concrete(State &s, Val v) {
  v = norm(s, v);
  if (v.isInt()) return v.a;
  if (v.k == Val::Sym) { auto &y = s.syms[(int)v.a]; if (y.hi - y.lo > 16) throw Lost{"unknown number needed"}; int k = decide((int)(y.hi - y.lo + 1)); i64 x = y.lo + k; s.syms[(int)v.a].lo = s.syms[(int)v.a].hi = x; return x + v.b; }
  if (v.k == Val::Undef) return decide(2);
  if (v.isPtr()) return isNullV(s, v) ? 0 : 1;
  throw Lost{"number expected"};
}

// ---------------------------------------------------------------- evaluation
Val Engine::evalConst(State &s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return Val(); if (ci->getBitWidth() == 1) return Val::I(ci->getZExtValue()); return Val::I(ci->getSExtValue()); }
  if (isa<ConstantPointerNull>(c)) return Val::I(0);
  if (isa<UndefValue>(c)) return Val();
  if (isa<ConstantTokenNone>(c)) return Val();
  if (auto *f = dyn_cast<Function>(c)) return Val::F(f);
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConst(s, a->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::P(globalId(s, g));
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) throw Lost{"constant gep"}; Val b = evalConst(s, cast<Constant>(gep->getPointerOperand())); if (b.isPtr()) b.b += off.getSExtValue(); else if (b.isInt()) b.a += off.getSExtValue(); return b; }
    switch (ce->getOpcode()) { case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return evalConst(s, ce->getOperand(0)); case Instruction::Sub: { Val a = evalConst(s, ce->getOperand(0)), b = evalConst(s, ce->getOperand(1)); if (a.isInt() && b.isInt()) return Val::I(a.a - b.a); return Val(); } default: return Val(); }
  }
  if (isa<ConstantFP>(c)) return Val();
  if (c->getType()->isAggregateType()) {
    Val v; v.k = Val::Agg; v.agg = make_shared<vector<Val>>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(evalConst(s, c->getAggregateElement(i))); return v;
  }
  return Val();
}
Val Engine::eval(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return evalConst(s, c);
  if (isa<MetadataAsValue>(v)) return Val();
  auto &r = s.stack.back()->regs; auto it = r.find(ord[v]); if (it == r.end()) return Val();
  return norm(s, it->second);
}
void Engine::setReg(State &s, const Value *v, Val x) { if (v->getType()->isVoidTy()) return; top(s).regs[ord[v]] = x; }

// ---------------------------------------------------------------- control
void Engine::enterBlock(State &s, const BasicBlock *to) {
  Frame &f = top(s); const BasicBlock *from = f.bb;
  vector<pair<int, Val>> ph; 
  for (auto &p : to->phis()) ph.push_back({ord[&p], eval(s, p.getIncomingValueForBlock(from))});
  f.bb = to; f.it = to->getFirstNonPHI()->getIterator();
  auto &live = liveIn[to];
  for (auto it = f.regs.begin(); it != f.regs.end();) { if (!live.count(it->first)) it = f.regs.erase(it); else ++it; }
  for (auto &p : ph) f.regs[p.first] = p.second;
}
void Engine::pushFrame(State &s, const Function *f, const vector<Val> &args, const CallBase *cs) {
  prepare(f);
  if ((int)s.stack.size() > maxDepth) throw Lost{"call depth"};
  if (!s.stack.empty() && cs) { auto &live = liveAfter(cs); Frame &c = top(s); for (auto it = c.regs.begin(); it != c.regs.end();) { bool keep = live.count(it->first); if (!keep) it = c.regs.erase(it); else ++it; } }
  auto fr = make_shared<Frame>(); fr->fn = f; fr->bb = &f->getEntryBlock(); fr->it = fr->bb->begin(); fr->callsite = cs;
  unsigned i = 0; 
  s.stack.push_back(fr);
  for (auto &a : f->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (a.hasByValAttr()) { i64 n = DL->getTypeAllocSize(a.getParamByValType()); int id = newObj(s, Obj::Stack, n); copyMem(s, Val::P(id), v, n); v = Val::P(id); }
    fr->regs[ord[&a]] = v; i++;
  }
  string fl; if (auto *sp = f->getSubprogram()) fl = sp->getFilename().str();
  if (fl.find(repoMark) != string::npos) fnsAnalysed.insert(name(f).full);
  R->onEnter(s, f);
}
void Engine::afterCall(State &s, const CallBase *cb, Val v) {
  if (!cb->getType()->isVoidTy()) setReg(s, cb, v);
  if (auto *iv = dyn_cast<InvokeInst>(cb)) enterBlock(s, iv->getNormalDest()); else ++top(s).it;
}
void Engine::doReturn(State &s, Val v) {
  auto fr = s.stack.back(); const CallBase *cs = fr->callsite; const Function *f = fr->fn;
  for (int id : fr->stackObjs) { auto it = s.objs.find(id); if (it != s.objs.end()) { R->onFree(s, id); w(s, id).freed = true; } }
  R->onLeave(s, f); s.stack.pop_back();
  if (s.stack.empty()) { s.gh["ret"] = v; nExits++; R->onExit(s, false); return; }
  (void)f; afterCall(s, cs, v);
}
void Engine::throwExc(State &s, const string &type, Val obj) {
  if (s.inflight) s.suspended.push_back(*s.inflight);
  s.inflight = make_shared<Exc>(); s.inflight->type = type; s.inflight->obj = obj;
  unwind(s);
}
void Engine::unwind(State &s) {
  // the current instruction of the innermost frame is the one that throws
  for (;;) {
    if (s.stack.empty()) { nExits++; R->onExit(s, true); return; }
    Frame &f = top(s); const Instruction *I = &*f.it;
    if (auto *iv = dyn_cast<InvokeInst>(I)) { enterBlock(s, iv->getUnwindDest()); return; }
    if (auto *cb = dyn_cast<CallBase>(I)) if (cb->doesNotThrow() && cb->getCalledFunction() && s.stack.size() > 0 && f.callsite && false) {}
    if (f.fn->doesNotThrow()) { R->onTerminate(s, "an exception leaves a function that must not throw"); throw Stop(); }
    for (int id : f.stackObjs) { auto it = s.objs.find(id); if (it != s.objs.end()) w(s, id).freed = true; }
    R->onLeave(s, f.fn); s.stack.pop_back();
  }
}
static string tiName(const Value *v) { v = v->stripPointerCasts(); if (auto *g = dyn_cast<GlobalVariable>(v)) { string d = demangle(g->getName().str()); if (d.compare(0, 13, "typeinfo for ") == 0) return d.substr(13); } return ""; }
int Engine::typeidSel(const string &t) { for (size_t i = 0; i < selTypes.size(); i++) if (selTypes[i] == t) return (int)i + 1; selTypes.push_back(t); return (int)selTypes.size(); }

bool Engine::quick(State &s, const Instruction *I) {
  switch (I->getOpcode()) {
    case Instruction::Alloca: case Instruction::GetElementPtr: case Instruction::BitCast: case Instruction::ZExt: case Instruction::SExt: case Instruction::Unreachable:
    case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Fence: case Instruction::LandingPad: case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::Trunc: case Instruction::Freeze: return true;
    case Instruction::Ret: return s.stack.size() > 1;
    case Instruction::Br: { auto *b = cast<BranchInst>(I); return b->isUnconditional() || eval(s, b->getCondition()).isInt(); }
    case Instruction::ICmp: { Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1)); return a.isInt() && b.isInt(); }
    case Instruction::Load: { Val p = eval(s, I->getOperand(0)); if (!p.isPtr() || !s.objs.count((int)p.a)) return false; auto &x = o(s, (int)p.a); return x.kind == Obj::Stack; }
    case Instruction::Call: {
      auto *cb = cast<CallBase>(I); auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()); if (!f) return false;
      if (f->isIntrinsic()) { switch (f->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_label: return true; default: return false; } }
      return false; }
    default: return false;
  }
}
static string vs(const Val &v) { switch (v.k) { case Val::Undef: return "?"; case Val::Int: return std::to_string(v.a); case Val::Ptr: return "&" + std::to_string(v.a) + (v.b ? "+" + std::to_string(v.b) : ""); case Val::Fn: return "fn"; case Val::Sym: return "s" + std::to_string(v.a) + "+" + std::to_string(v.b); case Val::Agg: { string r = "{"; for (auto &x : *v.agg) r += vs(x) + ","; return r + "}"; } } return ""; }
void Engine::dump(State &s) {
  vector<string> tr; for (auto t = s.trace; t && tr.size() < 400; t = t->prev) tr.push_back(t->what); for (size_t i = tr.size(); i-- > 0;) fprintf(stderr, "  * %s\n", tr[i].c_str());
  for (auto &f : s.stack) { fprintf(stderr, "  frame %s @ %s:", name(f->fn).full.substr(0, 100).c_str(), f->it != f->bb->end() ? loc(&*f->it).c_str() : ""); for (auto &r : f->regs) fprintf(stderr, " %d=%s", r.first, vs(r.second).c_str()); fprintf(stderr, "\n"); }
  for (auto &p : s.objs) { auto &x = *p.second; fprintf(stderr, "  obj %d kind %d%s%s%s%s %s", p.first, x.kind, x.freed ? " freed" : "", x.maybeNull ? " maybenull" : "", x.isNull ? " null" : "", x.distinct ? " distinct" : "", x.type.substr(0, 60).c_str()); if (x.cb) fprintf(stderr, " cb nlocal %d owners %d pointee %d others %d alive %d", x.nlocal, x.owners, x.pointee, x.countSym, x.alive); for (auto &c : x.cells) fprintf(stderr, " [%ld/%d]=%s", (long)c.first, c.second.size, vs(c.second.v).c_str()); for (auto &b : x.subs) fprintf(stderr, " <%ld:%s>", (long)b.first, stripTemplates(b.second).c_str()); for (auto &t : x.tags) fprintf(stderr, " ~%s=%s", t.first.c_str(), vs(t.second).c_str()); fprintf(stderr, "\n"); }
  for (auto &a : s.alias) fprintf(stderr, "  alias %d -> %d+%ld\n", a.first, a.second.first, (long)a.second.second);
  for (auto &g : s.gh) fprintf(stderr, "  gh %s = %s\n", g.first.c_str(), vs(g.second).c_str());
}
void Engine::step(State s0) {
  // runs one state until it forks, is a duplicate, or ends
  State s = std::move(s0);
  for (;;) {
    if (s.stack.empty()) return;
    if (nowSec() - t0 > maxSeconds) { timedOut = true; return; }
    const Instruction *I = &*s.stack.back()->it;
    nSteps++;
    const BasicBlock *bb0 = s.stack.back()->bb; size_t d0 = s.stack.size();
    try {
      if (quick(s, I)) { choices.clear(); choicePos = 0; pending.clear(); pendingOb.clear(); try { execOne(s); } catch (Stop &) { commit(); return; } commit(); }
      else {
        State pre = s; vector<vector<int>> todo{{}}; vector<State> out;
        while (!todo.empty()) {
          vector<int> pfx = todo.back(); todo.pop_back();
          State t = pre; choices = pfx; choicePos = 0;
          pending.clear(); pendingOb.clear();
          try { execOne(t); commit(); out.push_back(std::move(t)); }
          catch (Stop &) { commit(); }
          catch (Fork &f) { nForks++; for (int k = f.n - 1; k >= 0; k--) { auto q = pfx; q.push_back(k); todo.push_back(q); } }
          catch (Kill &) {}
        }
        if (out.empty()) return;
        if (out.size() > 1) for (auto &x : out) x.credit = checkCredit;
        for (size_t i = 1; i < out.size(); i++) {
          if (out[i].stack.empty()) continue;
          work.push_back(std::move(out[i]));
        }
        s = std::move(out[0]);
        if (s.stack.empty()) return;
      }
    } catch (Kill &) { return; }
    catch (std::exception &x) { string m = string("internal: ") + x.what() + " at " + loc(I) + " in " + name(I->getFunction()).full.substr(0, 160); if (lost.size() < 50) lost.push_back(m); return; }
    catch (Lost &l) { string m = l.why + " at " + loc(I) + " in " + name(I->getFunction()).full.substr(0, 160); if (lost.size() < 50 && std::find(lost.begin(), lost.end(), m) == lost.end()) { lost.push_back(m); if (verbose) { fprintf(stderr, "LOST %s\n", m.c_str()); dump(s); } } return; }
    if (s.stack.empty()) return;
    auto &f = *s.stack.back();
    if (f.bb != bb0 || s.stack.size() != d0) {
      bool atHead = &*f.it == f.bb->getFirstNonPHI();
      bool join = s.stack.size() == d0 && atHead && joinBB.count(f.bb), head = join && loopHead.count(f.bb);
      if (head) { if (checkVisited(s, 1)) return; }
      else if ((join || s.stack.size() < d0) && s.credit > 0) { s.credit--; if (checkVisited(s, 0)) return; }
    }
  }
}
void Engine::run(const Function *f) {
  entry = name(f).base; prepare(f);
  State s; vector<Val> args; 
  auto fr = make_shared<Frame>(); 
  for (auto &a : f->args()) {
    Val v;
    if (a.getType()->isPointerTy()) {
      string t; if (a.hasStructRetAttr()) { int id = newObj(s, Obj::Stack, DL->getTypeAllocSize(a.getParamStructRetType())); v = Val::P(id); w(s, id).tags["sret"] = Val::I(1); }
      else { string at; if (auto *sp = f->getSubprogram()) if (auto *st = sp->getType()) { auto ta = st->getTypeArray(); unsigned k = a.getArgNo() + (f->arg_size() && f->getArg(0)->hasStructRetAttr() ? 0 : 1); if (k < ta.size()) { at = ditype(ta[k]); while (!at.empty() && (at.back() == '&' || at.back() == '*')) at.pop_back(); if (!layouts.count(at)) at.clear(); } }
        v = lazyPtr(s, at, false); w(s, (int)v.a).tags["arg"] = Val::I(a.getArgNo()); }
    } else if (a.getType()->isIntegerTy()) v = freshInt(s, a.getType()->getIntegerBitWidth());
    args.push_back(v);
  }
  t0 = nowSec(); 
  pushFrame(s, f, args, nullptr); R->onStart(s);
  work.push_back(s);
  while (!work.empty()) {
    if (timedOut) { lost.push_back("time limit in " + entry); break; }
    if (nStates > maxStates) { lost.push_back("state limit in " + entry); break; }
    State t = std::move(work.back()); work.pop_back(); step(std::move(t));
  }
  if (verbose) {
    vector<pair<long, const Instruction *>> v; for (auto &p : samples) v.push_back({p.second.first, p.first}); std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 12; i++) { auto &sm = samples[v[i].second].second; set<string> u(sm.begin(), sm.end()); fprintf(stderr, "STATES %ld (%zu distinct of %zu sampled) at %s %s\n", v[i].first, u.size(), sm.size(), loc(v[i].second).c_str(), name(v[i].second->getFunction()).full.substr(0, 120).c_str()); }
    if (getenv("S2SHAPE") && !v.empty()) { size_t k = atoi(getenv("S2SHAPE")); auto &sm = samples[v[k].second].second; set<string> u(sm.begin(), sm.end()); int n = 0; for (auto &x : u) { fprintf(stderr, "SHAPE\n%s\n", x.c_str()); if (++n > 200) break; } }
  }
  idleCycles();
  work.clear(); visited.clear(); nodeAt.clear(); idle.clear(); shapes.clear(); seenAt.clear(); unequal.clear();
}

// ---------------------------------------------------------------- instructions
// an access to an object made by the operation lies inside it, at an address it may be made at
void Engine::inBounds(State &s, Val p, i64 size, i64 align) {
  p = norm(s, p); if (!p.isPtr() || !s.objs.count((int)p.a)) return; const Obj &x = o(s, (int)p.a); if (x.freed || x.size < 0 || x.kind == Obj::Lazy || x.kind == Obj::Global || x.type.substr(0, 1) == "@") return;
  bool raw = x.tags.count("alloc"); if (!raw && x.kind != Obj::Stack) return;
  obligation(s, "bounds");
  if (p.b < 0 || p.b + size > x.size) { violation(s, "out-of-bounds", "memory outside an object is accessed"); throw Stop(); }
  i64 base = 16; if (x.kind == Obj::Stack) { auto *A = dyn_cast_or_null<AllocaInst>(x.site); base = A ? (i64)A->getAlign().value() : 1; }
  if (align <= base && p.b % align) violation(s, "misaligned", "an object lies at an address it may not lie at");
}
void Engine::execOne(State &s) {
  const Instruction *I = &*s.stack.back()->it;
  auto next = [&] { ++top(s).it; };
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I); i64 n = DL->getTypeAllocSize(A->getAllocatedType()); int id = newObj(s, Obj::Stack, n); w(s, id).site = A; w(s, id).distinct = true;
      top(s).stackObjs.push_back(id); setReg(s, I, Val::P(id)); next(); return; }
    case Instruction::Load: {
      Val p = eval(s, I->getOperand(0)); int sz = (int)DL->getTypeStoreSize(I->getType()); Val v; inBounds(s, p, sz, (i64)cast<LoadInst>(I)->getAlign().value());
      if (I->getType()->isAggregateType()) {
        v.k = Val::Agg; v.agg = make_shared<vector<Val>>(); auto *st = cast<StructType>(I->getType()); auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = norm(s, p); q.b += sl->getElementOffset(i); v.agg->push_back(load(s, q, (int)DL->getTypeStoreSize(st->getElementType(i)), st->getElementType(i)->isPointerTy(), I)); }
      } else v = load(s, p, sz, I->getType()->isPointerTy(), I);
      if (v.k == Val::Agg && v.b == 1 && (*v.agg).size() == 3 && (*v.agg)[0].a == 0 ) v = (*v.agg)[2];
      setReg(s, I, v); next(); return; }
    case Instruction::Store: {
      auto *S = cast<StoreInst>(I); Val v = eval(s, S->getValueOperand()), p = eval(s, S->getPointerOperand()); inBounds(s, p, (i64)DL->getTypeStoreSize(S->getValueOperand()->getType()), (i64)S->getAlign().value());
      if (v.k == Val::Agg && v.b == 0) { auto *st = dyn_cast<StructType>(S->getValueOperand()->getType()); if (st) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = norm(s, p); q.b += sl->getElementOffset(i); store(s, q, (int)DL->getTypeStoreSize(st->getElementType(i)), (*v.agg)[i]); } next(); return; } }
      store(s, p, (int)DL->getTypeStoreSize(S->getValueOperand()->getType()), v); next(); return; }
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I); Val b = eval(s, G->getPointerOperand()); APInt off(64, 0);
      MapVector<Value *, APInt> var; unsigned w_ = 64;
      if (!cast<GEPOperator>(G)->collectOffset(*DL, w_, var, off)) throw Lost{"gep"};
      i64 add = off.getSExtValue(); bool unknown = false;
      for (auto &p : var) { Val x = eval(s, p.first); if (x.isInt()) add += x.a * p.second.getSExtValue(); else unknown = true; }
      if (unknown) { setReg(s, I, lazyPtr(s, "", false)); next(); return; }
      if (b.isPtr()) b.b += add; else if (b.isInt()) b.a += add; 
      setReg(s, I, b); next(); return; }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Freeze: setReg(s, I, eval(s, I->getOperand(0))); next(); return;
    case Instruction::ZExt: { Val v = eval(s, I->getOperand(0)); unsigned b = I->getOperand(0)->getType()->getIntegerBitWidth(); if (v.isInt() && b < 64) v.a &= (1LL << b) - 1; else if (v.k == Val::Sym) { auto &y = s.syms[(int)v.a]; if (y.lo + v.b < 0) v = Val::S(newSym(s, 0, b >= 63 ? INT64_MAX / 4 : (1LL << b) - 1, 64)); } setReg(s, I, v); next(); return; }
    case Instruction::SExt: { Val v = eval(s, I->getOperand(0)); unsigned b = I->getOperand(0)->getType()->getIntegerBitWidth(); if (v.isInt() && b < 64) { i64 m = v.a & ((1LL << b) - 1); if (m >> (b - 1)) m -= 1LL << b; v.a = m; } setReg(s, I, v); next(); return; }
    case Instruction::Trunc: { Val v = eval(s, I->getOperand(0)); unsigned b = I->getType()->getIntegerBitWidth(); if (v.isInt()) { if (b < 64) { v.a &= (1LL << b) - 1; if (b > 1 && (v.a >> (b - 1))) v.a -= 1LL << b; } } else if (v.k == Val::Sym) { auto &y = s.syms[(int)v.a]; i64 hi = b >= 63 ? INT64_MAX / 4 : (1LL << b) - 1; if (y.lo + v.b < -(hi / 2 + 1) || y.hi + v.b > hi) v = freshInt(s, b); } setReg(s, I, v); next(); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1)); unsigned bits = I->getType()->getIntegerBitWidth(); Val r;
      unsigned op = I->getOpcode();
      if (bits == 1) { if (!a.isInt()) a = Val::I(concrete(s, a)); if (!b.isInt()) b = Val::I(concrete(s, b)); }
      if (a.isInt() && b.isInt()) {
        uint64_t m = bits >= 64 ? ~0ULL : (1ULL << bits) - 1; uint64_t x = (uint64_t)a.a & m, y = (uint64_t)b.a & m; APInt A(bits, x), B(bits, y), C(bits, 0);
        switch (op) { case Instruction::Add: C = A + B; break; case Instruction::Sub: C = A - B; break; case Instruction::Mul: C = A * B; break; case Instruction::And: C = A & B; break; case Instruction::Or: C = A | B; break; case Instruction::Xor: C = A ^ B; break; case Instruction::Shl: C = A.shl(B); break; case Instruction::LShr: C = A.lshr(B); break; case Instruction::AShr: C = A.ashr(B); break;
          default: if (y == 0) throw Kill(); C = op == Instruction::UDiv ? A.udiv(B) : op == Instruction::SDiv ? A.sdiv(B) : op == Instruction::URem ? A.urem(B) : A.srem(B); }
        r = Val::I(bits == 1 ? (i64)C.getZExtValue() : C.getSExtValue());
      } else if (op == Instruction::Add && b.isInt() && (a.k == Val::Sym || a.isPtr())) { r = a; r.b += b.a; }
      else if (op == Instruction::Add && a.isInt() && (b.k == Val::Sym || b.isPtr())) { r = b; r.b += a.a; }
      else if (op == Instruction::Sub && b.isInt() && (a.k == Val::Sym || a.isPtr())) { r = a; r.b -= b.a; }
      else if (op == Instruction::Sub && a.k == b.k && a.a == b.a && (a.k == Val::Sym || a.isPtr())) r = Val::I(a.b - b.b);
      else if (op == Instruction::Xor && b.isInt(-1) && a.k == Val::Sym) { auto &y = s.syms[(int)a.a]; r = Val::S(newSym(s, -(y.hi + a.b) - 1, -(y.lo + a.b) - 1, bits)); if (y.hi - y.lo < 8) { i64 c = concrete(s, a); r = Val::I(~c); } }
      else if (op == Instruction::And && b.isInt() && b.a == 1 && a.k == Val::Fn) r = Val::I(0);      // pointer to member: not virtual
      else if (op == Instruction::And && b.isInt() && a.isPtr() && (b.a == 1 || b.a == 7 || b.a == 3)) r = Val::I((a.b) & b.a);
      else { 
        if ((a.k == Val::Sym && s.syms[(int)a.a].hi - s.syms[(int)a.a].lo < 4) || (b.k == Val::Sym && s.syms[(int)b.a].hi - s.syms[(int)b.a].lo < 4)) { if (a.k == Val::Sym && s.syms[(int)a.a].hi - s.syms[(int)a.a].lo < 4) { concrete(s, a); return execOne(s); } concrete(s, b); return execOne(s); }
        r = freshInt(s, bits); if (op == Instruction::UDiv || op == Instruction::LShr || op == Instruction::URem) s.syms[(int)r.a].lo = 0; }
      setReg(s, I, r); next(); return; }
    case Instruction::ICmp: {
      auto *C = cast<ICmpInst>(I); Val a = eval(s, C->getOperand(0)), b = eval(s, C->getOperand(1)); unsigned bits = C->getOperand(0)->getType()->isPointerTy() ? 64 : C->getOperand(0)->getType()->getIntegerBitWidth();
      setReg(s, I, Val::I(cmpInt(s, C->getPredicate(), a, b, bits) ? 1 : 0)); next(); return; }
    case Instruction::Select: {
      Val c = eval(s, I->getOperand(0)); i64 x = concrete(s, c); setReg(s, I, eval(s, I->getOperand(x ? 1 : 2))); next(); return; }
    case Instruction::Br: {
      auto *B = cast<BranchInst>(I); if (B->isUnconditional()) { enterBlock(s, B->getSuccessor(0)); return; }
      i64 x = concrete(s, eval(s, B->getCondition())); enterBlock(s, B->getSuccessor(x & 1 ? 0 : 1)); return; }
    case Instruction::Switch: {
      auto *W = cast<SwitchInst>(I); Val v = eval(s, W->getCondition()); unsigned bits = W->getCondition()->getType()->getIntegerBitWidth();
      for (auto &c : W->cases()) if (cmpInt(s, CmpInst::ICMP_EQ, v, Val::I(c.getCaseValue()->getSExtValue()), bits)) { enterBlock(s, c.getCaseSuccessor()); return; } else v = norm(s, v);
      enterBlock(s, W->getDefaultDest()); return; }
    case Instruction::Ret: {
      Val v; if (I->getNumOperands()) v = eval(s, I->getOperand(0)); doReturn(s, v); return; }
    case Instruction::Unreachable: throw Kill();
    case Instruction::ExtractValue: {
      auto *E = cast<ExtractValueInst>(I); Val v = eval(s, E->getAggregateOperand()); for (unsigned i : E->indices()) { if (v.k != Val::Agg) { v = Val(); break; } Val t = v.agg->at(i); v = t; } setReg(s, I, norm(s, v)); next(); return; }
    case Instruction::InsertValue: {
      auto *E = cast<InsertValueInst>(I); Val v = eval(s, E->getAggregateOperand()); unsigned n = E->getType()->isStructTy() ? E->getType()->getStructNumElements() : E->getType()->getArrayNumElements(); auto nv = v.k == Val::Agg ? make_shared<vector<Val>>(*v.agg) : make_shared<vector<Val>>(n);
      if (E->getNumIndices() != 1) throw Lost{"insertvalue"}; (*nv)[*E->idx_begin()] = eval(s, E->getInsertedValueOperand()); Val r; r.k = Val::Agg; r.agg = nv; setReg(s, I, r); next(); return; }
    case Instruction::AtomicRMW: {
      auto *A = cast<AtomicRMWInst>(I); Val p = eval(s, A->getPointerOperand()), x = eval(s, A->getValOperand()); int sz = (int)DL->getTypeStoreSize(A->getType()); Val old = load(s, p, sz, A->getType()->isPointerTy(), I); Val nv = freshInt(s, sz * 8);
      if (x.isInt() && (old.isInt() || old.k == Val::Sym)) { Val t = old; i64 d = A->getOperation() == AtomicRMWInst::Add ? x.a : A->getOperation() == AtomicRMWInst::Sub ? -x.a : 0; if (A->getOperation() == AtomicRMWInst::Xchg) t = x; else if (A->getOperation() == AtomicRMWInst::Add || A->getOperation() == AtomicRMWInst::Sub) { if (t.isInt()) t.a += d; else t.b += d; } else t = nv; nv = t; }
      store(s, p, sz, nv); setReg(s, I, old); next(); return; }
    case Instruction::AtomicCmpXchg: {
      auto *A = cast<AtomicCmpXchgInst>(I); Val p = eval(s, A->getPointerOperand()), c = eval(s, A->getCompareOperand()), n = eval(s, A->getNewValOperand()); int sz = (int)DL->getTypeStoreSize(A->getNewValOperand()->getType());
      Val old = load(s, p, sz, false, I); bool eq = cmpInt(s, CmpInst::ICMP_EQ, old, c, sz * 8); if (eq) store(s, p, sz, n);
      Val r; r.k = Val::Agg; r.agg = make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val::I(eq)); setReg(s, I, r); next(); return; }
    case Instruction::Fence: next(); return;
    case Instruction::LandingPad: {
      auto *L = cast<LandingPadInst>(I); if (!s.inflight) throw Lost{"landingpad without exception"};
      int sel = 0; bool enter = L->isCleanup();
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isFilter(i)) { auto *arr = L->getClause(i); (void)arr; R->onTerminate(s, "exception specification violated"); throw Stop(); }
        auto *cl = L->getClause(i);
        if (isa<ConstantPointerNull>(cl)) { sel = typeidSel(""); enter = true; break; }
        string t = tiName(cl); if (derives(s.inflight->type, t)) { sel = typeidSel(t); enter = true; break; }
      }
      if (!enter) { top(s); unwindPad: Frame &f = top(s); (void)f; // no clause matches: continue unwinding in the caller
        for (int id : f.stackObjs) { auto it = s.objs.find(id); if (it != s.objs.end()) w(s, id).freed = true; }
        if (f.fn->doesNotThrow()) { R->onTerminate(s, "an exception leaves a function that must not throw"); throw Stop(); }
        s.stack.pop_back(); unwind(s); return; if (0) goto unwindPad; }
      Val r; r.k = Val::Agg; r.agg = make_shared<vector<Val>>(); r.agg->push_back(s.inflight->obj); r.agg->push_back(Val::I(sel)); setReg(s, I, r); next(); return; }
    case Instruction::Resume: {
      Frame &f = top(s); for (int id : f.stackObjs) { auto it = s.objs.find(id); if (it != s.objs.end()) w(s, id).freed = true; }
      { Val r = eval(s, I->getOperand(0)); if (r.k == Val::Agg && r.agg && !r.agg->empty()) { Val ob = norm(s, (*r.agg)[0]);
          if (!s.inflight || !(norm(s, s.inflight->obj) == ob)) for (size_t i = s.suspended.size(); i-- > 0;) if (norm(s, s.suspended[i].obj) == ob) { s.inflight = make_shared<Exc>(s.suspended[i]); s.suspended.resize(i); break; } } }
      if (!s.inflight) throw Lost{"resume without exception"};
      if (f.fn->doesNotThrow()) { R->onTerminate(s, "an exception leaves a function that must not throw"); throw Stop(); }
      s.stack.pop_back(); unwind(s); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    default: throw Lost{string("instruction ") + I->getOpcodeName()};
  }
}

void Engine::doCall(State &s, const CallBase *cb) {
  const Function *f = nullptr; 
  if (cb->isInlineAsm()) { afterCall(s, cb, Val()); return; }
  Val fv = eval(s, cb->getCalledOperand()->stripPointerCastsAndAliases());
  if (fv.k == Val::Fn) f = (const Function *)fv.a;
  else if (fv.isInt(0)) { violation(s, "null-deref", "null function called"); throw Stop(); }
  else throw Lost{"unknown callee"};
  vector<Val> args; for (auto &a : cb->args()) args.push_back(eval(s, a));
  if (f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: copyMem(s, args[0], args[1], concrete(s, args[2])); break;
      case Intrinsic::memset: { Val d = norm(s, args[0]); i64 n = concrete(s, args[2]); if (d.isPtr()) { clearRange(s, (int)d.a, d.b, n); if (args[1].isInt(0)) for (i64 k = 0; k < n; k += 8) w(s, (int)d.a).cells[d.b + k] = {(int)std::min<i64>(8, n - k), Val::I(0)}; } break; }
      case Intrinsic::lifetime_start: break;
      case Intrinsic::lifetime_end: { Val d = norm(s, args[1]); if (d.isPtr() && s.objs.count((int)d.a) && o(s, (int)d.a).kind == Obj::Stack && d.b == 0) { R->onFree(s, (int)d.a); w(s, (int)d.a).cells.clear(); w(s, (int)d.a).tags.clear(); } break; }
      case Intrinsic::expect: afterCall(s, cb, args[0]); return;
      case Intrinsic::assume: break;
      case Intrinsic::trap: R->onTerminate(s, "trap"); throw Stop();
      case Intrinsic::eh_typeid_for: afterCall(s, cb, Val::I(typeidSel(tiName(cb->getArgOperand(0))))); return;
      case Intrinsic::ptrmask: afterCall(s, cb, args[0]); return;
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: { Val r; r.k = Val::Agg; r.agg = make_shared<vector<Val>>(); bool in = args[0].isInt() && args[1].isInt(); r.agg->push_back(in ? Val::I(f->getIntrinsicID() == Intrinsic::umul_with_overflow ? args[0].a * args[1].a : args[0].a + args[1].a) : freshInt(s, 64)); r.agg->push_back(Val::I(0)); afterCall(s, cb, r); return; }
      case Intrinsic::umax: case Intrinsic::umin: { if (args[0].isInt() && args[1].isInt()) { uint64_t a = args[0].a, b = args[1].a; afterCall(s, cb, Val::I(f->getIntrinsicID() == Intrinsic::umax ? std::max(a, b) : std::min(a, b))); } else afterCall(s, cb, freshInt(s, 64)); return; }
      default: if (!f->getReturnType()->isVoidTy()) { if (f->getReturnType()->isIntegerTy()) { afterCall(s, cb, freshInt(s, f->getReturnType()->getIntegerBitWidth())); return; } throw Lost{"intrinsic " + f->getName().str()}; }
    }
    afterCall(s, cb, Val()); return;
  }
  const FnName &n = name(f);
  // give a type to the object a member function is called on
  if (!n.ctx.empty() && !args.empty() && layouts.count(n.ctx)) { Val t = norm(s, args[cb->hasStructRetAttr() && args.size() > 1 ? 1 : 0]); unsigned ti = cb->hasStructRetAttr() && args.size() > 1 ? 1 : 0; if (f->arg_size() > ti && f->getArg(ti)->getName() == "this" && t.isPtr() && t.b == 0 && s.objs.count((int)t.a) && o(s, (int)t.a).kind == Obj::Lazy && o(s, (int)t.a).type.empty()) w(s, (int)t.a).type = n.ctx; }
  Val ret;
  auto mi = models.find(n.sctx.empty() ? n.base : n.sctx + "::" + n.base);
  if (mi != models.end()) for (auto &m : mi->second) {
    size_t d = s.stack.size(); const Instruction *at = &*s.stack.back()->it;
    if (m.second(*this, s, cb, f, args, ret)) {
      if (s.stack.empty() || s.stack.size() != d || &*s.stack.back()->it != at) return;   // the model moved control (exception)
      afterCall(s, cb, ret); return;
    }
  }
  if (R->externCall(s, n, cb, f, args, ret)) { if (!s.stack.empty() && &*s.stack.back()->it == (const Instruction *)cb) afterCall(s, cb, ret); return; }
  if (!f->isDeclaration()) { pushFrame(s, f, args, cb); return; }
  externSeen[n.full]++;
  throw Lost{"external function " + n.full};
}

// ---------------------------------------------------------------- canonical form
// Edges between list nodes that were discovered by traversal, and lead to nodes
// nothing else refers to, are forgotten: they are found again when needed.
void Engine::forgetChains(State &s) {
  auto isChain = [&](int id) { auto it = s.objs.find(id); return it != s.objs.end() && it->second->tags.count("chain"); };
  bool any = false; for (auto &p : s.objs) if (p.second->tags.count("chain")) { any = true; break; }
  if (!any) return;
  std::unordered_set<int> seen; vector<int> st; vector<Val> weak;
  auto mark = [&](const Val &v0) { Val v = norm(s, v0); if (v.isPtr() && seen.insert((int)v.a).second) st.push_back((int)v.a); };
  std::function<void(const Val &)> markV = [&](const Val &v) { if (v.k == Val::Agg) { for (auto &x : *v.agg) markV(x); } else mark(v); };
  for (auto &f : s.stack) for (auto &r : f->regs) markV(r.second);
  for (auto &g : s.gh) markV(g.second);
  if (s.inflight) mark(s.inflight->obj);
  for (auto &c : s.caught) mark(c.obj);
  for (auto &c : s.suspended) mark(c.obj);
  for (auto &p : s.objs) if (p.second->tags.count("root") || (p.second->kind == Obj::Global && !p.second->cells.empty())) mark(Val::P(p.first));
  while (!st.empty()) {
    int id = st.back(); st.pop_back(); auto it = s.objs.find(id); if (it == s.objs.end()) continue; const Obj &x = *it->second;
    bool ch = x.tags.count("chain") || x.tags.count("listobj");
    for (auto &c : x.cells) { if (c.second.v.isPtr() && R->weakCell(s, id, c.first)) { weak.push_back(c.second.v); continue; } if (ch && c.second.v.isPtr() && x.tags.count("lazyedge")) { Val v = norm(s, c.second.v); if (v.isPtr() && isChain((int)v.a)) continue; } markV(c.second.v); }
    for (auto &t : x.tags) if (t.first != "first") markV(t.second);
    if (x.pointee) mark(Val::P(x.pointee));
  }
  // of a node that only the cleanup position refers to, no contents are remembered
  for (auto &v0 : weak) { Val v = norm(s, v0); if (!v.isPtr() || seen.count((int)v.a)) continue; if (isChain((int)v.a) && !o(s, (int)v.a).cells.empty()) w(s, (int)v.a).cells.clear(); seen.insert((int)v.a); }
  vector<int> ids; for (auto &p : s.objs) if (p.second->tags.count("lazyedge")) ids.push_back(p.first);
  for (int id : ids) {
    const Obj &x = o(s, id); vector<i64> drop; for (auto &c : x.cells) if (c.second.v.isPtr()) { Val v = norm(s, c.second.v); if (v.isPtr() && isChain((int)v.a) && !seen.count((int)v.a)) drop.push_back(c.first); }
    if (!drop.empty()) { Obj &y = w(s, id); for (i64 d : drop) y.cells.erase(d); }
    auto t = o(s, id).tags.find("first"); if (t != o(s, id).tags.end()) { Val v = norm(s, t->second); if (v.isPtr() && isChain((int)v.a) && !seen.count((int)v.a)) w(s, id).tags.erase("first"); }
  }
}

string Engine::canon(State &s, vector<IntLoc> *ints) {
  forgetChains(s);
  string out; out.reserve(4096); std::unordered_map<int, int> num, snum; vector<int> queue; 
  auto emitInt = [&](i64 x, int kind, std::function<void(State &, int)> wb) { out += '#'; if (ints) ints->push_back({x, kind, wb}); else out += std::to_string(x); };
  std::function<void(const Val &, std::function<void(State &, Val)>)> emit = [&](const Val &v0, std::function<void(State &, Val)> set) {
    Val v = norm(s, v0);
    switch (v.k) {
      case Val::Undef: out += 'U'; break;
      case Val::Int: { i64 x = v.a; if (set && ints) emitInt(x, -1, [=](State &t, int id) { set(t, Val::S(id)); }); else { out += '='; out += std::to_string(x); } break; }
      case Val::Fn: out += 'F'; out += std::to_string(v.a); break;
      case Val::Ptr: { auto it = num.find((int)v.a); if (it == num.end()) { int n = num.size(); num[(int)v.a] = n; queue.push_back((int)v.a); it = num.find((int)v.a); } out += 'P'; out += std::to_string(it->second); if (v.b) { out += '+'; out += std::to_string(v.b); } break; }
      case Val::Sym: { auto it = snum.find((int)v.a); bool first = it == snum.end(); if (first) { int n = snum.size(); snum[(int)v.a] = n; it = snum.find((int)v.a); } out += 'S'; out += std::to_string(it->second); 
        if (v.b) { out += '+'; i64 x = v.b; if (set && ints) emitInt(x, it->second, [=](State &t, int id) { set(t, Val::S(id)); }); else out += std::to_string(x); }
        if (first) { auto y = s.syms[(int)v.a]; int id = (int)v.a; if (!set || y.exact) { out += '[' + std::to_string(y.lo) + ',' + std::to_string(y.hi) + ']'; break; } out += '['; emitInt(y.lo, -2, [=](State &t, int) { auto &z = t.syms[id]; z.lo = z.bits >= 63 ? 0 : std::min<i64>(z.lo, 0); }); out += ','; emitInt(y.hi, -3, [=](State &t, int) { auto &z = t.syms[id]; z.hi = z.bits >= 63 || z.bits == 0 ? INT64_MAX / 4 : (1LL << z.bits) - 1; }); out += ']'; } break; }
      case Val::Agg: { out += '{'; for (auto &x : *v.agg) { emit(x, nullptr); out += ','; } out += '}'; break; }
    }
  };
  for (size_t i = 0; i < s.stack.size(); i++) {
    const Frame &f = *s.stack[i]; out += "|"; char buf[64]; snprintf(buf, sizeof buf, "%p:%p", (const void *)f.fn, (const void *)&*f.it); out += buf;
    for (auto &r : f.regs) { out += ';'; out += std::to_string(r.first); out += ':'; int ordn = r.first; emit(r.second, [this, i, ordn](State &t, Val v) { frame(t, i).regs[ordn] = v; }); }
  }
  if (s.inflight) { out += "!X" + s.inflight->type; emit(s.inflight->obj, nullptr); }
  for (auto &c : s.suspended) { out += "!S" + c.type; emit(c.obj, nullptr); }
  for (auto &c : s.caught) { out += "!C" + c.type + std::to_string(c.handlers) + (c.rethrown ? "r" : ""); emit(c.obj, nullptr); }
  for (auto &g : s.gh) { out += "!g" + g.first + ":"; string k = g.first; bool widenable = k.compare(0, 4, "cnt:") == 0 && k[4] != '='; emit(g.second, widenable ? std::function<void(State &, Val)>([k](State &t, Val v) { t.gh[k] = v; }) : nullptr); }
  for (auto &p : s.objs) if (p.second->tags.count("root") || (p.second->kind == Obj::Global && !p.second->cells.empty())) { Val v = Val::P(p.first); out += "!r"; emit(v, nullptr); }
  for (size_t q = 0; q < queue.size(); q++) {
    int id = queue[q]; auto it = s.objs.find(id); shared_ptr<Obj> hold; if (it != s.objs.end()) hold = it->second; out += "\n" + std::to_string(q) + "="; if (it == s.objs.end()) { out += "gone"; continue; }
    const Obj &x = *it->second; if (x.kind == Obj::Global && x.cells.empty()) { out += "G" + std::to_string(id); continue; }
    out += char('0' + x.kind); if (x.kind == Obj::Global) out += std::to_string(id); if (x.maybeNull) out += 'n'; if (x.isNull) out += 'N'; if (x.freed) out += 'f'; if (x.cb) { out += "c" + std::to_string(x.nlocal) + "," + std::to_string(x.owners) + "," + std::to_string((int)x.alive); if (x.pointee) emit(Val::P(x.pointee), nullptr); if (noOtherOwners(s, x)) { out += "u"; if (x.countSym != -1) w(s, id).countSym = -1; } else if (x.countSym == -2 || (x.countSym > 0 && s.syms.count(x.countSym) && s.syms[x.countSym].lo >= 1 && !snum.count(x.countSym))) { out += "s"; if (x.countSym != -2) w(s, id).countSym = -2; } else if (x.countSym > 0 && snum.count(x.countSym)) { out += "k" + std::to_string(snum[x.countSym]); } else if (x.countSym) w(s, id).countSym = 0; }
    out += x.type;
    if (x.freed) continue;
    for (auto &c : x.cells) { out += ';'; out += std::to_string(c.first); out += '/'; out += std::to_string(c.second.size); out += ':'; i64 off = c.first; int sz = c.second.size; if (x.kind == Obj::Lazy || x.tags.count("shared")) emit(c.second.v, nullptr); else emit(c.second.v, [this, id, off, sz](State &t, Val v) { w(t, id).cells[off] = {sz, v}; }); }
    for (auto &t : x.tags) { out += "~" + t.first + ":"; emit(t.second, nullptr); }
  }
  vector<pair<int, int>> nes; for (auto &p : s.ne) { Val a = norm(s, Val::P(p.first)), b = norm(s, Val::P(p.second)); if (!a.isPtr() || !b.isPtr()) continue; auto i = num.find((int)a.a), j = num.find((int)b.a); if (i != num.end() && j != num.end()) nes.push_back({std::min(i->second, j->second), std::max(i->second, j->second)}); }
  std::sort(nes.begin(), nes.end()); nes.erase(std::unique(nes.begin(), nes.end()), nes.end()); for (auto &p : nes) out += "!=" + std::to_string(p.first) + "," + std::to_string(p.second);
  for (auto it = s.le.begin(); it != s.le.end();) { auto i = snum.find(it->first.first), j = snum.find(it->first.second); if (i == snum.end() || j == snum.end()) { it = s.le.erase(it); continue; } out += "<=" + std::to_string(i->second) + "," + std::to_string(j->second) + ":" + std::to_string(it->second); ++it; }
  // rewrite aliases and null objects away
  bool anyNull = false; for (auto &p : s.objs) if (p.second->isNull) { anyNull = true; break; }
  for (auto &p : s.syms) if (p.second.lo == p.second.hi) { anyNull = true; break; }
  if (!s.alias.empty() || anyNull) {
    std::function<bool(Val &)> rw = [&](Val &v) -> bool {
      if (v.k == Val::Agg) { bool ch = false; vector<Val> c = *v.agg; for (auto &x : c) if (rw(x)) ch = true; if (ch) v.agg = make_shared<vector<Val>>(c); return ch; }
      if (v.k != Val::Ptr && v.k != Val::Sym) return false; Val n = norm(s, v); if (n == v) return false; v = n; return true; };
    for (size_t i = 0; i < s.stack.size(); i++) { vector<pair<int, Val>> ch; for (auto &r : s.stack[i]->regs) { Val v = r.second; if (rw(v)) ch.push_back({r.first, v}); } for (auto &c : ch) frame(s, i).regs[c.first] = c.second; }
    vector<int> ids; for (auto &p : s.objs) ids.push_back(p.first);
    for (int id : ids) {
      vector<pair<i64, Val>> cc; vector<pair<string, Val>> ct; { const Obj &x = o(s, id); for (auto &c : x.cells) { Val v = c.second.v; if (rw(v)) cc.push_back({c.first, v}); } for (auto &c : x.tags) { Val v = c.second; if (rw(v)) ct.push_back({c.first, v}); } }
      if (!cc.empty() || !ct.empty()) { Obj &y = w(s, id); for (auto &c : cc) y.cells[c.first].v = c.second; for (auto &c : ct) y.tags[c.first] = c.second; }
      int pt = o(s, id).pointee; if (pt) { Val pv = norm(s, Val::P(pt)); if (pv.isPtr() && pv.a != pt) w(s, id).pointee = (int)pv.a; }
    }
    for (auto &g : s.gh) rw(g.second);
    if (s.inflight) rw(s.inflight->obj);
    for (auto &c : s.caught) rw(c.obj);
    for (auto &c : s.suspended) rw(c.obj);
    set<pair<int, int>> nn; for (auto &p : s.ne) { Val a = norm(s, Val::P(p.first)), b = norm(s, Val::P(p.second)); if (a.isPtr() && b.isPtr()) nn.insert({(int)std::min(a.a, b.a), (int)std::max(a.a, b.a)}); } s.ne = nn;
    s.alias.clear();
  }
  // garbage: drop what was not reached
  for (auto it = s.objs.begin(); it != s.objs.end();) { if (!num.count(it->first) && it->second->kind != Obj::Global) it = s.objs.erase(it); else ++it; }
  for (auto it = s.syms.begin(); it != s.syms.end();) { if (!snum.count(it->first)) it = s.syms.erase(it); else ++it; }
  for (auto it = s.ne.begin(); it != s.ne.end();) { if (!s.objs.count(it->first) || !s.objs.count(it->second)) it = s.ne.erase(it); else ++it; }
  return out;
}
static string hash128(const string &x) { uint64_t h1 = 1469598103934665603ULL, h2 = 0x9E3779B97F4A7C15ULL; for (unsigned char c : x) { h1 = (h1 ^ c) * 1099511628211ULL; h2 = (h2 + c) * 0xff51afd7ed558ccdULL; h2 ^= h2 >> 29; } string r(16, 0); memcpy(&r[0], &h1, 8); memcpy(&r[8], &h2, 8); return r; }
// numbers in local variables and registers that take more than a few values at
// a loop head (in one calling context) are replaced by an unknown number there
void Engine::widenLocals(State &s) {
  string ctx; for (auto &f : s.stack) { char b[40]; snprintf(b, sizeof b, "%p/", (const void *)&*f->it); ctx += b; } ctx = hash128(ctx);
  auto range = [&](const Val &v0, pair<i64, i64> &r) { Val v = norm(s, v0); if (v.isInt()) { r = {v.a, v.a}; return true; } if (v.k != Val::Sym) return false; auto it = s.syms.find((int)v.a); if (it == s.syms.end() || it->second.exact) return false; r = {it->second.lo + v.b, it->second.hi > INT64_MAX / 8 ? INT64_MAX / 4 : it->second.hi + v.b}; if (r.first < -(1LL << 40)) r.first = INT64_MIN / 4; return true; };
  auto handle = [&](const string &key, const Val &v, int bits, Val &out) {
    pair<i64, i64> r; if (!range(v, r)) return false; auto &st = seenAt[ctx + key];
    if (!st.count(r)) st.insert(r);
    Val n = norm(s, v); bool rel = n.k == Val::Sym && n.b != 0;
    if ((int)st.size() <= widenAfter && !rel) return false;
    bool neg = false; for (auto &x : st) if (x.first < 0) neg = true;
    if (n.k == Val::Sym && n.b == 0) { auto &y = s.syms[(int)n.a]; if (y.lo <= (neg ? INT64_MIN / 4 : 0) && y.hi >= INT64_MAX / 8) return false; }
    nWiden++; out = Val::S(newSym(s, neg ? INT64_MIN / 4 : 0, INT64_MAX / 4, bits)); return true; };
  // counters of the rules named cnt:= : a local variable that was equal to one whenever this point was reached stays equal to it
  vector<std::tuple<string, Val, Val>> eqs; for (auto &g : s.gh) if (g.first.compare(0, 5, "cnt:=") == 0) { Val old = norm(s, g.second), n = old; if ((old.isInt() || old.k == Val::Sym) && handle("g" + g.first, old, 64, n)) g.second = n; eqs.push_back({g.first, old, n}); }
  // the counters of the rules; a local variable that is equal to one stays equal to it
  vector<pair<Val, Val>> rel; vector<pair<string, Val>> cnts; vector<string> relName; for (auto &g : s.gh) if (g.first.compare(0, 4, "cnt:") == 0 && g.first[4] != '=') { Val old = norm(s, g.second), n; cnts.push_back({g.first, old}); if ((old.isInt() || old.k == Val::Sym) && handle("g" + g.first, old, 64, n)) { rel.push_back({old, n}); relName.push_back(g.first); } g.second = rel.empty() || !(rel.back().first == old) ? g.second : rel.back().second; }
  auto local = [&](const string &key, const Val &v0, int bits, Val &out) {
    Val v = norm(s, v0);
    if (!eqs.empty()) { auto &no = unequal[ctx + key]; for (auto &e : eqs) if (!(v == std::get<1>(e))) no.insert(std::get<0>(e)); for (auto &e : eqs) if (!no.count(std::get<0>(e))) { out = std::get<2>(e); return true; } }
    set<string> *apart = nullptr; if (!cnts.empty()) { apart = &unequal[ctx + key + "#"]; for (auto &c : cnts) if (!(v == c.second)) apart->insert(c.first); }
    for (size_t ri = 0; ri < rel.size(); ri++) if (auto &r = rel[ri]; v.k == r.first.k && bits == 64) { if (v.k == Val::Int && v.a == r.first.a && !apart->count(relName[ri])) { out = r.second; return true; } if (v.k == Val::Sym && v.a == r.first.a) { out = r.second; out.b += v.b - r.first.b; return true; } }
    return handle(key, v0, bits, out); };
  for (size_t i = 0; i < s.stack.size(); i++) {
    vector<pair<int, Val>> ch; for (auto &r : s.stack[i]->regs) { Val n; if ((r.second.isInt() || r.second.k == Val::Sym) && local(std::to_string(i) + "r" + std::to_string(r.first), r.second, 64, n)) ch.push_back({r.first, n}); }
    for (auto &c : ch) frame(s, i).regs[c.first] = c.second;
    for (size_t j = 0; j < s.stack[i]->stackObjs.size(); j++) { int id = s.stack[i]->stackObjs[j]; auto it = s.objs.find(id); if (it == s.objs.end() || it->second->freed) continue;
      vector<pair<i64, Val>> cc; for (auto &c : it->second->cells) { Val n; if ((c.second.v.isInt() || c.second.v.k == Val::Sym) && c.second.size >= 4 && local(std::to_string(i) + "o" + std::to_string(j) + "." + std::to_string(c.first), c.second.v, c.second.size * 8, n)) cc.push_back({c.first, n}); }
      for (auto &c : cc) w(s, id).cells[c.first].v = c.second; }
  }
}
// Each state that is compared with others is a node; an edge is kept if nothing was got on with between two of
// them.  A cycle of such edges is an operation that goes round for ever without any step of user code or of another thread being to blame.
bool Engine::visit(State &s, const string &key) {
  auto r = visited.insert({key, (int)visited.size()}); int n = r.first->second;
  if (r.second) nodeAt.push_back(&*s.stack.back()->it);
  if (s.node >= 0 && !s.progress) idle.push_back({s.node, n});
  s.node = n; s.progress = false; return r.second;
}
void Engine::idleCycles() {
  size_t N = nodeAt.size(); vector<vector<int>> out(N), in; vector<int> deg(N, 0);
  for (auto &e : idle) { out[e.first].push_back(e.second); deg[e.second]++; }
  vector<int> todo; for (size_t i = 0; i < N; i++) if (!deg[i]) todo.push_back((int)i);
  size_t done = 0; while (!todo.empty()) { int n = todo.back(); todo.pop_back(); done++; for (int m : out[n]) if (!--deg[m]) todo.push_back(m); }
  obligations["progress"] += (long)idle.size(); if (done == N) return;
  // what is left is on a cycle or reached from one: keep what also leads to one
  vector<char> left(N, 0); for (size_t i = 0; i < N; i++) left[i] = deg[i] > 0;
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < N; i++) if (left[i]) { bool go = false; for (int m : out[i]) if (left[m]) go = true; if (!go) { left[i] = 0; ch = true; } } }
  auto headOf = [&](size_t i) { const Instruction *I = nodeAt[i]; return loopHead.count(I->getParent()) && I == I->getParent()->getFirstNonPHI(); };
  bool heads = false; for (size_t i = 0; i < N; i++) if (left[i] && headOf(i)) heads = true;
  for (size_t i = 0; i < N; i++) if (left[i] && (!heads || headOf(i))) {
    const Instruction *I = nodeAt[i]; Finding f; f.rule = "progress"; f.what = "the operation may go round here for ever without getting on"; f.where = loc(I) + " in " + name(I->getFunction()).ctx + "::" + name(I->getFunction()).base; f.entry = entry;
    f.key = f.rule + "|" + f.what + "|" + f.where + "|" + entry; auto it = findingIdx.find(f.key); if (it != findingIdx.end()) { findings[it->second].count++; continue; }
    findingIdx[f.key] = findings.size(); findings.push_back(f);
  }
}
bool Engine::checkVisited(State &s, int kind) {
  nStates++;
  if (kind == 1) {
    widenLocals(s);
    for (int round = 0; round < 8; round++) {
      vector<IntLoc> ints; string shape = canon(s, &ints); if (verbose) { auto &v = samples[&*s.stack.back()->it]; v.first++; if (v.second.size() < 40000) v.second.push_back(shape); } string h = hash128(shape); auto &rec = shapes[h]; rec.resize(ints.size());
      set<size_t> wid;
      for (size_t i = 0; i < ints.size(); i++) if ((int)rec[i].size() >= widenAfter && ints[i].kind > -4 && !(ints[i].kind <= -2 && rec[i].back() == ints[i].x)) wid.insert(i);
      if (wid.empty()) {
        bool isNew = false; 
        for (size_t i = 0; i < ints.size(); i++) { auto &c = rec[i]; if (std::find(c.begin(), c.end(), ints[i].x) == c.end()) { isNew = true; c.push_back(ints[i].x); } }
        (void)isNew;
        string key = h; for (auto &x : ints) key += std::to_string(x.x) + ","; key = hash128(key); if (!visit(s, key)) { nDedup++; return true; } return false; }
      nWiden++; map<string, int> group;
      for (size_t i : wid) {
        int id = 0;
        if (ints[i].kind >= -1) { string g = std::to_string(ints[i].kind) + ":" + std::to_string(ints[i].x) + ":"; for (auto y : rec[i]) g += std::to_string(y) + ","; auto &gi = group[g]; if (!gi) gi = newSym(s, 0, INT64_MAX / 4, 64); id = gi; }
        ints[i].wb(s, id);
      }
    }
    return false;
  }
  string c = canon(s, nullptr); if (verbose) { auto &v = samples[&*s.stack.back()->it]; v.first++; if (v.second.size() < 40000) v.second.push_back(c); }
  if (!visit(s, hash128(c))) { nDedup++; return true; }
  return false;
}
