// The slot list with its groups.  std::list and std::map are replaced, for the user's type of
// values, by monitors of an arbitrary list of arbitrary groups that is in order: its groups and
// elements are discovered as they are visited, one group is observed.
#include "user.hpp"
#include <list>
#include <map>
#include <boost/assert.hpp>
#include <boost/optional.hpp>
#include <boost/core/no_exceptions_support.hpp>
#include <boost/signals2/detail/slot_groups.hpp>
#include <new>
using namespace user; namespace d = boost::signals2::detail;
enum Rel { LOW, SAME, HIGH };      // the group compared with the group observed
static bool armed;                 // copying and comparing groups may throw, memory may run out
static void may_throw() { if(armed && choose()) throw Exception(); }
struct Value { Value() {} Value(const Value &) {} };
struct Grp { Rel rel; explicit Grp(Rel r) : rel(r) {} Grp(const Grp &o) : rel(o.rel) { may_throw(); } Grp &operator=(const Grp &o) { rel = o.rel; may_throw(); return *this; } };
struct Cmp { bool given; Cmp() : given(false) {} explicit Cmp(bool g) : given(g) {} bool operator()(const Grp &a, const Grp &b) const { check(given, "C06: groups are compared by another function object than the one given"); may_throw(); return a.rel < b.rel; } };
typedef d::group_key<Grp>::type Key; typedef d::group_key_less<Grp, Cmp> Less;
struct Node; struct Entry;
struct LIt { Node *n; bool copy; LIt() : n(0), copy(false) {} LIt(Node *m, bool c) : n(m), copy(c) {} typedef Value value_type; typedef Value &reference; typedef Value *pointer; typedef std::ptrdiff_t difference_type; typedef std::bidirectional_iterator_tag iterator_category;
  LIt &operator++(); LIt operator++(int) { LIt t(*this); ++*this; return t; } Value &operator*() const; Value *operator->() const { return &**this; } };
struct CLIt : LIt { CLIt() {} CLIt(const LIt &i) : LIt(i) {} CLIt &operator++() { LIt::operator++(); return *this; } CLIt operator++(int) { CLIt t(*this); ++*this; return t; } };
static bool same(const LIt &a, const LIt &b) { check(a.copy == b.copy && a.n && b.n, "C06: positions of different lists are compared"); return a.n == b.n; }
inline bool operator==(const LIt &a, const LIt &b) { return same(a, b); }
inline bool operator!=(const LIt &a, const LIt &b) { return !same(a, b); }
typedef std::pair<const Key, LIt> Pair;
struct Node { Entry *grp; bool erased; Node(Entry *g) : grp(g), erased(false) {} };
struct Entry { Pair kv; Rel rel; Node *first; bool erased; Entry(const Key &k, Rel r, Node *f) : kv(k, LIt(f, false)), rel(r), first(f), erased(false) {} };
static d::slot_meta_group kind;    // of the group observed
static Node theEnd(0); static Entry *endEntry, *K, *gfirst, *lfirst; static Node *N, *before, *head; static Node *from, *upto;   // the group observed if it is there; the element inserted
static Key *key_of(Rel r) {
  bool a = armed; armed = false; Key *k;
  if(r == SAME) k = kind == d::grouped_slots ? new Key(kind, Grp(SAME)) : new Key(kind, boost::optional<Grp>());
  else if(r == LOW) k = kind == d::grouped_slots && choose() || kind == d::back_ungrouped_slots && choose() ? new Key(d::grouped_slots, Grp(LOW)) : new Key(d::front_ungrouped_slots, boost::optional<Grp>());
  else k = choose() ? new Key(d::grouped_slots, Grp(HIGH)) : new Key(d::back_ungrouped_slots, boost::optional<Grp>());
  armed = a; return k; }
static Entry *make(Rel r) { bool a = armed; Key *k = key_of(r); armed = false; Node *n = new Node(0); Entry *e = new Entry(*k, r, n); n->grp = e; armed = a; return e; }
static Entry *afterwards() { if(!gfirst) gfirst = kind != d::back_ungrouped_slots && choose() ? make(HIGH) : endEntry; return gfirst; }
static Entry *from_observed() { return K ? K : afterwards(); }
static Entry *elsewhere;          // the first one, once it has been left
static Entry *first_entry() { if(!lfirst || lfirst == elsewhere) lfirst = kind != d::front_ungrouped_slots && choose() ? make(LOW) : endEntry; return lfirst != endEntry ? lfirst : from_observed(); }
// what follows is settled when it is first asked for and remembered for the cursors that come along
static Entry *visited_entry, *next_visited; static Node *visited_node, *succ_visited;
static Entry *next_entry(Entry *e) {
  check(e != endEntry && !e->erased, "C06: the group index is left");
  if(e->rel == SAME) return afterwards();
  if(e == lfirst) lfirst = elsewhere;
  if(visited_entry != e) { visited_entry = e; next_visited = choose() ? make(e->rel) : e->rel == LOW ? from_observed() : endEntry; }
  return next_visited; }
static Node *node(Entry *e) { return e->first; }
static Node *succ(Node *n) {       // in the list as it was
  check(n != &theEnd, "C06: the slot list is left");
  if(visited_node != n) { visited_node = n; succ_visited = choose() ? new Node(n->grp) : node(next_entry(n->grp)); }
  return succ_visited; }
static Node *skip(Node *n) { if(N && n == before) return N; if(n->erased) return succ(n); return n; }
static Node *follow(Node *n) { check(n, "C06: the slot list is left"); return n == N && N ? before : skip(succ(n)); }
LIt &LIt::operator++() { n = follow(n); return *this; }
Value &LIt::operator*() const { static Value v; check(n && n != &theEnd && !n->erased, "C06: the end of the slot list, or an element erased, is used"); return v; }
static bool fixed;                 // the index of the copy has been made
static Pair *observed_copy; static Entry *scratch_for; static Pair *scratch;
static Pair *pair_of(Entry *e, bool copy) {
  check(e && e != endEntry && !e->erased, "C06: the end of the group index, or an entry erased, is used");
  if(!copy) return &e->kv; if(e->rel == SAME && observed_copy) return observed_copy;
  if(scratch_for != e) { bool a = armed; armed = false; scratch_for = e; scratch = new Pair(e->kv); if(fixed) scratch->second = LIt(e->first, true); armed = a; } return scratch; }
struct MIt { Entry *e; bool copy; MIt() : e(0), copy(false) {} MIt(Entry *f, bool c) : e(f), copy(c) {} typedef Pair value_type; typedef Pair &reference; typedef Pair *pointer; typedef std::ptrdiff_t difference_type; typedef std::bidirectional_iterator_tag iterator_category;
  MIt &operator++() { e = next_entry(e); return *this; } MIt operator++(int) { MIt t(*this); ++*this; return t; } Pair *operator->() const { return pair_of(e, copy); } Pair &operator*() const { return *pair_of(e, copy); } };
struct CMIt : MIt { CMIt() {} CMIt(const MIt &i) : MIt(i) {} CMIt &operator++() { MIt::operator++(); return *this; } CMIt operator++(int) { CMIt t(*this); ++*this; return t; } const Pair *operator->() const { return pair_of(e, copy); } const Pair &operator*() const { return *pair_of(e, copy); } };
static bool same(const MIt &a, const MIt &b) { check(a.copy == b.copy && a.e && b.e, "C06: positions of different group indices are compared"); return a.e == b.e; }
inline bool operator==(const MIt &a, const MIt &b) { return same(a, b); }
inline bool operator!=(const MIt &a, const MIt &b) { return !same(a, b); }
namespace std {
  template<> class list<Value> {
    bool copy;
    void own(const LIt &i) const { check(i.n && i.copy == copy, "C06: a position of another list is used"); }
  public:
    typedef Value value_type; typedef LIt iterator; typedef CLIt const_iterator; typedef Value &reference; typedef const Value &const_reference; typedef size_t size_type;
    list() : copy(false) {} list(const list &) : copy(true) { may_throw(); }
    iterator begin() { return LIt(skip(node(first_entry())), copy); } iterator end() { return LIt(skip(&theEnd), copy); }
    const_iterator begin() const { return const_iterator(LIt(skip(node(first_entry())), copy)); } const_iterator end() const { return const_iterator(LIt(&theEnd, copy)); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    bool empty() const { return begin() == end(); }
    iterator insert(const LIt &p, const Value &) { own(p); check(!N && !from, "C06: the slot list is changed twice"); if(p.n != &theEnd) check(!p.n->erased, "C06: an element erased is used"); may_throw(); before = p.n; N = new Node(0); return LIt(N, copy); }
    iterator emplace(const LIt &p, const Value &v) { return insert(p, v); }
    void push_back(const Value &v) { insert(end(), v); } void push_front(const Value &v) { insert(begin(), v); }
    iterator erase(const LIt &p) { own(p); if(N && p.n == N) { N = 0; return LIt(before, copy); } check(p.n != &theEnd && !p.n->erased && !from, "C06: an element is erased twice"); Node *s = follow(p.n); p.n->erased = true; from = p.n; upto = s; return LIt(s, copy); }
    iterator erase(const LIt &p, const LIt &q) { own(p); own(q); check(!N && !from, "C06: the slot list is changed twice"); from = p.n; upto = q.n; return q; }
    void clear() { from = upto = &theEnd; }
  };
  template<> class map<Key, LIt, Less> {
    bool copy; Less less;
    MIt it(Entry *e) const { return MIt(e, copy); }
    Entry *bound(const Key &k, bool upper) const {
      Entry *l = kind != d::front_ungrouped_slots && choose() ? make(LOW) : 0;     // any of the lower groups
      if(l && (upper ? less(k, l->kv.first) : !less(l->kv.first, k))) return l;
      if(K && (upper ? less(k, K->kv.first) : !less(K->kv.first, k))) return K;
      Entry *g = afterwards(); if(g != endEntry && (upper ? less(k, g->kv.first) : !less(g->kv.first, k))) return g;
      return endEntry; }
    Entry *exactly(const Key &k) const { Entry *e = bound(k, false); return e != endEntry && !less(k, e->kv.first) ? e : endEntry; }
  public:
    typedef Key key_type; typedef LIt mapped_type; typedef Pair value_type; typedef MIt iterator; typedef CMIt const_iterator; typedef Less key_compare; typedef size_t size_type;
    map() : copy(false) {} explicit map(const Less &l) : copy(false), less(l) {} map(const map &o) : copy(true), less(o.less) { may_throw(); bool a = armed; armed = false; if(K) observed_copy = new Pair(K->kv); armed = a; }
    iterator begin() { return it(first_entry()); } iterator end() { return it(endEntry); } const_iterator begin() const { return it(first_entry()); } const_iterator end() const { return it(endEntry); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    bool empty() const { return begin() == end(); } key_compare key_comp() const { return less; }
    iterator lower_bound(const Key &k) { return it(bound(k, false)); } const_iterator lower_bound(const Key &k) const { return it(bound(k, false)); }
    iterator upper_bound(const Key &k) { return it(bound(k, true)); } const_iterator upper_bound(const Key &k) const { return it(bound(k, true)); }
    iterator find(const Key &k) { return it(exactly(k)); } const_iterator find(const Key &k) const { return it(exactly(k)); } size_t count(const Key &k) const { return exactly(k) != endEntry; }
    std::pair<iterator, iterator> equal_range(const Key &k) { return std::pair<iterator, iterator>(lower_bound(k), upper_bound(k)); }
    std::pair<iterator, bool> insert(const Pair &p) { Entry *e = exactly(p.first); if(e != endEntry) return std::make_pair(it(e), false); may_throw(); check(!K, "C06: a group is entered twice"); bool a = armed; armed = false; e = new Entry(p.first, SAME, p.second.n); armed = a; if(copy) observed_copy = new Pair(p); else e->kv.second = p.second; K = e; return std::make_pair(it(e), true); }
    iterator insert(const MIt &, const Pair &p) { return insert(p).first; }
    template<class A, class B> std::pair<iterator, bool> emplace(const A &a, const B &b) { return insert(Pair(a, b)); }
    LIt &operator[](const Key &k) { return insert(Pair(k, LIt())).first->second; } LIt &at(const Key &k) { Entry *e = exactly(k); check(e != endEntry, "C06: a group is missing from the index"); return pair_of(e, copy)->second; }
    iterator erase(const MIt &i) { check(i.copy == copy && i.e && i.e != endEntry && !i.e->erased, "C06: an entry of another index is erased"); check(i.e->rel == SAME, "C06: another group is removed from the index"); Entry *n = next_entry(i.e); i.e->erased = true; K = 0; return it(n); }
    size_t erase(const Key &k) { Entry *e = exactly(k); if(e == endEntry) return 0; erase(it(e)); return 1; }
    void clear() { K = 0; gfirst = lfirst = endEntry; }
  };
}
typedef d::grouped_list<Grp, Cmp, Value> List;
// an arbitrary list; the key of the group observed
static Key *world() {
  kind = choose() ? d::grouped_slots : choose() ? d::front_ungrouped_slots : d::back_ungrouped_slots;
  endEntry = new Entry(Key(d::back_ungrouped_slots, boost::optional<Grp>()), HIGH, &theEnd); elsewhere = new Entry(*key_of(LOW), LOW, &theEnd); visited_entry = 0; visited_node = 0; gfirst = lfirst = 0; K = choose() ? make(SAME) : 0; N = 0; from = 0;
  return key_of(SAME); }
static void index_is(Node *first, bool copy) {
  if(!first) { check(!K || K->erased, "C06: a group without elements stays in the index"); return; }
  check(K && !K->erased, "C06: a group with elements is not in the index"); if(!K) return;
  Pair *p = pair_of(K, copy); check(p->second.n == first && p->second.copy == copy, "C06: the index does not refer to the first element of a group"); }
static void index_of_next(bool copy) { Entry *g = afterwards(); if(g != endEntry) { Pair *p = pair_of(g, copy); check(p->second.n == g->first, "C06: the index does not refer to the first element of another group"); } }
static void insert(List &l, const Key &k, bool back, bool copy) {
  Node *was = K ? K->first : 0, *next = node(afterwards()); Value v; armed = true;
  try { if(back) l.push_back(k, v); else l.push_front(k, v); } catch(...) { armed = false; check(!N && !from, "C06: an exception leaves an element in the slot list"); index_is(was, copy); index_of_next(copy); return; }
  armed = false; check(N, "C06: no element is inserted"); if(!N) return;
  check(before == (back || !was ? next : was), "C06: an element is inserted at another position than its group and at_front or at_back ask for");
  index_is(back && was ? was : N, copy); index_of_next(copy); }
static void remove(List &l, const Key &k, bool copy) {
  if(!K) return; Node *first = K->first, *x = choose() ? first : new Node(K);
  Node *nx = succ(x), *left = x != first ? first : nx != &theEnd && nx->grp == K ? nx : 0; armed = true; LIt r;
  try { r = l.erase(k, LIt(x, copy)); } catch(...) { armed = false; check(!from, "C06: an exception leaves an element erased"); index_is(first, copy); return; }
  armed = false; check(from == x && upto == nx && !N, "C06: another element than the one given is erased"); check(r.n == nx, "C06: erase() returns another position than the next one");
  index_is(left, copy); index_of_next(copy); }
static void remove_group(List &l, const Key &k, bool copy) {
  Node *first = K ? K->first : 0, *next = node(afterwards()); armed = true; try { l.erase(k); } catch(...) { armed = false; return; } armed = false;
  if(!first) { check(!from, "C06: erasing a group that is not there erases something"); return; }
  check(from == first && upto == next, "C06: erasing a group does not erase exactly its elements"); index_is(0, copy); index_of_next(copy); }
static void bounds(List &l, const Key &k, bool copy) {
  Node *lo = K ? K->first : node(afterwards()), *hi = node(afterwards());
  armed = true; try { LIt a = l.lower_bound(k), b = l.upper_bound(k); armed = false; check(a.n == lo && a.copy == copy, "C06: lower_bound() is not the first element of the group"); check(b.n == hi && b.copy == copy, "C06: upper_bound() is not the end of the group"); } catch(...) { armed = false; }
  check(l.begin().n == node(first_entry()) && l.end().n == &theEnd, "C06: begin() and end() are not those of the list"); }
static void act(List &l, const Key &k, bool copy) { if(choose()) insert(l, k, true, copy); else if(choose()) insert(l, k, false, copy); else if(choose()) remove(l, k, copy); else if(choose()) remove_group(l, k, copy); else bounds(l, k, copy); }
void h_grp_push_back() { List l((Less(Cmp(true)))); Key *k = world(); insert(l, *k, true, false); }
void h_grp_push_front() { List l((Less(Cmp(true)))); Key *k = world(); insert(l, *k, false, false); }
void h_grp_erase() { List l((Less(Cmp(true)))); Key *k = world(); remove(l, *k, false); }
void h_grp_erase_group() { List l((Less(Cmp(true)))); Key *k = world(); remove_group(l, *k, false); }
void h_grp_bounds() { List l((Less(Cmp(true)))); Key *k = world(); bounds(l, *k, false); }
void h_grp_clear() { List l((Less(Cmp(true)))); world(); l.clear(); check(from && !K && gfirst == endEntry && lfirst == endEntry, "C06: clear() leaves something in the list"); }
// a copy has the same groups in the same order, on its own, and goes on from there
void h_grp_copy() {
  List l((Less(Cmp(true)))); Key *k = world(); armed = true;
  try { List c(l); armed = false; if(K) { index_is(K->first, true); index_is(K->first, false); } fixed = true; scratch_for = 0; act(c, *k, true); } catch(...) { armed = false; } }
