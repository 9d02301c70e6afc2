// Extended slots and signals used as slots: what the slot made from them does when it is called.
// Function objects, results and combiners know where they come from.
#include "user.hpp"
#include "seq.hpp"
#include <boost/signals2/signal.hpp>
#include <utility>
namespace s2 = boost::signals2;
using namespace user;
struct V { const void *p; V(const void *q = 0) : p(q) {} };
static long slot_result, ext_result, other_result;
// what a slot function holds: shared between the copies of the function
struct AnyFn { virtual V call(V) = 0; virtual V call_const(V) = 0; virtual ~AnyFn() {} };
static AnyFn *captured;
template<class F> struct AnyFnOf : AnyFn { F f; AnyFnOf(const F &g) : f(g) {} V call(V a) { return f(a); } V call_const(V a) { const F &g = f; return g(a); } };
struct Fn {
  typedef V result_type; AnyFn *fn;
  Fn() : fn(0) {}
  template<class F> Fn(const F &f) : fn(new AnyFnOf<F>(f)) { captured = fn; }
  template<class F> Fn &operator=(const F &f) { fn = captured = new AnyFnOf<F>(f); return *this; }
  V operator()(V a) const { return fn->call(a); }
  template<class T> bool contains(const T &) const; template<class T> T *target();
};
static bool ran; static const void *owner;      // which extended function ran
static s2::connection *own;                     // the connection it must be given, once it is known
struct ExtFn {
  typedef V result_type; const void *id;
  ExtFn(const void *i = 0) : id(i) {}
  V operator()(const s2::connection &c, V a) const {
    check(!ran, "C14: one call calls an extended slot more than once"); ran = true; owner = id; check(a.p == &slot_result, "C14: an extended slot receives another argument than the one given");
    if(own) check(c == *own, "C14: an extended slot is given another connection than the one connect_extended() returned");
    if(choose()) throw Exception();
    return V(&ext_result); }
  template<class T> bool contains(const T &) const;
};
struct Comb {
  typedef V result_type; const void *id; Comb(const void *i = 0) : id(i) {}
  template<class It> V operator()(It, It) { check(!ran, "C24: one call of a slot made from a signal calls that signal more than once"); ran = true; owner = id; if(choose()) throw Exception(); return V(&other_result); }
};
typedef s2::signal<V (V), Comb, Group, GroupCompare, Fn, ExtFn, Mutex> Sig;
__attribute__((used)) static void known_signals() { Sig s; }
// the function of the slot most recently made is called
static void run(const void *result, const char *what) {
  ran = false; V r; try { r = choose() ? captured->call(V(&slot_result)) : captured->call_const(V(&slot_result)); } catch(const Exception &) { return; }
  check(ran, what); check(r.p == result, what);
}
static long functor;
static void ext_runs(Sig &s, s2::connection &c) {
  check(captured, "C14: no slot is made from an extended slot");
  check(s2::connection() != c, "C14: connect_extended() returns an empty connection");
  own = &c; owner = 0; run(&ext_result, "C14: the result of an extended slot is not passed on"); if(ran) check(owner == &functor, "C14: another function than the one given to connect_extended() is called");
}
void h_fwd_ext(Sig &s) { sequential(); Sig::extended_slot_type t((ExtFn(&functor))); captured = 0; s2::connection c = s.connect_extended(t); ext_runs(s, c); }
static s2::connect_position place() { return choose() ? s2::at_back : s2::at_front; }
void h_fwd_ext_place(Sig &s) { sequential(); Sig::extended_slot_type t((ExtFn(&functor))); captured = 0; s2::connection c = s.connect_extended(t, place()); ext_runs(s, c); }
void h_fwd_ext_group(Sig &s, const Group &g) { sequential(); Sig::extended_slot_type t((ExtFn(&functor))); captured = 0; s2::connection c = s.connect_extended(g, t); ext_runs(s, c); }
void h_fwd_ext_group_place(Sig &s, const Group &g) { sequential(); Sig::extended_slot_type t((ExtFn(&functor))); captured = 0; s2::connection c = s.connect_extended(g, t, place()); ext_runs(s, c); }
// against other threads: the function may run as soon as the mutex is free
void h_fwd_ext_threads(Sig &s) { Sig::extended_slot_type t((ExtFn(&functor))); s2::connection c = s.connect_extended(t); }
void h_fwd_ext_group_threads(Sig &s, const Group &g) { Sig::extended_slot_type t((ExtFn(&functor))); s2::connection c = s.connect_extended(g, t); }
// two of them do not get in each other's way
void h_fwd_ext_two() {
  sequential(); Sig s, o; static long f1, f2;
  captured = 0; s2::connection c = s.connect_extended(Sig::extended_slot_type(ExtFn(&f1))); AnyFn *first = captured;
  captured = 0; s2::connection d = o.connect_extended(Sig::extended_slot_type(ExtFn(&f2))); AnyFn *second = captured;
  check(first && second && first != second, "C14: no slot is made from an extended slot");
  captured = first; own = &c; run(&ext_result, "C14: the result of an extended slot is not passed on"); if(ran) check(owner == &f1, "C14: another function than the one given to connect_extended() is called");
}
// a signal as a slot
static void forwards(const void *id) { owner = 0; run(&other_result, "C24: a slot made from a signal does not return its result"); if(ran) check(owner == id, "C24: a slot made from a signal does not call that signal"); }
void h_fwd_signal(Sig &s) { sequential(); s.set_combiner(Comb(&s)); long n = owners(&s); captured = 0; { Sig::slot_type t(s); check(captured, "C24: no slot is made from a signal"); check(owners(&s) == n, "C24: a slot made from a signal owns it"); forwards(&s); check(owners(&s) == n, "C24: a slot made from a signal owns it"); } }
void h_fwd_signal_copy(Sig &s) { sequential(); s.set_combiner(Comb(&s)); long n = owners(&s); Sig::slot_type t(s), u(t); check(owners(&s) == n, "C24: a slot made from a signal owns it"); forwards(&s); }
#if !defined(BOOST_NO_CXX11_RVALUE_REFERENCES)
// the slot follows the state of the signal when it is moved
void h_fwd_signal_moved(Sig &s) { sequential(); const void *id = &s; s.set_combiner(Comb(id)); captured = 0; Sig::slot_type t(s); Sig m(std::move(s)); Sig n; n = std::move(m); forwards(id); }
void h_fwd_signal_swap() { sequential(); Sig s, o; const void *id = &functor; s.set_combiner(Comb(id)); captured = 0; Sig::slot_type t(s); s.swap(o); forwards(id); }
#endif
void h_fwd_signal_const(Sig &s) { sequential(); s.set_combiner(Comb(&s)); const Sig &k = s; Sig::slot_type t(k); forwards(&s); }
// connected to another signal
void h_fwd_signal_connect(Sig &s) { sequential(); long n = owners(&s); { Sig o; o.connect(s); check(owners(&s) == n, "C24: connecting a signal to a signal owns it"); } check(owners(&s) == n, "C24: connecting a signal to a signal owns it"); }
// a signal connected to itself does not keep itself alive
void h_fwd_signal_self(Sig &s) { sequential(); long n = owners(&s); s.connect(s); check(owners(&s) == n, "C24: connecting a signal to itself owns it"); }
