// Foreign smart pointers: two kinds of weak pointer that know what they refer to, and the owners they yield.
#include "sig.hpp"
namespace fp {
  struct Thing { int refs; };                     // what is pointed to
  static Thing a, b;
  static int weaks[2], owners[2]; static bool asked, answer; static int told;
  static int at(const Thing *t) { return t == &a ? 0 : 1; }
  template<int K> struct Owner {
    const Thing *thing; bool empty;
    Owner(const Thing *t, bool e) : thing(t), empty(e) { if(!empty) ++owners[at(thing)]; }
    Owner(const Owner &o) : thing(o.thing), empty(o.empty) { user::check(o.thing != 0, "C23: a destroyed owner is copied"); if(user::choose()) throw user::Exception(); if(!empty) ++owners[at(thing)]; }
    ~Owner() { user::check(thing != 0, "C23: an owner is destroyed twice"); if(!empty) { user::check(owners[at(thing)] > 0, "C23: an owner is destroyed twice"); --owners[at(thing)]; } thing = 0; }
  private: Owner &operator=(const Owner &);
  };
  template<int K> struct Weak {
    const Thing *thing;
    explicit Weak(const Thing *t) : thing(t) { ++weaks[at(t)]; }
    Weak(const Owner<K> &o) : thing(o.thing) { user::check(o.thing != 0, "C23: a destroyed owner is tracked"); ++weaks[at(thing)]; }
    Weak(const Weak &o) : thing(o.thing) { user::check(o.thing != 0, "C23: a destroyed pointer is copied"); if(user::choose()) throw user::Exception(); ++weaks[at(thing)]; }
    ~Weak() { user::check(thing != 0, "C23: a pointer is destroyed twice"); --weaks[at(thing)]; thing = 0; }
    Owner<K> lock() const { user::check(thing != 0, "C23: a destroyed pointer is locked"); asked = true; return Owner<K>(thing, told == 1); }
    bool expired() const { user::check(thing != 0, "C23: a destroyed pointer is asked"); asked = true; return told == 1; }
  private: Weak &operator=(const Weak &);
  };
}
namespace boost { namespace signals2 {
  template<int K> struct weak_ptr_traits<fp::Weak<K> > { typedef fp::Owner<K> shared_type; };
  template<int K> struct shared_ptr_traits<fp::Owner<K> > { typedef fp::Weak<K> weak_type; };
} }
using namespace fp; typedef s2::detail::foreign_void_weak_ptr FW; typedef s2::detail::foreign_void_shared_ptr FS;
static void begin() { user::sequential(); weaks[0] = weaks[1] = owners[0] = owners[1] = 0; asked = false; told = user::choose() ? 1 : 0; }
static void none() { user::check(weaks[0] == 0 && weaks[1] == 0, "C23: a copy of a tracked pointer is never destroyed"); user::check(owners[0] == 0 && owners[1] == 0, "C23: an owner is never destroyed"); }
// this refers to what the pointer it was made from refers to
static void is(const FW &w, const Thing *t) {
  int i = at(t), n = owners[i], other = owners[1 - i];
  asked = false; bool e = w.expired(); user::check(asked && e == (told == 1), "C23: expired() is not what the foreign pointer says");
  asked = false; { FS s = w.lock(); user::check(asked, "C23: lock() does not lock the foreign pointer"); user::check(owners[i] == n + (told == 1 ? 0 : 1) && owners[1 - i] == other, "C23: lock() does not own what the foreign pointer yields"); }
  user::check(owners[i] == n && owners[1 - i] == other, "C23: what lock() owns is not released");
}
void h_fp_weak_copy() {
  begin(); try { Weak<0> w(&a); FW x(w); is(x, &a); { FW y(x); user::check(weaks[0] == 3, "C23: a copy does not own a copy of the pointer"); is(y, &a); if(user::choose()) { FW z(y); is(z, &a); } } is(x, &a); user::check(weaks[0] == 2, "C23: a pointer is not tracked by a copy of it"); } catch(...) {} none(); }
void h_fp_weak_assign() {
  begin(); try { Weak<0> w(&a); Weak<1> v(&b); FW x(w), y(v);
    try { x = y; is(x, &b); user::check(weaks[0] == 1 && weaks[1] == 3, "C23: assignment does not exchange the pointer owned"); } catch(...) { }
    is(y, &b); if(user::choose()) { x = x; user::check(weaks[1] + weaks[0] == 4, "C23: self assignment changes the pointers owned"); is(y, &b); } } catch(...) {} none(); }
void h_fp_weak_assign_same() { begin(); try { Weak<0> w(&a), v(&b); FW x(w), y(v); bool done = false; try { x = y; done = true; } catch(...) {} is(x, done ? &b : &a); is(y, &b); } catch(...) {} none(); }
void h_fp_weak_empty() { begin(); try { FW x; Weak<0> w(&a); FW y(w); if(user::choose()) { x = y; is(x, &a); is(y, &a); } else { x.swap(y); is(x, &a); } } catch(...) {} none(); }
void h_fp_weak_swap() { begin(); try { Weak<0> w(&a); Weak<1> v(&b); FW x(w), y(v); x.swap(y); is(x, &b); is(y, &a); } catch(...) {} none(); }
static void held(int na, int nb) { user::check(owners[0] == na && owners[1] == nb, "C23: an owner is released too early, too late or kept twice"); }
void h_fp_shared_copy() { begin(); try { Owner<0> o(&a, false); FS x(o); held(2, 0); { FS y(x); held(3, 0); FS z; } held(2, 0); } catch(...) {} none(); }
void h_fp_shared_assign() {
  begin(); try { Owner<0> o(&a, false); Owner<1> p(&b, false); FS x(o), y(p); held(2, 2);
    bool done = false; try { x = y; done = true; } catch(...) {} if(done) held(1, 3); else held(2, 2);
    if(user::choose()) { x = x; if(done) held(1, 3); else held(2, 2); } } catch(...) {} none(); }
void h_fp_shared_empty() { begin(); try { FS x, e; Owner<0> o(&a, false); FS y(o); if(user::choose()) { x = y; held(3, 0); } else { x.swap(y); held(2, 0); y.swap(e); held(2, 0); } } catch(...) {} none(); }
void h_fp_shared_swap() { begin(); try { Owner<0> o(&a, false); Owner<1> p(&b, false); FS x(o); { FS y(p); x.swap(y); held(2, 2); } held(1, 2); } catch(...) {} none(); }
// the tracked object of a slot, as slots keep it
typedef s2::detail::void_weak_ptr_variant VW; typedef s2::detail::void_shared_ptr_variant VS;
void h_fp_variant() {
  begin(); try { Weak<0> w(&a); VW v((FW(w))); user::check(weaks[0] == 2, "C23: a tracked pointer is not kept"); VW c(v); user::check(weaks[0] == 3, "C23: a tracked pointer is not copied with its slot");
    asked = false; bool e = boost::apply_visitor(s2::detail::expired_weak_ptr_visitor(), c); user::check(asked && e == (told == 1), "C23: a slot is not told that a foreign pointer expired");
    asked = false; { VS s(boost::apply_visitor(s2::detail::lock_weak_ptr_visitor(), c)); held(told == 1 ? 0 : 1, 0); { VS t(s); held(told == 1 ? 0 : 2, 0); } held(told == 1 ? 0 : 1, 0); } held(0, 0);
  } catch(...) {} none(); }
void h_fp_variant_assign() {
  begin(); try { Weak<0> w(&a); Weak<1> x(&b); VW v((FW(w))), c((FW(x))); bool done = false; try { c = v; done = true; } catch(...) {}
    if(done) { user::check(weaks[0] == 3 && weaks[1] == 1, "C23: a tracked pointer is not copied with its slot"); } else user::check(weaks[0] == 2 && weaks[1] == 2, "C23: a failed assignment changes what is tracked"); } catch(...) {} none(); }
// tracking an owner keeps a weak pointer to what it owns
typedef Sig::slot_type Slot;
void h_fp_track_weak(Slot &t) { begin(); try { Weak<0> w(&a); t.track_foreign(w); user::check(weaks[0] == 1, "C23: a pointer is not tracked by a copy of it"); } catch(...) {} none(); }
void h_fp_track_shared(Slot &t) { begin(); try { Owner<0> o(&a, false); t.track_foreign(o); held(1, 0); user::check(weaks[0] == 0, "C23: a copy of a tracked pointer is never destroyed"); } catch(...) {} none(); }
