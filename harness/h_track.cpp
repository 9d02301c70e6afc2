// What a slot tracks, and what follows from it.
#define ARGS
#define RUNS
#include "fun.hpp"
#include <boost/visit_each.hpp>
namespace user {
  // facts about the tracking of a slot: checked by the analyser
  void tracks_pointer(const void *slot, const void *weak_ptr) noexcept;      // tracks what this weak pointer refers to
  void tracks_foreign(const void *slot, const void *foreign) noexcept;
  void tracks_trackable(const void *slot, const s2::trackable *) noexcept;
  void tracks_signal(const void *slot, const void *signal) noexcept;
  void tracks_all(const void *slot, const void *other) noexcept;             // tracks all that another slot tracks
  void tracks_only(const void *slot, int n) noexcept;                        // tracks n objects
  void tracks_expired(const void *slot, bool) noexcept;                      // the answer of expired()
  void tracks_locked(const void *slot, const void *locked) noexcept;         // lock() returned this
  void tracks_throws(const void *slot) noexcept;                             // expired_slot was thrown
  const void *identity(const s2::trackable *) noexcept;                     // what stands for the object in slots that track it
  struct OtherFn { typedef RES result_type; OtherFn(); OtherFn(const OtherFn&); ~OtherFn(); OtherFn &operator=(const OtherFn&); template<class F> OtherFn(const F &); template<class F> OtherFn &operator=(const F &); RES operator()() const; long data; };
  struct Fun { RES operator()() const; long data; };
  struct Tr : s2::trackable { long data; RES operator()() const; };     // an object with automatic tracking
  // a function object with bound values, as bind makes them
  template<class T> struct Bound { T value; RES operator()() const; explicit Bound(const T &t) : value(t) {} };
  template<class T, class U> struct Bound2 { T a; U b; RES operator()() const; Bound2(const T &t, const U &u) : a(t), b(u) {} };
  template<class Visitor, class T, class U> void visit_each(Visitor &v, const Bound2<T, U> &b, long) { using boost::visit_each; visit_each(v, b.a, 0); visit_each(v, b.b, 0); }
  template<class Visitor, class T> void visit_each(Visitor &v, const Bound<T> &b, long) { using boost::visit_each; visit_each(v, b.value, 0); }
}
typedef Sig::slot_type Slot; typedef s2::slot<RES (ARGS), user::OtherFn> Other;
using namespace user;
static Fun fun() { return Fun(); }

// a slot tracks what it is asked to track, and so do copies of it
void h_trk_weak(const Slot &proto, const boost::weak_ptr<Tracked> &w) {
  Slot t(proto); t.track(w); tracks_pointer(&t, &w); tracks_all(&t, &proto);
  if(choose()) { Slot c(t); tracks_pointer(&c, &w); tracks_all(&c, &proto); }
  else if(choose()) { Slot c(fun()); c = t; tracks_pointer(&c, &w); tracks_all(&c, &proto); }
  else { Other c(t); tracks_pointer(&c, &w); tracks_all(&c, &proto); }
}
void h_trk_shared(const Slot &proto, const boost::shared_ptr<Tracked> &p) { sequential(); if(p.use_count() == 0) return; long n = p.use_count(); Slot t(proto); t.track(p); tracks_pointer(&t, &p); tracks_all(&t, &proto); check(p.use_count() == n, "C23: tracking a shared pointer keeps the object alive"); }
void h_trk_two(const boost::weak_ptr<Tracked> &w, const boost::weak_ptr<Tracked> &v) { Slot t(fun()); tracks_only(&t, 0); t.track(w).track(v); tracks_pointer(&t, &w); tracks_pointer(&t, &v); tracks_only(&t, 2); }
void h_trk_slot(const Slot &proto, const Slot &other) { Slot t(proto); t.track(other); tracks_all(&t, &proto); tracks_all(&t, &other); tracks_only(&t, 0); }
void h_trk_other(const Slot &proto, const Other &other) { Slot t(proto); t.track(other); tracks_all(&t, &proto); tracks_all(&t, &other); tracks_only(&t, 0); }
void h_trk_signal(const Slot &proto, const Sig &s) { Slot t(proto); t.track(s); tracks_signal(&t, &s); tracks_all(&t, &proto); }
void h_trk_foreign(const Slot &proto, const ForeignWeak &w) { Slot t(proto); t.track_foreign(w); tracks_foreign(&t, &w); tracks_all(&t, &proto); }
void h_trk_std(const Slot &proto, const ForeignShared &p) { Slot t(proto); t.track_foreign(p); tracks_all(&t, &proto); tracks_only(&t, 1); }
// signals and trackable objects in slot functions
void h_trk_sigslot(const Sig &s) { Slot t(s); tracks_signal(&t, &s); tracks_only(&t, 1); }
void h_trk_bound_value(const Tr &o) { Bound<Tr> b(o); Slot t(b); tracks_trackable(&t, &b.value); tracks_only(&t, 1); }
void h_trk_bound_ptr(Tr *o) { Bound<Tr *> b(o); Slot t(b); if(o) tracks_trackable(&t, o); tracks_only(&t, o ? 1 : 0); }
void h_trk_bound_cptr(const Tr *o) { Bound<const Tr *> b(o); Slot t(b); if(o) tracks_trackable(&t, o); tracks_only(&t, o ? 1 : 0); }
void h_trk_bound_ref(Tr &o) { Bound<boost::reference_wrapper<Tr> > b(boost::ref(o)); Slot t(b); tracks_trackable(&t, &o); tracks_only(&t, 1); }
void h_trk_bound_cref(const Tr &o) { Bound<boost::reference_wrapper<const Tr> > b(boost::cref(o)); Slot t(b); tracks_trackable(&t, &o); tracks_only(&t, 1); }
void h_trk_bound_sigptr(Sig *s) { Bound<Sig *> b(s); Slot t(b); if(s) tracks_signal(&t, s); tracks_only(&t, s ? 1 : 0); }
void h_trk_bound_sigref(Sig &s) { Bound<boost::reference_wrapper<Sig> > b(boost::ref(s)); Slot t(b); tracks_signal(&t, &s); tracks_only(&t, 1); }
void h_trk_bound_csigref(const Sig &s) { Bound<boost::reference_wrapper<const Sig> > b(boost::cref(s)); Slot t(b); tracks_signal(&t, &s); tracks_only(&t, 1); }
void h_trk_function(const Tr &o) { Slot t(o); tracks_trackable(&t, &o); tracks_only(&t, 1); }        // the function object itself is trackable
void h_trk_function_ref(Tr &o) { Slot t(boost::ref(o)); tracks_trackable(&t, &o); tracks_only(&t, 1); }
void h_trk_plain(int *p) { Bound<int *> b(p); Slot t(b); tracks_only(&t, 0); }
// a copy of a trackable object is tracked on its own
void h_trk_bound_two(Tr &o, Sig &s, Tr &p) { if(known(&o == &p)) return; Bound2<Tr *, Bound2<boost::reference_wrapper<Sig>, Tr> > b(&o, Bound2<boost::reference_wrapper<Sig>, Tr>(boost::ref(s), p)); Slot t(b); tracks_trackable(&t, &o); tracks_signal(&t, &s); tracks_trackable(&t, &b.b.b); tracks_only(&t, 3); }
// a trackable object keeps its identity when it is assigned to, and has one of its own when it is copied or made
void h_trk_assign(const Tr &o, Tr &p) { sequential(); const void *i = identity(&p); p = o; check(identity(&p) == i, "C13: assigning to a trackable object makes the slots it is in expire"); }
void h_trk_identity(const Tr &o) { sequential(); Tr c(o), d(o), e; const void *i = identity(&o); check(identity(&c) && identity(&c) != i && identity(&d) != i && identity(&e) && identity(&e) != i && identity(&c) != identity(&d) && identity(&e) != identity(&d), "C13: the end of a trackable object goes unnoticed because a copy of it lives"); }
void h_trk_copy(const Tr &o, Tr &p) { Tr c(o); Bound<Tr *> b(&c); Slot t(b); tracks_trackable(&t, &c); Bound<const Tr *> d(&o); Slot u(d); tracks_trackable(&u, &o); }
// expiry
void h_trk_expired(const Slot &t) { tracks_expired(&t, t.expired()); }
void h_trk_lock(const Slot &t) { try { Slot::locked_container_type l = t.lock(); tracks_locked(&t, &l); } catch(const s2::expired_slot &) { tracks_throws(&t); } }
static bool runs;
void h_trk_call(Slot &t) { runs = false; try { t(); } catch(const s2::expired_slot &) { if(!runs) tracks_throws(&t); throw; } check(runs, "C13: calling a slot does not call its function"); }
void h_trk_call_const(const Slot &t) { runs = false; try { t(); } catch(const s2::expired_slot &) { if(!runs) tracks_throws(&t); throw; } check(runs, "C13: calling a slot does not call its function"); }
void user::slot_runs() { runs = true; }
