// signals as handles to their state (C22); h_move_*: neither is null, h_null_*: either may be null
#include "sig.hpp"
using user::check; using user::impl; using user::known; using user::quiet;
static void is_null(Sig &s, const user::Group &g, const user::Functor &f) {
  check(impl(&s) == nullptr && s.null(), "C22: the source of a move is null");
  quiet(true); check(s.num_slots() == 0, "C22: a null signal has no slots"); check(s.empty(), "C22: a null signal is empty");
  s.disconnect_all_slots(); s.disconnect(g); s.disconnect(f); quiet(false);
  check(impl(&s) == nullptr && s.null(), "C22: disconnecting has no effect on a null signal");
}
static void has(Sig &s, const void *p, const char *) { check(impl(&s) == p, "C22: the whole state is transferred"); check(known(s.null()) == (p == nullptr), "C22: a signal is null exactly if it has no state"); }
void h_move_ctor(Sig &a, const user::Group &g, const user::Functor &f) { const void *p = impl(&a); check(p != nullptr, "C22: a signal has a state"); quiet(true); Sig b(std::move(a)); quiet(false); has(b, p, ""); is_null(a, g, f); { quiet(true); Sig c(std::move(a)); quiet(false); is_null(c, g, f); is_null(a, g, f); } quiet(true); a = std::move(b); quiet(false); has(a, p, ""); is_null(b, g, f); }
void h_move_assign(Sig &a, Sig &b, const user::Group &g, const user::Functor &f) { if(known(&a == &b)) return; const void *p = impl(&a); b = std::move(a); has(b, p, ""); is_null(a, g, f); }
void h_move_assign_null(Sig &a, Sig &b, const user::Group &g, const user::Functor &f) { if(known(&a == &b)) return; const void *p = impl(&a); b = std::move(a); has(b, p, ""); is_null(a, g, f); }
void h_move_self(Sig &a) { const void *p = impl(&a); Sig &r = a; quiet(true); a = std::move(r); quiet(false); has(a, p, ""); }
void h_move_self_null(Sig &a) { const void *p = impl(&a); Sig &r = a; quiet(true); a = std::move(r); quiet(false); has(a, p, ""); }
void h_move_swap(Sig &a, Sig &b) { const void *p = impl(&a), *q = impl(&b); quiet(true); a.swap(b); quiet(false); has(a, q, ""); has(b, p, ""); }
void h_move_swap_null(Sig &a, Sig &b) { const void *p = impl(&a), *q = impl(&b); quiet(true); a.swap(b); quiet(false); has(a, q, ""); has(b, p, ""); }
void h_move_free_swap_null(Sig &a, Sig &b) { const void *p = impl(&a), *q = impl(&b); using std::swap; quiet(true); swap(a, b); quiet(false); has(a, q, ""); has(b, p, ""); }
void h_move_swap_self(Sig &a) { const void *p = impl(&a); quiet(true); a.swap(a); quiet(false); has(a, p, ""); }
void h_null_ops_null(Sig &a, const user::Group &g, const user::Functor &f) { const void *p = impl(&a); has(a, p, ""); if(p == nullptr) is_null(a, g, f); }
void h_move_eq_null(const Sig &a, const Sig &b) { check(known(a == b) == (impl(&a) == impl(&b)), "C22: signals are equal exactly if they share their state"); }
// a new signal takes its combiner and group comparison along
void h_move_new(const user::Combiner &c, const user::GroupCompare &gc, const user::Group &g, const user::Functor &f) {
  Sig a(c, gc); check(impl(&a) != nullptr && !a.null(), "C22: a new signal has a state"); const void *p = impl(&a);
  quiet(true); Sig b(std::move(a)); quiet(false); has(b, p, ""); is_null(a, g, f); { user::Combiner d = b.combiner(); check(d.data == c.data, "C22: the combiner is transferred"); }
}
