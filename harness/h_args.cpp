#define CAPTURE
#include "fun.hpp"
inline void user::ExtSlotFn::test_connection(const s2::connection &) {}
void h_args_call(Sig &s) { Args::call(s); }
void h_args_const(const Sig &s) { Args::call(s); }
void h_args_slot(Sig::slot_type &t) { Args::call(t); }
void h_args_slot_const(const Sig::slot_type &t) { Args::call(t); }
// a signal used as a slot: what the slot holds forwards to the signal
void h_args_signal(Sig &s) {
  Sig::slot_type t(s);
  if(!captured) user::check(false, "C15: a slot made from a signal holds no function");
  if(user::choose()) captured->call(); else captured->call_const();
}
