#include "sig.hpp"
void h_disconnect_all(Sig &s) { s.disconnect_all_slots(); }
void h_disconnect_group(Sig &s, const user::Group &g) { user::group_is(&g); s.disconnect(g); }
void h_disconnect_slot(Sig &s, const user::Functor &f) { s.disconnect(f); }
void h_disconnect_slot_sig(Sig &s, const Sig &o) { user::comparing(&o); s.disconnect(o); }
void h_disconnect_slot_sigref(Sig &s, const Sig &o) { user::comparing(&o); s.disconnect(boost::ref(o)); }
void h_num_slots(const Sig &s) { user::count_is(s.num_slots()); }
void h_empty(const Sig &s) { user::empty_is(s.empty()); }
void h_num_slots_null(const Sig &s) { user::count_is(s.num_slots()); }
void h_empty_null(const Sig &s) { user::empty_is(s.empty()); }
user::Combiner h_combiner(const Sig &s) { return s.combiner(); }
void h_set_combiner(Sig &s, const user::Combiner &c) { s.set_combiner(c); }
