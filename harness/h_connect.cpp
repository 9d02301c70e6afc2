#include "sig.hpp"
// where a slot belongs when it is connected at this position
static s2::connect_position place(int kind, const user::Group *g) { bool back = user::choose(); user::connects_at(kind || !back ? kind : 2, back, g); return back ? s2::at_back : s2::at_front; }
s2::connection h_connect(Sig &s, const Sig::slot_type &t) { user::connecting(&t); return s.connect(t, place(0, 0)); }
s2::connection h_connect_group(Sig &s, const user::Group &g, const Sig::slot_type &t) { user::connecting(&t); return s.connect(g, t, place(1, &g)); }
s2::connection h_connect_ext(Sig &s, const Sig::extended_slot_type &t) { user::connecting(&t); return s.connect_extended(t, place(0, 0)); }
s2::connection h_connect_ext_group(Sig &s, const user::Group &g, const Sig::extended_slot_type &t) { user::connecting(&t); return s.connect_extended(g, t, place(1, &g)); }
// without a position: at the back
s2::connection h_connect_default(Sig &s, const Sig::slot_type &t) { user::connecting(&t); user::connects_at(2, true, 0); return s.connect(t); }
s2::connection h_connect_group_default(Sig &s, const user::Group &g, const Sig::slot_type &t) { user::connecting(&t); user::connects_at(1, true, &g); return s.connect(g, t); }
s2::connection h_connect_ext_default(Sig &s, const Sig::extended_slot_type &t) { user::connecting(&t); user::connects_at(2, true, 0); return s.connect_extended(t); }
s2::connection h_connect_ext_group_default(Sig &s, const user::Group &g, const Sig::extended_slot_type &t) { user::connecting(&t); user::connects_at(1, true, &g); return s.connect_extended(g, t); }
