// the removal of disconnected slots from the list; the combiner goes through the slots once, and may stop
#define SIMPLE
#include "sig.hpp"
user::CombinerResult h_gc_call(Sig &s, user::Arg &a, user::Arg2& b) { return s(a, b); }
user::CombinerResult h_gc_call_const(const Sig &s, user::Arg &a, user::Arg2& b) { return s(a, b); }
s2::connection h_gc_connect(Sig &s, const Sig::slot_type &t) { return s.connect(t, user::choose() ? s2::at_back : s2::at_front); }
s2::connection h_gc_connect_group(Sig &s, const user::Group &g, const Sig::slot_type &t) { return s.connect(g, t, user::choose() ? s2::at_back : s2::at_front); }
s2::connection h_gc_connect_ext(Sig &s, const Sig::extended_slot_type &t) { return s.connect_extended(t); }
s2::connection h_gc_connect_ext_group(Sig &s, const user::Group &g, const Sig::extended_slot_type &t) { return s.connect_extended(g, t); }
