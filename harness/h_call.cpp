#include "sig.hpp"
user::CombinerResult h_call(Sig &s, user::Arg &a, user::Arg2& b) { return s(a, b); }
user::CombinerResult h_call_const(const Sig &s, user::Arg &a, user::Arg2& b) { return s(a, b); }
