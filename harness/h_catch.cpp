// invocations whose combiner catches what dereferencing throws (C21)
#define CATCHING
#include "sig.hpp"
user::CombinerResult h_call_catch(Sig &s, user::Arg &a, user::Arg2& b) { return s(a, b); }
