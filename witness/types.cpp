// nested types, signal_type, conversions, copying and moving (C20)
#include <boost/signals2.hpp>
#include <boost/signals2/signal_type.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
namespace s2 = boost::signals2;
namespace k = boost::signals2::keywords;
#define SAME(A, B, MSG) static_assert(std::is_same<A, B>::value, MSG)
struct Comb { typedef long result_type; template<class I> long operator()(I, I) const { return 0; } };
struct Grp { bool operator<(const Grp &) const { return false; } };
struct GrpCmp { bool operator()(const Grp &, const Grp &) const { return false; } };
struct Mtx { void lock(); bool try_lock(); void unlock(); };
struct Obj {};
// -------- nested types of signal
#define SIGNAL_TYPES(SIG, R, COMB, GRP, CMP, SF, ESF, MTX, ARITY, SIGNATURE) \
  SAME(SIG::signature_type, SIGNATURE, "signal::signature_type"); \
  SAME(SIG::combiner_type, COMB, "signal::combiner_type"); \
  SAME(SIG::result_type, COMB::result_type, "signal::result_type is the result of the combiner"); \
  SAME(SIG::slot_result_type, R, "signal::slot_result_type"); \
  SAME(SIG::group_type, GRP, "signal::group_type"); \
  SAME(SIG::group_compare_type, CMP, "signal::group_compare_type"); \
  SAME(SIG::slot_function_type, SF, "signal::slot_function_type"); \
  SAME(SIG::extended_slot_function_type, ESF, "signal::extended_slot_function_type"); \
  SAME(SIG::slot_type::slot_function_type, SF, "signal::slot_type holds a slot_function_type"); \
  SAME(SIG::extended_slot_type::slot_function_type, ESF, "signal::extended_slot_type holds an extended_slot_function_type"); \
  SAME(SIG::slot_type::signature_type, SIGNATURE, "signal::slot_type has the signature of the signal"); \
  SAME(SIG::slot_type::result_type, R, "slot::result_type"); \
  static_assert(std::is_base_of<s2::slot_base, SIG::slot_type>::value && std::is_base_of<s2::slot_base, SIG::extended_slot_type>::value, "slots derive from slot_base"); \
  static_assert(std::is_base_of<s2::signal_base, SIG>::value, "a signal derives from signal_base"); \
  static_assert(int(SIG::arity) == ARITY, "signal::arity"); \
  static_assert(int(SIG::slot_type::arity) == ARITY, "slot::arity"); \
  static_assert(int(SIG::extended_slot_type::arity) == ARITY + 1, "extended slots take one argument more"); \
  SAME(SIG::extended_slot_type::arg<0>::type, const s2::connection &, "extended slots take the connection first"); \
  static_assert(!std::is_copy_constructible<SIG>::value && !std::is_copy_assignable<SIG>::value, "signals must not be copyable"); \
  static_assert(std::is_nothrow_move_constructible<SIG>::value && std::is_nothrow_move_assignable<SIG>::value, "signals move without throwing"); \
  static_assert(noexcept(swap(std::declval<SIG &>(), std::declval<SIG &>())) && noexcept(std::declval<SIG &>().swap(std::declval<SIG &>())), "signals swap without throwing"); \
  static_assert(std::is_copy_constructible<SIG::slot_type>::value && std::is_copy_assignable<SIG::slot_type>::value, "slots can be copied"); \
  static_assert(std::is_default_constructible<SIG>::value && std::is_constructible<SIG, const COMB &>::value && std::is_constructible<SIG, const COMB &, const CMP &>::value, "constructors of signal"); \
  static_assert(std::has_virtual_destructor<s2::signal_base>::value, "signal_base has a virtual destructor"); \
  static_assert(!std::is_convertible<SIG, s2::signal<double(SIG *)> >::value, "signals do not convert to other signals"); \
  SAME(decltype(std::declval<SIG &>().connect(std::declval<const SIG::slot_type &>())), s2::connection, "connect() returns a connection"); \
  SAME(decltype(std::declval<SIG &>().connect(std::declval<const SIG::slot_type &>(), s2::at_front)), s2::connection, "connect() returns a connection"); \
  SAME(decltype(std::declval<SIG &>().connect(std::declval<const SIG::group_type &>(), std::declval<const SIG::slot_type &>(), s2::at_back)), s2::connection, "connect() returns a connection"); \
  SAME(decltype(std::declval<SIG &>().connect_extended(std::declval<const SIG::extended_slot_type &>())), s2::connection, "connect_extended() returns a connection"); \
  SAME(decltype(std::declval<SIG &>().connect_extended(std::declval<const SIG::group_type &>(), std::declval<const SIG::extended_slot_type &>(), s2::at_front)), s2::connection, "connect_extended() returns a connection"); \
  SAME(decltype(std::declval<const SIG &>().num_slots()), std::size_t, "num_slots() returns a count"); \
  SAME(decltype(std::declval<const SIG &>().empty()), bool, "empty() returns bool"); \
  SAME(decltype(std::declval<const SIG &>().combiner()), SIG::combiner_type, "combiner() returns a copy of the combiner");
// arity 0, all defaults
typedef s2::signal<void ()> S0;
SIGNAL_TYPES(S0, void, s2::optional_last_value<void>, int, std::less<int>, boost::function<void ()>, boost::function<void (const s2::connection &)>, s2::mutex, 0, void ())
SAME(S0::result_type, void, "the default combiner of a void signal returns nothing");
// arity 1
typedef s2::signal<double (const std::string &)> S1;
SIGNAL_TYPES(S1, double, s2::optional_last_value<double>, int, std::less<int>, boost::function<double (const std::string &)>, boost::function<double (const s2::connection &, const std::string &)>, s2::mutex, 1, double (const std::string &))
SAME(S1::result_type, boost::optional<double>, "the default combiner returns an optional");
SAME(S1::arg<0>::type, const std::string &, "signal::arg<0>"); SAME(S1::slot_type::arg<0>::type, const std::string &, "slot::arg<0>");
SAME(S1::argument_type, const std::string &, "signal::argument_type"); SAME(S1::slot_type::argument_type, const std::string &, "slot::argument_type");
SAME(S1::extended_slot_type::arg<1>::type, const std::string &, "extended slots take the arguments of the signal");
// arity 2, everything given
typedef s2::signal<float (long *, Obj), Comb, Grp, GrpCmp, std::function<float (long *, Obj)>, std::function<float (const s2::connection &, long *, Obj)>, s2::dummy_mutex> S2;
typedef std::function<float (long *, Obj)> SF2; typedef std::function<float (const s2::connection &, long *, Obj)> ESF2; typedef float Sig2(long *, Obj);
SIGNAL_TYPES(S2, float, Comb, Grp, GrpCmp, SF2, ESF2, s2::dummy_mutex, 2, Sig2)
SAME(S2::arg<0>::type, long *, "signal::arg<0>"); SAME(S2::arg<1>::type, Obj, "signal::arg<1>"); SAME(S2::slot_type::arg<0>::type, long *, "slot::arg<0>"); SAME(S2::slot_type::arg<1>::type, Obj, "slot::arg<1>");
SAME(S2::first_argument_type, long *, "signal::first_argument_type"); SAME(S2::second_argument_type, Obj, "signal::second_argument_type");
SAME(S2::slot_type::first_argument_type, long *, "slot::first_argument_type"); SAME(S2::slot_type::second_argument_type, Obj, "slot::second_argument_type");
SAME(S2::extended_slot_type::arg<1>::type, long *, "extended slots take the arguments of the signal"); SAME(S2::extended_slot_type::arg<2>::type, Obj, "extended slots take the arguments of the signal");
// arity 3 and the largest arity of both implementations
struct A3 {}; struct A4 {}; struct A5 {}; struct A6 {}; struct A7 {}; struct A8 {};
typedef int Sig3(A3 &, const A4 *, A5); typedef s2::signal<Sig3> S3; typedef boost::function<int (const s2::connection &, A3 &, const A4 *, A5)> ESF3;
SIGNAL_TYPES(S3, int, s2::optional_last_value<int>, int, std::less<int>, boost::function<Sig3>, ESF3, s2::mutex, 3, Sig3)
SAME(S3::arg<0>::type, A3 &, "signal::arg<0>"); SAME(S3::arg<1>::type, const A4 *, "signal::arg<1>"); SAME(S3::arg<2>::type, A5, "signal::arg<2>"); SAME(S3::slot_type::arg<2>::type, A5, "slot::arg<2>");
typedef int Sig8(A3, A4, A5, A6, A7, A8, int, char); typedef s2::signal<Sig8> S8; typedef boost::function<int (const s2::connection &, A3, A4, A5, A6, A7, A8, int, char)> ESF8;
SIGNAL_TYPES(S8, int, s2::optional_last_value<int>, int, std::less<int>, boost::function<Sig8>, ESF8, s2::mutex, 8, Sig8)
SAME(S8::arg<0>::type, A3, "signal::arg<n>"); SAME(S8::arg<1>::type, A4, "signal::arg<n>"); SAME(S8::arg<2>::type, A5, "signal::arg<n>"); SAME(S8::arg<3>::type, A6, "signal::arg<n>"); SAME(S8::arg<4>::type, A7, "signal::arg<n>"); SAME(S8::arg<5>::type, A8, "signal::arg<n>"); SAME(S8::arg<6>::type, int, "signal::arg<n>"); SAME(S8::arg<7>::type, char, "signal::arg<n>");
SAME(S8::slot_type::arg<0>::type, A3, "slot::arg<n>"); SAME(S8::slot_type::arg<3>::type, A6, "slot::arg<n>"); SAME(S8::slot_type::arg<6>::type, int, "slot::arg<n>"); SAME(S8::slot_type::arg<7>::type, char, "slot::arg<n>");
// -------- slot
SAME(s2::slot<Sig3>::slot_function_type, boost::function<Sig3>, "the default slot function is boost::function");
static_assert(std::is_base_of<s2::slot<Sig3>, S3::slot_type>::value || std::is_convertible<s2::slot<Sig3>, S3::slot_type>::value, "a slot can be connected to a signal of its signature");
typedef s2::slot<Sig3, std::function<Sig3> > StdSlot3;
static_assert(std::is_convertible<StdSlot3, S3::slot_type>::value, "slots convert between slot function types");
static_assert(std::is_convertible<int (*)(A3 &, const A4 *, A5), S3::slot_type>::value, "a function converts to a slot");
static_assert(std::is_convertible<S3::weak_signal_type, S3::slot_type>::value, "a weak signal converts to a slot");
// -------- signal_type
SAME(s2::signal_type<void ()>::type, S0, "signal_type: all defaults");
SAME(s2::signal_type<k::signature_type<void ()> >::type, S0, "signal_type: named signature");
typedef double SigD(int);
#define ST s2::signal_type
SAME(s2::signal_type<SigD>::type, s2::signal<SigD>, "signal_type: all defaults");
typedef s2::signal_type<SigD>  D1; SAME(D1::signature_type, SigD, "signal_type::signature_type"); SAME(D1::combiner_type, s2::optional_last_value<double>, "signal_type: default combiner"); SAME(D1::group_type, int, "signal_type: default group"); SAME(D1::group_compare_type, std::less<int>, "signal_type: default group comparison"); SAME(D1::slot_function_type, boost::function<SigD>, "signal_type: default slot function"); SAME(D1::mutex_type, s2::mutex, "signal_type: default mutex");
typedef boost::function<double (const s2::connection &, int)> ESFD; SAME(D1::extended_slot_function_type, ESFD, "signal_type: default extended slot function");
typedef s2::signal_type<SigD, k::group_type<Grp> > D2; typedef s2::signal<SigD, s2::optional_last_value<double>, Grp> D2e; SAME(D2::type, D2e, "signal_type: the group alone"); SAME(D2::group_compare_type, std::less<Grp>, "signal_type: the default group comparison follows the group");
typedef s2::signal_type<SigD, k::mutex_type<s2::dummy_mutex> > D3; typedef s2::signal<SigD, s2::optional_last_value<double>, int, std::less<int>, boost::function<SigD>, ESFD, s2::dummy_mutex> D3e; SAME(D3::type, D3e, "signal_type: the mutex alone");
typedef s2::signal_type<SigD, k::slot_function_type<std::function<SigD> > > D4; typedef s2::signal<SigD, s2::optional_last_value<double>, int, std::less<int>, std::function<SigD> > D4e; SAME(D4::type, D4e, "signal_type: the slot function alone");
typedef std::function<double (const s2::connection &, int)> SESFD; typedef s2::signal_type<SigD, k::extended_slot_function_type<SESFD> > D5; typedef s2::signal<SigD, s2::optional_last_value<double>, int, std::less<int>, boost::function<SigD>, SESFD> D5e; SAME(D5::type, D5e, "signal_type: the extended slot function alone");
typedef s2::signal_type<SigD, k::combiner_type<Comb> > D6; typedef s2::signal<SigD, Comb> D6e; SAME(D6::type, D6e, "signal_type: the combiner alone");
typedef s2::signal_type<SigD, Comb> D7; SAME(D7::type, D6e, "signal_type: the combiner by position");
typedef s2::signal_type<SigD, k::group_compare_type<std::greater<int> > > D8; typedef s2::signal<SigD, s2::optional_last_value<double>, int, std::greater<int> > D8e; SAME(D8::type, D8e, "signal_type: the group comparison alone");
typedef s2::signal<SigD, Comb, Grp, GrpCmp, std::function<SigD>, SESFD, s2::dummy_mutex> All;
typedef s2::signal_type<k::mutex_type<s2::dummy_mutex>, k::extended_slot_function_type<SESFD>, k::slot_function_type<std::function<SigD> >, k::group_compare_type<GrpCmp>, k::group_type<Grp>, k::combiner_type<Comb>, k::signature_type<SigD> > AllR; SAME(AllR::type, All, "signal_type: all parameters in reverse order");
typedef s2::signal_type<k::group_compare_type<GrpCmp>, k::signature_type<SigD>, k::mutex_type<s2::dummy_mutex>, k::combiner_type<Comb>, k::extended_slot_function_type<SESFD>, k::group_type<Grp>, k::slot_function_type<std::function<SigD> > > AllS; SAME(AllS::type, All, "signal_type: all parameters shuffled");
typedef s2::signal_type<SigD, Comb, Grp, GrpCmp, std::function<SigD>, SESFD, s2::dummy_mutex> AllP; SAME(AllP::type, All, "signal_type: all parameters by position");
typedef s2::signal_type<float (A3 &, long), k::mutex_type<Mtx> > DM; typedef boost::function<float (const s2::connection &, A3 &, long)> DMesf; SAME(DM::extended_slot_function_type, DMesf, "signal_type: default extended slot function of two arguments");
// -------- combiners
SAME(s2::last_value<int>::result_type, int, "last_value::result_type"); SAME(s2::last_value<void>::result_type, void, "last_value<void>::result_type");
SAME(s2::optional_last_value<int>::result_type, boost::optional<int>, "optional_last_value::result_type"); SAME(s2::optional_last_value<void>::result_type, void, "optional_last_value<void>::result_type");
static_assert(std::is_base_of<std::exception, s2::no_slots_error>::value && std::is_base_of<std::exception, s2::expired_slot>::value, "the library's exceptions are std::exceptions");
// -------- uses
struct F3 { bool operator==(const F3 &) const; int operator()(A3 &, const A4 *, A5) const; }; struct F3x { int operator()(const s2::connection &, A3 &, const A4 *, A5) const; };
void uses(S3 &s, s2::signal<Sig3, s2::last_value<int> > &t, F3 f, F3x x, StdSlot3 ss, S3::slot_type st, boost::shared_ptr<void> p, boost::weak_ptr<int> w) {
  s.connect(f); s.connect(t); s.connect(boost::ref(f)); s.connect(1, f, s2::at_front); s.connect(ss); s.connect(st); st = f; st = ss;
  s.connect(S3::slot_type(f).track(p).track(w).track(t).track(st)); s.disconnect(f); s.disconnect(1); S3 m(std::move(s)), n; m = std::move(n); swap(m, n);

}
// (the preprocessed implementation cannot pass a reference to a non-const object to an extended slot: it does not compile there)
struct E1 { double operator()(const s2::connection &, const std::string &) const; bool operator==(const E1 &) const; };
void uses_extended(S1 &s, E1 x) { s.connect_extended(x); s.connect_extended(1, x, s2::at_front); S1::extended_slot_type t(x); s.connect_extended(t); }
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
void uses_extended(S3 &s, F3x x) { s.connect_extended(x); s.connect_extended(1, x); }
#endif
#ifdef REJECT_SIGNAL_COPY
S0 f(const S0 &s) { return S0(s); }
#endif
#ifdef REJECT_SIGNAL_ASSIGN
void f(S0 &a, const S0 &b) { a = b; }
#endif
#ifdef REJECT_WRONG_ARITY
struct G { void operator()(int, int) const; }; void f(S0 &s) { s.connect(G()); }
#endif
#ifdef REJECT_WRONG_ARGUMENT
struct G { double operator()(Obj) const; }; void f(S1 &s) { s.connect(G()); }
#endif
#ifdef REJECT_EXTENDED_AS_PLAIN
void f(S3 &s) { s.connect(F3x()); }
#endif
#ifdef REJECT_PLAIN_AS_EXTENDED
void f(S3 &s) { s.connect_extended(F3()); }
#endif
#ifdef REJECT_GROUP_TYPE
void f(S3 &s) { s.connect(Grp(), F3()); }
#endif
#ifdef REJECT_ARG_RANGE
typedef S3::arg<3>::type X;
#endif
#ifdef REJECT_ARG_RANGE_SLOT
typedef S3::slot_type::arg<3>::type X;
#endif
#ifdef REJECT_CALL_ARGS
void f(S3 &s, A3 &a) { s(a); }
#endif
#ifdef REJECT_SLOT_OTHER_SIGNATURE
void f(S3 &s, s2::slot<void (Obj)> t) { s.connect(t); }
#endif
#ifdef REJECT_ARGUMENT_TYPE_ARITY0
typedef S0::argument_type X;
#endif
#ifdef REJECT_FIRST_ARGUMENT_TYPE_ARITY1
typedef S1::first_argument_type X;
#endif
