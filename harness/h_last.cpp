// last_value and optional_last_value (C07), given any sequence of results,
// exceptions and expired slots.  The iterator is a monitor.
#include "user.hpp"
#include <boost/signals2/last_value.hpp>
#include <boost/signals2/optional_last_value.hpp>
#include <iterator>
#include <cstddef>
using user::check; using user::choose; using user::known;
namespace s2 = boost::signals2;
static bool done, endKnown, isEnd, threw, have; static long expected;
static void reset() { done = endKnown = isEnd = threw = have = false; expected = 0; }
static bool atEnd() { if(!endKnown) { isEnd = known(choose()); endKnown = true; } return isEnd; }
static long val(const user::Result &r) { return r.data; } static long val(const user::Arg &r) { return r.data; } static long val(const long &r) { return r; }
namespace user { Arg *an_arg() noexcept; Result *a_result() noexcept; long a_long() noexcept; long *longs() noexcept; }
static user::Result &fresh(user::Result *) { return *user::a_result(); } static user::Arg &fresh(user::Arg *) { return *user::an_arg(); } static long &fresh(long *) { long *p = user::longs(); *p = user::a_long(); return *p; }
// a position is dereferenced
static void deref(bool sentinel) {
  check(!sentinel && !atEnd(), "C07: the end of the sequence is dereferenced"); check(!done, "C07: a position is dereferenced more than once"); check(!threw, "C07: a position is dereferenced after an exception was to be passed on"); done = true;
  if(choose()) boost::throw_exception(s2::expired_slot());
  if(choose()) { threw = true; throw user::Exception(); }
  if(choose()) { threw = true; throw boost::bad_weak_ptr(); }
  if(choose()) { threw = true; throw std::exception(); }
}
template<class T, class Ref> struct It {
  typedef std::input_iterator_tag iterator_category; typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type value_type; typedef std::ptrdiff_t difference_type; typedef value_type *pointer; typedef Ref reference;
  bool sentinel;
  explicit It(bool s) : sentinel(s) {}
  Ref operator*() const { deref(sentinel); value_type &r = fresh((value_type *)nullptr); have = true; expected = val(r); return static_cast<Ref>(r); }
  void advance() { check(!sentinel && !atEnd(), "C07: the sequence is advanced past its end"); check(done, "C07: a position is passed over without being dereferenced"); done = false; endKnown = false; }
  It &operator++() { advance(); return *this; }
  It operator++(int) { It t(*this); advance(); return t; }
  bool operator==(const It &o) const { return sentinel == o.sentinel || atEnd(); }
  bool operator!=(const It &o) const { return !(*this == o); }
};
struct VoidIt {
  typedef std::input_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void *pointer; typedef void reference;
  bool sentinel;
  explicit VoidIt(bool s) : sentinel(s) {}
  void operator*() const { deref(sentinel); }
  void advance() { check(!sentinel && !atEnd(), "C07: the sequence is advanced past its end"); check(done, "C07: a position is passed over without being dereferenced"); done = false; endKnown = false; }
  VoidIt &operator++() { advance(); return *this; }
  VoidIt operator++(int) { VoidIt t(*this); advance(); return t; }
  bool operator==(const VoidIt &o) const { return sentinel == o.sentinel || atEnd(); }
  bool operator!=(const VoidIt &o) const { return !(*this == o); }
};
static void returned() { check(!threw, "C07: an exception is not passed on"); check(endKnown && isEnd && !done, "C07: the sequence is not gone through to its end"); }
// (copying or assigning a class may throw)
template<class T, class Ref> static void last() {
  reset(); const s2::last_value<T> c = s2::last_value<T>();
  try { T r = c(It<T, Ref>(false), It<T, Ref>(true)); returned(); check(have, "C07: a value is returned although there is none"); check(val(r) == expected, "C07: the value returned is not the last one"); }
  catch(s2::no_slots_error &) { returned(); check(!have, "C07: no_slots_error is thrown although there is a value"); }
  catch(user::Exception &) { check(threw || std::is_class<T>::value, "C07: an exception appears that was not thrown"); }
  catch(s2::expired_slot &) { check(false, "C07: expired_slot is passed on"); }
  catch(std::exception &) { check(threw, "C07: an exception appears that was not thrown"); }
}
template<class T, class Ref> static void optional() {
  reset(); const s2::optional_last_value<T> c = s2::optional_last_value<T>();
  try { boost::optional<T> r = c(It<T, Ref>(false), It<T, Ref>(true)); returned(); check(known((bool)r) == have, "C07: an empty optional is returned exactly if there is no value"); if(have) check(val(*r) == expected, "C07: the value returned is not the last one"); }
  catch(user::Exception &) { check(threw || std::is_class<T>::value, "C07: an exception appears that was not thrown"); }
  catch(s2::expired_slot &) { check(false, "C07: expired_slot is passed on"); }
  catch(std::exception &) { check(threw, "C07: an exception appears that was not thrown"); }
}
template<class C> static void none() {
  reset(); const C c = C();
  try { c(VoidIt(false), VoidIt(true)); returned(); }
  catch(user::Exception &) { check(threw, "C07: an exception appears that was not thrown"); }
  catch(s2::expired_slot &) { check(false, "C07: expired_slot is passed on"); }
  catch(std::exception &) { check(threw, "C07: an exception appears that was not thrown"); }
}
void h_last_copyable() { last<user::Result, user::Result &>(); }
void h_last_movable() { last<user::Arg, user::Arg &>(); }
void h_last_long() { last<long, long &>(); }
void h_last_ref() { last<user::Result &, user::Result &>(); }
void h_last_byvalue() { last<user::Result, user::Result>(); }
void h_last_void() { none<s2::last_value<void> >(); }
void h_opt_copyable() { optional<user::Result, user::Result &>(); }
void h_opt_movable() { optional<user::Arg, user::Arg &>(); }
void h_opt_long() { optional<long, long &>(); }
void h_opt_ref() { optional<user::Result &, user::Result &>(); }
void h_opt_byvalue() { optional<user::Result, user::Result>(); }
void h_opt_void() { none<s2::optional_last_value<void> >(); }
