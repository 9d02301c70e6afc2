// Signals whose slot functions, arguments and combiner check what reaches them.
#ifndef VERIF_FUN_HPP
#define VERIF_FUN_HPP
#include "user.hpp"
#include "seq.hpp"
#include <boost/signals2/signal.hpp>
#include <utility>
namespace s2 = boost::signals2;
namespace boost { namespace signals2 {
  template<> struct weak_ptr_traits<user::ForeignWeak> { typedef user::ForeignShared shared_type; };
  template<> struct shared_ptr_traits<user::ForeignShared> { typedef user::ForeignWeak weak_type; };
} }
#ifndef ARGS
#define ARGS V&, V
#endif
#ifndef RES
#define RES user::Result
#endif
// an argument: a value that knows whether it was moved from or destroyed
struct V {
  const void *p;
  constexpr V() : p(0) {}
  V(const V &o) : p(o.p) {}
  V(V &&o) noexcept : p(o.p) { o.p = 0; }
  V &operator=(const V &o) { p = o.p; return *this; }
  V &operator=(V &&o) noexcept { p = o.p; o.p = 0; return *this; }
  ~V() { p = 0; }
};
template<int I> V object;                 // the caller's object for argument I
// how argument I of declared type A is given to the signal, and what must reach the slots
template<int I, class A> struct Given {       // by value
  static A make() { return object<I>; }
  static void test(const V &v) { user::check(v.p == &object<I>, "C15: a slot receives another value than the one given to the signal, or one that was moved from"); }
};
template<int I, class A> struct Given<I, A&> {
  static A &make() { return object<I>; }
  static void test(const V &v) { user::check(&v == &object<I>, "C15: a reference argument does not denote the caller's object"); }
};
template<int I> struct Given<I, V*> {
  static V *make() { return &object<I>; }
  static void test(V *v) { user::check(v == &object<I>, "C15: a slot receives another value than the one given to the signal"); }
};
template<int I, class A, class B> void test_arg(B &&b) { user::check(std::is_lvalue_reference<B>::value, "C15: an argument reaches a slot as a temporary, which the slot may move from"); Given<I, A>::test(b); }
template<class S> struct Sigt;
template<class R, class... A> struct Sigt<R (A...)> {
  template<std::size_t... I, class... B> static void test(std::index_sequence<I...>, B &&... b) { (test_arg<I, A>(std::forward<B>(b)), ...); }
  template<class... B> static void test(B &&... b) { static_assert(sizeof...(A) == sizeof...(B), "as many arguments as given"); test(std::index_sequence_for<A...>(), std::forward<B>(b)...); }
  template<class F, std::size_t... I> static void call(F &f, std::index_sequence<I...>) { ((object<I>.p = &object<I>), ...); f(Given<I, A>::make()...); }
  template<class F> static void call(F &f) { call(f, std::index_sequence_for<A...>()); }
};
typedef Sigt<RES (ARGS)> Args;
#ifdef CAPTURE
// the function object a slot was last made from
struct AnyFn { virtual void call() = 0; virtual void call_const() = 0; virtual ~AnyFn() {} };
static AnyFn *captured;
template<class F> struct AnyFnOf : AnyFn { F f; AnyFnOf(const F &g) : f(g) {} void call() { Args::call(f); } void call_const() { const F &g = f; Args::call(g); } };
#endif
namespace user {
#ifdef RUNS
  void slot_runs();
#else
  inline void slot_runs() {}
#endif
  struct SlotFn {
    typedef RES result_type;
    SlotFn(); SlotFn(const SlotFn&); ~SlotFn(); SlotFn& operator=(const SlotFn&);
#ifdef CAPTURE
    template<class F> SlotFn(const F &f) { captured = new AnyFnOf<F>(f); }
    template<class F> SlotFn &operator=(const F &f) { captured = new AnyFnOf<F>(f); return *this; }
#else
    template<class F> SlotFn(const F &f);
    template<class F> SlotFn &operator=(const F &f);
#endif
    template<class... B> RES operator()(B &&... b) const { Args::test(std::forward<B>(b)...); slot_runs(); return call(); }
    RES call() const;
    template<class T> bool contains(const T&) const;
    template<class T> T* target();
    long data;
  };
  struct ExtSlotFn {
    typedef RES result_type;
    ExtSlotFn(); ExtSlotFn(const ExtSlotFn&); ~ExtSlotFn(); ExtSlotFn& operator=(const ExtSlotFn&);
    template<class F> ExtSlotFn(const F &f);
    template<class F> ExtSlotFn &operator=(const F &f);
    template<class... B> RES operator()(const s2::connection &c, B &&... b) const { test_connection(c); Args::test(std::forward<B>(b)...); return call(); }
    static void test_connection(const s2::connection &c);
    RES call() const;
    template<class T> bool contains(const T&) const;
    template<class T> T* target();
    long data;
  };
  struct Combiner {
    typedef CombinerResult result_type;
    Combiner(); Combiner(const Combiner&); Combiner& operator=(const Combiner&); ~Combiner();
    CombinerResult result();
    template<class It> CombinerResult operator()(It first, It last) {
      while(choose()) if(first != last) { *first; ++first; }
      return result();
    }
    long data;
  };
}
typedef s2::signal<RES (ARGS), user::Combiner, user::Group, user::GroupCompare, user::SlotFn, user::ExtSlotFn, user::Mutex> Sig;
__attribute__((used)) static void known_classes(Sig &s, Sig::slot_type &t, user::ForeignWeak &w) { t.track_foreign(w); s.connect(t); try { s.connect(t); } catch(s2::expired_slot &) {} }
__attribute__((used)) static void known_signals() { Sig s; }
#endif
