// deconstruct (C16).  The classes here are monitors: they check the order of
// the calls they receive.
#include "user.hpp"
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/postconstructible.hpp>
#include <boost/signals2/predestructible.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <utility>
using user::check; using user::choose; using user::known;
namespace s2 = boost::signals2;
static int ctor, post, pre, dtor, nargs, npost; static const void *self, *arg[9], *parg[9]; static bool ctorThrew, postThrew, gone;
static void reset() { ctor = post = pre = dtor = nargs = npost = 0; self = nullptr; ctorThrew = postThrew = gone = false; }
static void put(const void **to, int) { (void)to; }
template<class A, class... R> static void put(const void **to, int i, const A &a, const R &...r) { to[i] = &a; put(to, i + 1, r...); }
static void constructed(const void *p) { check(ctor == 0, "C16: the object is constructed more than once"); ++ctor; self = p; }
static void postconstructed(const void *p) { check(ctor == 1 && dtor == 0 && p == self, "C16: adl_postconstruct is called on something else than the living object"); check(post == 0, "C16: adl_postconstruct is called more than once"); ++post; }
static void predestructed(const void *p) { check(p == self && ctor == 1, "C16: adl_predestruct is called on something else than the object"); check(pre == 0, "C16: adl_predestruct is called more than once"); check(dtor == 0, "C16: adl_predestruct is called after the destructor"); check(gone, "C16: adl_predestruct is called while the object has an owner"); ++pre; }
static void destroyed(const void *p) { check(p == self && ctor == 1, "C16: something else than the object is destroyed"); check(dtor == 0, "C16: the object is destroyed more than once"); check(gone, "C16: the object is destroyed while it has an owner"); check(pre == 1, "C16: the object is destroyed without adl_predestruct having been called"); ++dtor; }
struct T {
  template<class... A> explicit T(const A &...a) { if(choose()) { ctorThrew = true; throw user::Exception(); } nargs = sizeof...(A); put(arg, 0, a...); constructed(this); first = last = 0; }
  T(const T &) = delete;
  ~T() { destroyed(this); }
  long first; char c[33]; long last;
};
template<class U, class... A> void adl_postconstruct(const boost::shared_ptr<U> &sp, T *p, const A &...a) {
  postconstructed(p); check(sp.get() == p && sp.use_count() > 0, "C16: adl_postconstruct is not given an owner of the object"); npost = sizeof...(A); put(parg, 0, a...);
  if(choose()) { postThrew = true; throw user::Exception(); }
}
void adl_predestruct(T *p) { predestructed(p); }
static void finish() {
  if(ctorThrew || ctor == 0) check(post == 0 && pre == 0 && dtor == 0, "C16: an object whose constructor threw is postconstructed, predestructed or destroyed");
  else { check(dtor == 1, "C16: the object is not destroyed when its last owner is gone"); check(pre == 1, "C16: adl_predestruct is not called"); }
}
template<class U, class... A> static void life(const A &...a) {
  reset(); bool caught = false;
  try {
    boost::shared_ptr<U> k1, k2;
    {
      struct Leave { ~Leave() { if(ctor == 1 && !k->get()) gone = true; } boost::shared_ptr<U> *k; } leave = { &k1 };
      try {
        s2::postconstructor_invoker<U> inv = s2::deconstruct<U>(a...);
        check(ctor == 1 && !ctorThrew, "C16: deconstruct() returns without having constructed the object"); check(post == 0, "C16: adl_postconstruct is called before the shared_ptr is asked for"); check(nargs == sizeof...(A), "C16: the constructor is given other arguments");
        gone = true;       // if what follows throws, the invoker was the last owner
        if(choose()) { const boost::shared_ptr<U> &r = inv; check(post == 1, "C16: the shared_ptr is handed out before adl_postconstruct was called"); k1 = r; } else { k1 = inv.postconstruct(); check(post == 1, "C16: the shared_ptr is handed out before adl_postconstruct was called"); }
        gone = false; check(k1.get() == self, "C16: the shared_ptr does not own the object"); check(npost == 0, "C16: adl_postconstruct is given arguments that were not given");
        k2 = inv; k2 = inv.postconstruct(); check(k2 == k1, "C16: the invoker hands out another object");
      } catch(...) { if(ctor == 1) gone = true; throw; }
    }
    k1.reset(); gone = true; check(ctor == 1 && pre == 0 && dtor == 0, "C16: the object dies although it has an owner"); k2.reset(); finish();
  } catch(user::Exception &) { caught = true; check(ctorThrew || postThrew, "C16: an exception was not thrown by user code"); gone = true; }
  catch(std::bad_alloc &) { gone = true; caught = true; check(ctor == 0, "C16: an exception was not thrown by user code"); }
  if(ctorThrew || postThrew) check(caught, "C16: an exception of the constructor or of adl_postconstruct does not reach the caller");
  finish();
}
static bool passed(const void **to, const long *v, int n) { return (n < 1 || to[0] == v) && (n < 2 || to[1] == v + 1) && (n < 3 || to[2] == v + 2) && (n < 4 || to[3] == v + 3) && (n < 5 || to[4] == v + 4) && (n < 6 || to[5] == v + 5) && (n < 7 || to[6] == v + 6) && (n < 8 || to[7] == v + 7) && (n < 9 || to[8] == v + 8); }
// N arguments for the constructor, N for adl_postconstruct
template<class... A> static void with(const long *v, const A &...a) {
  reset();
  try {
    boost::shared_ptr<T> k;
    { s2::postconstructor_invoker<T> inv = s2::deconstruct<T>(a...); check(nargs == sizeof...(A) && passed(arg, v, sizeof...(A)), "C16: the arguments are not passed to the constructor unchanged"); gone = true; k = inv.postconstruct(a...); gone = false;
      check(post == 1, "C16: the shared_ptr is handed out before adl_postconstruct was called"); check(npost == sizeof...(A) && passed(parg, v, sizeof...(A)), "C16: the arguments are not passed to adl_postconstruct unchanged"); check(k.get() == self, "C16: the shared_ptr does not own the object"); k = inv.postconstruct(a...); k = inv; }
    gone = true;
  } catch(user::Exception &) { check(ctorThrew || postThrew, "C16: an exception was not thrown by user code"); } catch(std::bad_alloc &) { check(ctor == 0, "C16: an exception was not thrown by user code"); }
  finish();
}
void h_dec_life() { life<T>(); }
void h_dec_life1() { long v = 0; life<T>(v); }
void h_dec_const() { life<const T>(); }
void h_dec_args1() { long v[9]; with(v, v[0]); }
void h_dec_args2() { long v[9]; with(v, v[0], v[1]); }
void h_dec_args3() { long v[9]; with(v, v[0], v[1], v[2]); }
void h_dec_args4() { long v[9]; with(v, v[0], v[1], v[2], v[3]); }
void h_dec_args5() { long v[9]; with(v, v[0], v[1], v[2], v[3], v[4]); }
void h_dec_args6() { long v[9]; with(v, v[0], v[1], v[2], v[3], v[4], v[5]); }
void h_dec_args7() { long v[9]; with(v, v[0], v[1], v[2], v[3], v[4], v[5], v[6]); }
void h_dec_args8() { long v[9]; with(v, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); }
void h_dec_args9() { long v[9]; with(v, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
// perfect forwarding (where there are variadic templates)
struct F { template<class A, class B, class C> F(A &&a, B &&b, C &&c) { check(std::is_same<A, long &>::value && std::is_same<B, const long &>::value && std::is_same<C, long>::value && &a == arg[0] && &b == arg[1] && &c == arg[2], "C16: the arguments are not forwarded to the constructor"); constructed(this); } ~F() { gone = true; pre = 1; destroyed(this); } };
template<class U, class A, class B, class C> void adl_postconstruct(const boost::shared_ptr<U> &, F *p, A &&a, B &&b, C &&c) { postconstructed(p); check(std::is_same<A, long &>::value && std::is_same<B, const long &>::value && std::is_same<C, long>::value && &a == arg[0] && &b == arg[1] && &c == arg[2], "C16: the arguments are not forwarded to adl_postconstruct"); }
void h_forward() { reset(); long l, c, r; arg[0] = &l; arg[1] = &c; arg[2] = &r; const long &cc = c; try { boost::shared_ptr<F> p = s2::deconstruct<F>(l, cc, std::move(r)).postconstruct(l, cc, std::move(r)); check(ctor == 1 && post == 1, "C16: the object is not postconstructed"); p.reset(); check(dtor == 1, "C16: the object is not destroyed when its last owner is gone"); } catch(std::bad_alloc &) {} }
// shared_from_this works in adl_postconstruct and afterwards
struct E : boost::enable_shared_from_this<E> { template<class... A> E(const A &...) { constructed(this); } ~E() { destroyed(this); } };
template<class... A> void adl_postconstruct(const boost::shared_ptr<E> &sp, E *p, const A &...) { postconstructed(p); check(p->weak_from_this().lock() == sp, "C16: shared_from_this() does not work in adl_postconstruct"); }
void adl_predestruct(E *p) { predestructed(p); }
template<class... A> static void shared_from_this_works(const A &...a) { reset(); try { boost::shared_ptr<E> p = s2::deconstruct<E>(a...).postconstruct(a...); check(p->weak_from_this().lock() == p && p, "C16: shared_from_this() does not work"); gone = true; p.reset(); } catch(std::bad_alloc &) {} finish(); }
void h_dec_shared_from_this0() { long v = 0; (void)v; shared_from_this_works(); }
void h_dec_shared_from_this1() { long v = 0; (void)v; shared_from_this_works(v); }
void h_dec_shared_from_this2() { long v = 0; (void)v; shared_from_this_works(v, v); }
void h_dec_shared_from_this3() { long v = 0; (void)v; shared_from_this_works(v, v, v); }
void h_dec_shared_from_this4() { long v = 0; (void)v; shared_from_this_works(v, v, v, v); }
void h_dec_shared_from_this5() { long v = 0; (void)v; shared_from_this_works(v, v, v, v, v); }
void h_dec_shared_from_this6() { long v = 0; (void)v; shared_from_this_works(v, v, v, v, v, v); }
void h_dec_shared_from_this7() { long v = 0; (void)v; shared_from_this_works(v, v, v, v, v, v, v); }
void h_dec_shared_from_this8() { long v = 0; (void)v; shared_from_this_works(v, v, v, v, v, v, v, v); }
void h_dec_shared_from_this9() { long v = 0; (void)v; shared_from_this_works(v, v, v, v, v, v, v, v, v); }
// the virtual functions of postconstructible and predestructible
struct V : s2::postconstructible, s2::predestructible { V() { constructed(this); } ~V() { destroyed(this); } void postconstruct() { postconstructed(this); } void predestruct() { predestructed(this); } };
void h_dec_virtual() { reset(); try { boost::shared_ptr<V> p = s2::deconstruct<V>(); check(post == 1, "C16: postconstruct() is not called"); gone = true; p.reset(); } catch(std::bad_alloc &) {} finish(); }
struct OnlyPost : s2::postconstructible { OnlyPost() { constructed(this); } ~OnlyPost() { pre = 1; destroyed(this); } void postconstruct() { postconstructed(this); } };
void h_dec_only_post() { reset(); try { boost::shared_ptr<OnlyPost> p = s2::deconstruct<OnlyPost>(); check(post == 1, "C16: postconstruct() is not called"); gone = true; p.reset(); } catch(std::bad_alloc &) {} finish(); }
struct OnlyPre : s2::predestructible { OnlyPre() { constructed(this); } ~OnlyPre() { destroyed(this); } void predestruct() { predestructed(this); } };
void h_dec_only_pre() { reset(); try { boost::shared_ptr<OnlyPre> p = s2::deconstruct<OnlyPre>(); check(post == 0, "C16: something is postconstructed"); gone = true; p.reset(); } catch(std::bad_alloc &) {} finish(); }
