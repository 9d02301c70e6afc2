// deconstruct_ptr (C17).  The classes here are monitors.
#include "user.hpp"
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <new>
using user::check; using user::choose;
namespace s2 = boost::signals2;
static int post, pre, dtor, del, deleted; static const void *self; static bool gone, postThrew, preThrew, userDeleter;
static void reset() { post = pre = dtor = del = deleted = 0; self = nullptr; gone = postThrew = preThrew = userDeleter = false; }
static void postconstructed(const void *p) { check(p == self && dtor == 0, "C17: postconstruct is called on something else than the living object"); check(post == 0, "C17: postconstruct is called more than once"); ++post; if(choose()) { postThrew = true; gone = true; throw user::Exception(); } }
static void predestructed(const void *p) { check(p == self && dtor == 0, "C17: predestruct is called on something else than the living object"); check(gone, "C17: predestruct is called while the object has an owner"); check(pre == 0, "C17: predestruct is called more than once"); check(!userDeleter, "C17: predestruct is called by the library although there is a deleter of the user's"); ++pre;
#ifdef NDEBUG
  if(choose()) { preThrew = true; throw user::Exception(); }
#endif
}
static void destroyed(const void *p, bool expectPre) { check(p == self, "C17: something else than the object is destroyed"); check(dtor == 0, "C17: the object is destroyed more than once"); check(gone, "C17: the object is destroyed while it has an owner"); check(pre == (expectPre && !userDeleter ? 1 : 0), "C17: the object is destroyed without predestruct having been called"); ++dtor; }
static void finish(bool hasPost, bool hasPre) { check(dtor == 1, "C17: the object is not destroyed when its last owner is gone"); check(post == (hasPost ? 1 : 0), "C17: postconstruct is not called"); check(pre == (hasPre && !userDeleter ? 1 : 0), "C17: predestruct is not called"); if(userDeleter) check(del == 1, "C17: the deleter of the user's is not called once"); }
template<class T> struct Deleter { void operator()(T *p) const { check(p == self, "C17: the deleter is given another pointer"); ++del; gone = true; delete p; } };
template<class T, bool hasPost, bool hasPre> static void life() {
  reset(); T *p = nullptr; bool caught = false;
  try {
    p = new T; self = p;
    gone = true; boost::shared_ptr<T> a = s2::deconstruct_ptr(p); gone = false; check(a.get() == p, "C17: the shared_ptr does not own the object"); check(post == (hasPost ? 1 : 0) && !postThrew, "C17: postconstruct is not called"); check(pre == 0 && dtor == 0, "C17: the object dies although it has an owner");
    boost::shared_ptr<T> b; if(choose()) b = a; else gone = true; a.reset(); check(!b || (pre == 0 && dtor == 0), "C17: the object dies although it has an owner"); 
    gone = true; b.reset();
  } catch(user::Exception &) { caught = true; check(postThrew, "C17: an exception was not thrown by postconstruct"); } catch(std::bad_alloc &) { if(!p) return; caught = true; check(post == 0, "C17: postconstruct is called although there is no shared_ptr"); check(dtor == 1, "C17: the object is not destroyed when no shared_ptr can be made"); return; }
  if(postThrew) check(caught, "C17: an exception of postconstruct does not reach the caller");
  finish(hasPost, hasPre);
}
template<class T, bool hasPost, bool hasPre> static void life_deleter() {
  reset(); T *p = nullptr; bool caught = false; userDeleter = true;
  try {
    p = new T; self = p;
    gone = true; boost::shared_ptr<T> a = s2::deconstruct_ptr(p, Deleter<T>()); gone = false; check(a.get() == p, "C17: the shared_ptr does not own the object"); check(post == (hasPost ? 1 : 0) && !postThrew, "C17: postconstruct is not called"); check(del == 0, "C17: the deleter is called although the object has an owner");
    gone = true; a.reset();
  } catch(user::Exception &) { caught = true; check(postThrew, "C17: an exception was not thrown by postconstruct"); } catch(std::bad_alloc &) { if(!p) return; check(post == 0 && del == 1, "C17: the object is not deleted when no shared_ptr can be made"); return; }
  if(postThrew) check(caught, "C17: an exception of postconstruct does not reach the caller");
  finish(hasPost, hasPre);
}
// in a debug build the library asserts that predestruct does not throw
struct Both : s2::postconstructible, s2::predestructible { void postconstruct() { postconstructed(this); } void predestruct() { predestructed(this); } ~Both() { destroyed(this, true); } };
struct OnlyPost : s2::postconstructible { void postconstruct() { postconstructed(this); } ~OnlyPost() { destroyed(this, false); } };
struct OnlyPre : s2::predestructible { void predestruct() { predestructed(this); } ~OnlyPre() { destroyed(this, true); } };
struct Neither { ~Neither() { destroyed(this, false); } long x; };
struct Esft : boost::enable_shared_from_this<Esft>, s2::postconstructible { void postconstruct() { check(weak_from_this().lock().get() == this, "C17: postconstruct is called before a shared owner of the object exists"); postconstructed(this); } ~Esft() { destroyed(this, false); } };
struct Base { long pad; virtual ~Base() {} }; 
struct Derived : Base, s2::postconstructible, s2::predestructible { void postconstruct() { postconstructed(this); } void predestruct() { predestructed(this); } ~Derived() { destroyed(this, true); } };
struct PrivateD : s2::predestructible { void predestruct() { predestructed(this); } ~PrivateD() { destroyed(this, true); } };
void h_dp_both() { life<Both, true, true>(); }
void h_dp_only_post() { life<OnlyPost, true, false>(); }
void h_dp_only_pre() { life<OnlyPre, false, true>(); }
void h_dp_neither() { life<Neither, false, false>(); }
void h_dp_const() { life<const Both, true, true>(); }
void h_dp_esft() { life<Esft, true, false>(); }
void h_dp_derived() { life<Derived, true, true>(); }
void h_dp_deleter_both() { life_deleter<Both, true, true>(); }
void h_dp_deleter_only_post() { life_deleter<OnlyPost, true, false>(); }
void h_dp_deleter_only_pre() { life_deleter<OnlyPre, false, true>(); }
void h_dp_deleter_neither() { life_deleter<Neither, false, false>(); }
void h_dp_deleter_esft() { life_deleter<Esft, true, false>(); }
// null pointers
struct Never : s2::postconstructible, s2::predestructible { void postconstruct() { check(false, "C17: postconstruct is called for a null pointer"); } void predestruct() { check(false, "C17: predestruct is called for a null pointer"); } ~Never() { check(false, "C17: a null pointer is deleted"); } };
struct NullDeleter { void operator()(Never *p) const { check(p == nullptr, "C17: the deleter is given another pointer"); ++del; } };
void h_dp_null() { reset(); try { boost::shared_ptr<Never> a = s2::deconstruct_ptr(static_cast<Never *>(nullptr)); check(a.get() == nullptr && !a, "C17: a null pointer does not give a null shared_ptr"); } catch(std::bad_alloc &) {} }
void h_dp_null_deleter() { reset(); try { boost::shared_ptr<Never> a = s2::deconstruct_ptr(static_cast<Never *>(nullptr), NullDeleter()); check(a.get() == nullptr && !a, "C17: a null pointer does not give a null shared_ptr"); check(del == 0, "C17: the deleter is called although the shared_ptr lives"); } catch(std::bad_alloc &) { return; } check(del <= 1, "C17: the deleter is called twice"); }
