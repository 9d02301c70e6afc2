// signals2::mutex and dummy_mutex (C18).  The platform's mutex functions are
// defined here as monitors: they check what they are given and count.
#include "user.hpp"
#include <pthread.h>
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
using user::check; using user::choose; using user::known;
namespace plat {
  enum Op { INIT, DESTROY, LOCK, TRYLOCK, UNLOCK };
  static unsigned n[5]; static const void *at; static bool live, held, any;
  static void reset() { n[INIT] = n[DESTROY] = n[LOCK] = n[TRYLOCK] = n[UNLOCK] = 0; }
  static bool only(Op o) { return n[INIT] == (o == INIT) && n[DESTROY] == (o == DESTROY) && n[LOCK] == (o == LOCK) && n[TRYLOCK] == (o == TRYLOCK) && n[UNLOCK] == (o == UNLOCK); }
  static bool none() { return n[INIT] == 0 && n[DESTROY] == 0 && n[LOCK] == 0 && n[TRYLOCK] == 0 && n[UNLOCK] == 0; }
  static void used(const void *m) { check(live, "C18: the platform mutex is used before it is initialised or after it was destroyed"); check(m == at, "C18: an operation is performed on another platform mutex than the one initialised"); }
}
extern "C" {
  int pthread_mutexattr_settype(pthread_mutexattr_t *, int kind) noexcept { check(kind != PTHREAD_MUTEX_RECURSIVE, "C18: the platform mutex is made recursive"); return 0; }
  int pthread_mutexattr_init(pthread_mutexattr_t *) noexcept { return 0; }
  int pthread_mutexattr_destroy(pthread_mutexattr_t *) noexcept { return 0; }
  int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { if(plat::any) return 0; check(!plat::live, "C18: the platform mutex is initialised twice"); plat::live = true; plat::held = false; plat::at = m; ++plat::n[plat::INIT]; return 0; }
  int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if(plat::any) return 0; plat::used(m); plat::live = false; ++plat::n[plat::DESTROY]; return 0; }
  int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if(plat::any) { plat::at = m; return 0; } plat::used(m); plat::held = true; ++plat::n[plat::LOCK]; return 0; }
  int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if(plat::any) { plat::at = m; return 0; } plat::used(m); ++plat::n[plat::TRYLOCK]; if(!plat::held && choose()) { plat::held = true; return 0; } return choose() ? 16 : choose() ? 11 : 35; }
  int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if(plat::any) { plat::at = m; return 0; } plat::used(m); plat::held = false; ++plat::n[plat::UNLOCK]; return 0; }
}
typedef boost::signals2::mutex M; typedef boost::signals2::dummy_mutex D;
// any sequence of operations on one mutex
void h_mutex_ops() {
  plat::reset();
  {
    M m; check(plat::only(plat::INIT), "C18: the constructor initialises one platform mutex"); check(!plat::held, "C18: a new mutex is not locked");
    bool mine = false;
    while(choose()) {
      plat::reset();
      if(!mine && choose()) { m.lock(); check(plat::only(plat::LOCK), "C18: lock() locks the platform mutex once and does nothing else"); mine = true; }
      else if(mine && choose()) { m.unlock(); check(plat::only(plat::UNLOCK), "C18: unlock() unlocks the platform mutex once and does nothing else"); mine = false; }
      else { bool before = plat::held; bool got = known(m.try_lock()); check(plat::only(plat::TRYLOCK), "C18: try_lock() tries to lock the platform mutex once and does nothing else"); check(got == (plat::held && !before), "C18: try_lock() returns true exactly if the lock was obtained"); if(got) mine = true; }
    }
    if(mine) m.unlock();
    plat::reset();
  }
  check(plat::only(plat::DESTROY), "C18: the destructor destroys the platform mutex"); check(!plat::live, "C18: the destructor destroys the platform mutex");
}
// two mutexes have one platform mutex each
void h_mutex_two() { plat::any = true; M a, b; a.lock(); const void *pa = plat::at; b.lock(); const void *pb = plat::at; check(pa != pb, "C18: two mutexes share a platform mutex"); a.unlock(); check(plat::at == pa, "C18: an operation is performed on another platform mutex"); b.unlock(); check(plat::at == pb, "C18: an operation is performed on another platform mutex"); check(a.try_lock(), "C18: try_lock() returns true if the lock was obtained"); check(plat::at == pa, "C18: an operation is performed on another platform mutex"); }
void h_mutex_dummy() { plat::reset(); D d; d.lock(); check(d.try_lock(), "C18: try_lock() of dummy_mutex returns true"); d.unlock(); check(d.try_lock(), "C18: try_lock() of dummy_mutex returns true"); check(plat::none(), "C18: dummy_mutex does nothing"); }
