// Demonstration of the known finding of C02: when memory runs out while the owner
// a foreign weak pointer's lock() returned is being wrapped, that owner is destroyed
// with the mutex of the connection held.
//   g++ -std=c++17 -I/repo/include -I/verif/shim foreign_alloc.cpp -pthread && ./a.out
#include <boost/signals2/signal.hpp>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <memory>
static bool arm=false;
void *operator new(std::size_t n){ if(arm){arm=false; throw std::bad_alloc();} void*p=malloc(n); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { free(p);} void operator delete(void*p,std::size_t) noexcept { free(p);}
static bool locked=false, bad=false;
struct M { void lock(){locked=true;} void unlock(){locked=false;} bool try_lock(){locked=true; return true;} };
struct T { ~T(){ if(locked) bad=true; } };
struct FS { std::shared_ptr<T> p; };
static std::shared_ptr<T> owner;
struct FW { std::weak_ptr<T> w; FW(const FS&s):w(s.p){} FW(std::weak_ptr<T> x):w(x){} FS lock() const { FS r; r.p=w.lock(); owner.reset(); arm=true; return r; } bool expired() const {return w.expired();} };
namespace boost{namespace signals2{ template<> struct weak_ptr_traits<FW>{typedef FS shared_type;}; template<> struct shared_ptr_traits<FS>{typedef FW weak_type;}; }}
void f(){}
typedef boost::signals2::signal<void(), boost::signals2::optional_last_value<void>, int, std::less<int>, boost::function<void()>, boost::function<void(const boost::signals2::connection&)>, M> S;
int main(){ owner.reset(new T); S s; FW w((std::weak_ptr<T>(owner))); S::slot_type sl(&f); sl.track_foreign(w); s.connect(sl);
 try { s(); } catch(std::bad_alloc&) { puts("bad_alloc"); } puts(bad?"destroyed while locked":"ok"); return bad; }
