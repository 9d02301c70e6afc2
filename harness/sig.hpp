#ifndef VERIF_SIG_HPP
#define VERIF_SIG_HPP
#include "user.hpp"
#include "seq.hpp"
#include <boost/signals2/signal.hpp>
#include <boost/signals2/shared_connection_block.hpp>
namespace s2 = boost::signals2;
namespace boost { namespace signals2 {
  template<> struct weak_ptr_traits<user::ForeignWeak> { typedef user::ForeignShared shared_type; };
  template<> struct shared_ptr_traits<user::ForeignShared> { typedef user::ForeignWeak weak_type; };
} }
#ifndef RES
#define RES user::Result
#endif
#ifndef ARGS
#define ARGS user::Arg&, user::Arg2
#endif
namespace user {
  // a slot function type of the user's (stands for boost::function)
  struct SlotFn {
    typedef RES result_type;
    SlotFn(); SlotFn(const SlotFn&); ~SlotFn();
    template<class F> SlotFn(const F& f);
    SlotFn& operator=(const SlotFn&);
    template<class F> SlotFn& operator=(const F&);
    RES operator()(Arg&, const Arg2&); 
    RES operator()(Arg&, const Arg2&) const;
    template<class T> bool contains(const T&) const;
    template<class T> T* target();
    template<class T> const T* target() const;
    long data;
  };
  struct ExtSlotFn {
    typedef RES result_type;
    ExtSlotFn(); ExtSlotFn(const ExtSlotFn&); ~ExtSlotFn();
    template<class F> ExtSlotFn(const F& f);
    ExtSlotFn& operator=(const ExtSlotFn&);
    template<class F> ExtSlotFn& operator=(const F&);
    RES operator()(const s2::connection&, Arg&, const Arg2&);
    RES operator()(const s2::connection&, Arg&, const Arg2&) const;
    template<class T> bool contains(const T&) const;
    template<class T> T* target();
    template<class T> const T* target() const;
    long data;
  };
  void got(const RES&);
  template<class It> RES use(It&);   
  void caught_expired() noexcept; void caught(const void *) noexcept;    // the combiner caught an exception
  // the most general combiner: any sequence of the operations of its iterators
  struct Combiner {
    typedef CombinerResult result_type;
    Combiner(); Combiner(const Combiner&); Combiner& operator=(const Combiner&); ~Combiner();
    CombinerResult result();
    template<class It> CombinerResult operator()(It first, It last) {
#ifdef SIMPLE
      for(; first != last; ++first) { if(choose()) got(*first); else if(choose()) break; }
      return result();
#endif
      while(choose()) {
#ifdef CATCHING
        if(choose()) { if(first != last) { try { got(*first); } catch(const s2::expired_slot &) { caught_expired(); } catch(Exception &e) { caught(&e); } catch(std::exception &e) { caught(&e); } } }
#else
        if(choose()) { if(first != last) got(*first); }
#endif
        else if(choose()) { if(first != last) ++first; }
        else { It copy(first); if(copy != last) got(*copy); }
      }
      return result();
    }
    long data;
  };
}
typedef s2::signal<RES (ARGS), user::Combiner, user::Group, user::GroupCompare, user::SlotFn, user::ExtSlotFn, user::Mutex> Sig;
// what a signal can hold: instantiated so that the analysis knows the classes
__attribute__((used)) static void known_classes(Sig &s, Sig::slot_type &t, user::ForeignWeak &w) { t.track_foreign(w); s.connect(t); try { s.connect(t); } catch(s2::expired_slot &) {} }
#endif
