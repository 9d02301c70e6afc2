// Vocabulary of the harnesses: user types whose members are declared but never
// defined.  Nothing here is ever executed; the harnesses are compiled to LLVM
// IR and analysed.  Each call of one of these members is an event of the
// analysis ("user code runs here and may throw").
#ifndef VERIF_USER_HPP
#define VERIF_USER_HPP
namespace boost { template<class T> class shared_ptr; template<class T> class weak_ptr; }
namespace user {
  bool choose() noexcept;                 // unknown choice
  void check(bool, const char *) noexcept;  // must be true
  void assume(bool) noexcept;             // only runs in which it is true are of interest
  void sequential() noexcept;             // no other thread is using the objects
  void may_disconnect(const void *) noexcept;   // from here on the connection at this address may be disconnected
  void count_is(unsigned long) noexcept;  // must be the number of slots found connected
  void empty_is(bool) noexcept;           // must tell whether there were none
  bool known(bool) noexcept;              // true and false are explored apart
  const void *impl(const void *signal) noexcept;  // the state of the signal at this address, or null
  long owners(const void *signal) noexcept;      // how many owners its state has
  void connecting(const void *slot) noexcept;   // the slot a connection is made with
  void connects_at(int kind, bool back, const void *group) noexcept;   // where the slot belongs: 0 front, 1 a group, 2 back
  void group_is(const void *group) noexcept;      // the group to be disconnected
  void comparing(const void *signal) noexcept;   // slots made from this signal are to be disconnected
  void quiet(bool) noexcept;              // from here on user code must not (may again) be called
  struct Exception { Exception(); ~Exception(); Exception(const Exception&); virtual void anchor(); };   // an exception of the user's
  struct Mutex {
    Mutex(); ~Mutex();
    void lock(); bool try_lock(); void unlock();
  private:
    Mutex(const Mutex&); Mutex& operator=(const Mutex&);
  };
  struct Arg  { Arg(); Arg(const Arg&); Arg(Arg&&); Arg& operator=(const Arg&); Arg& operator=(Arg&&); ~Arg(); long data; };
  struct Arg2 { Arg2(); Arg2(const Arg2&); Arg2(Arg2&&); Arg2& operator=(const Arg2&); Arg2& operator=(Arg2&&); ~Arg2(); long data; };
  struct Result { Result(); Result(const Result&); Result& operator=(const Result&); ~Result(); long data; };
  struct CombinerResult { CombinerResult(); CombinerResult(const CombinerResult&); ~CombinerResult(); long data; };
  struct Group { Group(); Group(const Group&); Group& operator=(const Group&); ~Group(); long data; };
  struct GroupCompare { GroupCompare(); GroupCompare(const GroupCompare&); ~GroupCompare(); bool operator()(const Group&, const Group&) const; long data; };
  struct Tracked { ~Tracked(); long data; };
  // foreign smart pointers
  struct ForeignShared { ForeignShared(); ForeignShared(const ForeignShared&) noexcept; ~ForeignShared(); long data; };
  struct ForeignWeak { ForeignWeak(const ForeignShared&) noexcept; ForeignWeak(const ForeignWeak&) noexcept; ~ForeignWeak(); ForeignShared lock() const; bool expired() const; long data; };
  struct Functor { Functor(); Functor(const Functor&); ~Functor(); long data; };   // what slots are made from
}
#endif
