From 7f544bc991d80f39cff82348f08494896df51284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 01/15] fix: do not release tracked objects while holding the
 signal mutex in connection::connected()

The temporary shared_ptr obtained from a tracked weak_ptr could be the last
owner, in which case the tracked object was destroyed with the mutex locked.
---
 include/boost/signals2/connection.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..be62ae3 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -20,10 +20,10 @@
 #include <boost/mpl/bool.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/signals2/detail/auto_buffer.hpp>
-#include <boost/signals2/detail/null_output_iterator.hpp>
 #include <boost/signals2/detail/unique_lock.hpp>
 #include <boost/signals2/slot.hpp>
 #include <boost/weak_ptr.hpp>
+#include <iterator>
 
 namespace boost
 {
@@ -149,8 +149,11 @@ namespace boost
         virtual ~connection_body() {}
         virtual bool connected() const
         {
+          // The locked tracked objects must outlive the lock, since we might
+          // end up holding the last reference to one of them.
+          auto_buffer<void_shared_ptr_variant, store_n_objects<10> > tracked_ptrs;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          nolock_grab_tracked_objects(local_lock, std::back_inserter(tracked_ptrs));
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
-- 
2.43.0


From 9895c8a16cc9325cac63db81031ecf2748c92f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 02/15] fix: lock the mutex when reading the blocker in
 connection::blocked()

get_blocker() assigns the weak_ptr with the mutex locked; reading it without
the mutex is a data race.
---
 include/boost/signals2/connection.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index be62ae3..2ece870 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -90,12 +90,17 @@ namespace boost
           return blocker;
         }
         bool blocked() const
+        {
+          unique_lock<connection_body_base> local_lock(const_cast<connection_body_base&>(*this));
+          return nolock_blocked();
+        }
+        bool nolock_blocked() const
         {
           return !_weak_blocker.expired();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || nolock_blocked();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From 436c146b3c7f61d8c7b277c1dc6b1a6ea1486a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 03/15] fix: keep the slot list unchanged when connecting to a
 group throws

A group comparison or map insertion which threw left the new slot in the list
(and possibly removed its group from the map), although connect() is documented
to give the strong exception guarantee.
---
 include/boost/signals2/detail/slot_groups.hpp | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..0138f30 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -11,6 +11,7 @@
 #ifndef BOOST_SIGNALS2_SLOT_GROUPS_HPP
 #define BOOST_SIGNALS2_SLOT_GROUPS_HPP
 
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/signals2/connection.hpp>
 #include <boost/optional.hpp>
 #include <list>
@@ -183,19 +184,31 @@ namespace boost {
         {
           iterator list_it = get_list_iterator(map_it);
           iterator new_it = _list.insert(list_it, value);
-          if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
+          BOOST_TRY
           {
-            _group_map.erase(map_it);
+            if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
+            {
+              map_it->second = new_it;
+            }else
+            {
+              map_iterator lower_bound_it = _group_map.lower_bound(key);
+              if(lower_bound_it == _group_map.end() ||
+                weakly_equivalent(lower_bound_it->first, key) == false)
+              {
+                /* doing the following instead of just
+                  _group_map[key] = new_it;
+                  to avoid bogus error when enabling checked iterators with g++ */
+                _group_map.insert(typename map_type::value_type(key, new_it));
+              }
+            }
           }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+          BOOST_CATCH(...)
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            // comparing keys or inserting in the map threw: undo the insertion
+            _list.erase(new_it);
+            BOOST_RETHROW
           }
+          BOOST_CATCH_END
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 18df7a33a52d892f7a35c4a40ffd4a3ea456ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 04/15] fix: never leave the garbage collector iterator
 pointing into a replaced slot list

If the cleanup which follows the copy of the slot list threw, the iterator kept
pointing into the old list.
---
 include/boost/signals2/detail/signal_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..cf17c8a 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -480,6 +480,7 @@ namespace boost
           if(_shared_state.unique() == false)
           {
             _shared_state = boost::make_shared<invocation_state>(*_shared_state, _shared_state->connection_bodies());
+            _garbage_collector_it = _shared_state->connection_bodies().end();
             nolock_cleanup_connections_from(lock, true, _shared_state->connection_bodies().begin());
           }else
           {
@@ -502,6 +503,7 @@ namespace boost
           if(_shared_state.unique() == false)
           {
             _shared_state = boost::make_shared<invocation_state>(*_shared_state, _shared_state->connection_bodies());
+            _garbage_collector_it = _shared_state->connection_bodies().end();
           }
           nolock_cleanup_connections_from(list_lock, false, _shared_state->connection_bodies().begin());
         }
-- 
2.43.0


From db29fe73a4e68ad019c7b5e341b63a6df947d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 05/15] fix: set_combiner() must not affect signal invocations
 in progress

The new state shared the connection list of a running invocation, so that later
connects and cleanups modified the list while it was being iterated. It also
assigned to a combiner which older states, still in use, share.
---
 include/boost/signals2/detail/signal_template.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index cf17c8a..75046fc 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -307,10 +307,15 @@ namespace boost
         void set_combiner(const combiner_type &combiner_arg)
         {
           unique_lock<mutex_type> lock(*_mutex);
+          // A state which is being read elsewhere must keep its combiner and its connection
+          // list to itself, so neither is modified or shared here.
           if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
+            _shared_state->set_combiner(combiner_arg);
           else
+          {
             _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
         }
       private:
         typedef Mutex mutex_type;
@@ -392,13 +397,14 @@ namespace boost
             _combiner(other._combiner)
           {}
           invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
+            _connection_bodies(new connection_list_type(other.connection_bodies())),
             _combiner(new combiner_type(combiner_in))
           {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          void set_combiner(const combiner_type &combiner_in) { _combiner.reset(new combiner_type(combiner_in)); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From aa6961d2a266cfc70b52cd4fe1d6e7a9e5138033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 06/15] fix: disconnect a connected signal by slot with the
 preprocessed signal classes

With BOOST_NO_CXX11_VARIADIC_TEMPLATES signal is a class derived from signalN, so
that the generic contains() was chosen and disconnect(other_signal) had no effect.
---
 include/boost/signals2/detail/signal_template.hpp | 14 ++++++++++++--
 include/boost/signals2/signal.hpp                 |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 75046fc..7e774f8 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -845,11 +845,21 @@ namespace boost
           return _weak_pimpl.lock().get() == signal._pimpl.get(); 
         }
         template <typename T>
-        bool contains(const T&) const
+        bool contains(const T &other) const
         {
-          return false;
+          return m_contains_object(boost::addressof(other));
         }
       private:
+        // other may be of a class derived from the signal class, as signal is from signalN
+        bool m_contains_object(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> *signal) const
+        {
+          return contains(*signal);
+        }
+        bool m_contains_object(...) const
+        {
+          return false;
+        }
         boost::weak_ptr<detail::BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> > _weak_pimpl;
       };
diff --git a/include/boost/signals2/signal.hpp b/include/boost/signals2/signal.hpp
index 716f119..934757b 100644
--- a/include/boost/signals2/signal.hpp
+++ b/include/boost/signals2/signal.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/noncopyable.hpp>
 #include <boost/function.hpp>
 #include <boost/mpl/identity.hpp>
-- 
2.43.0


From 86a8571bfaf8a58154519a1a1fd9d189c91f3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 07/15] fix: keep the garbage collector iterator valid if
 cleanup of the slot list throws

If an exception ended the cleanup (thrown by the group comparison, or for lack of
memory) after a disconnected slot had been erased, the iterator could be left
pointing to the erased slot.
---
 include/boost/signals2/detail/signal_template.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 7e774f8..2204e23 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -457,6 +457,7 @@ namespace boost
             if(connected == false)
             {
               it = _shared_state->connection_bodies().erase((*it)->group_key(), it);
+              _garbage_collector_it = it;
             }else
             {
               ++it;
-- 
2.43.0


From 398697ff2d3433b866416b080a8a13008aad6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 08/15] fix: do not destroy a slot under the signal mutex when
 memory for the trash list runs out

dec_slot_refcount released the slot before the push into the list of the garbage
collecting lock could fail, in which case the slot was destroyed with the mutex
locked. Now room is made first, and a failure leaves the connection as it was.
---
 include/boost/signals2/connection.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 2ece870..c4e174f 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -43,6 +43,11 @@ namespace boost
         garbage_collecting_lock(Mutex &m):
           lock(m)
         {}
+        // after this, the next call of add_trash will not throw
+        void reserve_trash()
+        {
+          garbage.reserve(garbage.size() + 1);
+        }
         void add_trash(const shared_ptr<void> &piece_of_trash)
         {
           garbage.push_back(piece_of_trash);
@@ -73,8 +78,8 @@ namespace boost
         {
           if(_connected)
           {
-            _connected = false;
             dec_slot_refcount(lock_arg);
+            _connected = false;
           }
         }
         virtual bool connected() const = 0;
@@ -127,6 +132,12 @@ namespace boost
         void dec_slot_refcount(garbage_collecting_lock<Mutex> &lock_arg) const
         {
           BOOST_ASSERT(m_slot_refcount != 0);
+          if(m_slot_refcount == 1)
+          {
+            // if this throws then nothing has been changed yet, otherwise
+            // the slot would be destroyed while the mutex is locked
+            lock_arg.reserve_trash();
+          }
           if(--m_slot_refcount == 0)
           {
             lock_arg.add_trash(release_slot());
-- 
2.43.0


From 478770f275d3b506484d953952eea2b5ea661c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 09/15] fix: do not terminate if the cleanup at the end of an
 invocation throws

Copying the slot list and erasing from it can throw (memory, group, group
comparison), but happens in the destructor of invocation_janitor.
---
 include/boost/signals2/detail/signal_template.hpp | 10 +++++++++-
 include/boost/signals2/signal.hpp                 |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 2204e23..a99acc4 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -429,7 +429,15 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {
+                // the cleanup will be done later, no need to terminate
+              }
+              BOOST_CATCH_END
             }
           }
         private:
diff --git a/include/boost/signals2/signal.hpp b/include/boost/signals2/signal.hpp
index 934757b..2eb5da6 100644
--- a/include/boost/signals2/signal.hpp
+++ b/include/boost/signals2/signal.hpp
@@ -17,6 +17,7 @@
 #include <boost/config.hpp>
 #include <boost/core/addressof.hpp>
 #include <boost/core/noncopyable.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/function.hpp>
 #include <boost/mpl/identity.hpp>
 #include <boost/shared_ptr.hpp>
-- 
2.43.0


From 6ac690d5b79e6a6dab9d3b73801b0d6da179bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 10/15] fix: disconnect(signal) could destroy another signal
 and its slots while holding the mutex

---
 include/boost/signals2/detail/signal_template.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index a99acc4..98f5370 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -851,7 +851,10 @@ namespace boost
         bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
         {
-          return _weak_pimpl.lock().get() == signal._pimpl.get(); 
+          // A temporary owner could turn out to be the last one, which must
+          // not happen while the caller holds a mutex.
+          return !_weak_pimpl.owner_before(signal._pimpl) &&
+            !signal._pimpl.owner_before(_weak_pimpl);
         }
         template <typename T>
         bool contains(const T &other) const
-- 
2.43.0


From a6a625bf4dc8cbdd87de9274b10d274dae44288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:45 +0000
Subject: [PATCH 11/15] fix: the group comparison given to a signal was not
 used to order its groups

---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 0138f30..652b0dc 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -65,7 +65,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From e6cb36639dd9b3d10f5c76ca36b4254c1d6fa1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:18 +0000
Subject: [PATCH 12/15] fix: auto_buffer::insert() into spare capacity shifts
 elements in the right order

The ranges overlap, so copying forward repeated the element at the
position of insertion in all those behind it.
---
 include/boost/signals2/detail/auto_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 6ce59e4..25a4c75 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -431,7 +431,7 @@ namespace detail
                 {
                     grow_back( n );
                     iterator where = const_cast<T*>(before);
-                    std::copy( before, cend() - n, where + n );
+                    std::copy_backward( before, cend() - n, end() );
                     assign_impl( begin_arg, end_arg, where );
                 }
                 else
@@ -845,7 +845,7 @@ namespace detail
                 if( !is_back_insertion )
                 {
                     grow_back_one();
-                    std::copy( before, cend() - 1u, where + 1u );
+                    std::copy_backward( before, cend() - 1u, end() );
                     *where = x;
                     BOOST_ASSERT( is_valid() );
                  }
@@ -874,7 +874,7 @@ namespace detail
             {
                 grow_back( n );
                 iterator where = const_cast<T*>(before);
-                std::copy( before, cend() - n, where + n );
+                std::copy_backward( before, cend() - n, end() );
                 std::fill( where, where + n, x );
                 BOOST_ASSERT( is_valid() );
                 return;
-- 
2.43.0


From c73ea6bdf499d7e6596b502c0453e5186f852c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:19 +0000
Subject: [PATCH 13/15] fix: auto_buffer::erase() of an empty range from a full
 buffer is no error

---
 include/boost/signals2/detail/auto_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 25a4c75..201b1f0 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -957,7 +957,7 @@ namespace detail
                            const_cast<T*>(from) );
             }
             pop_back_n( std::distance(from,to) );
-            BOOST_ASSERT( !full() );
+            BOOST_ASSERT( from == to || !full() );
             iterator result = const_cast<T*>( from );
             BOOST_ASSERT( result <= end() );
             return result;
-- 
2.43.0


From 3a3d6ce0e20e8b898218e0f40923a0a582ab3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:19 +0000
Subject: [PATCH 14/15] fix: auto_buffer is left empty and usable when an
 exception interrupts its assignment

The buffer was null while the size and capacity kept their values.
---
 include/boost/signals2/detail/auto_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 201b1f0..be15bbf 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -516,7 +516,9 @@ namespace detail
                     // @remark: we release memory as early as possible
                     //          since we only give the basic guarantee
                     auto_buffer_destroy();
-                    buffer_ = 0;
+                    buffer_            = static_cast<T*>(members_.address());
+                    members_.capacity_ = N;
+                    size_              = 0u;
                     pointer new_buffer = allocate( r.size() );
                     scope_guard guard = make_obj_guard( *this,
                                                         &auto_buffer::deallocate,
-- 
2.43.0


From ad47399db1e145d371eba9b6b2bfa03eb3e4a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:19 +0000
Subject: [PATCH 15/15] fix: constructors of auto_buffer give back their memory
 if copying an element throws

---
 include/boost/signals2/detail/auto_buffer.hpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index be15bbf..6623ef5 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -488,7 +488,12 @@ namespace detail
               buffer_( allocate( members_.capacity_ ) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( r.begin(), r.end(), buffer_ );
+            guard.dismiss();
             size_ = r.size_;
             BOOST_ASSERT( is_valid() );
         }
@@ -550,7 +555,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -571,7 +581,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -583,7 +598,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
@@ -598,7 +618,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
-- 
2.43.0

