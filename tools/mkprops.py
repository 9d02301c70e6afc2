#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table of properties lives here)."""
import json, os
I='include/boost/signals2/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],
      mechanism=[dict(name=a,where=I+c) for a,c in mech],observe_at=list(obs),hook_needed=None)))
ST='detail/signal_template.hpp'
p('C01','Mutex of a signal is released on every exit and never re-acquired',
 'Every operation of a signal, connection, connection block or slot that acquires the signal\'s Mutex has released it exactly as often as it acquired it when the operation ends, whether it returns or leaves by an exception from user code. It never locks the Mutex while the same thread already holds it, and never unlocks it when it does not hold it.',
 ['inputs','histories','fault_sequences'],'every public operation, every state of the signal, every point at which user code (slot, combiner, comparison, copy constructor, Mutex) may throw',
 'a test drives a few paths; the exits through exceptions and the states (expired, blocked, being emitted) multiply, and signal.hpp is not even compiled by the tests that run here',
 ['connection.hpp',ST,'detail/slot_call_iterator.hpp','detail/unique_lock.hpp'],[('RAII locks','detail/unique_lock.hpp'),('garbage_collecting_lock','connection.hpp')])
p('C02','No slot runs or dies, and no tracked object dies, under the signal mutex',
 'No slot function and no combiner is invoked, no slot function object held by a connection is destroyed, and no shared owner of a tracked object obtained by the library is released, while the library holds the Mutex of the signal. User code run by or destroyed with a slot may therefore call back into the same signal without deadlock, even with a non-recursive Mutex.',
 ['histories','schedules'],'every operation and every interleaving in which another thread drops its last owner of a slot, a connection or a tracked object at any moment',
 'the last owner is dropped inside the library only in a narrow window of a race; no test can force every such window',
 ['connection.hpp',ST,'detail/slot_call_iterator.hpp'],[('garbage_collecting_lock::add_trash','connection.hpp'),('tracked_ptrs.clear() before the lock','detail/slot_call_iterator.hpp')])
p('C03','An invocation runs on an immutable snapshot of slots and combiner',
 'A signal invocation iterates over the slot list, and calls the combiner, that were current when it started: no concurrent or re-entrant connect, disconnect, cleanup or set_combiner adds, removes or reorders elements of a slot list that a running invocation uses, or replaces or destroys the combiner it uses, until that invocation has ended.',
 ['schedules','histories'],'all re-entrant and concurrent histories of connect, disconnect, emit, num_slots, set_combiner',
 'needs the product of histories (set_combiner between connects inside a running slot, say); the defects repaired in this area were not found by any test',
 [ST,'detail/slot_groups.hpp'],[('copy on write when _shared_state is not unique',ST)],[('_shared_state','current slot list and combiner',ST)])
p('C04','Only connected, unblocked slots are called, and none of those is skipped',
 'When an iterator handed to a combiner is dereferenced, the slot called is one that, in one critical section after the iterator reached it, was found connected, not blocked and with none of its tracked objects expired. Advancing visits the slots in list order: each slot for which this holds when it is reached is presented to the combiner exactly once, and the end is reported only when none is left.',
 ['schedules','histories','inputs'],'every slot list, every combination of connected / blocked / expired states, every way a combiner uses its iterators',
 'tests use short lists and a handful of state changes between calls',
 ['detail/slot_call_iterator.hpp','connection.hpp',ST],[('lock_next_callable','detail/slot_call_iterator.hpp'),('nolock_nograb_blocked','connection.hpp')])
p('C05','A slot and its tracked objects stay alive while the slot runs',
 'From the moment a slot is chosen to be called until its call ends, the invocation holds a share in the slot function object and a shared owner of every object the slot tracks (other than through trackable), so that neither is destroyed during the call even if it is disconnected or released elsewhere. When the invocation moves on or ends, by return or exception, each share is given up exactly once, and a slot that is disconnected and no longer shared is destroyed then.',
 ['schedules','fault_sequences'],'disconnection and release at any moment, in another thread or in the slot itself, and exceptions from any user code',
 'needs a release inside the window between choosing and calling; leaks and double releases show only on particular exits',
 ['detail/slot_call_iterator.hpp','connection.hpp'],[('set_active_slot / inc_slot_refcount / dec_slot_refcount','detail/slot_call_iterator.hpp'),('tracked_ptrs','detail/slot_call_iterator.hpp')],[('m_slot_refcount','shares in the slot: one while connected plus one per invocation using it','connection.hpp')])
p('C06','Slots are ordered by group and by connect position',
 'Slots are called in this order: ungrouped slots connected at_front, then groups in the order of the group comparison, then ungrouped slots connected at_back; within the front, each group and the back, a slot connected at_front comes before and one connected at_back after all slots already there. Erasing or copying the list preserves the order of what remains, and disconnect(group) reaches exactly the slots of that group.',
 ['histories','inputs'],'every history of connects at either position, with or without group, erasures and copies, for any strict weak ordering of groups',
 'tests use a few integer groups in a few orders; the group index must stay in step with the list after every history',
 ['detail/slot_groups.hpp',ST],[('grouped_list::m_insert / erase / copy constructor','detail/slot_groups.hpp'),('nolock_connect',ST)],[('_group_map','first list element of each group','detail/slot_groups.hpp')])
p('C07','last_value and optional_last_value return the last result of a live slot',
 'last_value and optional_last_value dereference each position of the sequence exactly once, in order and before advancing past it, ignore a position whose dereference throws expired_slot, let every other exception pass, and return the value of the last position that did not throw expired_slot. Without such a value optional_last_value returns an empty optional and last_value throws no_slots_error.',
 ['inputs'],'every sequence length, every pattern of values and exceptions, value and void results',
 'finitely many sequences are tested; expiry during iteration is not',
 ['last_value.hpp','optional_last_value.hpp'],[('last_value::operator()','last_value.hpp'),('optional_last_value::operator()','optional_last_value.hpp')])
p('C08','A slot runs at most once per position and its result is handed over unchanged',
 'However often, and through whichever copies, a combiner dereferences its iterator at one position, the slot is called once (again only if the call threw) and each dereference yields that one result; after advancing, no result of an earlier position is seen. The combiner\'s result is what the signal invocation returns.',
 ['inputs'],'every combiner, that is every interleaving of dereferences, copies, comparisons and increments',
 'a test has one combiner with one access pattern',
 ['detail/slot_call_iterator.hpp',ST,'detail/result_type_wrapper.hpp'],[('cache->result','detail/slot_call_iterator.hpp')])
p('C09','num_slots() and empty() count connected slots',
 'num_slots() examines every slot of the list current at the call and counts exactly those for which connected() holds, blocked or not; empty() is true exactly if it found none. A signal that was moved from has no slots.',
 ['histories','inputs'],'every slot list and every mix of connected, disconnected, blocked and expired slots',
 'tests count in a handful of states',
 [ST],[('num_slots / empty',ST)])
p('C10','disconnect takes effect once, is permanent, and releases the slot',
 'After connection::disconnect() the connection is not connected and its slot is never chosen for a call again; no operation ever makes a disconnected connection connected again. Disconnecting gives up the connection\'s share in the slot exactly once however often it is repeated, disconnect_all_slots() does so for every slot of the list, disconnect(group) and disconnect(slot) for exactly the slots that match, and on an empty, expired or already disconnected connection it has no effect.',
 ['histories','inputs'],'every state of the connection, repeated and concurrent disconnects, every slot list',
 'repeated disconnects during emissions are hardly tested; a double release only shows with a slot in flight',
 ['connection.hpp',ST],[('nolock_disconnect','connection.hpp'),('disconnect_all_slots / disconnect / do_disconnect',ST)])
p('C11','scoped_connection disconnects exactly what it owns when it lets go',
 'Destroying a scoped_connection, or assigning another connection to it, disconnects the connection it referred to; after release() or after being moved from it refers to none and disconnects nothing. Moving and assigning transfer the referred connection, self-move has no effect, and a scoped_connection cannot be copied.',
 ['histories','inputs'],'every sequence of construct, assign, move, swap, release and destroy, with empty, live and expired connections',
 'tests sample a few sequences; copyability is a compile-time fact',
 ['connection.hpp'],[('scoped_connection','connection.hpp')])
p('C12','A connection is blocked exactly while some shared_connection_block blocks it',
 'All blocks of one live connection hold shares of one blocker, so blocked() is true exactly while at least one block is blocking, and the last unblock() or destruction, and no earlier one, unblocks it. block() and unblock() are idempotent, blocking() reports the block\'s own state even after the connection is gone, and an empty or expired connection reports blocked().',
 ['histories','schedules'],'every number of blocks on one connection and every order of block, unblock, copy, destroy',
 'tests use two blocks in one order',
 ['shared_connection_block.hpp','connection.hpp'],[('get_blocker','connection.hpp'),('block/unblock/blocking','shared_connection_block.hpp')])
p('C13','A slot is called only while all objects it tracks live, else it is disconnected',
 'Everything given to track(), track_foreign(), every signal passed as a slot, and every trackable or signal bound by value, pointer or reference wrapper in a slot function, is tracked by the slot and by every copy and conversion of the slot. Once any tracked object has expired, slot::expired() is true, slot::lock() and calling the slot throw expired_slot without calling the function, and a connection made with the slot is found disconnected by connected(), num_slots(), empty() and the next invocation; while none has expired, none of these happens.',
 ['inputs','histories','schedules'],'every number, kind and position of tracked objects and every point of expiry',
 'tests expire one object of one kind; which of several expires, and when, is unbounded',
 ['slot_base.hpp','detail/slot_template.hpp','detail/tracked_objects_visitor.hpp','trackable.hpp','connection.hpp'],[('slot_base::lock/expired','slot_base.hpp'),('tracked_objects_visitor','detail/tracked_objects_visitor.hpp'),('nolock_grab_tracked_objects','connection.hpp')])
p('C14','connect_extended passes the slot its own connection and keeps its tracking',
 'A slot connected with connect_extended is called with a connection that refers to the very connection returned by connect_extended, followed by the signal\'s arguments, and its result is passed on. It tracks exactly what the extended slot tracks and is connected at the group and position requested.',
 ['inputs','histories'],'every extended slot, group, position and emission',
 'tests check one case without tracked objects',
 [ST,'detail/replace_slot_function.hpp'],[('bound_extended_slot_function',ST),('replace_slot_function','detail/replace_slot_function.hpp')])
p('C15','Every slot receives the arguments of the invocation unchanged',
 'All slots called by one invocation receive, in order, exactly the arguments given to the signal: reference arguments denote the caller\'s objects, and value arguments are passed to each slot as lvalues, never moved from before the last slot has run. This holds for every arity, for the const and the non-const call operator, for signals used as slots and for both implementations of signal.',
 ['inputs','configurations'],'all argument types and arities, any number of slots',
 'moving an argument into the first slot shows only with two slots and a movable type',
 [ST,'detail/variadic_slot_invoker.hpp'],[('slot_invoker',ST),('variadic_slot_invoker','detail/variadic_slot_invoker.hpp')])
p('C16','deconstruct postconstructs and predestructs each object exactly once',
 'An object made by deconstruct<T>() is constructed with the given arguments, adl_postconstruct is called on it exactly once, before the shared_ptr is first handed out and with an owner of the object, and when the last owner lets go adl_predestruct and then the destructor are called exactly once, in that order. If the constructor throws, neither predestruct nor destructor is called; if adl_postconstruct throws the object is predestructed and destroyed once the invoker is gone.',
 ['inputs','fault_sequences'],'every arity, every exception point, every way of obtaining the pointer from the invoker',
 'tests observe counts on the ordinary path for a few arities',
 ['deconstruct.hpp'],[('postconstructor_invoker','deconstruct.hpp'),('deconstruct_deleter','deconstruct.hpp'),('deconstruct_access','deconstruct.hpp')])
p('C17','deconstruct_ptr postconstructs once and predestructs before deleting',
 'deconstruct_ptr(p) calls p\'s postconstruct exactly once after a shared owner of p exists, and when the last owner lets go calls predestruct and then deletes p, each exactly once; with a deleter of the user\'s the deleter is used instead and predestruct is not called by the library. A null pointer gives an empty-valued shared_ptr with neither call, an exception from postconstruct releases the object, and an exception from predestruct does not keep it from being deleted.',
 ['inputs','fault_sequences'],'null and non-null pointers, with and without the two interfaces, with and without deleter, each call throwing or not',
 'the exception paths are not tested',
 ['deconstruct_ptr.hpp','postconstructible.hpp','predestructible.hpp'],[('deconstruct_ptr','deconstruct_ptr.hpp'),('predestructing_deleter','deconstruct_ptr.hpp')])
p('C18','mutex maps to one platform mutex; dummy_mutex does nothing',
 'Each operation of signals2::mutex performs exactly the corresponding operation once on the one platform mutex the object owns, which is initialised by the constructor and destroyed by the destructor, and try_lock() returns true exactly if the lock was obtained. This holds with assertions enabled or disabled; dummy_mutex has no state and its try_lock() returns true; neither signals2::mutex nor the library\'s locks can be copied.',
 ['inputs','configurations'],'every result of the platform calls, with and without NDEBUG',
 'tests run one configuration and cannot force platform results',
 ['mutex.hpp','detail/lwm_pthreads.hpp','detail/lwm_nop.hpp','dummy_mutex.hpp','detail/unique_lock.hpp'],[('mutex','detail/lwm_pthreads.hpp')])
p('C20','signal_type and the nested types of signal and slot name the documented types',
 'signal_type maps each named template parameter to the signal parameter of that name and uses the documented default for each one omitted, in any order; the nested types arity, arg<n>::type, result_type, slot_type, extended_slot_type, combiner_type, group_type, group_compare_type and signature_type of signal and slot are those documented, in both implementations. Signals cannot be copied, moving and swapping are declared not to throw, and signals and slots can be converted only as documented.',
 ['programs','configurations'],'all template argument lists',
 'a test instantiates a few combinations; the rest is a fact about types',
 ['signal_type.hpp','variadic_signal.hpp','preprocessed_signal.hpp',ST,'detail/variadic_arg_type.hpp','detail/preprocessed_arg_type_template.hpp'],[('signal_type','signal_type.hpp')])
p('C21','Exceptions: connect is all-or-nothing and slot exceptions reach the caller',
 'If connect() or connect_extended() throws, because user code throws or memory runs out, no slot has been added and the list of slots and their groups is unchanged. An exception thrown by a slot or combiner is passed unchanged to whoever dereferenced the iterator or called the signal, and an expired_slot thrown by a slot disconnects that slot and no other.',
 ['fault_sequences'],'an exception at every call of user code and every allocation',
 'needs a fault at each of dozens of points; the defect repaired in connect was one of these',
 [ST,'detail/slot_groups.hpp','detail/slot_call_iterator.hpp'],[('grouped_list::m_insert','detail/slot_groups.hpp'),('slot_call_iterator_t::dereference','detail/slot_call_iterator.hpp')])
p('C22','A moved-from signal is empty and safe, moving and swapping exchange everything',
 'Moving or swapping signals transfers the whole state (slots, combiner, group comparison, mutex) without calling user code, and existing connections keep referring to it; the source of a move is null. On a null signal num_slots() is 0, empty() and null() are true, and the disconnect functions have no effect; self-move leaves a signal unchanged.',
 ['histories'],'every sequence of moves, swaps and calls',
 'one sequence is tested',
 [ST,'signal.hpp'],[('move operations',ST)])
p('C23','Foreign smart pointers are tracked faithfully',
 'Tracking a foreign weak pointer, or the weak pointer of a foreign shared pointer, locks, expires and is copied exactly as the foreign pointer is: each copy owns its own copy of it, locking owns what the foreign lock() returned until it is released, and each such owner is destroyed exactly once, including when assigned over or swapped. Tracking a shared pointer keeps only a weak pointer.',
 ['inputs','histories'],'every foreign pointer type and every history of copies, assignments and destructions',
 'tests use one pointer type for one connection',
 ['detail/foreign_ptr.hpp','detail/slot_template.hpp'],[('foreign_void_shared_ptr / foreign_void_weak_ptr','detail/foreign_ptr.hpp')])
p('C24','A signal used as a slot is held weakly and forwards to the live signal',
 'A slot made from a signal does not own that signal: it tracks it, forwards each call with its arguments to it while it lives, returns its result, and keeps it alive during such a call. disconnect(signal), directly or by reference wrapper, removes exactly the slots made from that signal.',
 ['histories','inputs'],'every emission, move and destruction of both signals',
 'tests check one pair of signals; in the preprocessed implementation disconnect(signal) did nothing (repaired)',
 [ST,'detail/signals_common.hpp'],[('weak_signal',ST)])
p('C25','Connections compare and move as handles to one connection',
 'Two connection objects are equal exactly if they refer to the same live connection or neither refers to a live one, != is the negation of ==, and < is a strict order consistent with ==. Copying, moving, assigning and swapping transfer the reference without disconnecting, and a moved-from connection refers to none.',
 ['inputs','histories'],'every pair of connections and every sequence of operations',
 'finitely many pairs are tested',
 ['connection.hpp'],[('connection operators','connection.hpp')])
p('C27','Disconnected slots are removed from the list bit by bit, connected ones never',
 'Each connect() examines at least two list elements (or all there are), and each invocation at least one, if the list is in use nowhere else, continuing round the list where the last cleanup stopped, and every disconnected slot so examined is removed from the list while every connected slot stays. An invocation that met more disconnected than connected slots removes all disconnected ones when it ends.',
 ['histories'],'every history of connects, disconnects and emissions',
 'a bound on garbage over unbounded histories; tests look at the called slots, not at the list',
 [ST],[('nolock_cleanup_connections_from / invocation_janitor',ST)],[('_garbage_collector_it','where the next cleanup starts',ST)])
p('C28','State shared between threads is accessed only under the signal mutex',
 'Whenever a library object can be reached by other threads, each read or write of its mutable state (connected flag, slot shares, slot pointer, blocker, current slot list and combiner, cleanup position) by any operation documented as thread-safe happens while the Mutex is held, so that two threads using the same signal or connection never race.',
 ['schedules'],'every pair of operations on the same signal, connection or slot list, in every interleaving',
 'a race shows only under particular schedules; one was found (and repaired) in blocked()',
 ['connection.hpp',ST,'detail/slot_call_iterator.hpp'],[('garbage_collecting_lock / unique_lock','connection.hpp')])
# deliberately not claimed
p('C19','auto_buffer is a correct small-buffer container',
 'auto_buffer holds exactly the elements pushed and not yet popped or cleared, in order, constructs and destroys each exactly once, never writes outside its storage, and moves to the heap when the in-object capacity is exceeded.',
 ['inputs','histories'],'every history of operations and every element type','the sizes and capacities are run-time numbers; no test of it exists in the repository',
 ['detail/auto_buffer.hpp'],[('auto_buffer','detail/auto_buffer.hpp')])
p('C29','Concurrent histories are linearizable',
 'Every concurrent history of connect, disconnect, block, emit and num_slots on one signal is equivalent to a sequential one that respects the real-time order of calls, an emission taking effect slot by slot.',
 ['schedules','histories'],'all interleavings of all operations','needs all schedules',
 [ST,'connection.hpp'],[('mutex per signal',ST)])
p('C30','Emission makes progress and costs linear time',
 'An emission over n slots performs a number of steps linear in n plus the time of the slots, and every operation ends if the user code and the Mutex do.',
 ['inputs','schedules'],'all list lengths and schedules','bounds on run-time quantities',
 [ST,'detail/slot_call_iterator.hpp'],[('lock_next_callable','detail/slot_call_iterator.hpp')])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for r in P: f.write(json.dumps(r)+'\n')
    assert all(len(r['title'])<=80 for r in P), [r['id'] for r in P if len(r['title'])>80]
    print(len(P),'properties')
