"""What decides each property: harness entries, configurations and rules."""
import json, os
_T = {}
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')):
    d = json.loads(l); _T[d['id']] = d['title']
# a path on which one of these is met cannot be followed further, so they count for every property
GENERIC = ['null-deref', 'use-after-free', 'double-free', 'out-of-bounds', 'misaligned', 'bad-free', 'assert', 'terminate', 'pure-virtual', 'user-object', 'iterator', 'over-release']
ASSUME = [
  'other threads interfere only while the mutex is not held and only as the rules of C28, C10 and C05 allow (each operation is checked to keep them, so the argument is assume-guarantee)',
  'user code is any code that returns or throws; it does not destroy the library objects the operation was called on and does not let exceptions leave destructors',
  'boost::shared_ptr, weak_ptr, optional, variant and the C++ standard library behave as documented (their inline code is analysed, their out-of-line parts have contracts)',
]
CALL = dict(h='h_call', entries=['h_call', 'h_call_const'], alloc=True)
CONN = dict(h='h_connect', entries=['h_connect', 'h_connect_group', 'h_connect_ext', 'h_connect_ext_group'], alloc=True)
CONN1 = dict(h='h_connect', entries=['h_connect', 'h_connect_group'])
DISC = dict(h='h_disc', entries=['h_disconnect_all', 'h_disconnect_group', 'h_disconnect_slot', 'h_disconnect_slot_sig', 'h_disconnect_slot_sigref'], alloc=True)
CNT = dict(h='h_disc', entries=['h_num_slots', 'h_empty', 'h_num_slots_null', 'h_empty_null'], alloc=True)
COMB = dict(h='h_disc', entries=['h_combiner', 'h_set_combiner'], alloc=True)
CONNO = dict(h='h_conn', entries=['h_conn_disconnect', 'h_conn_connected', 'h_conn_blocked'], alloc=True)
PROPS = {}
def prop(id, rules, ir=(), explain='', **kw): PROPS[id] = dict(rules=rules, ir=list(ir), explain=explain, title=_T[id], **kw)
AI = 'Abstract interpretation of the LLVM IR of each entry, to a fixpoint over abstract states (heap shape, share counts, mutex, exceptions), every user call returning or throwing and every lazily discovered field taking each value it can have. '
prop('C01', ['lock-balance'], [CALL, CONN, DISC, CNT, COMB, CONNO], AI + 'Rule: lock only when the mutex is not held, unlock only when it is, not held at any exit.', min={'lock-balance': 50})
prop('C02', ['call-locked', 'release-locked'], [CALL, CONN, DISC, CNT, COMB, CONNO], AI + 'Rule: no slot or combiner call, and no release of a possibly last owner of a slot, connection or tracked object, while the mutex is held.', min={'release': 50, 'slot-call': 1})
prop('C03', ['snapshot'], [CALL, CONN, DISC, COMB], AI + 'Rule: a slot list or combiner reachable from an invocation state is mutated only if that state is proved to have no other owner, in the same critical section.', min={'snapshot': 20})
prop('C04', ['callable', 'no-skip', 'position', 'progress'], [CALL], AI + 'Rule: typestate of each list position (examined, found callable in one critical section, presented); the most general combiner drives the iterators.', min={'callable': 5, 'no-skip': 5, 'slot-call': 2})
prop('C05', ['slot-alive', 'tracked-alive', 'shares', 'share-leak', 'owner-leak'], [CALL], AI + 'Rule: shares in a slot are counted against the invocation (each critical section changes the count by what the invocation gains or gives up), held at each slot call together with the owners of its tracked objects, and given up at every exit.', min={'shares': 50, 'slot-call': 2})
prop('C08', ['call-once', 'result'], [CALL], AI + 'Rule: each result handed to the combiner is the token returned by the one call of the slot at that position.', min={'result': 2, 'slot-call': 2})
prop('C10', ['reconnect', 'shares', 'share-leak', 'typestate', 'visit-all', 'disconnect-reason', 'owner-leak', 'progress'], [DISC, CONNO, CALL], AI + 'Rule: typestate of the connected flag and share count over each critical section; every traversal that disconnects reaches every slot it must.', min={'typestate': 20, 'visit-all': 5})
prop('C28', ['lockset', 'lifetime'], [CALL, CONN, DISC, CNT, COMB, CONNO], AI + 'Rule (lockset): every access to the mutable state of a shared library object happens with the mutex held, or under a share that makes it immutable; no access to an object nothing keeps alive.', min={'lockset': 200})

MON = 'Abstract interpretation of monitor harnesses: for every initial state of the objects handed in (each field taking each value it can have) and every interleaving with other threads, every assertion of the harness is shown to hold. '
def entries(h, prefix):
    """the functions of a harness"""
    import re
    return sorted(set(re.findall(r'\b(%s\w*)\(' % prefix, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', h + '.cpp')).read())))
prop('C11', ['disconnect-reason', 'typestate'], [dict(h='h_scoped', entries=entries('h_scoped', 'h_scoped_'))], MON + 'Rules: the assertions tagged C11, and disconnect-reason: no connection is disconnected before the harness says it may be. Witnesses: copying is rejected by the compiler.', min={'check:C11': 30, 'typestate': 4}, witness=[dict(file='scoped.cpp')], technique='abstract interpretation of LLVM IR with monitors; compile-fail witnesses')
prop('C12', ['blocker', 'lockset'], [dict(h='h_block', entries=entries('h_block', 'h_block_'), opts=['-w', '40']), dict(h='h_conn', entries=['h_conn_blocked'])], MON + 'The most general client of two blocks on one connection, to a fixpoint, alone and against other threads. Rule blocker: the blocker of a connection is replaced only when it is known to have expired, under the mutex.', min={'check:C12': 50, 'blocker': 5})
prop('C25', [], [dict(h='h_scoped', entries=entries('h_scoped', 'h_conn_'))], MON + 'Equality, order, copy, move, assignment and swap of arbitrary connections.', min={'check:C25': 30}, witness=[dict(file='scoped.cpp')])

prop('C09', ['count', 'visit-all', 'expiry', 'disconnect-reason', 'progress'], [CNT], AI + 'Rule count: a ghost counter follows the traversal of the slot list (every position from the first to the end is found connected or not in one critical section) and the value returned equals it; the relation between counter and variable is kept when numbers are widened.', min={'count': 4, 'visit-all': 4})
prop('C20', [], explain='Type-level witnesses compiled against the headers in both implementations (arities 0, 1, 2, 3 and 8, default and user parameters): static assertions state each documented type and conversion; uses that must be rejected are compiled one at a time and must fail.', witness=[dict(file='types.cpp')], technique='type-level witnesses: static assertions and compile-fail cases decided by the compiler', assume=['the compiler decides types as the C++ standard says'])

prop('C18', [], [dict(h='h_mutex', entries=entries('h_mutex', 'h_mutex_'), configs=['variadic', 'variadic-ndebug']), dict(h='h_mutex_nothreads', entries=['h_mutex_nothreads'], configs=['variadic', 'variadic-ndebug'])], explain='Abstract interpretation of signals2::mutex under the most general client: the functions of the platform mutex are monitors that check the mutex they are given and count, with assertions enabled and disabled. Witnesses: mutexes and locks cannot be copied.', min={'check:C18': 40}, witness=[dict(file='locks.cpp')], technique='abstract interpretation of LLVM IR with monitors; compile-fail witnesses')

prop('C16', [], [dict(h='h_deconstruct', entries=entries('h_deconstruct', 'h_dec_'), alloc='both'), dict(h='h_deconstruct', entries=['h_forward'], configs=['variadic', 'variadic-ndebug'])], explain='Abstract interpretation of deconstruct() and its invoker under client code that asks for the shared_ptr in any way and drops it in any order, with every constructor and adl_postconstruct returning or throwing: the class made is a monitor that checks what is called on it and when. Every arity of both implementations, const objects, shared_from_this, postconstructible and predestructible.', min={'check:C16': 100}, assume=['the invoker returned by deconstruct() is not copied before the object is postconstructed', 'adl_predestruct and destructors do not throw'])

prop('C17', [], [dict(h='h_deconstruct_ptr', entries=entries('h_deconstruct_ptr', 'h_dp_'), configs=['variadic', 'variadic-ndebug'], alloc='both')], explain='Abstract interpretation of deconstruct_ptr under client code that drops the shared_ptr in any order, with postconstruct returning or throwing (and predestruct throwing where assertions are off, allocation failing): the classes and the deleter given are monitors that check what is called on them and when.', min={'check:C17': 60}, assume=['with assertions enabled predestruct does not throw: the library asserts that'])

prop('C07', [], [dict(h='h_last', entries=entries('h_last', 'h_last_') + entries('h_last', 'h_opt_'), configs=['variadic', 'variadic-ndebug'])], MON.replace('monitor harnesses', 'the two combiners, given a monitor as the input iterator') + 'Each dereference gives a fresh value, finds the slot expired, or throws (an exception of its own class, of the base class of expired_slot, or std::exception); sequences of any length; results copyable, movable, references, scalars and void.', min={'check:C07': 60})

prop('C22', ['quiet'], [dict(h='h_move', entries=entries('h_move', 'h_move_') + entries('h_move', 'h_null_'))], MON + 'Signals, null or not, distinct or not, are moved, assigned and swapped; the state each refers to is compared before and after, the operations on a null signal must end without effect, and user code must not be called (rule quiet).', min={'check:C22': 100})

prop('C21', ['connect-atomic', 'exception', 'expired-slot', 'disconnect-reason'], [dict(CONN, alloc='both'), CALL, dict(h='h_catch', entries=['h_call_catch'])], AI + 'Memory may run out at every allocation. Rules: no exception leaves connect() or connect_extended() once the slot is in the list; the exception thrown by a slot, a result or a combiner is, by identity, the one that reaches the caller or the combiner that dereferenced, and none is swallowed; whoever sees expired_slot finds the slot that threw it, and no other, disconnected.', min={'connect-atomic': 8, 'exception': 4, 'expired-slot': 4})

ARGSIG = [['-DARGS=', '-DRES=void'], ['-DARGS=V'], [], ['-DARGS=V*,const V&,V', '-DRES=void'], ['-DARGS=V,V&,V*,V,V,V&,V,V*,V']]
prop('C15', [], [dict(h='h_args', entries=entries('h_args', 'h_args_'), defs=d) for d in ARGSIG], MON + 'The slots are monitors that compare every argument with what the caller gave (by address for references, by value for values) and with having been moved from; the call operators of signals, slots and signals used as slots are called for arities 0, 1, 2, 3 and 9.', min={'check:C15': 60}, assume=['the arities and kinds of arguments analysed stand for the others: the code is one template over them'])

TRK = dict(h='h_track', entries=entries('h_track', 'h_trk_'), alloc=True)
prop('C13', ['tracked', 'tracked-alive', 'expiry', 'disconnect-reason', 'callable', 'progress'], [TRK, CONN, CNT, CALL, CONNO], AI + 'Rule tracked: the tracked list of a slot, and of every copy, conversion and connection made from it, holds a weak pointer to (the foreign pointer given, the state of) each object it must track and nothing else. Rule tracked-alive: no slot function is called unless an owner of each tracked object is held; expiry: a slot is found expired, or its connection disconnected for it, exactly when one of the weak pointers had expired.', min={'tracked': 40, 'tracked-alive': 4, 'expiry': 8})

FWD = [e for e in entries('h_fwd', 'h_fwd_')]
prop('C14', ['tracked', 'lockset'], [dict(h='h_fwd', entries=[e for e in FWD if '_ext' in e]), dict(h='h_connect', entries=['h_connect_ext', 'h_connect_ext_group'])], MON + 'Function objects know where they come from: the function that ends up in the list is called and what it does with the connection, the arguments and the result is compared. Rule tracked: the slot made tracks exactly what the extended slot tracks. Rule lockset: the connection given to the function is written only under the mutex, before any other thread can call it.', min={'check:C14': 20, 'tracked': 1, 'lockset': 40})
prop('C24', ['tracked', 'visit-all', 'disconnect-reason'], [dict(h='h_fwd', entries=[e for e in FWD if '_signal' in e], rules=['check:C24']), dict(h='h_track', entries=['h_trk_signal', 'h_trk_sigslot', 'h_trk_bound_sigptr', 'h_trk_bound_sigref', 'h_trk_bound_csigref'], alloc=True), dict(h='h_disc', entries=['h_disconnect_slot_sig', 'h_disconnect_slot_sigref'], alloc=True)], MON + 'Signals as slots: what they call, what they return, that they own nothing of the signal, that they track it, and that disconnect(signal) reaches each slot made from the signal and no other.', min={'check:C24': 15, 'tracked': 5, 'visit-all': 2})

CONND = dict(h='h_connect', entries=['h_connect', 'h_connect_group', 'h_connect_ext', 'h_connect_ext_group', 'h_connect_default', 'h_connect_group_default', 'h_connect_ext_default', 'h_connect_ext_group_default'])
prop('C06', ['order', 'visit-all', 'erase-key'], [dict(h='h_groups', entries=entries('h_groups', 'h_grp_'), configs=['variadic', 'variadic-ndebug']), CONND, dict(h='h_disc', entries=['h_disconnect_group', 'h_disconnect_all'])], 'The list of slots by groups (grouped_list) is interpreted over monitors that stand for std::list and std::map: an arbitrary list in order, in which one group is observed, its elements and its neighbours discovered as they are visited; the comparison has state and throws, memory runs out. After each operation the new element is where group and position say, the index refers to the first element of the group observed and of its neighbour, and a copy has its own index. ' + AI + 'Rule order: connect() enters the slot under the group and at the end asked for and the connection keeps that group; disconnect(group) begins and ends with that group.', min={'check:C06': 60, 'order': 8}, assume=['std::list and std::map behave as documented', 'the group comparison is a strict weak ordering'])

prop('C27', ['examined', 'cleanup-position', 'erase-connected', 'erase-key', 'list-kept', 'progress'], [dict(h='h_gc', entries=entries('h_gc', 'h_gc_')), dict(h='h_disc', entries=['h_set_combiner'])], AI + 'Rules: examined: every cleanup goes on where the last one stopped (or through the whole list from the first slot), every position it passes is found disconnected and removed, or found connected and left (by a connect, with a look at its tracked objects); a connect examines two positions or reaches the end, an invocation one if the list is not in use elsewhere; ghost counters follow what an invocation meets, and when more slots were found disconnected than connected a cleanup from the first slot to the end is required before it ends. erase-connected and list-kept: only slots found disconnected are removed, and a list is replaced by its copy only.', min={'examined': 50, 'cleanup-position': 10, 'erase': 10, 'list-kept': 5}, technique='abstract interpretation: typestate of list positions and counters of an invocation')

prop('C23', ['tracked'], [dict(h='h_foreign', entries=entries('h_foreign', 'h_fp_'), alloc='both'), dict(h='h_track', entries=['h_trk_foreign', 'h_trk_std', 'h_trk_lock', 'h_trk_expired', 'h_trk_shared'], alloc=True)], MON + 'Two kinds of foreign weak pointer and the owners they yield count their copies per object referred to; copies may throw; pointers are copied, assigned (to themselves, to others of the same and of another kind, to empty ones), swapped, locked, asked and destroyed, alone and inside the variants that slots hold. Rule tracked: what track_foreign() is given is what the slot and its copies track. Witnesses: none.', min={'check:C23': 60, 'tracked': 8}, technique='abstract interpretation with monitors of foreign pointers')

BUFE = entries('h_buffer', 'h_buf_')
def buf(kind, room, n, **kw): return dict(h='h_buffer', entries=[e for e in BUFE if kind != 2 or e != 'h_buf_compare'], defs=['-DKIND=%d' % kind, '-DROOM=%d' % room, '-DMAXN=%d' % n], configs=['variadic', 'variadic-ndebug'], opts=['-w', '40'], **kw)
prop('C19', [], [buf(0, 2, 3, alloc='both'), buf(1, 2, 3), buf(2, 2, 3), buf(0, 1, 2), buf(0, 0, 2), buf(2, 0, 2), buf(0, 2, 4, tier='thorough', alloc='both'), buf(2, 2, 4, tier='thorough'), buf(0, 3, 4, tier='thorough')], 'Abstract interpretation of auto_buffer under the most general client, to a fixpoint: every history, of any length, of pushing, popping, clearing, reserving, shrinking, inserting, erasing, copying, assigning, swapping and comparing, in which no buffer has more than three elements (four in the thorough run), with every copy and allocation returning or throwing. The elements are monitors that know whether they are constructed, the allocator one that counts, and an array next to each buffer says what it must hold. Elements whose copies throw, do not throw, and are trivial; room for none, one and two elements in the object.', min={'check:C19': 500}, note='Every history of operations with at most three (thorough: four) elements at a time, so that the growth from the object to the heap, and its reverse, happen with every number of elements up to that; larger buffers are not covered. Trusts clang, the interpreter in tool/ and the contracts of DESIGN.md.', assume=['an element given to a buffer to push or insert is not one of its own', 'the buffer does not look at the values of elements, so two values stand for all', 'at most three (thorough: four) elements at a time'])

prop('C30', ['progress'], [CALL, dict(CALL, h='h_catch', entries=['h_call_catch']), CONN, DISC, CNT, COMB, CONNO, TRK, dict(h='h_gc', entries=['h_gc_call']), dict(h='h_block', entries=entries('h_block', 'h_block_'), opts=['-w', '40']), dict(h='h_scoped', entries=entries('h_scoped', 'h_')), dict(h='h_groups', entries=entries('h_groups', 'h_grp_'), configs=['variadic', 'variadic-ndebug']), dict(h='h_last', entries=entries('h_last', 'h_last_') + entries('h_last', 'h_opt_'), configs=['variadic', 'variadic-ndebug'])], AI + 'Rule progress: the abstract states that are compared with others form a graph; there is no cycle in it on which no list position is left, no tracked object passed and no element removed (and, in the combiner, no free choice made).', min={'progress': 100}, assume=['lists are finite and, while they are gone through, not extended without end by others (C03: an invocation goes through a list that does not change)'])

NOTAPP = {
 'C29': 'linearizability quantifies over whole concurrent histories; static analysis here decides the per-operation conditions it needs (C28 lockset, C10 atomic effect, C03 snapshots), not the equivalence of histories',
 'C31': 'step counts quantify over the length of lists at run time, and cleanups are paid for by other operations; no amortised cost argument over these heap structures is in reach of the analyses used (C30 decides that every loop gets on)',
}
