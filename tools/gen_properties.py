#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)
import json
I='include/boost/sync/'
D=I+'detail/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None)
    if state: a['state']=[dict(name=x,where=mech[0][1]) for x in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

prop('C01','Exclusive locks give mutual exclusion on every acquisition path',
 'At most one thread holds a mutex, timed_mutex, spin_mutex or the exclusive side of a shared_spin_mutex at any time, whichever path acquired it (lock, try_lock, timed_lock, try_lock_for, try_lock_until, directly or through lock_guard, unique_lock or unlock_guard, or re-acquisition inside a condition variable wait). A call that reports failure leaves the caller without ownership and a call that reports success leaves it with ownership.',
 ['schedules','histories','fault_sequences'],'For every interleaving of any number of threads using any mix of acquisition paths, including timeouts that race with a release, interrupted waits and spurious compare-exchange failures.',
 'A double grant needs two acquisitions (or an acquisition and a failing one) to overlap at one particular instruction; the unit tests lock with at most a couple of threads and never race timeouts against releases.',
 [D+'mutexes/mutex_posix.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp',I+'locks/unique_lock.hpp',I+'locks/lock_guard.hpp',I+'locks/unlock_guard.hpp'],
 [('pthread mutex wrapper',D+'mutexes/mutex_posix.hpp'),('timed lock and its mutex+cond emulation',D+'mutexes/timed_mutex_posix.hpp'),('test-and-set loop',D+'mutexes/spin_mutex.hpp'),('reader/writer word',D+'mutexes/shared_spin_mutex.hpp')],
 ['m_mutex','m_is_locked','state'],['return of every lock/try_lock/timed_lock call'])

prop('C02','shared_spin_mutex: one writer or many readers, and truthful try operations',
 'A shared_spin_mutex never has an exclusive owner together with any other owner, and any number of shared owners may coexist. try_lock fails only if the mutex was owned by someone at some moment of the call and try_lock_shared fails only if it was exclusively owned at some moment of the call. Every unlock or unlock_shared gives back exactly the one ownership it releases.',
 ['schedules','histories'],'For every interleaving of lock, try_lock, unlock, lock_shared, try_lock_shared and unlock_shared by any number of threads, including spurious compare-exchange failures.',
 'Reader count updates, writer entry and failed attempts must overlap inside a few instructions to go wrong; the repository has no concurrent shared_spin_mutex test.',
 [D+'mutexes/shared_spin_mutex.hpp',I+'mutexes/shared_spin_mutex.hpp',I+'locks/shared_lock.hpp',I+'locks/shared_lock_guard.hpp'],
 [('state word with writer bit and reader count',D+'mutexes/shared_spin_mutex.hpp')],['state'],['return of every (try_)lock(_shared)'])

prop('C03','Released locks are acquired by waiters; failed attempts leave no residue',
 'Once the owner of a mutex, timed_mutex, spin_mutex or shared_spin_mutex releases it and no one else keeps acquiring it, every thread blocked in lock, lock_shared or an unexpired timed lock acquires it within a bounded number of scheduling steps. try_lock on a free mutex succeeds, try_lock on an owned mutex fails without blocking, and a failed or timed out attempt does not change the state seen by later acquisitions.',
 ['schedules','histories','fault_sequences'],'For every schedule that is eventually fair, every order of waiters, timeouts and releases, including waiters that give up exactly when the lock is handed over.',
 'Lost wakeups need a waiter to give up or go to sleep exactly between two steps of a release; tests use a single blocked thread and generous sleeps.',
 [D+'mutexes/timed_mutex_posix.hpp',D+'mutexes/mutex_posix.hpp',D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp',D+'pthread.hpp'],
 [('wakeup of blocked timed lockers',D+'mutexes/timed_mutex_posix.hpp'),('spin until free',D+'mutexes/spin_mutex.hpp')],['m_is_locked','state'],['blocked lockers at quiescence'])

prop('C04','semaphore is an exact counter and never strands a waiter',
 'Every history of post, wait, try_wait and timed waits on a semaphore is explained by one atomic counter that starts at the constructor argument: a successful wait takes exactly one unit, a failed one takes none and try_wait fails only if the counter was zero during the call. No unit is lost or duplicated, and no thread stays blocked while the counter is positive.',
 ['schedules','histories','fault_sequences'],'For every interleaving of posters, waiters, polling and timed waiters, every initial count, and timeouts or signals that race with posts.',
 'Losing or duplicating a unit needs a post to race with a timeout, an interrupted wait or another waiter; the tests post and wait in a fixed order with two threads.',
 [D+'semaphore/semaphore_posix.hpp',D+'semaphore/semaphore_emulation.hpp',I+'semaphore.hpp'],
 [('sem_t wrapper',D+'semaphore/semaphore_posix.hpp'),('mutex + condition variable emulation',D+'semaphore/semaphore_emulation.hpp')],['m_sem','m_count'],['results of wait operations','blocked threads at quiescence'])

prop('C05','auto_reset_event releases one waiter per post and keeps at most one signal',
 'A post either releases exactly one thread blocked on the auto_reset_event or, if none is blocked, leaves the event signalled until exactly one wait completes; posting an already signalled event adds nothing. Every successful wait, try_wait or timed wait consumes exactly one such signal, unsuccessful ones consume none and leave no trace, and no thread stays blocked while a signal is available.',
 ['schedules','histories','fault_sequences'],'For every interleaving of any number of posters, blocked, polling and timed waiters, including several posts in a row, timeouts that race with posts, interrupted and spuriously woken waits.',
 'The state word combines post and waiter counts updated by several racing paths; a lost or duplicated signal needs a specific overlap of post, timeout and wakeup that the tests never create.',
 [D+'events/auto_reset_event_futex.hpp',D+'events/auto_reset_event_semaphore.hpp',D+'events/auto_reset_event_emulation.hpp',I+'events/auto_reset_event.hpp'],
 [('post/waiter counters in one futex word',D+'events/auto_reset_event_futex.hpp'),('waiter count plus semaphore',D+'events/auto_reset_event_semaphore.hpp'),('mutex + condition variable',D+'events/auto_reset_event_emulation.hpp')],['m_state','m_sem','m_is_set'],['results of wait operations','blocked threads and retained signals at quiescence'])

prop('C06','manual_reset_event releases every waiter on set and stays set until reset',
 'After set, and until reset is called, every thread blocked on the manual_reset_event is released and every wait, try_wait and timed wait succeeds without blocking; after reset waits block or fail until the next set. Every history of set, reset and wait operations is explained by one atomic flag, waiting never changes the flag, and no thread stays blocked while the event remains set.',
 ['schedules','histories','fault_sequences'],'For every interleaving of setters, resetters, blocked, polling and timed waiters, including repeated set/reset cycles, timeouts racing with set and interrupted waits.',
 'Waiters register in the same word that holds the flag; a stranded or wrongly released waiter needs registration, set, reset and timeout to overlap in ways the tests do not produce.',
 [D+'events/manual_reset_event_futex.hpp',D+'events/manual_reset_event_emulation.hpp',I+'events/manual_reset_event.hpp'],
 [('flag bit and waiter count in one futex word',D+'events/manual_reset_event_futex.hpp'),('mutex + condition variable',D+'events/manual_reset_event_emulation.hpp')],['m_state','m_is_set'],['results of wait operations','blocked threads at quiescence'])

prop('C07','condition_variable loses no notification and always returns with the lock held',
 'Waiting on a condition_variable releases the mutex and blocks as one atomic step, so a notify_one issued under or after that mutex wakes at least one of the threads blocked at that time and notify_all wakes all of them. Every wait, timed wait and predicate wait returns, or throws, with the same lock owned again, and reports a timeout only if its timeout expired.',
 ['schedules','histories','fault_sequences'],'For every interleaving of notifiers and waiters with and without timeouts, with spurious wakeups, timeouts racing with notifications and failing system calls.',
 'A lost notification needs the notifier to run in the window between releasing the mutex and blocking, or to race with a timeout; tests notify long after the waiter sleeps.',
 [D+'condition_variables/condition_variable_posix.hpp',I+'condition_variables/condition_variable.hpp',D+'pthread.hpp'],
 [('pthread condition wrapper',D+'condition_variables/condition_variable_posix.hpp')],['m_cond'],['lock ownership on return','blocked waiters at quiescence'])

prop('C08','condition_variable_any gives the same guarantees with any lockable',
 'condition_variable_any waits release the user lock and block atomically with respect to notifications made under that lock or after its release, for any BasicLockable, including spin_mutex, shared_lock and user-defined lock types. Every wait returns or throws with the user lock re-acquired exactly once (unless re-acquisition itself throws), the internal mutex is never left locked, and no notification is lost.',
 ['schedules','histories','fault_sequences'],'For every lockable type, every interleaving of notifiers and waiters, and user lock()/unlock() operations or system calls that throw or fail at any point.',
 'The two-lock protocol only breaks when a notifier runs between unlocking the user lock and blocking, or when a user lock throws; the tests have neither.',
 [D+'condition_variables/condition_variable_any_generic.hpp',I+'condition_variables/condition_variable_any.hpp'],
 [('internal mutex and relocker protocol',D+'condition_variables/condition_variable_any_generic.hpp')],['m_mutex','m_cond'],['user lock state on return','blocked waiters at quiescence'])

prop('C09','Predicate waits: truthful result, predicate under the lock, one total timeout',
 'A predicate wait on condition_variable or condition_variable_any evaluates the predicate only while the lock is held and returns only when it is true or the timeout has expired; the returned bool equals the value of the predicate at its last evaluation. The timeout bounds the whole wait: notifications that leave the predicate false and spurious wakeups neither extend it nor end it early.',
 ['schedules','histories','fault_sequences'],'For every sequence of notifications, spurious wakeups and state changes during the wait, for every overload (wait, timed_wait, wait_for, wait_until) and time type.',
 'The total timeout and the final predicate check only matter with repeated fruitless wakeups or a change racing with expiry, which tests on a real clock cannot arrange reliably.',
 [D+'condition_variables/condition_variable_posix.hpp',D+'condition_variables/condition_variable_any_generic.hpp'],
 [('predicate loops',D+'condition_variables/condition_variable_posix.hpp'),('predicate loops',D+'condition_variables/condition_variable_any_generic.hpp')],None,['return value and time of predicate waits'])

prop('C10','Timed operations never time out early and never outlive their deadline',
 'A timed operation of timed_mutex, semaphore, the events or the condition variables reports timeout only once its clock has reached the requested time point (or the requested duration has elapsed), and does not stay blocked past it when nothing else satisfies it. A deadline that has already passed, or a zero or negative duration, makes the call return promptly (still succeeding if the operation could complete at once). This holds for std::chrono, boost::chrono, posix_time and timespec arguments, system and steady clocks, and any unit and any magnitude whose conversion to nanoseconds does not overflow.',
 ['inputs','schedules','fault_sequences'],'For every timeout value, unit and clock, every delay or interruption of the waiting thread, and system clock adjustments.',
 'Tests can only sample a few durations in real time with wide tolerances, and cannot interrupt waits or move the clock.',
 [D+'time_units.hpp',D+'time_traits.hpp',I+'support/std_chrono.hpp',I+'support/boost_chrono.hpp',I+'support/boost_date_time.hpp',I+'support/posix_time.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'semaphore/semaphore_posix.hpp',D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'condition_variables/condition_variable_posix.hpp',D+'futex.hpp'],
 [('time point arithmetic',D+'time_units.hpp'),('unit conversions',I+'support/std_chrono.hpp'),('relative futex timeout',D+'futex.hpp')],None,['virtual time at call and return of every timed operation'])

prop('C11','Signals, spurious wakeups and weak CAS failures are invisible to callers',
 'Interrupting a blocked or about-to-block thread with a signal, waking it spuriously, or failing a weak compare-exchange never changes what a lock, semaphore or event operation returns: it neither succeeds without being entitled to, nor fails, throws, nor loses its place for a later release. Timed operations keep their original deadline across any number of interruptions.',
 ['fault_sequences','schedules'],'For every number and placement of interruptions (EINTR, EWOULDBLOCK, spurious futex or condition wakeups, spurious weak compare-exchange failures) in every operation.',
 'Tests run without signals and cannot make the kernel wake a futex or condition variable spuriously at a chosen point.',
 [D+'semaphore/semaphore_posix.hpp',D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'events/auto_reset_event_emulation.hpp',D+'semaphore/semaphore_emulation.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'pthread.hpp'],
 [('EINTR retry loops',D+'semaphore/semaphore_posix.hpp'),('futex wait loops',D+'events/auto_reset_event_futex.hpp'),('pthread EINTR workaround',D+'pthread.hpp')],None,['result and duration of every operation under injected interruptions'])

prop('C12','The result of a timed or try operation agrees with its effect on the object',
 'When a timeout or a polling attempt races with a post, set, release or notification, the operation either returns true and has taken exactly one unit, signal or ownership, or returns false and has taken none: nothing is both consumed and reported as failed, or both reported as successful and left available. A waiter that gives up does not leave a stale registration that would absorb or misdirect a later post or release.',
 ['schedules','histories','fault_sequences'],'For every interleaving in which deadlines expire before, during and after the racing release, with any number of other waiters.',
 'The race between expiry and release lasts a few instructions and cannot be hit on demand with real clocks.',
 [D+'events/auto_reset_event_futex.hpp',D+'events/auto_reset_event_semaphore.hpp',D+'events/manual_reset_event_futex.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'semaphore/semaphore_emulation.hpp',D+'events/auto_reset_event_emulation.hpp'],
 [('on_wait_timed_out',D+'events/auto_reset_event_futex.hpp'),('state correction after failed wait',D+'events/auto_reset_event_semaphore.hpp'),('re-check after ETIMEDOUT',D+'mutexes/timed_mutex_posix.hpp')],['m_state'],['conservation of units over the run'])

prop('C13','Everything written before a release is visible after the matching acquire',
 'Whatever a thread wrote before unlocking a mutex (exclusive or shared), posting a semaphore or auto_reset_event, or setting a manual_reset_event is visible, without data races, to the thread whose lock, try_lock, wait, try_wait or timed wait succeeded because of it. This holds on every hardware memory model allowed by C++, on fast paths as well as blocking paths, and also for a post that found the event already signalled.',
 ['schedules','configurations'],'For every interleaving and every reordering and store delay the C++ memory model permits for the atomic operations used.',
 'Tests on x86 run with much stronger ordering than the C++ model guarantees, so missing acquire/release edges never show.',
 [D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp',D+'events/auto_reset_event_futex.hpp',D+'events/auto_reset_event_semaphore.hpp',D+'events/manual_reset_event_futex.hpp',D+'atomic.hpp'],
 [('memory orders of the state word operations',D+'events/auto_reset_event_futex.hpp'),('acquire fast path',D+'events/manual_reset_event_futex.hpp'),('acquire/release spin lock',D+'mutexes/spin_mutex.hpp')],None,['plain data handed from releaser to acquirer'])

prop('C14','thread_specific_ptr: private per thread, every value cleaned up exactly once',
 'Each thread sees through thread_specific_ptr::get only the value it stored last with reset (null before that, after release, and for other or later pointers that reuse the slot). Every non-null stored value is passed exactly once to the cleanup function: when replaced by reset, when its thread exits, or when the pointer object is destroyed, while released values are never cleaned up.',
 ['histories','schedules'],'For every sequence of construction, reset, release, get, destruction and thread exit over any number of threads and pointer objects, including cleanup functions that themselves use thread-specific pointers.',
 'Slot reuse, cleanup re-entrancy and thread exit order only matter in long mixed histories; the tests use one pointer and one value.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'thread_specific/thread_specific_ptr.hpp'],
 [('per-thread storage vector and key recycling','src/tss_manager.hpp'),('thread exit hook','src/tss_pthread.cpp')],['m_storage','m_storage_cleanup','m_freed_keys'],['get() results and cleanup calls'])

prop('C15','at_thread_exit callbacks run exactly once, last first, in the exiting thread',
 'Every function registered with at_thread_exit runs exactly once, in the thread that registered it, when that thread terminates, in reverse order of registration, and its copy is destroyed afterwards; functions registered by other threads are unaffected. Callbacks run before the thread-specific values of the thread are cleaned up and may register further callbacks, which also run.',
 ['histories','schedules'],'For every set of registrations in any number of threads, including registrations made from callbacks and from thread-specific cleanup functions, and threads exiting concurrently.',
 'Order, exactly-once and nesting are only exercised by many registrations in several exiting threads; tests register one or two.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'thread_specific/at_thread_exit.hpp'],
 [('at-exit list','src/tss_manager.hpp'),('pthread key destructor','src/tss_pthread.cpp')],['m_at_exit_functions'],['callback invocations'])

prop('C16','notify_all_at_thread_exit holds the lock until all thread-exit work is done',
 'After notify_all_at_thread_exit the mutex stays locked by the exiting thread until all of its at_thread_exit callbacks have run and all its thread-specific values have been cleaned up; then the mutex is unlocked and all threads waiting on the condition variable are notified. Every such registration is honoured exactly once, so a waiter never observes the exit too early and never misses it.',
 ['schedules','histories'],'For every number of registrations, callbacks and thread-specific values per thread, waiters that arrive early or late, and threads exiting concurrently.',
 'An early unlock or lost notification shows only if a waiter runs inside the exit sequence of the other thread; tests only check that the waiter wakes up.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'condition_variables/notify_all_at_thread_exit.hpp'],
 [('notification list processed last','src/tss_manager.hpp')],['m_notify_at_exit'],['state seen by waiters holding the mutex'])

prop('C17','Thread-specific storage is safe under concurrent creation, deletion and exit',
 'Creating and destroying thread_specific_ptr objects, storing values, registering exit callbacks and thread termination may run concurrently in different threads without data races, use of freed memory, missed or doubled cleanups, or a value being cleaned up with the function of another pointer. A destroyed key is reused only with all its old values gone from every thread. Threads that have exited leave no memory of the library behind, however many come and go.',
 ['schedules','histories'],'For every interleaving of key creation, key deletion, first use in a thread, growth of a thread\'s storage and thread exit.',
 'The windows (storage growth or exit against deletion of another key) are a few instructions long and tests never delete keys while other threads run.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp'],
 [('manager mutex and context list','src/tss_manager.hpp'),('set_value growth','src/tss_manager.hpp'),('destroy_thread_context','src/tss_manager.hpp'),('delete_key','src/tss_manager.hpp')],['m_thread_contexts','m_storage','m_storage_cleanup','m_freed_keys'],['memory accesses, cleanup calls'])

prop('C18','Lock wrappers own exactly what they report and release it exactly once',
 'unique_lock, shared_lock, upgrade_lock and the guards own the mutex exactly when owns_lock says so and give it back exactly once, whatever sequence of construction options, lock, try_lock, timed_lock, unlock, release, move, swap, assignment and conversions between lock kinds is used. Misuse (no mutex, already owned, not owned) throws lock_error and changes nothing, and an exception or failure from the mutex leaves the wrapper reporting the true ownership.',
 ['histories','fault_sequences'],'For every sequence of wrapper operations over several wrappers and mutexes, with mutex operations that fail or throw at any point, under contention.',
 'Leaks and double releases appear only for particular sequences of moves, conversions and failures; tests check single operations.',
 [I+'locks/unique_lock.hpp',I+'locks/shared_lock.hpp',I+'locks/upgrade_lock.hpp',I+'locks/lock_guard.hpp',I+'locks/unlock_guard.hpp',I+'locks/shared_lock_guard.hpp',I+'exceptions/lock_error.hpp'],
 [('ownership flag',I+'locks/unique_lock.hpp'),('conversion constructors',I+'locks/shared_lock.hpp'),('conversion constructors',I+'locks/upgrade_lock.hpp')],['m_mutex','m_is_locked'],['calls received by the mutex'])

prop('C19','Operating system and allocation failures surface as errors and change nothing',
 'When a system call or memory allocation fails inside a mutex, condition variable, semaphore or thread-specific operation, the caller gets the documented exception (lock_error, wait_error, resource_error, overflow_error, bad_alloc) instead of a false success, silent loss or crash. The object stays usable with the state it had before the call: locks remain as they were, units are not lost, registered callbacks and stored values survive and registrations that threw have no effect.',
 ['fault_sequences'],'For every system call or allocation that may fail, at every occurrence, in every operation and history.',
 'Tests run on a healthy system: no allocation or pthread call ever fails in them.',
 [D+'mutexes/mutex_posix.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'condition_variables/condition_variable_posix.hpp',D+'condition_variables/condition_variable_any_generic.hpp',D+'semaphore/semaphore_posix.hpp','src/tss_pthread.cpp','src/tss_manager.hpp',I+'thread_specific/at_thread_exit.hpp',I+'thread_specific/thread_specific_ptr.hpp',I+'condition_variables/notify_all_at_thread_exit.hpp',I+'exceptions/lock_error.hpp',I+'exceptions/wait_error.hpp',I+'exceptions/resource_error.hpp',I+'exceptions/overflow_error.hpp'],
 [('error code to exception mapping',D+'mutexes/mutex_posix.hpp'),('allocation in registration','src/tss_manager.hpp')],None,['exceptions and later behaviour after injected failures'])

prop('C20','Objects may be destroyed as soon as the last operation that needs them returned',
 'A mutex, semaphore or event may be destroyed and its memory reused as soon as the destroying thread knows, from its own returned lock or wait, that no other thread is still going to acquire or wait on it: no operation touches the object after it has made that knowledge possible. Condition variables may be destroyed once all waiters have been notified and returned.',
 ['schedules'],'For every interleaving of the releasing thread\'s last steps with the acquiring thread returning, destroying the object and freeing its memory.',
 'A touch-after-release needs the releaser to be suspended right after it published the release; without controlling the schedule the window is never hit.',
 [D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'events/auto_reset_event_semaphore.hpp',D+'semaphore/semaphore_emulation.hpp',D+'semaphore/semaphore_posix.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp'],
 [('wake after state change',D+'events/auto_reset_event_futex.hpp'),('release under internal mutex',D+'mutexes/timed_mutex_posix.hpp')],None,['memory accesses after destruction'])
for p in P:
    assert len(p['title'])<=80,p['id']
    print(json.dumps(p))
