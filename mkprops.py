#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the statements stay reviewable).
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Mutex: at most one owner, and every unlock lets a waiter proceed",
  "At any moment at most one thread is between a successful lock (blocking, try or timed) and the matching final unlock of a mutex, whatever its type, robustness or way of initialisation. A thread blocked on a mutex acquires it once the mutex is released: no wake-up is lost, so threads that each lock and unlock always finish. A lock attempt that reports busy or timed out leaves the mutex usable by everybody else.",
  ["schedules"], "All interleavings of two to three threads doing lock/trylock/timedlock/unlock on one mutex of every type, including the points where a timeout expires.",
  "Tests run one mostly sequential schedule with sleeps; a lost wake-up or a second owner needs a preemption between two particular instructions of lock and unlock.",
  ["pthread_mutex_lock.c", "pthread_mutex_trylock.c", "pthread_mutex_timedlock.c", "pthread_mutex_unlock.c", "implement.h"],
  [("three-state lock word 0/1/-1 with interlocked exchange, auto-reset event for waiters", "pthread_mutex_lock.c, pthread_mutex_unlock.c"), ("waiter marks contention before sleeping", "pthread_mutex_lock.c, pthread_mutex_timedlock.c")],
  [("lock_idx", "0 free, 1 locked, -1 locked with possible waiters", "implement.h struct pthread_mutex_t_"), ("event", "wake-up for one waiter", "implement.h struct pthread_mutex_t_")],
  ["return values of pthread_mutex_*"])
p("C02", "Mutex types: ownership, recursion and error reporting match POSIX",
  "For every sequence of lock, trylock, timedlock, unlock and destroy calls made by two threads, each call returns exactly what the mutex's type prescribes: recursive mutexes count, error-checking ones report relocking as deadlock and foreign unlock as not permitted, and trylock reports busy. Destroying a locked mutex is refused and leaves it intact; destroying an unlocked one succeeds and later use is reported as invalid.",
  ["histories", "configurations"], "All operation sequences up to a bounded length by two threads on each of the mutex types, robustness kinds and static initialisers.",
  "Tests try a handful of fixed sequences per type; the guarantee is about every history, including those mixing try/timed/blocking locks with recursion.",
  ["pthread_mutex_init.c", "pthread_mutex_lock.c", "pthread_mutex_trylock.c", "pthread_mutex_timedlock.c", "pthread_mutex_unlock.c", "pthread_mutex_destroy.c", "pthread_mutexattr_settype.c"],
  [("owner and recursion bookkeeping", "pthread_mutex_lock.c, pthread_mutex_unlock.c"), ("kind stored at init", "pthread_mutex_init.c")],
  [("recursive_count, ownerThread, kind", "ownership state", "implement.h struct pthread_mutex_t_")])
p("C03", "Robust mutexes: owner death is reported once and never loses the lock",
  "When a thread ends while owning a robust mutex, exactly one later locker is told the owner died and becomes the owner; all other threads keep being excluded. If that owner marks the state consistent before unlocking, the mutex works normally again; if not, every current and future locker is told it is not recoverable, and none blocks for ever or acquires it.",
  ["schedules", "histories", "crash_points"], "All interleavings of an owner's death with threads that are blocked on, polling or about to lock the mutex, and all continuations (consistent or not) up to a bounded length.",
  "The tests wait for the owner to die before anybody else locks; they never have a waiter already blocked, nor two threads racing for the inherited lock.",
  ["pthread_mutex_lock.c", "pthread_mutex_trylock.c", "pthread_mutex_timedlock.c", "pthread_mutex_unlock.c", "pthread_mutex_consistent.c", "pthread_win32_attach_detach_np.c"],
  [("per-thread list of owned robust mutexes, walked at thread exit", "pthread_mutex_consistent.c, pthread_win32_attach_detach_np.c"), ("inherit / not-recoverable state machine", "pthread_mutex_consistent.c")],
  [("robustNode->stateInconsistent", "consistent, inconsistent or not recoverable", "implement.h"), ("robustMxList", "mutexes a thread owns", "implement.h struct ptw32_thread_t_")])
p("C04", "Condition variables never lose or invent a wake-up",
  "A thread that waits on a condition variable releases the mutex and starts waiting atomically: any signal sent after a state change made under the mutex wakes at least one of the threads waiting at that time, and a broadcast wakes them all. A wait returns with the mutex held by the caller, and waiting threads that receive no signal stay blocked.",
  ["schedules"], "All interleavings of one to three waiters with signalling and broadcasting threads, with the signal sent with or without holding the mutex and with successive generations of waiters.",
  "A lost or stolen wake-up needs a specific interleaving of waiters of two generations with a signaller in the counters hand-over; tests use sleeps to avoid exactly these overlaps.",
  ["pthread_cond_wait.c", "pthread_cond_signal.c", "pthread_cond_init.c", "pthread_cond_destroy.c"],
  [("blocked/gone/to-unblock counters under an unblock mutex, gate semaphore, queue semaphore", "pthread_cond_wait.c, pthread_cond_signal.c")],
  [("nWaitersBlocked, nWaitersGone, nWaitersToUnblock, semBlockQueue, semBlockLock", "generation bookkeeping", "implement.h struct pthread_cond_t_")])
p("C05", "Timed-out or cancelled condition waits leave the condition variable intact",
  "A condition wait that times out or is cancelled returns (or runs cleanup handlers) with the mutex held, is not counted as a waiter any more, and does not consume a signal destined for another waiter. Afterwards no later signal or broadcast is lost, and destruction succeeds, as if that wait had never happened (a signal that raced with the wait giving up may at most show as one spurious wake-up); destruction is refused as busy only while some thread is really waiting.",
  ["schedules", "fault_sequences"], "All interleavings of a timeout expiry or a cancellation request with signals, broadcasts and other waiters.",
  "Timeout/signal and cancel/signal races need the two to fall into a window of a few instructions; tests keep them seconds apart.",
  ["pthread_cond_wait.c", "pthread_cond_signal.c", "pthread_cond_destroy.c", "sem_wait.c", "ptw32_semwait.c"],
  [("cleanup handler adjusting the waiter counters", "pthread_cond_wait.c ptw32_cond_wait_cleanup"), ("semaphore wait cancellation cleanup", "sem_wait.c")],
  [("nWaitersGone", "waiters that left without a signal", "implement.h struct pthread_cond_t_")])
p("C06", "Semaphores conserve tokens and never strand a waiter",
  "At every quiescent point the number of successful waits equals at most the initial value plus posts, the reported value is the tokens left (or zero/negative count of waiters), and no thread stays blocked while tokens are available. Try, timed and blocking waits take exactly one token when they succeed and none when they fail; a multiple post adds exactly that many.",
  ["schedules", "histories"], "All interleavings of two to three threads doing wait, trywait, timedwait, post, post-multiple and getvalue, and all sequential histories up to a bounded length.",
  "Conservation has to hold when a timeout fires just as a post releases a waiter; tests only count tokens in quiet phases.",
  ["sem_wait.c", "sem_trywait.c", "sem_timedwait.c", "sem_post.c", "sem_post_multiple.c", "sem_getvalue.c", "sem_init.c", "sem_destroy.c", "ptw32_semwait.c"],
  [("value counter under a lock plus kernel semaphore for blocked waiters", "sem_wait.c, sem_post.c"), ("timeout rollback", "sem_timedwait.c ptw32_sem_timedwait_cleanup")],
  [("value", "tokens, or minus the number of waiters", "implement.h struct sem_t_")])
p("C07", "Cancelling a semaphore wait never loses or invents a token",
  "When a thread blocked in a semaphore wait is cancelled, it takes no token: every post is still available to some other wait, now or later, and no extra token appears. A wait that has already obtained its token either returns success or leaves the token in the semaphore.",
  ["schedules"], "All interleavings of a cancellation with posts and with other waiting threads.",
  "The window is between the post's kernel release and the cancelled waiter's cleanup; a test cannot hit it on purpose.",
  ["sem_wait.c", "sem_timedwait.c", "w32_CancelableWait.c"],
  [("cancellation cleanup handler", "sem_wait.c ptw32_sem_wait_cleanup, sem_timedwait.c ptw32_sem_timedwait_cleanup")])
p("C08", "Barriers release exactly the full group, once per cycle",
  "No thread leaves a barrier before the configured number of threads has entered the same cycle, and then all of them leave, exactly one being told it is the serial thread. The barrier is immediately reusable, cycles never mix even when fast threads re-enter before slow ones have left, and destroying it right after being released is safe.",
  ["schedules", "configurations"], "All interleavings of one to three threads through one to three cycles, with destruction by any released thread.",
  "Cycle mixing needs a thread to be delayed inside the exit protocol while others lap it.",
  ["pthread_barrier_init.c", "pthread_barrier_wait.c", "pthread_barrier_destroy.c", "ptw32_MCS_lock.c"],
  [("count-down under a queue lock, semaphore release of the others, lock hand-over to the last leaver", "pthread_barrier_wait.c")],
  [("nCurrentBarrierHeight, nInitialBarrierHeight, proxynode", "threads still to arrive, lock hand-over", "implement.h struct pthread_barrier_t_")])
p("C09", "Read-write locks: writers exclude everybody, readers share, nobody strands",
  "While a thread holds the write lock no other thread holds the lock in any mode; readers may share it. Blocking, try and timed variants obey this, report busy/timeout without changing the lock (a try operation may report busy while another call is in progress), and once all holders unlock every blocked thread eventually gets its turn. A writer cancelled while waiting leaves the lock usable, and destruction is refused while it is in use.",
  ["schedules", "histories"], "All interleavings of two to three readers and writers with try/timed variants, timeouts and cancellation, and all short single-thread histories.",
  "Counter wrap-back between shared/exclusive counts and completions only goes wrong in particular overlaps of readers leaving and a writer waiting or giving up.",
  ["pthread_rwlock_rdlock.c", "pthread_rwlock_wrlock.c", "pthread_rwlock_timedrdlock.c", "pthread_rwlock_timedwrlock.c", "pthread_rwlock_tryrdlock.c", "pthread_rwlock_trywrlock.c", "pthread_rwlock_unlock.c", "pthread_rwlock_destroy.c", "ptw32_rwlock_cancelwrwait.c"],
  [("two mutexes, shared access and completion counters, condition for the waiting writer", "pthread_rwlock_*.c"), ("writer cancellation cleanup", "ptw32_rwlock_cancelwrwait.c")],
  [("nSharedAccessCount, nExclusiveAccessCount, nCompletedSharedAccessCount", "holders", "implement.h struct pthread_rwlock_t_")])
p("C10", "Spin locks exclude and hand over correctly on one or many processors",
  "At most one thread holds a spin lock; lock waits until it is free, trylock reports busy without side effects, and unlocking lets a waiting thread in. This holds both on multi-processor systems and on single-processor systems, for explicitly and statically initialised spin locks, and destroying a held lock is refused.",
  ["schedules", "configurations"], "All interleavings of two to three threads on each configuration (one or two processors, static or dynamic initialisation).",
  "Tests run on whatever machine there is and mostly single-threaded; the single-processor variant and concurrent first use are never exercised.",
  ["pthread_spin_init.c", "pthread_spin_lock.c", "pthread_spin_trylock.c", "pthread_spin_unlock.c", "pthread_spin_destroy.c", "ptw32_spinlock_check_need_init.c"],
  [("interlocked state word, mutex on uniprocessors", "pthread_spin_lock.c")])
p("C11", "One-time initialisation runs exactly once and everybody waits for it",
  "For one control block the routine runs to completion exactly once no matter how many threads call concurrently, and no call returns before that completion. If the thread running the routine is cancelled or exits inside it, another caller runs it instead and nobody hangs.",
  ["schedules"], "All interleavings of two to three callers, with cancellation of the running thread at every cancellation point inside the routine.",
  "Requires callers arriving between the done-check and the lock, and cancellation while others wait.",
  ["pthread_once.c", "ptw32_MCS_lock.c"],
  [("done flag re-checked under a queue lock, cleanup handler releasing it on cancellation", "pthread_once.c")])
p("C12", "Statically initialised objects come to life exactly once",
  "Mutexes, condition variables, read-write locks and spin locks set up with a static initialiser behave, on concurrent first use by several threads, as one single object: no thread's lock, wait or signal goes to a discarded copy, nothing leaks, and destroying one that was never used succeeds. Attempting to use one that has been destroyed is reported as invalid.",
  ["schedules", "histories"], "All interleavings of two to three first users with each other and with destruction.",
  "The race exists only once per object, in a window of a few instructions of the first call.",
  ["ptw32_mutex_check_need_init.c", "ptw32_cond_check_need_init.c", "ptw32_rwlock_check_need_init.c", "ptw32_spinlock_check_need_init.c", "pthread_mutex_destroy.c", "pthread_cond_destroy.c", "pthread_rwlock_destroy.c", "pthread_spin_destroy.c"],
  [("re-check under a global queue lock", "ptw32_*_check_need_init.c")])
p("C13", "Thread lifecycle: join returns the result after the end; detach is safe",
  "A successful join (blocking, timed or polling) happens only after the thread has ended, and yields exactly the value it returned, passed to exit, or the cancelled marker. Joining oneself, a detached or already joined thread is reported as an error; a timed or polling join of a running thread reports so and leaves it joinable. Detaching at any moment, including while the thread is finishing, releases it exactly once.",
  ["schedules", "histories"], "All interleavings of a thread's start and end with join, timed join, try join and detach by one or two other threads.",
  "The end of a thread races with join/detach through a chain of state checks; tests serialise them with sleeps.",
  ["pthread_join.c", "pthread_timedjoin_np.c", "pthread_tryjoin_np.c", "pthread_detach.c", "create.c", "ptw32_threadStart.c", "pthread_exit.c", "pthread_win32_attach_detach_np.c", "ptw32_threadDestroy.c"],
  [("state and detach state under a per-thread lock", "pthread_detach.c, pthread_win32_attach_detach_np.c"), ("exit value kept in the thread record until joined", "ptw32_threadStart.c, pthread_join.c")],
  [("state, detachState, exitStatus", "lifecycle", "implement.h struct ptw32_thread_t_")])
p("C14", "Thread identifiers are unique and stale ones are recognised",
  "Two different threads never have equal identifiers, even when the library recycles the storage of a finished one; the unique sequence number of each thread is different too. An identifier whose thread has ended and been joined or detached is reported as no such thread by every operation that returns an error code, and never acts on the recycled thread.",
  ["schedules", "histories"], "All sequences of create/join/detach and all interleavings of concurrent creation, exit and use of identifiers up to three threads.",
  "Recycling shows only in particular create/exit orders; concurrent creators have to overlap inside the sequence numbering or the free list.",
  ["ptw32_new.c", "ptw32_reuse.c", "pthread_self.c", "pthread_equal.c", "pthread_kill.c", "pthread_getunique_np.c", "global.c"],
  [("reuse counter in the identifier, free list under a lock", "ptw32_reuse.c"), ("sequence number", "ptw32_new.c, ptw32_reuse.c, pthread_getunique_np.c")])
p("C15", "Thread-specific data is private and destructors run exactly as promised",
  "A thread reads from a key exactly what it last stored itself, initially null, and never another thread's value. When a thread ends in any way, the destructor of each existing key with a destructor is called with the stored non-null value, the value being reset first, repeating while destructors store new values, for at least the documented number of rounds and not for ever; deleting a key stops its destructor (except a call already under way), and no combination of key deletion and thread end touches freed memory or leaks.",
  ["schedules", "histories"], "All short histories of key create/set/get/delete by two threads ending in every way, and all interleavings of key deletion with a thread's end.",
  "Key deletion racing with destructors on an ending thread, and re-association patterns, are far beyond the fixed sequences tested.",
  ["pthread_key_create.c", "pthread_key_delete.c", "pthread_setspecific.c", "pthread_getspecific.c", "ptw32_tkAssocCreate.c", "ptw32_tkAssocDestroy.c", "ptw32_callUserDestroyRoutines.c"],
  [("key/thread association lists with key lock and thread lock", "ptw32_tkAssocCreate.c, ptw32_tkAssocDestroy.c, ptw32_callUserDestroyRoutines.c")])
p("C16", "Deferred cancellation acts only at cancellation points and cleans up",
  "A cancelled thread with cancellation enabled and deferred ends at its next cancellation point, waking up if it is blocked there, and never anywhere else; while disabled, the request stays pending until enabled again. On cancellation and on exit, pushed cleanup handlers run exactly once in reverse order, then key destructors run, and joining yields the cancelled marker (or the exit value).",
  ["schedules", "histories"], "All interleavings of cancel requests with a thread that changes its cancellation state, pushes and pops handlers, and blocks in every kind of cancellation point.",
  "Requests arriving between a state check and a block, or while state is being switched, need precise timing.",
  ["pthread_cancel.c", "pthread_testcancel.c", "pthread_setcancelstate.c", "pthread_setcanceltype.c", "w32_CancelableWait.c", "cleanup.c", "ptw32_throw.c", "pthread_exit.c", "pthread_delay_np.c"],
  [("state lock around cancel state transitions, cancel event", "pthread_cancel.c, pthread_testcancel.c"), ("cleanup stack", "cleanup.c, ptw32_throw.c")],
  [("cancelState, cancelType, cancelEvent, state", "cancellation state machine", "implement.h struct ptw32_thread_t_")])
p("C17", "Asynchronous cancellation and racing cancels neither hang nor misfire",
  "A thread with asynchronous cancellation enabled ends promptly after a request wherever it is executing, running its handlers and destructors once. Requests that race with the target's own exit, with each other or with a type change never hang the requester, never hit another thread and are answered with success or no-such-thread; each thread ends exactly once.",
  ["schedules"], "All interleavings of one or two cancel requests (and termination signals) with a target that switches type, runs or exits.",
  "Needs the target to end between the requester's checks; a test sees that window only by luck.",
  ["pthread_cancel.c", "pthread_setcanceltype.c", "pthread_kill.c", "ptw32_throw.c"],
  [("suspend, redirect and resume under the state lock", "pthread_cancel.c")])
p("C18", "Timed operations never give up early and honour past deadlines",
  "No timed operation (mutex, condition, semaphore, read-write lock, timed join, delay) reports a timeout before the requested absolute time has passed, for any clock value and deadline. A deadline already in the past yields an immediate timeout unless the operation can succeed at once, and an available resource is granted regardless of the deadline.",
  ["inputs", "schedules"], "A grid of clock values and deadlines around every rounding and carry boundary, for every timed operation, with all expiry schedules.",
  "Tests use whole-second offsets with tolerance; sub-millisecond remainders, carries and far deadlines are never tried.",
  ["ptw32_relmillisecs.c", "ptw32_timespec.c", "pthread_mutex_timedlock.c", "pthread_cond_wait.c", "sem_timedwait.c", "pthread_rwlock_timedrdlock.c", "pthread_rwlock_timedwrlock.c", "pthread_timedjoin_np.c", "pthread_delay_np.c"],
  [("absolute to relative millisecond conversion", "ptw32_relmillisecs.c"), ("FILETIME/timespec conversion", "ptw32_timespec.c")])
p("C19", "Resource exhaustion is reported cleanly and leaves everything usable",
  "If any allocation or kernel-object creation fails inside a call, the call reports a documented error (or still succeeds correctly); it neither crashes, hangs, nor returns success for a broken object. After the failure, nothing created by the failed call is leaked and all existing objects and threads keep working, so a retry with resources available succeeds.",
  ["fault_sequences"], "Every single failure (and in thorough runs every pair) of memory, event, semaphore, thread, TLS and handle allocation at every allocation point of every creating call.",
  "The tests never make an allocation fail.",
  ["create.c", "ptw32_new.c", "pthread_mutex_init.c", "pthread_cond_init.c", "sem_init.c", "pthread_barrier_init.c", "pthread_rwlock_init.c", "pthread_spin_init.c", "pthread_key_create.c", "ptw32_tkAssocCreate.c", "pthread_self.c", "pthread_attr_init.c", "pthread_mutexattr_init.c"],
  [("failure paths undoing partial work", "*_init.c, create.c, ptw32_new.c")])
p("C20", "Destroying and finishing releases every resource; no memory misuse",
  "After all objects have been destroyed, all threads joined or ended detached, and the library shut down, every byte of memory, kernel handle and TLS slot it allocated has been released exactly once. Repeating a create/use/destroy cycle does not grow its footprint. The last user of an object may destroy it as soon as its own call says the object is free: the calls of previous users, still returning, touch it no more.",
  ["histories", "schedules"], "All bounded sequences of create/use/destroy over every object kind and thread ending, with allocation accounting at the end, and repetition of every cycle.",
  "Tests never account for memory or handles.",
  ["ptw32_processTerminate.c", "ptw32_threadDestroy.c", "ptw32_reuse.c", "pthread_mutex_destroy.c", "pthread_cond_destroy.c", "sem_destroy.c", "pthread_barrier_destroy.c", "pthread_rwlock_destroy.c", "pthread_spin_destroy.c", "pthread_key_delete.c", "pthread_attr_destroy.c"],
  [("destroy functions and process termination", "*_destroy.c, ptw32_processTerminate.c")])
p("C21", "Attributes read back what was set and reject what is invalid",
  "For every attribute object (thread, mutex, condition, read-write lock, barrier) each getter returns the value most recently accepted by its setter, or the documented default, independent of other attributes; invalid values and uninitialised or destroyed attribute objects are rejected with the documented error and change nothing.",
  ["histories", "inputs"], "All sequences of setter calls over valid and invalid values up to a bounded length, with every getter checked after each step against a reference record.",
  "Tests check single set/get pairs; cross-talk and sequences are not covered.",
  ["pthread_attr_init.c", "pthread_attr_setdetachstate.c", "pthread_attr_setschedparam.c", "pthread_attr_setstacksize.c", "pthread_attr_setaffinity_np.c", "pthread_attr_setname_np.c", "pthread_mutexattr_settype.c", "pthread_mutexattr_setrobust.c", "pthread_mutexattr_setpshared.c", "pthread_condattr_setpshared.c", "pthread_rwlockattr_setpshared.c", "pthread_barrierattr_setpshared.c", "ptw32_is_attr.c"],
  [("one field per attribute with validation", "pthread_attr_set*.c, pthread_mutexattr_set*.c")])
p("C22", "Creation attributes, scheduling, affinity and names take effect as set",
  "A thread created with given attributes starts with exactly that detach state, priority (own or inherited), processor affinity and name. Changing a live thread's priority, affinity or name is visible to the matching query and, for priority and affinity, reaches the operating system; invalid values are rejected without effect, a thread the library did not create reports the priority and affinity the operating system gave it, and processor-set operations compute exact set algebra over processors 0 to 63.",
  ["histories", "inputs", "configurations"], "All combinations of the creation attributes over small value sets and all short sequences of set/get calls against a reference model, over several processor configurations.",
  "Tests set one attribute at a time and mostly do not look at the operating system's view.",
  ["create.c", "pthread_setschedparam.c", "pthread_getschedparam.c", "pthread_setaffinity.c", "sched_setaffinity.c", "pthread_setname_np.c", "pthread_getname_np.c", "sched_get_priority_max.c", "sched_get_priority_min.c", "pthread_setconcurrency.c"],
  [("attributes applied while the new thread is suspended", "create.c"), ("priority and affinity mirrored in the thread record", "pthread_setschedparam.c, pthread_setaffinity.c")])
p("C23", "Foreign threads can use the library and are cleaned up on detach",
  "A thread not created by this library gets one stable identifier on first use, can lock, wait, use thread-specific data, be cancelled at cancellation points and be signalled like any other. When it detaches or exits through the library, its key destructors run once and its resources are released; nothing of it leaks into later threads.",
  ["schedules", "histories"], "All interleavings of one or two foreign threads using each facility and detaching, with library threads running concurrently.",
  "Tests attach a few foreign threads in one order and do not check release.",
  ["pthread_self.c", "pthread_win32_attach_detach_np.c", "pthread_exit.c", "ptw32_throw.c", "ptw32_new.c"],
  [("implicit thread record created on first pthread_self", "pthread_self.c"), ("detach processing", "pthread_win32_attach_detach_np.c")])
p("C24", "Invalid, destroyed or busy objects are reported, never misused",
  "Every operation on a null or destroyed synchronisation object (mutex, condition variable, read-write lock, spin lock, barrier, semaphore), attributes object, key or thread identifier reports the documented error (invalid argument, no such thread, or failure with the error number set for semaphores and scheduling calls) without touching memory it must not. Unlocking a mutex that is not locked, or is owned by another thread and tracks its owner, destroying any object while it is held or waited for, and out-of-range arguments are refused and leave the object working and its waiters served.",
  ["histories", "inputs"], "All calls of the API on null/destroyed/busy objects and on boundary argument values, followed by a full check that untouched objects still work.",
  "Tests check a few invalid arguments per function.",
  ["pthread_mutex_destroy.c", "pthread_cond_destroy.c", "pthread_rwlock_destroy.c", "pthread_barrier_destroy.c", "pthread_spin_destroy.c", "sem_destroy.c", "sem_post.c", "sem_init.c", "pthread_kill.c", "pthread_detach.c", "sem_wait.c", "sem_trywait.c", "sem_post_multiple.c", "sem_getvalue.c", "pthread_setspecific.c", "pthread_key_delete.c", "pthread_getname_np.c", "pthread_setname_np.c", "pthread_setcancelstate.c", "pthread_setcanceltype.c"],
  [("argument and object checks at the head of each function", "pthread_*.c, sem_*.c")])
p("C25", "A clock change wakes every condition-variable waiter and never disturbs the rest",
  "pthread_timechange_handler_np, called by any thread at any time, wakes every thread that waits on any condition variable existing throughout the call, statically or dynamically initialised, so that timed waits are computed anew: a waiter told about a clock set back does not give up before its deadline by the new clock, and one whose deadline the clock jumped over notices at once. Creating, first use, destroying, signalling and waiting may run at the same moment; no condition variable is left out of, or left behind in, the library's list, and the call never hangs or touches a destroyed one.",
  ["schedules", "histories"], "All interleavings of the handler with waiters on one to three condition variables, their creation, first use, destruction, signals, time-outs and a second handler; all create/destroy histories to a bounded depth; clock steps in both directions at every moment of a wait.",
  "No test calls the handler.",
  ["pthread_timechange_handler_np.c", "pthread_cond_init.c", "pthread_cond_destroy.c", "pthread_cond_signal.c", "global.c"],
  [("walk over the list of condition variables", "pthread_timechange_handler_np.c: pthread_timechange_handler_np"), ("list insertion and removal", "pthread_cond_init.c, pthread_cond_destroy.c")])
p("C26", "C++ build: ending a thread unwinds it exactly like an exception",
  "In the exception-handling build, pthread_exit and a cancellation acted upon leave every open scope of the thread innermost first, each automatic object's destructor and each pushed cleanup handler running exactly once, no user catch clause (catch (...) written with the library's header included) seeing the library's exception, before the thread's key destructors run and the joiner sees its value. Exceptions the user throws travel as the language says through cleanup scopes and once routines, running the handlers of exactly the scopes they leave, and end up in the matching catch clause with the thread running on normally. An exception that leaves the start routine ends the process through terminate(), after the scopes were left and the key destructors ran; threads unwinding at the same time do not disturb each other.",
  ["inputs", "schedules", "histories"], "Every generated program of up to four to seven steps out of nested cleanup scopes, objects, try blocks (typed and catch-all), once routines, throws, cancellation points, exits and blocking calls, with and without a cancel request arriving at any moment, in all interleavings.",
  "Tests try a handful of fixed nestings.",
  ["ptw32_throw.c", "ptw32_threadStart.c", "pthread.h", "pthread_once.c", "pthread_exit.c", "pthread_testcancel.c", "cleanup.c"],
  [("throwing the library's exception", "ptw32_throw.c: ptw32_throw"), ("catching it at the thread's root", "ptw32_threadStart.c: ptw32_threadStart"), ("cleanup objects", "pthread.h: PThreadCleanup")])
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
