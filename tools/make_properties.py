import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "observe_at":list(observe),"hook_needed":None}})
prop("C01","Joining a coroutine: body runs once, waiters get its result, nobody hangs",
 "The body of a created coroutine runs exactly once, with the arguments it was given. A wait or join on it returns only after the body has ended, in every waiter, delivers the returned value unchanged, and the exception a body ended with is rethrown to the first waiter that asks. When the body ends, every wait on it returns, however the wait and the ending overlap and whether the waiter is another coroutine, the same execution environment, or a plain thread.",
 ["schedules","programs"],"all interleavings (up to the delay bound) of creation, completion and 1-3 concurrent waits, same or different environments and threads, value/void/exception results",
 "Existing tests run each case on one pinned CPU with one schedule; a lost wakeup between checking for completion and going to sleep needs a specific interleaving.",
 ["source/cocpp/core/co_ctx.cpp","source/cocpp/core/co_env.cpp","source/cocpp/core/co_manager.cpp","include/cocpp/co/co_co.h","source/cocpp/core/co_return_value.cpp","include/cocpp/core/co_return_value.h"],
 [("finished event + waiting flag","source/cocpp/core/co_env.cpp: wait_ctx"),("finished-state lock","source/cocpp/core/co_ctx.cpp: real_entry, lock_finished_state"),("wake-up on leave of the waiting state","source/cocpp/core/co_ctx.cpp: leave_wait_resource_state"),("return value move-out / rethrow","include/cocpp/co/co_co.h: wait, join")],
 [("state__ / finished","lifecycle state of a coroutine","include/cocpp/core/co_ctx.h")],["co::wait<T>()","co::join()"])
prop("C02","Timed wait for a coroutine answers correctly and leaves nothing behind",
 "A timed wait on a coroutine reports completion, with the result, when the coroutine ended before the wait returned it so, and otherwise reports a timeout, never before the requested time has elapsed. It always returns, also when completion and expiry coincide. Once it has returned, the expired or cancelled wait has no further effect on the waiter (whose priority is what it was before), on the awaited coroutine, or on memory already released.",
 ["schedules","inputs"],"all interleavings of completion, timer expiry and waiter, for deadlines before, at and after the completion and ones beyond the end of the clock",
 "Tests only use margins of many milliseconds on one CPU; the coincidence of expiry and completion and the late timer callback are never reached.",
 ["source/cocpp/core/co_env.cpp","source/cocpp/core/co_timer.cpp","source/cocpp/core/co_manager.cpp","include/cocpp/co/co_co.h"],
 [("timer plus finished-event subscription","source/cocpp/core/co_env.cpp: wait_ctx(ctx, timeout)"),("timer thread","source/cocpp/core/co_manager.cpp: timer routine")],(),["co::wait_for()","co::wait_until()"])
prop("C03","Mutex, timed mutex, spinlock: exclusion, no lost hand-over, honest timeouts",
 "At most one owner holds a mutex at a time; an unlock lets a waiter proceed, so no coroutine or thread waits forever on a mutex that is released. A try-lock succeeds exactly when the mutex is free at that moment; a timed lock that fails did not acquire and did not return before its deadline, and one that succeeds owns the mutex. Unlocking a mutex the caller does not own is rejected with an error and changes nothing.",
 ["schedules","histories"],"all interleavings of lock / try_lock / try_lock_for / unlock by 2-3 coroutines on 1-2 environments and a plain thread",
 "A sleeping waiter missed by the unlocker, or two owners, appears only under specific interleavings of the waiter queue and the state flag; the tests run one schedule.",
 ["source/cocpp/sync/co_mutex.cpp","source/cocpp/sync/co_spinlock.cpp","include/cocpp/sync/co_timed_addition.h","include/cocpp/sync/co_timed_mutex.h"],
 [("owner + waiter queue under spinlock","source/cocpp/sync/co_mutex.cpp: lock, unlock"),("polling timed lock","include/cocpp/sync/co_timed_addition.h"),("spinlock","source/cocpp/sync/co_spinlock.cpp")],(),["co_mutex","co_timed_mutex"])
prop("C04","Recursive mutex: nested ownership counted, handed over only at the last unlock",
 "Only one coroutine owns a recursive mutex at a time; the owner may lock it again any number of times without blocking, and others get in only after as many unlocks as locks. The last unlock lets a waiter proceed; try and timed variants answer according to ownership at that moment. An unlock by a non-owner is rejected and changes nothing.",
 ["schedules","histories"],"all interleavings and all nesting patterns up to depth 2-3 of 2-3 coroutines",
 "Tests exercise one nesting pattern in one schedule.",
 ["source/cocpp/sync/co_recursive_mutex.cpp","include/cocpp/sync/co_recursive_mutex.h","include/cocpp/sync/co_recursive_timed_mutex.h"],
 [("owner, depth and waiter queue under spinlock","source/cocpp/sync/co_recursive_mutex.cpp: lock, try_lock, unlock")])
prop("C05","Shared mutex: one writer or many readers, every waiter eventually admitted",
 "At no time does a writer hold a shared mutex together with another writer or any reader, while readers may hold it together. Whatever mixture of readers and writers is waiting, and in whatever order they arrived, each of them is admitted once the holders before it release. Try and timed variants answer according to the holders at that moment, and releasing a hold one does not have is rejected and changes nothing.",
 ["schedules","histories"],"all arrival orders of up to 4 readers/writers (including mixed queues) and all interleavings up to the bound",
 "The mixed waiter queue is only exercised in one fixed order by the tests; wrong admission depends on the order of arrival and on interleavings.",
 ["source/cocpp/sync/co_shared_mutex.cpp","include/cocpp/sync/co_shared_mutex.h","include/cocpp/sync/co_shared_timed_mutex.h"],
 [("waiter queue and admission","source/cocpp/sync/co_shared_mutex.cpp: wake_up_waiters__, unlock, unlock_shared")],
 [("waiters","queue of waiting readers and writers","include/cocpp/sync/co_shared_mutex.h")])
prop("C06","Condition variable: a notification after the wait began is never lost",
 "A wait releases the lock, and returns owning it again. A notify issued while the lock is held after a waiter started waiting wakes at least one such waiter, a notify-all, also one ordered for the end of a coroutine, wakes all of them, and nobody is woken without a notification. A wait with a condition returns only when the condition holds, and does not block when it already holds.",
 ["schedules","programs"],"all interleavings of 1-3 waiters and 1-2 notifiers on one or two environments, notify with and without the lock held",
 "Lost wakeups between releasing the lock and going to sleep need exact interleavings; tests sleep generously before notifying.",
 ["source/cocpp/sync/co_condition_variable.cpp","include/cocpp/sync/co_condition_variable.h"],
 [("waiter queue under spinlock","include/cocpp/sync/co_condition_variable.h: wait"),("wake-up","source/cocpp/sync/co_condition_variable.cpp: notify_one, notify_all")])
prop("C07","Condition variable timed wait: correct verdict, per wait, and no hang",
 "A timed wait on a condition variable returns owning the lock, either because of a notification or because its own deadline passed; it reports a timeout only in the latter case and not before the deadline. The verdict of one wait does not depend on earlier or concurrent waits. Notifications and expiry may coincide in any order without a hang, a lost notification for another waiter, or a late effect on released memory.",
 ["schedules","histories"],"all interleavings of waiter, notifier and timer for deadlines before/at/after the notification; repeated waits on the same variable",
 "Tests check one timeout and one notification with wide margins, each on a fresh variable.",
 ["include/cocpp/sync/co_condition_variable.h","source/cocpp/sync/co_condition_variable.cpp","source/cocpp/core/co_timer.cpp"],
 [("timer plus waiter queue","include/cocpp/sync/co_condition_variable.h: wait_until")])
prop("C08","Counting and binary semaphore: permits are conserved and releases wake waiters",
 "The number of acquisitions that have succeeded never exceeds the initial count plus the releases so far. An acquire completes as soon as a permit is available to it, so no waiter sleeps while permits remain; try-acquire succeeds exactly when a permit is available; a timed acquire that fails consumed nothing and did not return early.",
 ["schedules","inputs"],"all interleavings of 2-3 acquirers and 1-2 releasers, initial counts 0..2, release(n)",
 "Over-release wakes and lost wakeups depend on interleavings of release(n) with several waiters.",
 ["include/cocpp/sync/co_counting_semaphore.h","include/cocpp/sync/co_binary_semaphore.h","include/cocpp/sync/co_timed_addition.h"],
 [("count under mutex + condition variable","include/cocpp/sync/co_counting_semaphore.h")])
prop("C09","Barrier: a phase completes exactly when all expected participants arrived",
 "No participant leaves a barrier phase before the expected number of arrivals of that phase, and when they have all arrived every waiting participant leaves, also when the last arrival is an arrive without waiting or a drop. A drop lowers the number expected in the following phases, and the barrier can be reused phase after phase.",
 ["schedules","histories"],"all sequences of arrive_and_wait / arrive+wait / arrive_and_drop over 2 phases by 2-3 participants, all interleavings up to the bound",
 "Tests run a single phase in one order; mixing phases needs a fast participant re-arriving before slow ones left.",
 ["source/cocpp/sync/co_barrier.cpp","include/cocpp/sync/co_barrier.h"],
 [("arrival counting","source/cocpp/sync/co_barrier.cpp: arrive, wait, arrive_and_wait, arrive_and_drop")])
prop("C10","Latch and wait group: waits end exactly when the count reaches zero",
 "A wait on a latch or a wait group returns only when the counter has reached zero, and always returns once it has, for every waiter, including those that start waiting afterwards. The non-blocking query answers whether the counter is zero. Counting a latch below zero is rejected with an error and leaves it usable.",
 ["schedules","histories"],"all interleavings of 2-3 counters-down and 1-2 waiters, all operation sequences up to a depth",
 "The tests use one order; early or missed release needs the final count-down to race with a wait.",
 ["source/cocpp/sync/co_latch.cpp","source/cocpp/sync/co_wait_group.cpp","include/cocpp/sync/co_latch.h","include/cocpp/sync/co_wait_group.h"],
 [("counter under mutex + condition variable","source/cocpp/sync/co_latch.cpp; source/cocpp/sync/co_wait_group.cpp")])
prop("C11","call_once: the function completes once before any caller returns",
 "Of all callers sharing a once-flag exactly one runs the function to normal completion, and every caller returns only after that completion. If the function throws, the exception reaches that caller and a later or waiting caller runs the function again.",
 ["schedules","histories"],"all interleavings of 2-3 concurrent callers, function suspending or throwing",
 "Tests call it several times but never check a concurrent caller against an unfinished or failed execution.",
 ["include/cocpp/sync/co_call_once.h"],[("once flag","include/cocpp/sync/co_call_once.h")])
prop("C12","Buffered channel: every item delivered once, in order, within capacity",
 "Every item whose push succeeded is received exactly once unless the receivers stop, and items of one producer are received in the order pushed by a single consumer. A push blocks (rather than drops) while the channel holds its capacity and never exceeds it, and an unlimited channel never blocks a push. After close, pushes fail, items already accepted can still be received, then pops report the end, and no blocked producer or consumer stays blocked.",
 ["schedules","histories"],"all interleavings of 1-2 producers, 1-2 consumers and a close; capacities 1, 2 and unlimited",
 "Lost and duplicated items, and sleepers missed by a close, depend on the interleaving of producers, consumers and close.",
 ["include/cocpp/event/co_chan.h"],[("queue under mutex + condition variables","include/cocpp/event/co_chan.h: co_chan::push, pop, close")])
prop("C13","Unbuffered channel: a push completes only by rendezvous with a pop",
 "A push on an unbuffered channel returns success only after a receiver has taken exactly that item, and each item is taken exactly once. Any number of concurrent producers and consumers make progress as long as both sides are present. Closing makes every blocked and later push fail and every pop report the end.",
 ["schedules","histories"],"all interleavings of 1-2 producers, 1-2 consumers and a close",
 "Rendezvous with several producers is not tested at all, and errors show only in particular wake-up orders.",
 ["include/cocpp/event/co_chan.h"],[("single slot with hand-shake","include/cocpp/event/co_chan.h: co_sync_chan / unbuffered specialisation")])
prop("C14","Pipelines and channel iteration compute what the sequential program would",
 "A pipeline built from a source, any sequence of stages and a sink yields the same items in the same order as applying the stages to the whole input sequentially, for any channel sizes between the stages. A pipeline that stops early, or whose input is empty, terminates and leaves no stage blocked. A pipeline built from a temporary range does not depend on the lifetime of that range.",
 ["programs","inputs","schedules"],"all pipelines up to a depth from the operator set over all small inputs, and all interleavings up to the bound of selected ones",
 "Tests check a handful of pipelines with one input each and one schedule.",
 ["include/cocpp/pipeline/co_pipeline_op.h","include/cocpp/pipeline/co_pipeline.h","include/cocpp/pipeline/co_pipeline_concept.h","include/cocpp/event/co_chan.h"],
 [("stage coroutines connected by channels","include/cocpp/pipeline/co_pipeline_op.h")])
prop("C15","Timers fire on time, as often as asked, and not after being stopped",
 "A started one-shot timer calls its function exactly once, not before its time; a looping timer calls it once per period until stopped, and starting, stopping and resetting may happen in any order and from the callback itself. A timer stopped before it is due does not fire. Timers with equal, earlier or later expiry do not suppress, delay or reorder each other, and no combination of timer operations blocks the timer service.",
 ["schedules","histories"],"all operation sequences up to a depth over 2-3 timers with equal and different expiry, and all interleavings of stop/reset with expiry up to the bound",
 "Tests use one timer at a time with wide margins.",
 ["source/cocpp/core/co_timer.cpp","include/cocpp/core/co_timer.h","source/cocpp/core/co_manager.cpp"],
 [("ordered timer queue and timer thread","source/cocpp/core/co_manager.cpp: insert_timer_to_queue, timer routine"),("timer status","source/cocpp/core/co_timer.cpp: start, stop, reset, run")])
prop("C16","Sleeping coroutines wake, never early, and do not block their neighbours",
 "A coroutine that sleeps for or until a time resumes after that time has passed, not before, and always resumes. While it sleeps, other coroutines of the same environment keep running. Any number of concurrent sleeps, with equal or different times, each resume once.",
 ["schedules","inputs"],"all interleavings of timer expiry with the going-to-sleep of 1-3 sleepers, durations including zero, sub-millisecond, equal ones and ones longer than the clock can count",
 "A wake-up that arrives while the coroutine is still going to sleep is never produced by the tests.",
 ["source/cocpp/core/co_env.cpp","source/cocpp/core/co_manager.cpp","source/cocpp/core/co_timer.cpp","include/cocpp/co/co_co.h"],
 [("one-shot timer + waiting flag","include/cocpp/co/co_co.h and source/cocpp/co/co.cpp: sleep_for, sleep_until")])
prop("C17","Scheduling order: priority first, fair among equals, no runnable starves alone",
 "When an environment chooses what to run next, it takes a ready coroutine of the best priority present, and among coroutines of equal priority it goes round in turn, so each yield lets every equal-priority ready coroutine run once before the yielder runs again. A change of priority takes effect at the next choice. Every ready coroutine runs when nothing of better priority is ready.",
 ["histories","inputs"],"all assignments of priorities to 3 coroutines and all sequences of yield / set_priority / block / unblock up to a depth",
 "Tests check one fixed assignment.",
 ["source/cocpp/core/co_env.cpp","source/cocpp/core/co_ctx.cpp","include/cocpp/core/co_define.h"],
 [("ready lists per priority","source/cocpp/core/co_env.cpp: choose_ctx_from_normal_list__, next_ctx__"),("priority update event","source/cocpp/core/co_ctx.cpp: set_priority; co_env.cpp: update_ctx_priority / handle_priority_changed")])
prop("C18","Coroutine-local variables: private, persistent, destroyed with the coroutine",
 "Each coroutine sees its own instance of a coroutine-local variable, initialised on first use, keeping its value across suspensions and keeping different names apart. One coroutine's writes are never visible to another, whether they share an environment or not. The instances are destroyed exactly once, when their coroutine goes away.",
 ["schedules","histories"],"all interleavings of 2-3 coroutines on 1-2 environments accessing 1-2 names; all access sequences up to a depth",
 "Tests check one variable in one schedule.",
 ["include/cocpp/core/co_local.h","source/cocpp/core/co_ctx.cpp","include/cocpp/utils/co_any.h"],
 [("per-context locals map","source/cocpp/core/co_ctx.cpp: get_local"),("CoLocal macro","include/cocpp/core/co_local.h")])
prop("C19","Suspension preserves a coroutine's registers, stack, and exceptions in flight",
 "Across every suspension and resumption a coroutine finds its callee-saved registers, floating-point control state and whole stack contents as it left them, and an exception being handled or propagated remains its own. This holds equally for coroutines with private stacks of any size and for coroutines that share one stack in any interleaved order. A new coroutine starts on a correctly aligned stack.",
 ["programs","histories","schedules"],"all interleaved resume orders of 2-4 coroutines mixing private and shared stacks, with stack depths varied between suspensions, callee-saved registers filled with distinct patterns",
 "Tests never interleave several shared-stack coroutines with varying depth, nor check registers.",
 ["source/cocpp/core/co_vos_gcc_x86_64.cpp","source/cocpp/core/co_env.cpp","source/cocpp/core/co_stack.cpp","source/cocpp/core/co_ctx.cpp","source/cocpp/core/co_ctx_factory.cpp"],
 [("assembly context switch","source/cocpp/core/co_vos_gcc_x86_64.cpp: switch_to"),("shared-stack save/restore","source/cocpp/core/co_env.cpp: save/restore of the shared stack in schedule_switch")])
prop("C20","Placement: bound coroutines stay put, exclusive environments stay closed",
 "A coroutine created with an explicit environment runs in that environment's thread from beginning to end. An environment made exclusive receives no coroutine that was not bound to it, and unbound coroutines always find an environment and run, also while the pool of environments grows and shrinks. Reaping surplus idle environments strands no coroutine and leaves at least the configured base number.",
 ["schedules","configurations"],"all interleavings of creation, completion, and pool maintenance; base/max in {1,2}; with and without exclusive environments",
 "Placement decisions race with the pool's maintenance thread; tests look at one creation at a time.",
 ["source/cocpp/core/co_manager.cpp","source/cocpp/core/co_env.cpp"],
 [("environment selection","source/cocpp/core/co_manager.cpp: get_best_env__"),("pool maintenance","source/cocpp/core/co_manager.cpp: destroy_redundant_env__, monitor routine")])
prop("C21","Memory: everything released exactly once and never used afterwards",
 "Whatever the order of completion, detaching, joining and dropping of handles, the library never accesses memory it has released and never releases memory twice. The resources of a coroutine that has ended and has no handle any more are released at the latest when its environment runs further coroutines, and a handle keeps its coroutine usable for as long as the handle lives. Repeating create-run-release, or using objects and coroutines that live on again and again, does not grow memory without bound, and a creation that fails leaves nothing behind.",
 ["schedules","histories"],"all interleavings of completion with detach / join / handle destruction; repeated cycles; private and shared stacks",
 "Use after release shows only if completion on one thread overlaps the release on another; the test build has no memory checking.",
 ["source/cocpp/core/co_env.cpp","source/cocpp/core/co_ctx.cpp","source/cocpp/core/co_manager.cpp","include/cocpp/co/co_co.h","source/cocpp/core/co_stack.cpp"],
 [("reap of detached contexts","source/cocpp/core/co_env.cpp: remove_detached_ctx__"),("handle lock","source/cocpp/core/co_ctx.cpp: can_destroy, lock_destroy, unlock_destroy")])
prop("C22","A computing coroutine is preempted so that others get to run",
 "When a coroutine computes without suspending for longer than the scheduling tick, the other ready coroutines of its environment still get to run. The preempted coroutine later continues with all its registers, flags and memory intact. No preemption happens while the environment is inside the library's own critical sections.",
 ["schedules","configurations"],"all positions (instrumented operations) at which the preemption signal can be delivered in a computing coroutine, with 1-2 other ready coroutines",
 "Tests do not include a coroutine that never suspends together with checks of the state it resumes with.",
 ["source/cocpp/core/co_manager.cpp","source/cocpp/core/co_vos_gcc_x86_64.cpp","source/cocpp/core/co_env.cpp"],
 [("signal-driven switch","source/cocpp/core/co_vos_gcc_x86_64.cpp: signal handler, switch_to_outside"),("tick monitor","source/cocpp/core/co_manager.cpp: force_schedule__ / monitor routine"),("preempt guard counter","source/cocpp/core/co_env.cpp: can_force_schedule")])
prop("C23","Non-blocking I/O wrappers behave like the blocking calls they replace",
 "Each I/O operation returns what the operating system finally answered: the data or count transferred, the new descriptor, or the error, with nothing lost, repeated or altered, and it does not return a transient 'would block' or 'interrupted' condition as its result. While it waits, other coroutines of the environment run. Arguments are passed to the operating system unchanged, and an object whose descriptor has been closed no longer uses it.",
 ["fault_sequences","inputs"],"all sequences of system-call answers (success, partial, would-block, interrupted, in-progress, error) up to a length, for every wrapped operation",
 "Real sockets in tests answer one benign sequence; transient answers and errors at each call cannot be provoked.",
 ["source/cocpp/io/co_io.cpp","source/cocpp/io/co_net.cpp","source/cocpp/io/co_file.cpp","include/cocpp/io/co_io.h"],
 [("retry loops","source/cocpp/io/co_io.cpp: read, write, fcntl, ioctl; source/cocpp/io/co_net.cpp: accept, connect, send, recv, ...")])
prop("C24","Exact-length client transfers deliver exactly the requested bytes",
 "An exact-length read returns the requested number of bytes of the stream in order, and an exact-length write transmits all given bytes once and in order, however the transfers are split. If the peer closes or an error occurs, the operation ends and reports it instead of waiting or looping forever.",
 ["fault_sequences","inputs"],"all splittings of up to 4 bytes into partial transfers, with would-block, end-of-stream and errors injected at every position",
 "Loopback tests transfer short messages in one piece.",
 ["source/cocpp/io/co_client.cpp","include/cocpp/io/co_client.h","source/cocpp/io/co_server.cpp"],
 [("loop over partial transfers","source/cocpp/io/co_client.cpp: read_n, write_n")])
prop("C25","Events: every subscriber is called once per publication",
 "Publishing an event calls each handler subscribed at that time exactly once with the published arguments. Handlers may suspend, subscribe and unsubscribe, also themselves and from within a handler, without a crash, a deadlock or an effect on other handlers; after an unsubscribe has returned the handler is not called by later publications.",
 ["histories","schedules"],"all sequences of sub / unsub / pub (also nested in handlers) up to a depth and interleavings with a concurrent publisher",
 "Only indirect uses are tested.",
 ["include/cocpp/event/co_event.h"],[("handler list under lock","include/cocpp/event/co_event.h: pub, sub, unsub")])
prop("C26","Shutdown: the process ends cleanly whatever the coroutines are doing",
 "When the program ends, the library stops its threads and the process exits without crash, hang or use of released memory. This holds for every timing of the end relative to coroutines that are finished, detached, waiting or running short work, and to the library's own background threads.",
 ["schedules"],"all interleavings up to the bound of process exit with environment threads, cleaner, timer and monitor threads",
 "Each test process exits once in one schedule and its exit is not checked under other timings.",
 ["source/cocpp/core/co_manager.cpp","source/cocpp/core/co_env.cpp"],
 [("clean-up sequence","source/cocpp/core/co_manager.cpp: clean_up__, set_clean_up__, destructor"),("environment stop","source/cocpp/core/co_env.cpp: stop_schedule, destructor")])
prop("C27","Work bound to no environment is not stuck behind a blocked one",
 "When a coroutine blocks its environment's thread in a system call for longer than the tick, ready coroutines in that environment that are bound to no environment are moved to another environment and run. A moved coroutine is run by exactly one environment at a time and keeps all of its state.",
 ["schedules","configurations"],"all interleavings of the redistribution with the blocked environment waking up",
 "No test blocks an environment's thread and checks where its neighbours run.",
 ["source/cocpp/core/co_manager.cpp","source/cocpp/core/co_env.cpp"],
 [("redistribution","source/cocpp/core/co_manager.cpp: redistribute_ctx__, steal_ctx_routine__"),("move under lock","source/cocpp/core/co_env.cpp: take_all_movable_ctx, move_ctx_to_here")])
prop("C28","A fatal signal in user code ends the process with a report, never a hang",
 "When code of the user running in a coroutine, in the function of a timer or in a plain thread gets a fatal signal, the library writes its report about environments, coroutines and timers and the process ends with an error status. This holds whatever the coroutines of other environments and the library's own threads are doing at that moment.",
 ["schedules"],"all interleavings of the report and the end with what the other threads do",
 "No test raises a fatal signal, and the deadlocks between the report and other threads need a certain moment.",
 ["source/cocpp/exception/co_exception.cpp","source/cocpp/core/co_manager.cpp"],
 [("report and end","source/cocpp/exception/co_exception.cpp: handle_exception, signal_handler"),("locks taken by the report","source/cocpp/core/co_manager.cpp: manager_info; source/cocpp/core/co_env.cpp: env_info")])
prop("C29","Code always sees the coroutine it runs in as the current one",
 "Code running in a coroutine always sees that coroutine as the current one: this_co::id() is the id that its handle tells, this_co::name() is the name it was created with (and not that of an earlier or other one), and the current environment is the one whose thread runs it. This holds from the first statement to the last: after every yield, wait, sleep, lock, creation or join, after a preemption at any place, on private and shared stacks, and in memory used by earlier coroutines. Coroutines living at the same time have different ids. A plain thread and the function of a timer have an identity of their own that does not change; a handle that was moved stands for the same coroutine, and a handle that was joined or detached for none.",
 ["schedules","inputs","histories"],"all schedules of coroutines in one and two environments, threads and timers; every memory access as preemption point; every short history of creations",
 "Tests look at the id and name once, in the body of one coroutine that is not disturbed.",
 ["source/cocpp/co/co.cpp","source/cocpp/core/co_env.cpp","source/cocpp/core/co_manager.cpp","source/cocpp/core/co_ctx.cpp"],
 [("identity of the caller","source/cocpp/co/co.cpp: this_co::id, this_co::name, co::id, co::name"),("current coroutine and environment","source/cocpp/core/co_env.cpp: current_ctx; source/cocpp/core/co_manager.cpp: current_env")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P: assert len(p['title'])<=80,p['id']
