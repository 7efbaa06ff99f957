#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os
I = "include/asyncpp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            mechanism=[dict(name=n, where=I+w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=I+w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "Manual-reset events release every waiter exactly once",
 "A coroutine awaiting a single- or multi-consumer manual-reset event continues exactly once: immediately if the event is set, otherwise when a later (or concurrent) set happens, and never without one; everything written before the set is visible to the released coroutine and to whoever sees the event set. set() returns true exactly when it released at least one waiting coroutine, releases all coroutines waiting at that moment (multi-consumer: most recent waiter first), and resumes each on the dispatcher given to wait, else on the one given to set, else inline. The set/awaited state queries and reset follow the sequential meaning of the calls; once every waiter continued, the event may be destroyed even while the set that released them has not returned.",
 ["schedules","histories","configurations"],
 "all interleavings of concurrent set/reset/is_set/await calls from any number of threads and coroutines, with or without dispatchers, starting set or unset",
 "existing tests run one coroutine and a handful of fixed single-threaded call sequences; no concurrent set/await interleaving is exercised",
 ["event.h"],
 [("single_consumer_event::set / awaiter::await_suspend CAS", "event.h"), ("multi_consumer_event LIFO waiter list in one atomic word", "event.h")],
 ["set() return value", "coroutine continuation", "is_set()/is_awaited()"],
 [("m_state","unset / set / waiter list head","event.h")])

prop("C02", "Auto-reset events neither lose nor duplicate a signal",
 "For single- and multi-consumer auto-reset events, a set with no waiter leaves the event set until exactly one later await consumes it (or it is reset), and a set with waiters releases the waiters present and leaves the event unset. No await completes without a set to account for it, no waiting coroutine is left suspended by a set that happens after it started waiting, and none is resumed twice, under any concurrency of set, reset and await. The return value of set, the dispatcher a waiter is resumed on, LIFO release order, visibility of earlier writes and when the event may be destroyed are as for manual-reset events.",
 ["schedules","histories","configurations"],
 "all interleavings of concurrent set/reset/is_set/await calls (one waiter at a time for the single-consumer flavour, any number otherwise), with or without dispatchers",
 "existing tests are single-threaded example sequences; the CAS retry paths are never reached",
 ["event.h"],
 [("single_consumer_auto_reset_event exchange+CAS", "event.h"), ("multi_consumer_auto_reset_event::awaiter retry loop", "event.h")],
 ["set() return value", "coroutine continuation"])

prop("C03", "The async mutex gives exclusive, loss-free, hand-over ownership",
 "At most one coroutine (or try_lock caller) owns the mutex at any time, and everything written under the lock is visible to the next owner. Every coroutine awaiting lock or lock_scoped eventually owns the mutex once the owners before it unlock, exactly once each and in the order in which they started to wait, with the next owner resumed inside unlock. try_lock succeeds exactly when the mutex is free, and the scoped lock object unlocks exactly once for every lock it holds, including across moves; the last owner may destroy the mutex as soon as its own unlock returned, whatever unlock calls have not returned yet.",
 ["schedules","histories"],
 "any number of coroutines and threads, all interleavings of lock/lock_scoped/try_lock/unlock and moves of lock objects",
 "tests check three single-threaded scenarios; contention between unlock and new waiters is never scheduled",
 ["mutex.h"],
 [("mutex::unlock waiter stack reversal", "mutex.h"), ("mutex::lock_awaiter::await_suspend CAS loop", "mutex.h"), ("mutex_lock RAII", "mutex.h")],
 ["critical section occupancy", "acquisition order", "is_locked()"])

prop("C04", "A latch releases its waiters exactly when its count reaches zero",
 "A latch constructed with N (zero included) is not ready and releases no waiter while the decrements sum to less than N, and becomes ready as soon as they sum to exactly N, however the total is split between calls and threads. Every coroutine awaiting it before or after that point continues exactly once and sees everything written before any of the decrements, as does whoever finds it ready. A coroutine that had to wait continues on the dispatcher given to wait (for a plain co_await the one it was running on), or inside the last decrement if there is none, and may destroy the latch if it is the last to use it.",
 ["schedules","inputs","histories"],
 "all N, all ways of splitting N into decrements over threads, any number of waiters, all interleavings",
 "there is no test of latch at all",
 ["latch.h"],
 [("latch::decrement last-decrementer detection", "latch.h")],
 ["is_ready()", "coroutine continuation"])

prop("C05", "A channel hands every value over once, in order, until closed",
 "Every value accepted by a channel (write completing with true, or try_write returning true) is returned by exactly one read or try_read, every value returned was accepted exactly once, and waiting readers and writers are served first-come first-served. A write reporting false, or a try_write returning false, delivered nothing; try operations never suspend and succeed exactly when a counterpart is waiting. After close every pending and later read yields nothing and every pending and later write reports false, no coroutine stays suspended, and a coroutine that had to suspend continues exactly once, on its chosen dispatcher if it has one, and may then destroy the channel if it is the last to use it.",
 ["schedules","histories"],
 "any number of reader/writer coroutines and threads, all interleavings of read/try_read/write/try_write/close",
 "tests use at most one reader and writer in a fixed order on one thread",
 ["channel.h"],
 [("read_awaiter/write_awaiter::await_suspend under lock", "channel.h"), ("channel::close draining both lists", "channel.h")],
 ["values read", "write results", "coroutine continuation"])

prop("C06", "The bounded coroutine queue is FIFO, bounded and loss-free",
 "Items leave the queue in the order in which they were accepted, each accepted item is popped exactly once, and no item is lost, duplicated or invented by suspended pushes or pops. At most max_size items are stored: try_push/try_emplace fail and push suspends exactly when the queue is full, try_pop fails and pop suspends exactly when there is nothing to pop, and size/empty agree with that. Every suspended push or pop continues exactly once when space or an item arrives (clear makes suspended pushes report failure; moving the queue keeps them working), on its dispatcher if one applies, and may then destroy the queue if it is the last to use it.",
 ["schedules","histories","inputs"],
 "any capacity, any number of producers and consumers, all interleavings of push/pop/try_push/try_emplace/try_pop/clear/size/empty and move",
 "tests exercise a few fixed push/pop orders on one thread",
 ["queue.h"],
 [("pop_awaiter/push_awaiter await_ready+await_suspend under one lock", "queue.h"), ("try_pop refilling from suspended pushers", "queue.h")],
 ["popped values", "push results", "size()"])

prop("C07", "A promise settles once and every observer sees that one outcome",
 "Of all attempts to fulfil or reject a promise through any of its copies exactly one succeeds (the try_ forms return true once, the others throw on the losing attempts), and from then on every query, callback, awaiting coroutine and blocking or timed get reports that outcome: the very value, or the very exception. Every registered callback and awaiting coroutine is notified exactly once, whether registered before, during or after settlement, and no waiter stays blocked once the promise is settled. The outcome stays valid while any copy of the promise exists and is released with the last one.",
 ["schedules","histories","inputs"],
 "all interleavings of fulfil/reject/then/on_settle/co_await/get/get-with-timeout/try_get/copy/destroy by any number of threads, for values whose construction may throw",
 "tests are sequential apart from one sleep-based case, with one setter and one observer",
 ["promise.h"],
 [("promise state try_fulfill/try_reject under lock, callbacks after unlock", "promise.h"), ("get(timeout) condition variable wait", "promise.h")],
 ["callback invocations", "get() results", "coroutine continuation", "live object count"])

prop("C08", "Promise combinators settle exactly as their inputs dictate",
 "promise_first settles exactly like the input that settled first (the leftmost one if several already were); promise_first_successful is fulfilled with the first fulfilled input and is rejected, with the exception of the last input to fail, only once every input was rejected; promise_all is fulfilled exactly once all inputs have settled, no matter how, and at once if there are none. The combined promise settles only once, later inputs do not change it, and this holds for any number, order, mix and concurrency of settlements, before, while or after the combinator is called.",
 ["schedules","histories","inputs"],
 "all input counts, all settlement orders and outcome mixes, inputs settled before/while/after combining, concurrently from several threads",
 "tests cover two or three fixed orders with two or three inputs on one thread",
 ["promise.h"],
 [("promise_first / promise_first_successful try_fulfill race and failure counter", "promise.h"), ("promise_all settled counter", "promise.h")],
 ["combined promise outcome"])

prop("C09", "Reference counting keeps objects alive exactly as long as referenced",
 "An object managed by the intrusive reference counting facilities lives as long as at least one reference exists and is destroyed exactly once, when the last one goes away, after everything done through other references is visible to the destroying thread. Construction, copy, move, assignment (including self-assignment and assignment from a reference reachable only through the old target), reset, release and adoption of ref, and load, store, exchange and release of atomic_ref keep count and target exactly as the equivalent operations on a shared owner would, atomically for atomic_ref. The reported reference count equals the number of outstanding references.",
 ["histories","schedules"],
 "all sequences of ref/atomic_ref operations over any aliasing of handles and objects, and all interleavings of such operations on distinct handles or a shared atomic_ref",
 "tests check each operation once, single-threaded, without aliasing",
 ["ref.h"],
 [("ref<T>::reset/operator=", "ref.h"), ("thread_safe_refcount memory orders", "ref.h"), ("atomic_ref tagged-pointer lock", "ref.h")],
 ["destructor runs", "use_count()"])

prop("C10", "Signals invoke exactly the connected slots, in order",
 "Emitting a signal invokes every slot connected at that moment and not disconnected before its turn, exactly once, in connection order (prepended ones first, latest prepend first), with the emitted arguments; slots connected during an emission are first invoked by the next emission. Disconnecting, through the signal or a handle, from any place including the slot itself or a nested emission, makes the slot unreachable for later invocations, reports whether it was connected, and never disturbs other connections. Slots are released exactly once, at the latest when the signal and all handles are gone, a scoped handle disconnects its slot exactly when it ends or is assigned another one, and a signal manager keeps the slots of different event keys apart.",
 ["histories","schedules"],
 "all sequences and nestings of connect/prepend/disconnect/clear/emit, performed outside and inside of slots, over any number of signals, keys and handles, and concurrent use of the thread-safe flavours",
 "tests connect two or three slots and emit once or twice; no reentrant disconnects or appends, no concurrency",
 ["signal.h"],
 [("signal node list iteration with counters", "signal.h"), ("signal_manager slot map", "signal.h")],
 ["slot invocations", "slot/handle destruction"])

prop("C11", "The thread pool runs every pushed task exactly once on a pool thread",
 "Every task accepted by a thread pool is executed exactly once, on a thread of that pool with that pool as the current dispatcher, whatever the pool size, the pushing thread, work stealing and concurrent resizes. A push wakes an idle thread, resizing loses and blocks no task (even if new threads can not be started), after a shrink returns the surplus threads are gone, and destroying the pool returns only after all accepted tasks have run. Everything written before a push is visible to the task.",
 ["schedules","histories"],
 "all interleavings of pushes (from outside, from tasks, from tasks of another pool), grow/shrink and destruction with the worker threads",
 "tests push a few tasks and sleep or join; resize/push/steal races depend on OS scheduling",
 ["thread_pool.h"],
 [("thread_pool::push thread selection and queue locks", "thread_pool.h"), ("worker loop and stealing", "thread_pool.h"), ("resize", "thread_pool.h")],
 ["task executions", "dispatcher::current()"])

prop("C12", "The timer fires each callback exactly once, on time, or cancels it",
 "Every scheduled callback or timed wait completes exactly once: with success never before its deadline and in deadline order, or with failure if its stop token is triggered before it fired or the timer is destroyed first; a token already stopped cancels at once. A later deadline, cancellation or push never delays an earlier-due entry beyond its deadline, and cancelling after completion has no effect. Tasks pushed to the timer as dispatcher each run exactly once on the timer thread, and destroying the timer never loses, duplicates or deadlocks an outstanding entry.",
 ["schedules","histories","inputs"],
 "all sets of deadlines (past, equal, distinct, far future), all interleavings of schedule/wait/cancel/push/destroy with the timer thread and with each other",
 "tests use real sleeps and one or two timers; cancellation races cannot be provoked",
 ["timer.h"],
 [("timer::run loop, m_scheduled_set ordering", "timer.h"), ("stop_callback based cancellation", "timer.h"), ("timer destructor drain", "timer.h")],
 ["callback invocations and argument", "virtual clock at invocation"])

prop("C13", "The bundled stop tokens behave like the standard's",
 "The bundled stop_source/stop_token/stop_callback implementation behaves like the C++20 standard facility for every sequence of operations: stop_possible, stop_requested, request_stop results, equality, copies, moves, swaps and destruction. Under any concurrency request_stop returns true exactly once per state, every callback registered and not deregistered is invoked exactly once by a stop request (immediately when registering after it), on the requesting thread, and never after its deregistration has returned. Deregistration waits for a callback running on another thread but not for one running on its own thread, and state is freed exactly once.",
 ["schedules","histories"],
 "all operation sequences over any number of sources, tokens and callbacks (differential against std::stop_token), and all interleavings of request_stop/register/deregister from several threads",
 "the polyfill is not compiled into the test binary on this platform beyond a header check / single-threaded examples",
 ["stop_token.h"],
 [("detail stop state lock bit and callback list", "stop_token.h")],
 ["return values", "callback invocations"])

prop("C14", "task<T> delivers its one result or exception and owns its frame",
 "Awaiting a task runs its body exactly once, starting no earlier than the await, and yields exactly the value or exception it finished with, to the awaiting coroutine only, after the body completed; chains of any depth behave like ordinary nested calls and do not consume stack proportional to the number of awaits. A task that is never awaited or destroyed while suspended runs no further and releases its frame, parameters and locals exactly once; moving a task transfers it. This also holds when the body completes on another thread or dispatcher than the awaiting coroutine was suspended on.",
 ["programs","histories","schedules"],
 "all trees of nested tasks with values, move-only results and exceptions at any point, suspended at any points, resumed from any thread, moved or destroyed at any point",
 "tests cover a few fixed coroutine bodies; no composition, destruction at suspension or cross-thread completion",
 ["task.h"],
 [("task promise continuation and symmetric transfer", "task.h"), ("task move/destructor", "task.h")],
 ["trace of body steps", "result", "live object counts"])

prop("C15", "Generators yield exactly their body's sequence, then end or throw",
 "Iterating a generator or async generator yields exactly the values or references the body yields, in order, running the body only as far as the requested element, then ends when the body returns; the body may await between yields in the asynchronous case. An exception leaving the body surfaces once, from the step that reached it, and afterwards the sequence is at its end. Destroying a generator at any point releases the frame, the current value and all locals exactly once, moves transfer the sequence, and the stack does not grow with its length. fmap yields the function's results for exactly those elements.",
 ["programs","histories","schedules"],
 "all bodies (yield/await/throw/return scripts over value, reference, const and move-only types), all consumption lengths and abandonment points, moves, and resumption from other threads for awaits",
 "tests iterate small fixed generators to the end or throw once",
 ["generator.h","async_generator.h"],
 [("generator iterator", "generator.h"), ("async_generator promise yield/advance transfer", "async_generator.h")],
 ["observed sequence", "body progress", "live object counts"])

prop("C16", "Fire-and-forget tasks run once and clean up after themselves",
 "An eager fire-and-forget task starts when called and a lazy one when start is called, and its body runs at most once however many handles, copies or start calls there are. Its frame with parameters and locals is released exactly once: when the body has ended and no handle refers to it, or, if it was never started, with its last handle. An exception leaving the body is handled by the last policy awaited in it: ignore swallows it, handle runs the callback once with the exception current, and the default terminates the program.",
 ["programs","histories","schedules"],
 "all sequences of create/copy/move/start/destroy over handles, bodies suspended and resumed at any point or from any thread, policies set at any point",
 "tests cover one start and one exception per policy variant (not ignore)",
 ["fire_and_forget.h","policy.h"],
 [("promise reference count and initial/final suspend", "fire_and_forget.h"), ("unhandled_exception policy dispatch", "fire_and_forget.h")],
 ["body executions", "live object counts", "policy callback"])

prop("C17", "Launch scopes count spawned work exactly and join when it is all done",
 "Every awaitable or callable launched through launch or an async_launch_scope starts at once, is run exactly once with the arguments given, and is kept alive (a callable as the scope's own copy) until it finished. Joining a scope (by join or join_future) completes exactly once, after and as soon as all work launched in it (including work launched while joining) has finished, immediately if there is none, and can be repeated; the scope may be destroyed as soon as join returned and all of the work's effects are visible then. The in-flight count and all-done query agree with the number of launched and unfinished items, also after a launch that failed.",
 ["schedules","histories"],
 "all numbers of launched items finishing in any order on any threads, joined at any point, all interleavings of finish and join",
 "tests launch one or two items and finish them on one thread before or after join",
 ["launch.h"],
 [("async_launch_scope counter and join awaiter", "launch.h"), ("detail launch task", "launch.h")],
 ["join continuation", "inflight_coroutines()", "all_done()"])

prop("C18", "Fibers run their function once with state intact across suspensions",
 "A fiber runs its function exactly once on its own stack of at least the requested size, which faults when exceeded, keeping locals, the floating-point environment and the exceptions it is handling intact across any number of suspensions, and co_await on it (by a coroutine or another fiber) yields its result once the function returned. fib_await suspends exactly the fiber executing it until the awaited operation completes, inline or on any thread, and returns its result or throws what await_suspend or await_resume throw; fibers and coroutines nest and interleave arbitrarily, on one or many threads and from any translation unit, without mixing up which one continues or which dispatcher is current. Destroying a suspended or unstarted fiber unwinds its stack, runs the destructors of its locals once, releases its stack, and does not complete its awaiter.",
 ["programs","histories","schedules"],
 "all scripts of nested/interleaved fibers with suspension, results, exceptions and destruction at any suspension point, inline, deferred and cross-thread resumption, and both context-switch backends",
 "tests run a few fixed fibers on one thread with one backend",
 ["fiber.h"],
 [("fiber context switch and resume_cb loop", "fiber.h"), ("fiber destruction by unwinding", "fiber.h")],
 ["trace of fiber steps", "locals/destructors", "results"])

prop("C19", "Dispatching runs coroutines and callbacks on the dispatcher asked for",
 "While code runs on one of the provided dispatchers (pool, timer, simple dispatcher) the current-dispatcher query names exactly that dispatcher, and afterwards the previous value is restored. Awaiting a defer of a non-null dispatcher continues the coroutine exactly once on that dispatcher, and of a null one continues at once in place. A simple dispatcher runs every pushed callback exactly once in push order inside run, which keeps going until stopped and is woken by pushes and stop from any thread.",
 ["schedules","histories","configurations"],
 "all sequences and nestings of push/stop/run/defer over any mix of dispatchers, from any number of threads",
 "tests check one hop onto one dispatcher",
 ["dispatcher.h","defer.h","simple_dispatcher.h","thread_pool.h","timer.h"],
 [("thread_local current dispatcher", "dispatcher.h"), ("simple_dispatcher::run loop", "simple_dispatcher.h"), ("defer awaiter", "defer.h")],
 ["dispatcher::current()", "execution order"])

prop("C20", "threadsafe_queue is a linearizable FIFO queue",
 "Under any concurrency the operations of threadsafe_queue behave as if executed one at a time on a plain FIFO queue: each pushed element is popped at most once, in order, and a pop returns nothing only if the queue was empty at some moment during the call. Copies, moves and assignments take the contents the source had at one moment, atomically with respect to other operations; an operation that fails with an exception leaves the queue unchanged. Elements and their memory are released exactly once and writes made before pushing an element are visible to who pops it.",
 ["schedules","histories"],
 "all interleavings of push/emplace/pop/copy/move/assign from several threads, throwing constructors and allocation failures",
 "tests run sequential examples",
 ["threadsafe_queue.h"],
 [("lock around every operation", "threadsafe_queue.h")],
 ["operation results"])

prop("C21", "Pointer tagging round-trips and scope guards fire exactly once",
 "Tagging a pointer with any integer or scoped-enum id that fits the alignment bits of its type and untagging it gives back exactly that pointer and id, for every alignment, constness and address, ids that do not fit are rejected, and the tag can be read without knowing which of several types it is. A scope guard runs its callback exactly once when its scope is left in any way while engaged, and never when disengaged. It runs no earlier than that and in reverse order of construction.",
 ["inputs","histories"],
 "all object alignments, pointers and ids; all engage/disengage sequences and scope exits by return or exception",
 "tests check a few constant pointers and ids",
 ["ptr_tag.h","scope_guard.h"],
 [("ptr_tag/ptr_untag masks", "ptr_tag.h"), ("scope_guard destructor", "scope_guard.h")],
 ["returned pointer/id", "callback count"])

prop("C22", "Coroutine frames use the given allocator, balanced and aligned",
 "Every coroutine type accepting an allocator obtains each frame from the allocator passed to the coroutine (or a default-constructed one for allocator types whose objects are always equal) and returns it to an equal allocator with the size it was allocated with, exactly once, whether the coroutine completes, throws or is destroyed early; the allocator copies kept alongside a frame are themselves created and destroyed in balance. Frames are aligned for any type of ordinary alignment, whatever the size of the allocator object and even if a stateful allocator returns memory aligned only for bytes (a stateless one has to return memory aligned like operator new does). If the allocator throws, creating the coroutine reports exactly that and nothing is leaked.",
 ["inputs","programs","configurations"],
 "all allocator sizes/alignments (stateless and stateful), frame sizes, coroutine types, early destruction, throwing allocators",
 "tests count allocations for one simple allocator per coroutine type",
 ["detail/promise_allocator_base.h","task.h","generator.h","async_generator.h","fire_and_forget.h","launch.h"],
 [("promise_allocator_base operator new/delete", "detail/promise_allocator_base.h")],
 ["allocate/deallocate calls", "addresses of frame locals"])

prop("C23", "Waiting synchronously for awaitables returns exactly their outcome",
 "Turning an awaitable into a future, or running it as the main function of a program, starts it exactly once and delivers exactly its value, reference, void completion or exception (including the failure to copy the result), whether it completes inline, later, or on another thread. An awaitable passed as lvalue is copied and left alone. The blocked thread continues as soon as the outcome exists, never before, sees all writes made before completion, and everything allocated for the wait is released exactly once.",
 ["schedules","programs","inputs"],
 "all awaitable kinds (task, event, promise, defer, custom), outcomes and completion threads, all interleavings of completion with the waiting thread",
 "tests wait for one immediately completing task",
 ["sync_wait.h","promise.h","async_main.h"],
 [("as_promise / sync_get", "sync_wait.h")],
 ["returned value / thrown exception"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
