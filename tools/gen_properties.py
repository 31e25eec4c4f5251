#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
B = "portable_concurrency/bits/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [B + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A result is stored at most once and is what every reader gets",
 "The first value or exception given to a promise becomes the result of its future; every later attempt to satisfy the same promise throws future_error(promise_already_satisfied) and leaves the stored result unchanged. If constructing the stored value throws, the exception reaches the caller and the promise stays unsatisfied and usable. This holds for values, references and void.",
 ["inputs", "histories"], "every value/exception/reference/void result and every sequence of satisfy attempts, including throwing value constructors",
 "tests try a few (value, value) pairs on fixed types; they do not cover every combination of prior state, attempt and throwing copy/move",
 ["shared_state.h", "promise.h", "either.h", "make_future.h"],
 [("emptiness check before storing", "shared_state.h: shared_state::emplace, set_exception"),
  ("tagged storage with strong empty state", "either.h: either::emplace")],
 [("storage", "empty / value / forwarded inner state / exception", "shared_state.h: storage_")],
 ["promise::set_value", "promise::set_exception", "future::get", "make_ready_future", "make_exceptional_future"])

prop("C02", "Every attached callback runs exactly once, under every interleaving",
 "A callback (notification, continuation, waiter) attached to a future is invoked exactly once no matter how attaching races with completion and with other attachers: by the completing thread if the attachment took effect before completion, immediately by the attaching thread otherwise. No callback is lost, duplicated, or invoked before the future is ready (callbacks are assumed not to throw).",
 ["schedules", "histories"], "every number of threads, every interleaving of any number of attach operations with the single completion, every number of callbacks already attached",
 "the one stress test samples a handful of interleavings of a million pushes on x86; a lost or doubled callback needs a specific window between two atomic operations",
 ["once_consumable_stack.h", "once_consumable_stack.hpp", "continuations_stack.h", "portable_concurrency.cpp", "future.hpp", "shared_future.hpp"],
 [("lock-free push by compare-and-swap, refused once consumed", "once_consumable_stack.hpp: push"),
  ("single atomic exchange takes all callbacks and closes the stack", "once_consumable_stack.hpp: consume"),
  ("run inline if refused, else run by completer", "portable_concurrency.cpp: continuations_stack::push/execute")],
 [("head", "list of pending callbacks, or the consumed marker", "once_consumable_stack.h: head_")],
 ["future::notify", "future::then", "future::next", "shared_future::notify"])

prop("C03", "Observing readiness publishes the complete result",
 "Whenever a thread learns that a future is ready (a true is_ready, a returned wait, an attach that runs its callback at once, a callback being run), everything the producer wrote before completing, in particular the fully stored result, happens-before that observation. The result is stored completely before readiness becomes observable and the library never writes to it afterwards. Likewise what an attacher put into its callback happens-before the completer runs it.",
 ["schedules"], "every interleaving under the C++ memory model, not only those x86 exhibits",
 "x86 hides missing acquire/release ordering; no test runs under a weak memory model",
 ["once_consumable_stack.hpp", "shared_state.h", "continuations_stack.h", "when_all.h", "when_any.h"],
 [("acquire loads / failure ordering on every path that reports 'consumed'", "once_consumable_stack.hpp: push, is_consumed"),
  ("release half of the consuming exchange after the store of the result", "once_consumable_stack.hpp: consume; shared_state.h: emplace/set_exception")],
 None, ["future::is_ready", "future::wait", "future::notify"])

prop("C04", "An abandoned producer breaks the promise, and only then",
 "Destroying or move-assigning over an unsatisfied promise, destroying or overwriting a never-invoked packaged_task, or an executor dropping a posted task or continuation makes every attached future ready with future_error(broken_promise), at once. Producers that were already satisfied, moved from, or whose function returned a still pending future do not disturb the result.",
 ["histories", "inputs"], "every producer kind, result type, whether the future was retrieved / dropped / kept, and every point at which the producer dies",
 "tests cover one destruction point per producer kind; combinations with moved-from, satisfied and pending-unwrap states are not enumerated",
 ["promise.h", "packaged_task.h", "then.hpp", "shared_state.h"],
 [("abandon on destruction and move assignment", "promise.h: promise_common::abandon, operator=; packaged_task.h: ~packaged_task, operator=; then.hpp: ~cnt_action"),
  ("abandon only if not executed and not forwarding", "shared_state.h: abandon")],
 None, ["~promise", "~packaged_task", "post(executor, task)", "future::get"])

prop("C05", "get and wait return the result, once it is there, and never hang after",
 "wait() returns only when the future is ready and always returns once it is, whatever the interleaving of the waiter with the completer and spurious wake-ups. future::get() then yields exactly the stored value (moved) or rethrows the stored exception and leaves the future invalid; shared_future::get() yields the same stored object or exception every time. On a future without state these operations throw future_error(no_state).",
 ["schedules", "inputs"], "every interleaving of waiter and completer, every result kind (value, reference, void, exception, forwarded inner result)",
 "tests sleep to provoke one order; a lost wake-up needs completion between the check and the block",
 ["portable_concurrency.cpp", "future.hpp", "shared_future.hpp", "shared_state.h", "algo_adapters.h"],
 [("callback sets flag and notifies under the waiter's mutex; predicate re-checked", "portable_concurrency.cpp: detail::wait"),
  ("state released before reading value", "future.hpp: get; portable_concurrency.cpp: future<void>::get")],
 None, ["future::get", "future::wait", "shared_future::get", "shared_future::wait"])

prop("C06", "Timed waits report ready exactly when the future completed in time",
 "A timed wait on a future returns 'ready' only if the future has become ready, returns 'ready' whenever it became ready before the wait gave up, and otherwise returns 'timeout' no earlier than the deadline. A completion that happens while a thread is blocked in a timed wait always wakes it, and completion after the waiter or the future object is gone is harmless.",
 ["schedules", "inputs"], "every interleaving of waiters with the completer, every deadline, spurious wake-ups, any number of waiters sharing one timed_waiter",
 "tests use fixed sleeps; missed notifications and lifetime races of the shared waiter block are not reachable deterministically",
 ["timed_waiter.h", "future.hpp", "shared_future.hpp"],
 [("flag set under mutex then notify_all; predicate wait", "timed_waiter.h: timed_waiter(future&), wait_for, wait_until"),
  ("shared ownership of the waiter block", "timed_waiter.h: waiter_")],
 None, ["timed_waiter::wait_for", "timed_waiter::wait_until", "future::wait_for"])

prop("C07", "Continuations get the parent's result and deliver their own",
 "A continuation attached with then receives the (ready) parent future; one attached with next receives exactly the parent's value and is not invoked when the parent holds an exception, which is passed on unchanged instead. The value returned or the exception thrown by the continuation function becomes the result of the returned future. This holds for future and shared_future, value, reference and void results, and does not consume or alter a shared parent.",
 ["inputs", "programs"], "every parent outcome (value / exception), every continuation outcome (returns / throws), each of the then/next variants over value, reference and void types",
 "tests pick some variant/outcome combinations; each variant is separate template code that must be right for all outcomes",
 ["then.hpp", "utils.h", "future.hpp", "shared_future.hpp", "invoke.h"],
 [("per-variant decorators", "then.hpp: decorate_unique_then, decorate_shared_then, decorate_unique_next, decorate_shared_next, decorate_void_next"),
  ("result or exception stored", "utils.h: set_state_value")],
 None, ["future::then", "future::next", "shared_future::then", "shared_future::next"])

prop("C08", "Implicitly unwrapped futures mirror the inner future",
 "When an asynchronously executed function returns a future or shared_future, the outer future becomes ready exactly when the inner one is ready (not before), with the inner value or exception; an invalid inner future yields future_error(broken_promise). If the function throws instead, the exception is the result. Dropping the outer future while the inner one is pending is safe.",
 ["inputs", "histories"], "every inner state (invalid, pending, value, exception), every later completion order, through packaged_task, async, then and next",
 "tests check a few inner states per entry point",
 ["shared_state.h", "then.hpp", "utils.h", "packaged_task.h", "async.h"],
 [("store inner state and forward its completion", "shared_state.h: unwrap"),
  ("lookup through the stored inner state", "shared_state.h: value_ref, exception")],
 None, ["packaged_task", "async", "future::then", "future::next"])

prop("C09", "Dropping the result cancels what has not started; detach prevents it",
 "If the last future or shared_future for a result is destroyed before its function started, that function (task or continuation) is never invoked and is destroyed together with everything it captured, and the producers feeding it are no longer awaited. detach() keeps the whole chain up to it alive and running. is_awaiten() is true exactly while some future, continuation or detached chain can still observe the promise's result, and a cancel action runs exactly once if the result is dropped before being set and never otherwise.",
 ["histories", "schedules"], "every order of dropping, completing, posting and executing, for task, continuation, interruptible continuation, shared and unique futures",
 "tests fix one order per feature; ownership cycles and late executions are not enumerated",
 ["promise.h", "packaged_task.h", "then.hpp", "future.hpp", "shared_future.hpp"],
 [("producer holds only a weak reference", "promise.h: promise_common; then.hpp: cnt_action, make_then_state; packaged_task.h: get_future"),
  ("self-owning callback", "future.hpp/shared_future.hpp: detach"),
  ("cancel action in the destructor of an unsatisfied state", "promise.h: ~cancellable_state")],
 None, ["future destructor", "future::detach", "promise::is_awaiten", "make_promise(canceler_arg, f)"])

prop("C10", "Work runs only through the given executor, posted once",
 "A function given to async, then, next or notify together with an executor is invoked only from within the task the library posted to that executor; exactly one task is posted per function, never before the parent future is ready, and each posted task invokes the function at most once. Arguments are delivered to the function as given (decay-copied), and without an executor the callback runs in place.",
 ["programs", "histories"], "every executor behaviour (run now, run later, run on another thread, drop) and every function/argument type",
 "tests use two executors that behave well",
 ["then.hpp", "async.h", "future.hpp", "shared_future.hpp", "execution.h", "packaged_task.h"],
 [("post exactly once from the parent's callback", "then.hpp: cnt_state::schedule; future.hpp/shared_future.hpp: notify"),
  ("post of the packaged task", "async.h: async")],
 None, ["post(executor, task)"])

prop("C11", "when_all is ready exactly when every input is",
 "The future returned by when_all becomes ready once all inputs are ready and not earlier, whatever the number of inputs, the order and the threads in which they complete, including inputs ready from the start and none at all. Its value contains every input future in input order, each ready with its own result, and observing the combined future as ready makes all inputs observable as ready.",
 ["schedules", "inputs"], "every number of inputs, every completion order and interleaving of concurrent completions with the registration loop",
 "tests complete a few inputs sequentially or with one thread pool",
 ["when_all.h", "future_sequence.h"],
 [("counter of inputs plus one registration token", "when_all.h: when_all_state::make, notify"),
  ("in-order iteration over vector or tuple", "future_sequence.h: for_each")],
 [("operations remaining", "inputs not yet complete plus the registration token", "when_all.h: operations_remains_")],
 ["when_all(f...)", "when_all(first, last)", "when_all(vector)"])

prop("C12", "when_any is ready with the index of a ready input, fixed once",
 "The future returned by when_any becomes ready as soon as the first input is ready and not earlier; its index is the position of an input that is ready, is written once before readiness, and does not change when further inputs complete. The inputs keep their order; with no inputs the result is ready with index size_t(-1).",
 ["schedules", "inputs"], "every number of inputs, every completion order and interleaving, including completions during registration",
 "tests cannot force two inputs to complete concurrently",
 ["when_any.h", "future_sequence.h"],
 [("winner elected by atomic flag, index stored before completion", "when_any.h: when_any_state::notify"),
  ("position captured per input", "when_any.h: when_any_state::make")],
 [("winner flag and index", "", "when_any.h: ready_flag_, result_.index")],
 ["when_any(f...)", "when_any(first, last)", "when_any(vector)"])

prop("C13", "The pool's task queue hands out each task once, in order, without lost wake-ups",
 "Every task accepted by the queue before it is closed is handed to exactly one consumer, in submission order; tasks submitted after closing are dropped. A consumer blocks only while the queue is open and empty, is always woken when a task or the close arrives, and is told 'closed' only when the queue is closed and fully drained.",
 ["schedules", "histories"], "every number of producers and consumers, every interleaving, spurious wake-ups",
 "tests use one task and one or a few threads",
 ["closable_queue.h", "closable_queue.hpp"],
 [("monitor with condition variable", "closable_queue.hpp: pop, push, close")],
 [("queue and closed flag", "pending tasks; closed is permanent", "closable_queue.h: queue_, closed_")],
 ["post(pool.executor(), f)", "static_thread_pool"])

prop("C14", "A thread pool runs accepted tasks, drains on wait, stops on request",
 "Every task posted before wait() is executed exactly once before wait() returns, unless stop() was called; after stop() each worker finishes at most the task it is about to run and the remaining tasks are destroyed unexecuted. stop(), wait() and destruction never deadlock and leave no worker behind, and a worker never keeps a finished task alive or destroys it while holding the queue locked.",
 ["schedules", "histories"], "every number of workers and attached threads, every interleaving of posting, stopping, waiting and attaching",
 "tests run one worker with one task in one order",
 ["portable_concurrency.cpp", "thread_pool.h", "closable_queue.hpp"],
 [("worker loop", "portable_concurrency.cpp: process_queue"),
  ("attach / stop / wait", "portable_concurrency.cpp: static_thread_pool::attach, stop, wait")],
 [("attached threads", "workers currently attached", "thread_pool.h: attached_threads_"), ("stopped", "", "thread_pool.h: stopped_")],
 ["static_thread_pool"])

prop("C15", "A latch releases waiters exactly when its count reaches zero",
 "The counter of a latch decreases by exactly the amounts counted down; wait() and count_down_and_wait() return only when it has reached zero, and every blocked thread is released when it does, whatever the interleaving. is_ready() is true exactly when it is zero. A latch may be destroyed as soon as its owner has observed zero by waiting: the destructor waits for other threads still leaving (and for nothing else), and no call that helped reach zero touches the latch afterwards.",
 ["schedules", "inputs"], "every count, every number of counting and waiting threads, every interleaving and spurious wake-ups, destruction right after a wait",
 "tests use latches with two participants; the destruction race needs one thread preempted between unlock and notify",
 ["latch.h", "portable_concurrency.cpp"],
 [("monitor with counter and waiter count", "portable_concurrency.cpp: latch::*")],
 [("counter, waiters", "", "latch.h: counter_, waiters_")],
 ["latch"])

prop("C16", "unique_function calls exactly the stored callable and owns it exactly once",
 "A unique_function holding a callable invokes that callable once per call, with the arguments forwarded unchanged and its result or exception returned unchanged (references included), wherever the callable is stored and however often the wrapper was moved. A wrapper that is empty (default, nullptr, null function pointer or null wrapper) compares empty and throws bad_function_call. The callable is destroyed exactly once, when the wrapper is destroyed or assigned over.",
 ["inputs", "programs", "histories"], "every callable size, alignment and move behaviour, every argument and result type, every sequence of moves",
 "tests use a handful of callables; big callables returning references or with throwing moves are not covered",
 ["small_unique_function.h", "small_unique_function.hpp", "unique_function.h", "unique_function.hpp", "invoke.h"],
 [("type-erased vtable over a small buffer", "small_unique_function.hpp"),
  ("heap fallback", "unique_function.hpp: unique_function(F&&, false_type)")],
 None, ["unique_function"])

prop("C17", "Stored objects are destroyed exactly once, even when constructors throw",
 "The library's tagged storage always holds exactly the object last stored in it or nothing: storing destroys the previous object first, a throwing constructor leaves it empty, moving transfers the object and leaves the source empty, and destruction destroys exactly what is held. Visiting reaches the held object (and only it). Callback lists free every node exactly once whether or not they were run, and a refused push gives the callback back intact.",
 ["inputs", "histories", "fault_sequences"], "every sequence of emplace/move/clean/visit with any constructor throwing, every list length",
 "tests count destructors in a few sequences and do not inject throwing constructors everywhere",
 ["either.h", "once_consumable_stack.h", "once_consumable_stack.hpp"],
 [("clean before emplace, state updated last", "either.h: emplace, move_from, clean"),
  ("node ownership by unique_ptr with list deleter", "once_consumable_stack.hpp: forward_list_deleter, push, ~once_consumable_stack")],
 [("active alternative", "", "either.h: state_")],
 ["future/promise/packaged_task value lifetime"])

prop("C18", "User-supplied allocators provide and receive back all callback memory",
 "A promise created with an allocator obtains its shared state from that allocator, and so does every callback attached through the state's own attach operation; each block is returned exactly once, to an equal allocator, with the size it was allocated with, after its object was destroyed. If constructing a node throws, its memory is returned and the exception propagates; nothing leaks.",
 ["inputs", "fault_sequences"], "every allocator state, every node and state type, allocation and construction failures at every point",
 "tests use one arena allocator and never make construction fail",
 ["once_consumable_stack.h", "shared_state.h", "promise.h", "continuations_stack.h"],
 [("node knows its allocator", "once_consumable_stack.h: allocate_list_node, node::deallocate_self"),
  ("state passes its allocator", "shared_state.h: allocated_state::push; promise.h: make_promise(alloc), promise(allocator_arg)")],
 None, ["make_promise(alloc)", "promise(allocator_arg, alloc)", "future::detach"])

prop("C19", "Packaged tasks run their function at most once with the given arguments",
 "Invoking a packaged_task calls the stored function once with the given arguments and puts its value (a copy, if it is returned by lvalue reference) or exception into the future, then destroys the function; invoking it again throws future_error(promise_already_satisfied) while the future is alive, and invoking an empty task throws future_error(no_state). Moving and swapping transfer the task and its future link; the function is never called by moving, destroying or retrieving the future.",
 ["inputs", "histories"], "every function outcome, argument and result type, every sequence of move/swap/get_future/invoke",
 "tests cover single sequences per feature",
 ["packaged_task.h", "utils.h", "async.h"],
 [("function storage cleared after the run", "packaged_task.h: task_state::run"),
  ("result stored", "utils.h: set_state_value")],
 None, ["packaged_task"])

prop("C20", "Handles follow their state machine",
 "A promise or packaged_task hands out its future exactly once (then future_error(future_already_retrieved)); moved-from and default-constructed handles are invalid and their operations throw future_error(no_state) without side effects. A future is invalid after get, share, detach, then and next; shared_future copies refer to the same result and stay valid. make_promise, make_ready_future and make_exceptional_future return handles in exactly the advertised state.",
 ["histories"], "every sequence of handle operations, each result type",
 "tests check selected transitions",
 ["promise.h", "packaged_task.h", "future.hpp", "shared_future.hpp", "make_future.h"],
 [("handle alternatives: none / owning / weak", "promise.h: promise_common::state_; packaged_task.h: state_"),
  ("null check before use", "future.hpp, shared_future.hpp")],
 None, ["promise", "packaged_task", "future", "shared_future"])

prop("C21", "co_await resumes exactly once with the result; coroutines deliver theirs",
 "A coroutine returning future<T> starts at once; the value it co_returns, or the exception that leaves it, becomes its future's result. co_await on a future or shared_future continues at once with the result if it is ready and otherwise suspends and is resumed exactly once after the result (value, exception or broken_promise) is there, never earlier, whatever the interleaving with the producer. Awaiting a future takes its result; awaiting a shared_future leaves it usable. Dropping the coroutine's own future while it is suspended is safe, and the coroutine frame is destroyed exactly once.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of co_await with set_value/set_exception/abandon, every value, every point where the body throws, dropped futures",
 "the suite is built without coroutine support in this configuration, so the coroutine code paths are not run by it at all",
 ["coro.h", "future.hpp", "shared_future.hpp", "promise.h"],
 [("await_suspend pushes the handle as a callback of the shared state, which runs it exactly once", "future.hpp: await_suspend, shared_future.hpp: await_suspend"),
  ("promise type of the coroutine is the library's promise", "promise.h: get_return_object, unhandled_exception, return_value/return_void; coro.h")],
 None, ["co_await future", "co_await shared_future", "coroutines returning future"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
