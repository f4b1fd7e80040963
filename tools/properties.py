#!/usr/bin/env python3
"""Writes properties.jsonl (the list below is its source)."""
import json, os
S, I, P, H, C, F, K = "schedules", "inputs", "programs", "histories", "configurations", "fault_sequences", "crash_points"
inc = "sdk/include/teiacare/sdk/"
src = "sdk/src/"
L = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


Q = [inc + "blocking_queue.hpp"]
p("C01", "blocking_queue is a linearizable bounded FIFO",
  "Every concurrent history of push, pop, try_push, try_pop, size and capacity on a blocking queue is equivalent to a sequential history of a FIFO with that capacity which respects real-time order. "
  "No item is lost, duplicated, reordered or torn, the number of items never exceeds the capacity, try_push returns false only when the queue is full and try_pop is empty only when the queue is empty. "
  "try_push, try_pop, size and capacity always return, however many producers and consumers are blocked in push or pop.",
  [S, P, H], "for every program of concurrent queue operations on every element type, every capacity and every interleaving",
  "The tests run a few thread programs under whatever schedule the host produces and check sums or single-threaded results; they never reach the rare interleavings of push/pop/try variants.",
  Q, [("one mutex around the underlying queue and two condition variables", inc + "blocking_queue.hpp push/pop/try_push/try_pop")],
  [("items", "the stored items, oldest first", inc + "blocking_queue.hpp _queue"), ("capacity", "maximum number of items", inc + "blocking_queue.hpp _capacity")], ["return values of the public operations"])
p("C02", "blocking_queue never leaves a producer or consumer blocked without reason",
  "Whenever the queue holds an item no blocked pop stays blocked, and whenever it has a free slot no blocked push stays blocked, once the threads are allowed to run: every item pushed by matching producers and consumers gets through, for spurious wake-ups, any wake-up order and any mix of blocking and non-blocking calls.",
  [S, P, F], "for every number of producers and consumers, every capacity, every mix of blocking and try operations, every wake-up order and spurious wake-up sequence",
  "A lost wake-up needs two or more waiters and a particular order of notify and wait; a test that hits it hangs rarely and cannot show its absence.",
  Q, [("a notification after each change, waiting in predicate loops", inc + "blocking_queue.hpp push/pop")], None, ["progress of blocked callers when nothing else can run"])
p("C03", "A failing item copy or allocation leaves the blocking_queue intact",
  "If copying an item or allocating memory throws during push, try_push, pop or try_pop, the exception reaches that caller, the operation has no effect (no item is lost, duplicated or left moved-from) and all other callers continue as if the call had not been made.",
  [S, F, P], "for every failing copy or allocation inside every queue operation, in every interleaving with other operations",
  "No test injects a throwing copy or bad_alloc, let alone while other threads wait.",
  Q, [("the item is removed only after it was copied out; scoped locks", inc + "blocking_queue.hpp try_pop/pop")], None, ["return values and exceptions of the public operations"])

T = [inc + "thread_pool.hpp", src + "thread_pool.cpp", inc + "task.hpp"]
p("C04", "thread_pool executes every accepted task exactly once and delivers its result",
  "Every task accepted by a started pool that is not stopped is executed exactly once on a pool thread with exactly the arguments given, and its future yields exactly the value or the exception of that execution, whatever the interleaving of submitting threads and workers.",
  [S, P, I, F], "for every program of concurrent submissions with values, references, moved arguments and exceptions, every worker count and schedule",
  "Tests submit a handful of tasks and read the futures under the host's schedule.",
  T, [("tasks queued under a mutex, packaged_task per call", src + "thread_pool.cpp enqueue_task/worker"), ("argument tuple bound into the task", inc + "thread_pool.hpp run")],
  [("task queue", "accepted tasks in order", inc + "thread_pool.hpp _tasks")], ["futures, execution counts"])
p("C05", "thread_pool gives the parallelism it was started with and strands no task",
  "A pool started with n threads runs min(max(n,1), number of hardware threads, at least 1) workers, reports that number, runs that many tasks at the same time if so many are pending and never more, starts tasks of a single-worker pool in submission order, and no accepted task waits while a worker is idle.",
  [S, P, C], "for every requested thread count, every hardware thread count including unknown, every order of submissions and completions",
  "Parallelism that depends on a particular wake-up is not distinguishable in a timing test; the unknown hardware thread count never occurs on the test host.",
  T, [("clamping of the thread count", src + "thread_pool.cpp start"), ("notification per enqueued task", src + "thread_pool.cpp enqueue_task")], None, ["number of tasks inside their body at the same time, threads_count()"])
p("C06", "thread_pool start/stop quiesces, restarts cleanly and abandons tasks visibly",
  "When stop() returns no task of the pool is running or will run until the next start, every accepted task that was not executed has its future report a broken promise, and the pool can be started again with no trace of the previous round. "
  "Concurrent calls of run, start state queries and stop behave as if executed one after another, and nothing deadlocks.",
  [S, P, H], "for every point at which stop, restart or destruction falls relative to submissions, execution and completion of tasks",
  "Tests stop an idle pool or one with a known state; the interesting points are inside the worker's wait and between dequeue and execution.",
  T, [("running flag checked under the mutex; joins of all workers; queue cleared", src + "thread_pool.cpp stop")], [("is_running", "pool accepts tasks", inc + "thread_pool.hpp _is_running")], ["futures of pending tasks, activity after stop()"])
p("C07", "A failing thread creation leaves components stopped and usable",
  "If the operating system refuses to create one of the threads that start() of a thread pool, event dispatcher, task scheduler or timer needs, the error is reported to the caller, no thread, task or callback is left behind, and the object behaves as a stopped one: it can be started again and destroyed.",
  [F, S, C], "for every thread creation at which the failure happens, in every order with other calls, and every following use",
  "Tests never see pthread_create fail.",
  T + [src + "event_dispatcher.cpp", src + "task_scheduler.cpp", src + "high_precision_timer.cpp"],
  [("clean-up on the exceptional path of start", src + "thread_pool.cpp start"), ("clean-up on the exceptional path of start", src + "task_scheduler.cpp start"), ("clean-up on the exceptional path of start", src + "high_precision_timer.cpp start")], None, ["exception from start(), later start/stop/destruction"])

E = [inc + "event_dispatcher.hpp", src + "event_dispatcher.cpp"]
p("C08", "event_dispatcher delivers each emit once to exactly the registered handlers",
  "Each emit on a started dispatcher invokes every handler that is registered for that event throughout the call exactly once, with exactly the emitted arguments, never one that is not registered at any moment of the call, and never a handler of another event. "
  "All add, remove and emit calls from any threads behave as if made one after another.",
  [S, P, H, I], "for every concurrent program of add_event, add_handler, remove, emit with every argument kind, and every interleaving with the delivering workers",
  "Tests emit from one thread with fixed handlers and sleep before they look.",
  E, [("events map under a mutex; one pool task per handler", src + "event_dispatcher.cpp; " + inc + "event_dispatcher.hpp emit")], [("events", "handlers by event name and argument types", inc + "event_dispatcher.hpp _events")], ["handler invocations and arguments"])
p("C09", "event_dispatcher tells events and handlers apart exactly",
  "Events are told apart by exact name and exact argument types whatever other events exist, handler ids are unique within their dispatcher for its lifetime, and removing a handler or an event removes exactly that one; an emit with a different name or other argument types reaches nobody.",
  [P, I, S], "for every set of names (including unusual, empty and look-alike ones), argument lists, registration/removal orders and concurrent callers",
  "Tests use two or three plain names; confusion needs particular name/type pairs, ids reused after removal, or several dispatchers.",
  E, [("event key from name and argument types", inc + "event_dispatcher.hpp"), ("handler id counter", src + "event_dispatcher.cpp")], None, ["which handlers are called, results of remove"])
p("C10", "A single-worker event_dispatcher delivers in order of emission",
  "With one worker, handlers are invoked one at a time, events emitted one after another are delivered in that order, events emitted by one thread keep that thread's order, and the handlers of one emit run in order of their registration.",
  [S, P, H], "for every number of emitting threads and every interleaving",
  "Order inversions need several emitters and a preemption at the right point; tests emit sequentially.",
  E, [("single FIFO of the pool", src + "thread_pool.cpp worker"), ("ordered map of handlers", inc + "event_dispatcher.hpp")], None, ["order of handler invocations"])
p("C11", "event_dispatcher stop, restart and destruction are clean",
  "When stop() or destruction returns no handler is running, deliveries of earlier emits that had not begun never happen, also not after a restart, and no handler registered before is registered any more: emit and remove report false. start of a running and stop of a stopped dispatcher report false, and after another start the dispatcher serves newly registered handlers like a new one. This holds for adds, removes and emits made concurrently from any thread.",
  [S, P, K], "for every point at which stop, restart or destruction falls relative to emits and running handlers",
  "Tests stop after the handlers finished.",
  E, [("stop of the pool", src + "event_dispatcher.cpp stop")], None, ["handler activity after stop, return values"])

D = [inc + "task_scheduler.hpp", src + "task_scheduler.cpp"]
p("C12", "One-shot scheduled tasks run exactly once, never early, promptly, in order",
  "A task scheduled at a time or after a delay runs exactly once, not before that time, later only by the delays the environment imposes, and its future yields its result; with one worker tasks start in order of their due times. "
  "This holds for any set of other tasks, past and far future due times, and whatever task is added while the scheduler waits for another.",
  [S, P, F, I], "for every set of tasks, due times, submitting threads, schedules, late wake-ups, spurious wake-ups and coarse clocks",
  "Tests use a few real delays with tolerances of many milliseconds and cannot place an addition inside the scheduler's wait.",
  D, [("ordered map of due times, timed wait re-evaluated on each addition", src + "task_scheduler.cpp start/add_task/update_tasks")], [("tasks", "scheduled tasks by due time", inc + "task_scheduler.hpp _tasks")], ["start times, futures"])
p("C13", "Periodic tasks keep their fixed-rate grid",
  "The k-th start of a periodic task never happens before its first due time plus k intervals; starts stay on the grid of first due time plus multiples of the interval, so that delays never accumulate, and once disturbances stop every grid time is served exactly once.",
  [S, P, F], "for every set of intervals, initial delays, worker counts, stalls, pauses, late timers and throwing tasks",
  "Tests count invocations over a short real time with wide tolerances; drift and recovery after a stall are not observable.",
  D, [("next due time from the previous due time", src + "task_scheduler.cpp update_tasks")], None, ["start times of the periodic task"])
p("C14", "Task control by id is linearizable and takes effect",
  "remove, enable/disable, queries and interval updates by task id behave as if made one after another with the scheduling steps: an id is accepted once while scheduled, a removed or disabled task starts no more, an enabled one starts again on its grid, "
  "a new interval applies from the previous due time, and results always describe the task with exactly that id.",
  [S, P, H, I], "for every concurrent program of control calls, ids, intervals and their interleaving with due times",
  "Tests call each control function once on an idle task.",
  D, [("all control calls under the tasks mutex", src + "task_scheduler.cpp")], None, ["return values, start times after each control call"])
p("C15", "task_scheduler stop is prompt, complete and restartable",
  "stop() returns promptly although tasks are scheduled far in the future, tasks that have not started are discarded with a broken promise and never run, also not after a restart, and tasks submitted while stopped are refused; nothing the scheduler held is leaked and nothing hangs.",
  [S, P, K], "for every point at which stop, restart or destruction falls relative to additions, due times and running tasks",
  "Tests stop at a quiet moment; the dangerous ones are inside the timed wait and between due time and execution.",
  D, [("running flag, notification and joins", src + "task_scheduler.cpp stop")], None, ["duration of stop(), futures, activity after stop"])
p("C16", "A throwing or long task disturbs no other scheduled task",
  "An exception thrown by a scheduled task reaches only its own future (or nobody, for periodic tasks), a periodic task that threw stays scheduled, and a task that runs long delays other tasks only while all workers are busy.",
  [S, P, F], "for every mix of throwing, long and normal tasks, worker counts and schedules",
  "Tests contain no throwing periodic tasks and none longer than its interval.",
  D + T, [("packaged task per execution", inc + "task.hpp"), ("execution delegated to the pool", src + "task_scheduler.cpp update_tasks")], None, ["start times and futures of the other tasks"])

M = [inc + "high_precision_timer.hpp", src + "high_precision_timer.cpp"]
p("C17", "high_precision_timer keeps its tick grid and accounts for every tick",
  "The k-th tick of a timer never comes before start time plus k intervals, callbacks never overlap, delays never accumulate, every due tick is either invoked or counted as missed (missed only while a callback overran), the counters never decrease, and after disturbances end ticks come exactly one interval apart.",
  [S, F, I], "for every interval, callback duration, stall, pause, late wake-up and clock granularity",
  "Tests measure real time with tolerances and cannot stall the timer thread at a chosen point.",
  M, [("absolute next tick time, catch-up with missed counter", src + "high_precision_timer.cpp worker")], [("counters", "invoked and missed callbacks", inc + "high_precision_timer.hpp")], ["times of the callbacks, counters"])
p("C18", "high_precision_timer stop, restart and destruction are clean",
  "After stop() or destruction returns no callback runs or will run, stop() does not wait for a whole interval, a restart begins a fresh grid and fresh counters, start without a callback is refused, and nothing is leaked.",
  [S, P, K], "for every point at which stop, restart or destruction falls relative to the tick and a running callback",
  "Tests stop between ticks of a fast timer.",
  M, [("running flag, condition variable, join", src + "high_precision_timer.cpp stop")], None, ["callback activity after stop, counters, duration of stop"])
p("C19", "The timer callback can be replaced while the timer runs",
  "Replacing the callback of a running timer never breaks a tick: each callback made is wholly the old or wholly the new one with its own arguments, after set_callback returns at most the callback already under way is the old one, and the replaced callback's captures are released exactly once.",
  [S, P, F], "for every interleaving of replacement with ticks and callbacks of any duration",
  "Tests set the callback once before start.",
  M, [("callback copied under a mutex", src + "high_precision_timer.cpp get_task/set_callback")], None, ["which callback runs, captured objects"])

O = [inc + "observable.hpp"]
p("C20", "observable notifies every change exactly once, in order",
  "Concurrent assignments and reads of an observable behave as if made one after another: each assignment that changes the value is notified exactly once with the value assigned, notifications come in the order of the assignments, and reads never return torn or unassigned values.",
  [S, P, H, I], "for every program of concurrent assignments and reads on every value type, and every interleaving",
  "Tests assign from one thread.",
  O, [("mutex around comparison, assignment and notification", inc + "observable.hpp")], [("value", "current value", inc + "observable.hpp")], ["callback arguments and order, values read"])
p("C21", "observable notification switch and failing callbacks or copies",
  "While notifications are disabled assignments are not notified but take effect, re-enabling notifies only later changes, and when a callback or a copy of the value throws the exception reaches the assigning caller while the observable stays usable, with the old or the new value and all later notifications intact.",
  [S, F, P], "for every interleaving of enabling, disabling and assigning, and every throwing callback or copy",
  "No test throws from a callback or toggles while another thread assigns.",
  O, [("switch checked under the mutex; scoped lock", inc + "observable.hpp")], None, ["callback calls, exceptions, values read afterwards"])
p("C22", "rate_limiter keeps its cadence",
  "The k-th sync() of a limiter of rate r returns no earlier than k/r after its creation and no later than needed: delays of the caller or of the system do not accumulate, calls that are behind return at once until the cadence is caught up, and rounding of the period never drifts.",
  [F, I, S], "for every rate, frame duration, stall, pause, late wake-up, interrupted sleep and clock granularity",
  "The tests check average real time over a few frames with a wide tolerance.",
  [inc + "rate_limiter.hpp", src + "rate_limiter.cpp"], [("absolute deadline advanced by the period", src + "rate_limiter.cpp sync")], None, ["return times of sync()"])
p("C23", "Steps of the wall clock disturb no interval or delay",
  "When the system's wall clock is stepped forwards or backwards by any amount at any time, scheduled tasks, timers, rate limiters and stopwatches neither fire early, nor late, nor stop, nor measure anything but elapsed time.",
  [F, S, P], "for every sequence of wall clock steps (milliseconds to decades) at arbitrary points, also during waits",
  "No test can set the system clock.",
  [inc + "clock.hpp", inc + "stopwatch.hpp", src + "task_scheduler.cpp", src + "high_precision_timer.cpp", src + "rate_limiter.cpp"], [("monotonic clock for all waits", inc + "clock.hpp")], None, ["times of tasks, ticks and syncs; elapsed()"])
p("C24", "The current date and time describe one instant of the wall clock",
  "The current date and time objects are all consistent with a single reading of the wall clock taken during the call, also when the clock is stepped or midnight, a month or a year passes during the call.",
  [F, I, S], "for every instant from 1970 on, including the boundaries of seconds, days, months and years, and clock steps during the call",
  "Tests compare with the clock of the test run, never at a boundary between two clock reads.",
  [src + "datetime/datetime.cpp", src + "datetime/date.cpp", src + "datetime/time.cpp"], [("one clock read per call", src + "datetime/datetime.cpp utc_now")], None, ["fields of the returned objects"])

G = [inc + "signal_handler.hpp", src + "signal_handler.cpp"]
p("C25", "A quit request always wakes the waiter, exactly once, with its arguments",
  "A thread waiting for quit returns once quit is requested, whether the request comes before or during the wait, from any thread or from a signal handler; it never returns without a request, no request is lost, and the quit callback gets exactly the given arguments before the waiter returns.",
  [S, P, F], "for every order of request and wait, interrupted waits and spurious wake-ups",
  "Tests request quit from one thread after a sleep.",
  G, [("semaphore", src + "signal_handler.cpp")], None, ["return of the wait, callback calls"])
p("C26", "Signal callbacks run once per handled signal, whatever they interrupt",
  "While handlers are installed, each signal that arrives at any point on any thread runs its callback exactly once with the right name and number, the handler stays installed for the next one, and the program's other use of the library is not disturbed.",
  [F, S, P], "for every sequence of signals at arbitrary instructions of arbitrary threads",
  "Tests raise a signal synchronously at one point.",
  G, [("handler installation and dispatch", src + "signal_handler.cpp")], None, ["callback calls per signal"])

p("C27", "Generated uuids are unique and well-formed under concurrency",
  "Uuids created in a process by any number of threads, through the generator or copies of it, are pairwise different, carry the version 4 and variant bits, and vary in all remaining bits, whatever the clock resolution and however often the random device repeats an earlier value.",
  [S, P, F], "for every number of threads, copies of the generator, interleavings, clock granularity and repeated values of the random device",
  "Tests create uuids from one thread; a repeated value needs two threads inside the generator at once or copies.",
  [inc + "uuid_generator.hpp", src + "uuid_generator.cpp", src + "uuid.cpp"], [("generator state under a mutex, reseeded copies", src + "uuid_generator.cpp")], None, ["values of the uuids"])
p("C28", "A singleton is constructed exactly once under concurrent first use",
  "However many threads use a singleton first at the same time, exactly one constructor completes, everybody gets that fully constructed object, and a constructor that throws is retried by the next user.",
  [S, F], "for every number of first users, interleaving and throwing constructor",
  "The race is on the very first use and cannot be repeated within one test process.",
  [inc + "singleton.hpp"], [("function-local static", inc + "singleton.hpp instance")], None, ["addresses, constructor count"])
p("C29", "service_locator behaves as a map of services also when calls fail",
  "After any sequence of registrations, removals and lookups, some of which fail because memory runs out, the locator answers as a map from type and name to the registered object: a failed call changes nothing, each object is returned through the interface it was registered for, and each is released exactly once.",
  [F, P, I], "for every sequence of calls, service types including multiple bases, names and failing allocations",
  "Tests register one or two services and no call fails.",
  [inc + "service_locator.hpp", src + "service_locator.cpp"], [("map of type-erased services", inc + "service_locator.hpp")], None, ["results of get/has/remove, lifetime of services"])
p("C30", "Everything handed to the library is released exactly once",
  "Tasks, callbacks, handlers, arguments, results and items handed to any component are destroyed exactly once and no later than the component's destruction (for a finished task, than its future's), in every path including stop, removal, replacement, exceptions and failing allocations; no memory, thread or lock is leaked.",
  [S, P, F, K], "for every life cycle of every component, every interleaving and injected failure",
  "Tests run without leak checking of abandoned tasks and never fail allocations.",
  T + E + D + M + O + Q, [("ownership by value, shared_ptr and containers", "all components")], None, ["instance counters of captured values, live heap blocks, live threads"])
p("C31", "Components used together by many threads neither race nor lose work",
  "A program in which threads use queues, pools, dispatchers, schedulers, timers, observables, locators and signals together, each as documented, has no data race, deadlock or use after free, and every piece of work is processed exactly once end to end.",
  [S, P, F], "for every such program, interleaving and fault sequence",
  "Tests use one component at a time.",
  T + E + D + M + O + Q + G, [("per-component locking", "all components")], None, ["happens-before of all memory accesses, end-to-end counts"])
p("C32", "Callbacks may use the component that calls them, and any other",
  "A pool task, event handler, scheduled task or timer callback may submit, emit, schedule, query, remove or replace on its own component, and on any other component that is in use, without deadlock, and the effect is the same as when another thread made the call: chains of work through several components reach their end, each step exactly once.",
  [S, P], "for every such call from every callback, worker count and interleaving",
  "Tests have callbacks that only set flags; a self-deadlock shows only when the call is made under the right lock.",
  T + E + D + M, [("callbacks run outside of the component's locks", "thread_pool.cpp worker, event_dispatcher.hpp emit, task_scheduler.cpp, high_precision_timer.cpp worker")], None, ["completion of the nested calls"])
p("C33", "Text conversions give the same result under concurrency and memory pressure",
  "Converting dates, times, durations and uuids to and from text in any number of threads at once gives each the result it would get alone, and when memory runs out a conversion throws and leaks nothing: it never returns a truncated or wrong text.",
  [S, F, I], "for every set of concurrent conversions, interleaving and failing allocation",
  "Tests convert in one thread with memory available.",
  [src + "datetime/datetime.cpp", src + "datetime/time.cpp", src + "datetime/date.cpp", src + "datetime/timedelta.cpp", src + "uuid.cpp"], [("local streams and formatting", src + "datetime")], None, ["texts and values returned, live heap blocks"])
p("C34", "The argument parser reports bad input and failures instead of terminating",
  "For every command line and environment, malformed ones and ones met when memory runs out included, parsing returns or throws to its caller without terminating the process, leaks nothing, and when the same parser is used again it reports what its new command line sets, lacks or gets wrong, whatever it parsed before.",
  [F, I, P], "for every argument definition, argv, environment and failing allocation",
  "Tests parse a list of fixed inputs with memory available and never reuse a parser after a failure.",
  [inc + "argparse/argument_parser.hpp", src + "argparse/argument_parser.cpp"], [("error result of parse", src + "argparse/argument_parser.cpp")], None, ["result of parse, values, live heap blocks"])

p("C35", "What is passed to the library may change or vanish once the call returns",
  "Function objects, arguments, values, items, names, ids and texts passed to any component are taken over before the call returns: a caller may change or destroy them at once, also while the library runs what was passed, and later executions, notifications and results are as if it had not. "
  "Objects passed as lvalues are left unchanged, several threads may pass the same object, and values that a parser returns stay valid as long as the parser.",
  [S, P, I], "for every component and operation, every way of passing an object, every moment at which the caller changes or destroys it, and every interleaving",
  "Tests pass temporaries or objects that outlive the test; a dangling reference then reads memory which still holds the old value.",
  T + E + D + M + O + Q + [inc + "task.hpp", inc + "argparse/argument_base.hpp"], [("copies and moves into type-erased tasks, tuples of arguments, strings and containers", inc + "task.hpp; run(), at(), in(), every(), set_callback(), emit(), push()")], None,
  ["values seen by tasks, callbacks, handlers and consumers, the caller's objects after each call"])

p("C36", "A call that fails for lack of memory has no effect and breaks nothing",
  "When memory runs out inside a call to the thread pool, event dispatcher, task scheduler, timer or signal handling, std::bad_alloc reaches that caller and the call has had no effect: nothing was registered, scheduled, removed or changed, what was handed over is destroyed once, no thread is left over. "
  "Only an emit() may have reached some of its handlers, and a failed start() of a timer leaves it stopped. Everything else continues as if the call had not been made, the call can be repeated, and stopping or destroying a component needs no memory.",
  [F, P, S], "for every allocation that fails on the calling thread inside any operation, in every state of the component, with tasks, handlers and callbacks running meanwhile",
  "No test makes an allocation fail; the damage (an event without handlers, a pool that cannot be stopped or started again) shows only in later calls.",
  T + E + D + M + [src + "thread_pool.cpp", src + "task_scheduler.cpp"], [("everything that allocates comes before anything is changed; stop() only releases", src + "thread_pool.cpp stop, " + src + "task_scheduler.cpp start/update_interval; " + inc + "event_dispatcher.hpp add_handler")], None,
  ["exceptions and return values of the calls, what runs afterwards, number of threads, heap blocks"])
p("C37", "Output to a full or broken stream is reported as the stream wants, and prefixed",
  "Writing a uuid, date, time, datetime, timedelta or geometry value to a stream writes exactly its text (padded to the width the stream asks for) and changes nothing about the formatting of the stream. "
  "If the device runs full or breaks, it holds a beginning of that text, the stream's state says so, and an exception is thrown if, and only if, the stream was asked to throw: the process is not terminated. "
  "If memory runs out the exception reaches the caller. The help, version and error messages of argument_parser leave the formatting of the standard streams as it was and never change the result of parse().",
  [F, I, H], "for every sequence of values, formatting and exception mask, every byte at which the device fails, and every failing allocation",
  "Tests write to string streams that never fail.",
  [inc + "uuid.hpp", src + "argparse/argument_parser.cpp", src + "datetime/date.cpp", src + "datetime/datetime.cpp", src + "datetime/time.cpp", src + "datetime/timedelta.cpp", inc + "geometry/point.hpp"],
  [("operator<< of each type writes to_string()", inc + "uuid.hpp operator<<; " + src + "datetime; " + inc + "geometry"), ("print_help and its parts", src + "argparse/argument_parser.cpp")], None,
  ["bytes that reached the device, state and formatting of the stream, exceptions"])

p("C38", "Objects of one class do not affect one another",
  "Several thread pools, schedulers, timers, dispatchers, observables, queues, rate limiters and stopwatches in one program each behave as if the others did not exist: state, ids, counters, workers and times are per object, and while one is blocked by user code, full, failing, stopped or destroyed the others keep doing their work at their time.",
  [P, S, H], "for every number of objects, every sequence of operations on each of them, every one that is blocked, stopped or destroyed meanwhile, and every interleaving",
  "Tests use one object at a time.",
  T + E + D + M + O + Q, [("all state is in members; no globals apart from signal handling and singletons", inc + "thread_pool.hpp, task_scheduler.hpp, event_dispatcher.hpp, high_precision_timer.hpp, observable.hpp, blocking_queue.hpp")], None,
  ["results and effects of the operations on each object compared with a model of its own"])
p("C39", "Waiting is passive: while nothing is due no thread of the library runs",
  "A started, idle, blocked or stopped thread pool, event dispatcher, scheduler (with far, disabled or removed tasks), timer between two callbacks, blocking queue with waiting producers or consumers, and thread waiting for quit consume no processor time: threads sleep until something is due or called for, whatever happened before, and do not poll.",
  [H, P, S], "for every history of operations that leads to a state in which nothing is due for hours, and every spurious wake-up and wake-up order on the way",
  "Tests cannot tell a sleeping thread from one that polls, and never wait for hours.",
  T + E + D + M + Q + [src + "signal_handler.cpp"], [("condition variables with predicates and semaphores; waits until the next due time", src + "thread_pool.cpp worker, " + src + "task_scheduler.cpp start, " + src + "high_precision_timer.cpp worker; " + inc + "blocking_queue.hpp")], None,
  ["number of synchronisation operations of all threads during simulated hours"])

# properties of pure functions: not decided by simulation
p("C40", "Date, time and duration arithmetic is exact",
  "Adding, subtracting and comparing dates, times, datetimes and timedeltas agrees with the proleptic Gregorian calendar and integer time arithmetic over the whole representable range.",
  [I], "for every representable value", "Tests sample values.",
  [src + "datetime/datetime.cpp", src + "datetime/timedelta.cpp", src + "datetime/time.cpp", src + "datetime/date.cpp"], [("std::chrono arithmetic", src + "datetime")])
p("C41", "Formatting and parsing dates, times and uuids round-trip",
  "Every date, time, datetime or uuid converted to text and parsed back with the same format equals the original, and malformed text is rejected.",
  [I], "for every value and format", "Tests sample values.",
  [src + "datetime/datetime.cpp", src + "uuid.cpp"], [("format and parse functions", src + "datetime, " + src + "uuid.cpp")])
p("C42", "Argument parser conversion, validation and defaults follow the definition",
  "For every argument definition and command line, the parsed values are exactly those the definition prescribes: conversion, defaults, choices, ranges, environment fallback, positional order.",
  [I, C], "for every definition and command line", "Tests sample definitions and command lines.",
  [inc + "argparse/argument_parser.hpp", inc + "argparse/argument_base.hpp"], [("typed arguments", inc + "argparse")])
p("C43", "Geometry operations satisfy their algebra",
  "Points, sizes, lines, ranges and rectangles satisfy the algebra of intersection, containment, translation and comparison for all coordinates.",
  [I], "for all coordinates and number types", "Tests sample coordinates.",
  [inc + "geometry/rectangle.hpp", inc + "geometry/line.hpp", inc + "geometry/range.hpp"], [("value types", inc + "geometry")])
p("C44", "math and function traits helpers compute what they state",
  "min, max and the numeric helpers return the extremum of their arguments and the function traits report the exact types of every callable.",
  [I, P], "for all arguments and callable types", "Tests sample arguments and callables.",
  [inc + "math.hpp", inc + "function_traits.hpp"], [("templates", inc + "math.hpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in L:
            f.write(json.dumps(x) + "\n")
    print(len(L))
