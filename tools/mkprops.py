#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Thread-pool jobs run exactly once and every waiter gets its own result",
  "Every job handed to the blocking-work thread pool (queue_work, promise_work) is executed exactly once, on a pool thread, with exactly the arguments it was given, and jobs sent to one pool thread start in submission order. Each submitter that waits (queue_get, queue_wait, promise_wait, or the job's own handle) is released after, and only after, that job has finished and reads the value that job returned. This holds for every interleaving of submitter and pool threads, and no interleaving leaves a submitter waiting forever.",
  ["schedules"], "all interleavings (up to a preemption bound) of the loop thread and 1-2 pool threads for small programs of 1-3 jobs",
  "Tests run a handful of jobs under whatever schedule the OS picks; a lost job or early release needs one particular preemption.",
  ["src/future.c", "src/events.c", "include/future.h"], ["pool job queues", "promise done flag and result"],
  [("queue_work/promise_work/queue_wait/queue_get", "src/future.c"), ("pool thread main loop", "src/events.c")],
  ["job function invocations", "values returned to submitters"])

p("C02", "Thread hand-off publishes data: arguments in, results out",
  "Memory written by the submitter before it starts a job, thread or pool task is visible to that job, and memory written by the job before it returns is visible to whoever has seen it finish (by waiting, by the is-done/is-ready queries, or by reading its result), without any extra synchronisation by the user. In particular the user's own accesses on the two sides are ordered by the library's hand-off and never form a data race.",
  ["schedules"], "all interleavings up to a preemption bound of one submitter and its pool/raw threads; happens-before computed from the synchronisation the library really performs",
  "A missing release/acquire is invisible on x86 and in almost every schedule; tests check values only.",
  ["src/future.c", "src/events.c", "src/deque.c", "include/catomics.h"], ["done flags", "available counters", "task queues"],
  [("promise done flag", "src/future.c"), ("enqueue/steal fences", "src/deque.c")],
  ["user memory accesses in job and submitter"])

p("C03", "Tasks sent to the multi-threaded pool run exactly once and are awaitable",
  "Every task started with go() runs exactly once to completion on a pool thread with exactly the arguments it was given, for every interleaving of the starter and the pool threads, including tasks started while a pool thread is taking others. Its result becomes ready only after it returned, is the value it returned, and a task that awaits it is always released; results of different tasks are never mixed up.",
  ["schedules"], "all interleavings up to a preemption bound of the loop thread and 1-2 pool threads, 1-4 tasks",
  "The one multi-thread task test (task_group/waitgroup) depends on OS scheduling and is not even stable; lost wake-ups need one particular preemption.",
  ["src/events.c", "src/deque.c"], ["per-thread task queues", "result table"],
  [("go/task_push/task_take", "src/events.c")], ["task function invocations", "await_for/results_for values"])

p("C04", "The shared task queue neither loses, duplicates nor invents tasks",
  "With one owner pushing (and optionally taking back) and any number of thieves stealing concurrently, every task put into a work-stealing queue comes out exactly once in total, nothing comes out that was not put in, thieves receive tasks in the order they were pushed and the owner takes the newest. This includes growing the queue beyond its initial capacity while thieves are active, and no thread ever touches released queue storage.",
  ["schedules"], "all interleavings up to a preemption bound of 1 owner (2-5 ops) and 1-2 thieves, initial capacity 1-4, at the granularity of single shared-memory accesses",
  "No test exercises the queue from two threads at chosen points.",
  ["src/deque.c", "src/events_internal.h"], ["top/bottom indices", "ring array"],
  [("deque_push/take/steal/resize", "src/deque.c")], ["values returned by steal/take"])

p("C05", "Locks exclude, thread starts and joins order, thread-locals stay private",
  "At most one thread is ever between lock and unlock of a spin lock, everything done before unlocking is visible after the next lock, and a waiting locker eventually gets in. A thread created through the portable thread layer runs its function exactly once with its argument and its effects and exit code are visible after join. A future started with thrd_async likewise runs its function once, and thrd_get, once that thread has ended, returns the value this function returned or rethrows the exception that ended it, never another future's. Variables declared with the thread-local facilities start at their initial value in every thread and are never visible to another thread.",
  ["schedules"], "all interleavings up to a preemption bound of 2-3 threads with 1-2 critical sections each",
  "Mutual exclusion fails only in particular interleavings; tests never contend on a lock.",
  ["include/catomics.h", "include/future.h", "src/os_unix.c"], ["spin lock flag", "thread-local slots"],
  [("atomic_lock/atomic_unlock", "include/catomics.h"), ("os_create/os_join", "src/os_unix.c"), ("thrd_static/thrd_local", "include/future.h")],
  ["critical section overlap", "values read by each thread"])

p("S01", "Cooperative tasks run exactly once, in FIFO turns, and deliver their results",
  "On one thread, every task created (async_task, launch, async_ex) runs to completion exactly once with its arguments intact; runnable tasks take turns in first-in first-out order, a yielding task goes to the back of the line, launch lets the new task run before returning, a suspended task stays out of the line until another task resumes it and then joins its end, ahead of the resumer, and local state, arguments, the task's handle and its user data survive every switch and are never those of another task. A task's result id is unique, becomes ready exactly when the task returned, yields the value returned (the empty value for a null return), and await_for returns exactly that value; a cancel request is seen by exactly the addressed task; the run ends when no task is left.",
  ["programs", "schedules"], "all programs of up to 3-4 tasks with bodies of up to 3-4 operations (yield, spawn, launch, await, cancel, query, suspend, resume) over the API",
  "Tests fix a few programs; order and result mix-ups depend on which task spawns, yields or awaits when.",
  ["src/events.c", "src/asm.c"], ["run queue", "result table"], [("yield/launch/async_task/await_for", "src/events.c"), ("scheduler", "src/events.c")],
  ["order of task steps", "results"])

p("S02", "Sleeping tasks wake on time, in deadline order, without blocking others",
  "A task that sleeps for d milliseconds resumes exactly once, not before d milliseconds of clock time have passed, and as soon as the scheduler next runs after its deadline; sleepers wake in deadline order however their deadlines interleave, and runnable tasks keep running meanwhile. The sleep call reports at least the requested time.",
  ["programs", "schedules"], "all programs of 2-4 sleeping/yielding tasks over a small set of durations and all choices of how far a virtual clock advances between scheduler turns",
  "Tests use the real clock and one or two delays.",
  ["src/events.c"], ["sleep queue", "clock"], [("delay and the timer task", "src/events.c")], ["virtual time at which each task resumes"])

p("S03", "A task group waits for all of its tasks and collects each result once",
  "Waiting for a task group returns only after every task created in the group has finished, and returns the result ids of exactly those tasks that produced a result, each exactly once, from which each task's own value can be read. Tasks created outside the group are not waited for and not collected; this holds for every mix of tasks that return at once, yield, sleep, or return nothing.",
  ["programs", "schedules"], "all groups of 0-4 tasks over bodies {return value, return null, yield k times, sleep d} plus an outside task, with virtual time",
  "The group test runs one fixed shape and is not stable.",
  ["src/events.c"], ["task group array"], [("task_group/tasks_wait", "src/events.c")], ["returned ids and values"])

p("S04", "Generators hand over every value once and in order",
  "A consumer that pulls from a generator receives exactly the values it yields, in order, each once, and the generator does not run ahead by more than one value; after it has finished, pulls give the empty value. Several generators, several consumers and unrelated tasks in between do not disturb each other, and the generator id reported to a consumer is that of the generator it last pulled from.",
  ["programs", "schedules"], "all programs of 1-2 generators of 0-3 values and consumers pulling 0-4 times with interleaved yields",
  "One test with one generator and one consumer.",
  ["src/events.c"], ["generator slot"], [("generator/yielding/yielded", "src/events.c")], ["values pulled"])

p("E01", "Descriptor callbacks follow registered interest and readiness",
  "A registered descriptor's callback runs in an event-loop turn exactly when the descriptor is ready for something it is registered for, at most once per turn, with its own argument and an event value that is a non-empty subset of the registered interest, or the closed notification when the other end hung up; registrations persist until removed. After removal (or after changing the interest or the callback) the old registration has no further effect, even from inside callbacks of the same turn, and re-registering a descriptor number works like the first time; the loop reports as running and counts descriptors exactly while registrations remain.",
  ["histories", "schedules"], "all sequences up to depth 5-6 of add/del/change interest/change callback/make ready/drain/close/poll on 2 descriptors, plus callbacks that add/delete each other during dispatch",
  "Tests run one straight-line sequence per scenario.",
  ["src/events.c", "src/epoll.c"], ["fd table", "epoll set", "active counters"],
  [("events_add/del/set_event", "src/events.c"), ("epoll backend with deferred deletes", "src/epoll.c")], ["callback invocations"])

p("E02", "Descriptor timeouts fire once, not early, and not after being reset",
  "A descriptor registered or re-armed with a timeout of s seconds gets a timeout callback only after s seconds of the loop's clock have passed since the turn (or arming), at the latest at the first loop turn one timer-resolution step after that, and once per arming. Disarming, re-arming or deleting a descriptor cancels the earlier deadline, also from inside callbacks of the same turn, and other descriptors' timeouts are unaffected, for every pattern of descriptor numbers and clock steps.",
  ["histories", "inputs"], "all arm/re-arm/disarm/delete/advance-clock histories up to depth 5-6 on 2-3 descriptors whose numbers fall in the same and in different words of the timer wheel",
  "Tests arm one timeout on one descriptor against the real clock.",
  ["src/events.c"], ["timeout wheel"], [("events_set_timeout / timeout sweep", "src/events.c")], ["timeout callbacks against virtual clock"])

p("E03", "User timers fire in deadline order, once per arming, never early",
  "A user timer runs its callback once, with its own argument, at the first loop turns at or after its deadline and never before; due timers run in deadline order; a repeating timer is re-armed only for as long as it asks to be, and a cleared one does not fire again. The loop reports itself as running exactly while timers (or other sources) are outstanding.",
  ["histories", "schedules"], "all sequences up to depth 5 of create/advance clock/poll over 3-4 timers with equal and different delays whose callbacks create, repeat or clear timers",
  "One test with two timers and the real clock.",
  ["src/events.c"], ["timer list"], [("events_actor/repeat/clear", "src/events.c")], ["timer callbacks against virtual clock"])

p("E04", "Registered signals reach their handler, once per delivery, until removed",
  "While a signal is registered with the loop every delivered signal runs its own callback with its number and argument, exactly once per delivery; a signal that was removed is no longer dispatched. Registering several signals, re-registering and removing from inside the callback leaves the other registrations intact and the loop counts as running exactly while registrations remain.",
  ["histories"], "all sequences up to depth 5-6 of add/raise/remove-in-callback over 2-3 signals",
  "Tests raise one signal once.",
  ["src/events.c", "src/os_unix.c"], ["signal table"], [("events_add_signal/handler", "src/os_unix.c")], ["signal callback invocations"])

p("I01", "Asynchronous reads and writes preserve the byte stream",
  "async_write delivers all n bytes, in order, each exactly once, and returns n, however the kernel splits the transfer or asks to wait, unless the kernel reports an error, which is returned as a negative result with errno intact. async_read returns exactly what one successful kernel read returned (data, or 0 at end of stream) after waiting as often as needed, never invents or drops bytes, and never touches memory outside the caller's buffer; while a task waits for I/O other tasks run, and it resumes exactly when the descriptor becomes ready.",
  ["fault_sequences", "schedules"], "all sequences of kernel answers (full, short, would-block, interrupted, error, end of stream) up to a deviation bound for transfers of 1-6 bytes, and real pipes/socketpairs under all small writer/reader programs",
  "Loopback tests almost never see a short write, EAGAIN at a particular point or an error mid-transfer.",
  ["src/async_io.c", "src/events.c"], ["descriptor registration of the waiting task"], [("async_read/async_write/async_wait", "src/async_io.c")],
  ["system calls issued, return values, bytes transferred"])

p("I02", "Socket endpoints connect, carry whole datagrams and report their peers",
  "Binding, accepting and connecting with TCP, UDP and Unix-domain addresses yields a descriptor connected to exactly the requested endpoint or a negative result with the error in errno and nothing leaked, and accept reports the real peer. Each datagram sent is received as one message with its own length, content and sender, truncated only by the caller's buffer, whatever order of waits, errors and arrivals the kernel produces.",
  ["fault_sequences", "programs"], "all outcomes of each socket system call on the connect/bind/accept/send/receive paths (one or two deviations) and all small datagram programs over loopback",
  "Tests take the success path over loopback with one message.",
  ["src/async_io.c", "src/async_udp.c", "src/async_uds.c"], ["socket descriptors", "per-descriptor peer address"], [("async_bind/connect/accept, udp_*, uds_*", "src/async_*.c")],
  ["system calls issued, descriptors left open, messages delivered"])

p("I03", "Thread-offloaded file operations behave like the plain system calls",
  "Every fs_ operation has the same effect on the file system, returns the same result and leaves the same errno as the corresponding plain call, for success and for every failing system call, while other tasks of the caller keep running and the call returns only once the operation is complete. Whole-file helpers (read file, write file, copy file, async_fwrite, async_fprintf) transfer exactly the file's bytes or report failure; they never report success for a partial transfer.",
  ["fault_sequences", "programs"], "all operation sequences up to depth 3-4 over 2 paths compared with plain calls on a twin directory, and every single/double failure or short transfer of the system calls underneath",
  "Tests open/close/write one file successfully.",
  ["src/async_io.c", "src/os_unix.c", "src/future.c"], ["file contents", "descriptors", "errno"], [("fs_* wrappers", "src/async_io.c"), ("os_sendfile/os_copyfile", "src/os_unix.c")],
  ["directory state, return values, errno"])

p("I04", "Pseudo descriptors map one-to-one to live resources",
  "A pseudo descriptor handed out stays valid and keeps mapping to the resource it was created or assigned for until it is freed, no two live pseudo descriptors share a number, a requested number is used when it is free and another free one otherwise, the creation is refused only when the table is full, and freed numbers become reusable. Closing a number closes the resource behind it and nothing else, and freeing it releases what the number owned. Growing the table never changes existing mappings, and queries about numbers that are not live say so.",
  ["histories"], "all sequences up to depth 5-6 of new/new-desired/assign/free/query near both ends of the table, including growth",
  "No test frees and reuses or grows the table.",
  ["src/os_unix.c"], ["pseudo descriptor table"], [("events_new_fd/assign/free/get/valid", "src/os_unix.c")], ["returned numbers and mappings"])

p("I05", "Child processes deliver all output and their exact exit status",
  "A spawned program receives exactly the command line and environment given; all of its standard output reaches the output callback in order and completely, and the exit callback runs exactly once, after that output, with the exact exit code or terminating signal. Waiting for a process reports its exit code or that the time is up, and no descriptor of the parent is leaked.",
  ["programs", "configurations"], "all combinations of small argument lists, environment, exit codes, signals and output sizes/chunkings for a helper program",
  "Two tests run one child each.",
  ["src/os_unix.c", "src/async_io.c"], ["child process", "pipe pair"], [("spawn/exec/exec_wait", "src/os_unix.c")], ["callback invocations"])

p("W01", "Every directory change event reaches its watcher once, in order",
  "Every change event the kernel reports for an entry of a watched directory is passed to the handler given for that watch exactly once, in order, with the right watch number, kind and name, however the kernel batches events into reads and whether or not handlers suspend; events for removed watches stop, and the end of the directory itself ends its watch. Watch counts and the is-watching query equal the number of live watches, and removing one watch or shutting down all leaves the loop's accounting right.",
  ["histories", "inputs"], "all batchings of event sequences of up to 4-5 events over 2 watches and names of different lengths; all add/remove sequences up to depth 4-5",
  "The file-system-events test is not stable and depends on real timing.",
  ["src/os_unix.c", "src/events.c"], ["watch table"], [("inotify_handler and helpers", "src/os_unix.c")], ["handler invocations"])

p("W02", "Directories watched from the pool are independent and end cleanly",
  "Each directory watched with fs_events has its later changes reported to its own handler with its own filter, exactly once and in order, until it is cancelled or the directory is removed; starting, cancelling, losing or failing to start one such watch never affects another, nor does what the caller does with the path text after the call. Afterwards the program can end, with no thread or descriptor left.",
  ["histories", "schedules"], "all histories up to depth 4-5 of starting, cancelling, changing, removing and re-making two directories on 1-2 pool threads; thread interleavings with one preemption of short programs",
  "The file-system-events test watches one directory once, and is not stable.",
  ["src/events.c", "src/async_io.c", "src/os_unix.c"], ["watch tasks on the pool threads", "inotify descriptors"], [("fs_events, fs_events_cancel", "src/async_io.c")], ["handler invocations, threads and descriptors at the end"])

p("X01", "try/catch/finally transfers control exactly as documented",
  "For every nesting of try, catch(type), catch_any, finally, throw, rethrow and function calls, exactly the matching handler of the innermost enclosing try runs, each finally block runs exactly once on every path, code after a throw does not run, and an unmatched exception propagates outward with its name, message and origin intact. After a handled exception the program continues after the try statement with the previous handler context restored, inside tasks and outside.",
  ["programs"], "all programs of up to 3 nested try statements over 2-3 exception types, compared with a reference interpreter",
  "Seven exception tests each pin one shape.",
  ["src/except.c", "include/except.h"], ["exception context stack"], [("try_start/try_next/ex_throw", "src/except.c")], ["trace of executed blocks"])

p("X02", "Deferred clean-ups run exactly once, last in first out, on every exit path",
  "Every clean-up registered (defer, deferring, defer_recover, defer_free, fence) in a guarded block, task or thread runs exactly once, with its own argument, in reverse order of registration, when that scope ends, whether normally, by early exit, or by an exception of any kind thrown in it, in a function it calls or in a nested scope; clean-ups registered by a task with defer_free belong to the task itself, also within one of its guarded blocks, and fenced memory is released already when the exception is thrown. Nested scopes clean up innermost first and never run an outer scope's clean-ups; each recovering clean-up of a failed scope is told that scope's error, an error is recovered only by its own name, and a recovered error does not propagate further while an unrecovered one does. The scopes of tasks that take turns do not disturb each other. Clean-ups that themselves throw, and an exception handled by an inner try of a guarded block holding fenced memory, are outside this property.",
  ["programs"], "all programs of up to 3 nested scopes (guard, task, call) with 0-3 clean-ups each and every exit path, compared with a reference interpreter",
  "Tests fix a few scope shapes.",
  ["src/except.c", "src/events.c", "include/except.h"], ["scope clean-up list", "task clean-up list"], [("guard/defer/fence/scope_unwind", "src/except.c"), ("task clean-up", "src/events.c")],
  ["trace of clean-up calls"])

p("X03", "Protected pointers are released exactly once when an exception passes",
  "A pointer placed under exception protection is released exactly once with its current value when an exception unwinds past the point of protection, most recently protected first (a pointer protected twice in a row still only once), and is not released at all if protection was lifted first or no exception occurs. Null pointers are skipped, and pointers protected outside the handling try are left alone.",
  ["programs"], "all programs of up to 2 nested try blocks with up to 3 protect/reassign/unprotect/throw operations",
  "No test throws past several protected pointers.",
  ["src/except.c", "include/except.h"], ["protection stack"], [("ex_protect_ptr/unprotected", "src/except.c")], ["release calls"])

p("A01", "Dynamic arrays behave like a mathematical sequence",
  "An array is indistinguishable from a sequence, within the capacity reserved for it and when it grows beyond it: append, pop, shift, remove, reset, copy, iteration in both directions and size give what the same operations give on a sequence of values, each element keeps its value and every index stays within storage. Ranges produce exactly the arithmetic progression asked for, typed appends keep their value, and copies are independent of the original.",
  ["histories", "inputs"], "all operation sequences up to depth 5-6 from several starting sizes, compared step by step with a list model, under an address checker",
  "Array tests run one fixed sequence.",
  ["src/arrays.c", "include/arrays.h"], ["array header and elements"], [("data_append/pop/shift/remove/copy/reserve/reset", "src/arrays.c")], ["array contents after each step"])

p("A02", "Immutable and invalid containers refuse modification and say so",
  "Every attempt to append to, pop from, shift, remove from or reset a tuple raises a logic_error and leaves its contents unchanged, while arrays and ranges accept them; operations on a null handle report an empty container. The type queries tell containers from other typed objects and from released containers after any history.",
  ["histories"], "all mutators applied to all container kinds after all short histories",
  "Tests check one mutator on one tuple.",
  ["src/arrays.c"], ["type tag"], [("type checks", "src/arrays.c")], ["exceptions raised, contents"])

p("T01", "Text search, split, replace and join agree with their definitions",
  "For every subject, pattern and delimiter, the search, count, contains, split, explode, replace, concatenate and join functions return what their definition says (first position or not-found, number of non-overlapping occurrences, pieces whose concatenation with the delimiter restores the subject, all occurrences replaced), with terminated output and no access outside their inputs.",
  ["inputs"], "all strings up to length 6-8 over a 2-3 letter alphabet against all patterns up to length 3, compared with naive reference definitions under an address checker",
  "Tests use a few English phrases; overlap and boundary cases are not covered.",
  ["src/arrays.c"], ["result buffers"], [("str_*/mem_* search and split", "src/arrays.c")], ["returned values"])

p("T02", "Trimming, padding, repeating, case mapping, sorting and number text are exact",
  "For every input the trim, pad, repeat, upper/lower, compare, bounded copy and number-to-text functions return exactly the defined text, terminated, within the stated bounds; the general sort returns a sorted permutation of its input for any element size and comparison; path splitting returns the directory, base, stem and extension of the path.",
  ["inputs"], "all strings up to length 6-8 over small alphabets incl. blanks, all pads and lengths, boundary integers, all arrays up to length 6 over small values for element sizes 1-16",
  "Tests use single examples.",
  ["src/arrays.c"], ["result buffers"], [("trim/str_pad/str_repeat/memsort/str_itoa/pathinfo", "src/arrays.c")], ["returned values"])

p("T03", "Base64 coding round-trips and rejects what is not base64",
  "Encoding any text gives the standard padded base64 form, decoding a standard form gives back the original bytes, terminated and within the destination bound, and the recogniser accepts exactly the well-formed texts it documents. A destination that is too small is refused instead of overrun.",
  ["inputs"], "all byte strings up to length 3 over an alphabet covering all 64 digits, longer ones over a small alphabet, all candidate encodings up to length 4-5 over a small alphabet, all destination sizes",
  "Tests encode and decode one sentence.",
  ["src/arrays.c"], ["output buffer"], [("str_encode64/str_decode64/str_is_base64", "src/arrays.c")], ["returned buffers"])

p("T04", "URL parsing splits a URL into the components that rebuild it",
  "For every accepted URL the returned scheme, user, password, host, port, path, query and fragment are exactly those delimited in the text (control bytes replaced), known schemes are classified, ports are in range, and malformed authorities or ports are rejected rather than misparsed; both parser entry points agree and releasing the result frees every component once.",
  ["inputs"], "all URLs composed from up to 9 optional components over a small set of spellings, and all strings up to length 6-7 over the delimiter alphabet, compared with an independent reference parser under an address checker",
  "Tests check about twenty URLs.",
  ["src/arrays.c"], ["parsed record"], [("parse_uri/parse_uri_ex/uri_free", "src/arrays.c")], ["components"])

p("T05", "Network address text is parsed and printed faithfully",
  "Every numeric IPv4/IPv6 endpoint, with or without a port, and every bare port is parsed to exactly the address, port and family it denotes (a host name only together with a port), printing a parsed address and parsing it again gives the same endpoint, host:port splitting returns host and port separately without altering the caller's text, and text that is not an address, or whose port or octets are out of range, is refused. Text starting with 'x' names a Unix-domain socket and is outside this property.",
  ["inputs"], "all endpoint texts composed from a grammar of octets, hextets, brackets, ports and junk up to a bound, compared with the C library's parser",
  "No test parses addresses other than loopback.",
  ["src/async_io.c", "src/async_udp.c"], ["socket address"], [("async_parse_addr/async_inet_pton/str_parseip", "src/async_io.c")], ["parsed addresses"])

p("G01", "Command-line options are found exactly where they are given",
  "For every argument vector, asking for a flag reports it present exactly if it occurs where the mode (ordered or unordered) looks for it, and the value handed back is the following argument, the part after the first '=', or the flag itself as documented; a request for help (exactly -h, --h, ? or help) ends the search. Asking never alters the arguments and repeated asking is deterministic.",
  ["inputs", "histories"], "all argument vectors up to length 4 over a small alphabet of flags, values and flag=value forms, and all query sequences up to length 3",
  "One test with one argument vector.",
  ["src/getopt.c"], ["option cursor"], [("getopt_has/getopts", "src/getopt.c")], ["query answers"])

p("M01", "Allocated blocks are usable, disjoint, aligned and preserved",
  "Every block returned by the allocator is at least as large as requested, suitably aligned, disjoint from every other live block and keeps its contents until freed; zero-initialised allocation is all zero, resizing preserves the common prefix, and impossible requests (too large, overflowing, or when the system has no memory left) fail without harming live blocks. Once every block is released, finalizing the allocator returns all memory to the system. This holds for every order of allocating, resizing and freeing across size classes.",
  ["histories"], "all allocate/resize/free sequences up to depth 5-6 over sizes at the boundaries of the size classes and alignments, with pattern-filled contents",
  "Tests allocate incidentally and never check overlap.",
  ["src/rpmalloc.c", "include/rpmalloc.h"], ["spans and size classes"], [("rpmalloc/rprealloc/rpaligned_alloc/rpfree", "src/rpmalloc.c")], ["block addresses and contents"])

p("M02", "Blocks may be freed by any thread without loss or double use",
  "A block allocated on one thread and freed on another becomes reusable exactly once and never while still live, for every interleaving of allocations, frees and thread exits; a thread may end while its blocks are live and other threads may keep using and free them afterwards.",
  ["schedules"], "all interleavings up to a preemption bound, at the granularity of atomic accesses, of 2-3 threads doing 2-4 allocator operations with cross-thread frees and thread exit",
  "Cross-thread frees at chosen points are not tested at all.",
  ["src/rpmalloc.c"], ["deferred free lists", "span caches"], [("rpfree from foreign thread, thread finalize", "src/rpmalloc.c")], ["block overlap and contents"])

p("I06", "Named pipes connect exactly their two ends",
  "mkfifo (os_mkfifo) creates the named pipe under the library's pipe directory and returns its number, or returns -1 with the reason in errno and leaves nothing behind; mkfifo_name and mkfifo_fd report the pipe made last. Opening it by its short or full name gives an end of exactly that pipe, whose bytes arrive once and in order; reading, writing and closing any other descriptor is unaffected by the pipes that exist. Any number of pipes can be made and removed one after another, also after the library was stopped and started again.",
  ["histories", "fault_sequences"], "all histories up to depth 4-5 of making, opening, using, closing and removing named pipes, next to ordinary descriptors, with every failing answer",
  "Tests make one named pipe and pass one message.",
  ["src/os_unix.c", "src/events.c"], ["pseudo descriptor table", "pipe names"], [("os_mkfifo, os_open, os_close, mkfifo_name, mkfifo_fd", "src/os_unix.c")], ["file system, descriptors, bytes, errno"])
p("I07", "Name lookups give each task the answer to its own question",
  "Each of async_gethostbyname, async_getaddrinfo, async_getnameinfo, async_inet_pton and async_parse_addr asks the resolver for exactly what the caller gave, once (parse_addr: once per address family), outside the caller's thread, while other tasks of the caller keep running, and gives the caller the resolver's answer or failure, with its errno where the resolver's failure says so. An answer of async_gethostbyname stays intact until its task ends, whatever other tasks look up in the meantime; inet_pton never writes past the buffer.",
  ["schedules", "fault_sequences"], "up to three tasks with one or two lookups each on one and two pool threads, with every answer of the resolver and up to the preemption bound of thread switches",
  "Tests look up one name at a time, and need a network to do so.",
  ["src/async_io.c", "src/future.c"], ["answers of the resolver"], [("async_gethostbyname, async_getaddrinfo, async_getnameinfo, async_inet_pton, async_parse_addr", "src/async_io.c")], ["calls of the resolver, results, errno"])

p("L01", "The library can be started, stopped and started again cleanly",
  "After stopping, every thread has ended, every descriptor the library opened is closed, and the library can be initialised again and then behaves like the first time; stopping is safe at any point of use, including with tasks sleeping, jobs in flight or descriptors registered, and stopping twice is harmless.",
  ["histories", "schedules"], "all short start/use/stop histories up to 3 cycles, with every small kind of outstanding work at the time of stopping",
  "Every test process starts and stops the library once at exit.",
  ["src/events.c", "src/os_unix.c", "src/future.c"], ["global library state"], [("events_init/deinit/create/destroy", "src/events.c")], ["threads, descriptors, behaviour after restart"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
keep = None
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
