"""Which explorers decide which property, and how they are built."""
LIBSRC = ["rpmalloc.c", "future.c", "events.c", "except.c", "arrays.c", "async_io.c", "async_udp.c", "async_uds.c", "os_unix.c", "epoll.c"]
FLAVOURS = {
    "asan": {"cflags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"], "ldflags": ["-fsanitize=address"]},
    "plain": {"cflags": ["-O1"], "ldflags": []},
    # compiled for a race detector whose run-time is our scheduler, mc/msched.c; the
    # allocator is replaced by one that never reuses memory
    "sched": {"cflags": ["-O1"], "lib_cflags": ["-fsanitize=thread"], "ldflags": [], "skip": ["rpmalloc.c"],
              "plain_src": ["mc/msched.c"],
              "wrap": ["pthread_create", "pthread_exit", "pthread_join", "pthread_tryjoin_np", "pthread_timedjoin_np", "pthread_detach",
                       "pthread_setaffinity_np", "pthread_self", "pthread_key_create", "pthread_key_delete", "sched_getaffinity", "nanosleep", "usleep", "sched_yield", "epoll_wait",
                       "gettimeofday", "clock_gettime", "time"]},
}
# the same scheduler around the real allocator alone
FLAVOURS["salloc"] = dict(FLAVOURS["sched"], skip=[x for x in LIBSRC if x != "rpmalloc.c"] + ["@sysinfo"], plain_defs=["-DMS_NO_ALLOC"],
                          wrap=FLAVOURS["sched"]["wrap"] + ["mmap", "munmap"])
SIM = ["gettimeofday", "clock_gettime", "time", "pthread_create", "epoll_wait"]
HARNESSES = {
    "sleep": {"src": ["harness/sleep.c"], "flavour": "plain", "wrap": SIM},
    "tasks": {"src": ["harness/tasks.c"], "flavour": "plain", "wrap": SIM},
    "group": {"src": ["harness/group.c"], "flavour": "plain", "wrap": SIM},
    "gen": {"src": ["harness/gen.c"], "flavour": "plain", "wrap": SIM},
    "io": {"src": ["harness/io.c"], "flavour": "plain", "wrap": SIM + ["read", "write", "epoll_ctl"]},
    "dns": {"src": ["harness/dns.c"], "flavour": "sched", "instrumented": ["harness/dns.c"], "wrap": ["gethostbyname", "gethostbyname_r", "getaddrinfo", "freeaddrinfo", "getnameinfo"]},
    "fifo": {"src": ["harness/fifo.c"], "flavour": "plain", "wrap": SIM},
    "pseudo": {"src": ["harness/pseudo.c"], "flavour": "plain", "wrap": SIM},
    "fds": {"src": ["harness/fds.c"], "flavour": "plain", "wrap": SIM},
    "tmo": {"src": ["harness/tmo.c"], "flavour": "plain", "wrap": SIM},
    "timer": {"src": ["harness/timer.c"], "flavour": "plain", "wrap": SIM},
    "sig": {"src": ["harness/sig.c"], "flavour": "plain", "wrap": SIM},
    "pool": {"src": ["harness/pool.c"], "flavour": "sched", "instrumented": ["harness/pool.c"], "wrap": ["_Exit"]},
    "fs": {"src": ["harness/fs.c"], "flavour": "sched", "instrumented": ["harness/fs.c"],
           "wrap": ["open", "creat", "close", "read", "write", "sendfile", "stat", "fstat", "access", "unlink", "rmdir", "mkdir", "chmod", "rename", "fopen", "fread", "fwrite", "fclose", "fflush", "fgetc", "fgets"]},
    "sock": {"src": ["harness/sock.c"], "flavour": "sched", "instrumented": ["harness/sock.c"],
             "wrap": ["socket", "bind", "listen", "accept", "connect", "getpeername", "getsockopt", "setsockopt", "sendto", "recvfrom", "getnameinfo", "close", "unlink", "epoll_ctl"]},
    "watch": {"src": ["harness/watch.c"], "flavour": "sched", "instrumented": ["harness/watch.c"],
              "wrap": ["inotify_init", "inotify_init1", "inotify_add_watch", "inotify_rm_watch", "read", "close", "epoll_ctl", "opendir", "readdir", "closedir"]},
    "spawn": {"src": ["harness/spawn.c"], "flavour": "sched", "instrumented": ["harness/spawn.c"], "wrap": ["vfork", "pipe2", "eventfd", "epoll_ctl", "waitid"]},
    "restart": {"src": ["harness/restart.c"], "flavour": "sched", "instrumented": ["harness/restart.c"]},
    "fsev": {"src": ["harness/fsev.c"], "flavour": "sched", "instrumented": ["harness/fsev.c"]},
    "tpool": {"src": ["harness/tpool.c"], "flavour": "sched", "instrumented": ["harness/tpool.c"]},
    "deque": {"src": ["harness/deque.c"], "flavour": "sched", "instrumented": ["harness/deque.c"]},
    "thrd": {"src": ["harness/thrd.c"], "flavour": "sched", "instrumented": ["harness/thrd.c"]},
    "alloc": {"src": ["harness/alloc.c"], "flavour": "plain", "wrap": ["mmap", "munmap"]},
    "mtalloc": {"src": ["harness/mtalloc.c"], "flavour": "salloc", "instrumented": ["harness/mtalloc.c"]},
    "text": {"src": ["harness/text.c"], "flavour": "asan", "wrap": ["defer_free", "deferred"]},
    "uri": {"src": ["harness/uri.c"], "flavour": "asan", "wrap": ["defer_free", "deferred"]},
    "addr": {"src": ["harness/addr.c"], "flavour": "asan", "wrap": ["defer_free", "deferred", "getaddrinfo", "getnameinfo"]},
    "opt": {"src": ["harness/opt.c"], "flavour": "plain", "wrap": ["defer_free", "deferred"]},
    "exc": {"src": ["harness/exc.c"], "flavour": "plain"},
    "scope": {"src": ["harness/scope.c"], "flavour": "plain"},
    "prot": {"src": ["harness/prot.c"], "flavour": "plain"},
    "arr": {"src": ["harness/arr.c"], "flavour": "asan", "wrap": ["defer_free", "deferred"]},
}
MC = "model_checking"
REF = ["the reference definitions in the harness", "gcc AddressSanitizer reports every access outside an exact-size heap buffer"]
CHECKS = {}
NOT_APPLICABLE = {}


def add(pid, runs, level=MC, rule=None, assumptions=None, technique="", note=""):
    CHECKS[pid] = {"runs": [r if isinstance(r, dict) else {"harness": r} for r in runs], "level": level, "rule": rule or "",
                   "assumptions": assumptions or [], "technique": technique, "note": note}


ENUM = "exhaustive bounded enumeration of calls and call histories of the real code against a reference definition"
NENUM = "All inputs up to the stated length over the stated alphabet are enumerated, none sampled; longer inputs and other letters are outside the bound."
add("T01", ["text"], assumptions=REF, technique=ENUM, note=NENUM)
add("T02", ["text"], assumptions=REF, technique=ENUM, note=NENUM)
add("T03", ["text"], assumptions=REF, technique=ENUM, note=NENUM)
add("A01", ["arr"], assumptions=REF, technique=ENUM, note="All operation histories up to the stated depth from every start array; longer histories are outside the bound.")
add("A02", ["arr"], assumptions=REF, technique=ENUM, note="All histories of operations on tuples up to the stated depth; longer ones are outside the bound.")
add("T04", ["uri"], assumptions=REF + ["the machine's own name is fixed to localhost"], technique=ENUM, note=NENUM)
add("T05", ["addr"], assumptions=REF + ["the resolver is a stand-in that answers for numeric text and two names"], technique=ENUM, note=NENUM)
add("G01", ["opt"], assumptions=["the reference definition in the harness"], technique=ENUM, note="All argument vectors up to the stated length over the token set, all question sequences up to the stated length.")
add("M01", ["alloc"], assumptions=["the model of live blocks in the harness", "the system's mmap"], technique="exhaustive bounded enumeration of operation histories on the real allocator against a model of the live blocks", note="All histories of up to three operations of 114 kinds (thorough: four), of up to six operations of nine kinds on fifteen pairs of sizes, every size up to 66000, whole spans released in five orders, and more blocks of whole spans than all caches keep in four.")
add("X01", ["exc"], assumptions=["the reference interpreter in the harness"], technique="exhaustive bounded enumeration of programs run with the real macros against a reference interpreter",
    note="All programs with up to two try statements over the wide alphabet and three over the narrow one, in five contexts; larger programs are outside the bound.")
add("X02", ["scope"], assumptions=["the reference interpreter in the harness"], technique="exhaustive bounded enumeration of programs run with the real macros against a reference interpreter", note="")
add("X03", ["prot"], assumptions=["the reference interpreter in the harness"], technique="exhaustive bounded enumeration of programs run with the real macros against a reference interpreter", note="")

SIMA = ["the virtual clock replaces gettimeofday, clock_gettime and time", "pool threads are not started", "the reference scheduler in the harness"]
PENUM = "exhaustive bounded enumeration of task programs run on the real scheduler against a reference scheduler"
add("S01", ["tasks"], assumptions=SIMA, technique=PENUM, note="All programs of three task bodies up to the stated lengths over eight operations; larger programs are outside the bound.")
add("S02", ["sleep"], assumptions=SIMA, technique=PENUM, note="All programs of up to three task bodies up to the stated lengths over nine operations and three clock speeds; larger programs are outside the bound.")
add("S03", ["group"], assumptions=SIMA, technique=PENUM, note="All groups of up to three workers (four of fewer kinds) among up to two outside tasks, one or two groups in a row; larger ones are outside the bound.")
add("S04", ["gen"], assumptions=SIMA, technique=PENUM, note="All programs of two consumers up to the stated lengths over six operations on two given and up to two further generators of up to three values; larger ones are outside the bound.")
LOOPA = ["the virtual clock replaces gettimeofday, clock_gettime and time", "pool threads are not started", "real descriptors and the real epoll of this kernel"]
HENUM = "exhaustive bounded enumeration of operation histories on the real event loop against a reference model"
add("E01", ["fds"], assumptions=LOOPA, technique=HENUM, note="All histories of up to four operations on two descriptors (five on one) and of one operation inside a callback of each of two ready descriptors; longer ones are outside the bound.")
add("E02", ["tmo"], assumptions=LOOPA, technique=HENUM, note="All histories of up to four operations and clock steps on two descriptors (six on one), three sets of descriptor numbers, three resolutions, and all pairs of single actions in the callbacks; longer ones are outside the bound.")
add("E03", ["timer"], assumptions=LOOPA, technique=HENUM, note="All histories of up to four (thorough: five) operations and clock steps on timers of 22 kinds; longer ones are outside the bound.")
add("E04", ["sig"], assumptions=LOOPA, technique=HENUM, note="All histories of up to five operations on three signals and of three operations with all pairs of single actions in the callbacks; longer ones are outside the bound.")

SCHEDA = ["one thread runs at a time and threads switch at accesses that conflict with another thread's, at atomic operations, locks, sleeps, polls, creation, end and join (sequentially consistent interleavings; orderings weaker than that only through happens-before clocks)",
          "the allocator is replaced by one that never reuses memory", "a virtual clock; epoll_wait reports nothing"]
SENUM = "stateless exploration of every thread interleaving of the real code up to a preemption bound under a controlled scheduler"
add("C01", ["pool"], assumptions=SCHEDA, technique=SENUM, note="Programs of up to three jobs, one or two pool threads, preemption bound 1 to 2 (thorough: 2 to 3); more jobs, threads or preemptions are outside the bound.")
add("C02", ["pool", "thrd", "tpool"], assumptions=SCHEDA + ["happens-before clocks follow the memory orders the code names"], technique=SENUM + ", with happens-before race detection on the user's data", note="Programs of up to three jobs or threads; preemption bound 1 to 2 (thorough: 2 to 3).")
add("M02", ["mtalloc"], assumptions=["sequentially consistent memory except where happens-before clocks follow the memory orders the code names", "the system's mmap at addresses of the harness's choice", "one thread runs at a time, switched at the accesses that conflict"], technique=SENUM + ", with a check of every block against the live ones and happens-before race detection on the users' memory", note="All programs of two threads that allocate and release up to three blocks, on up to seven sets of sizes, and 20 larger ones with up to three threads, ending threads and growing blocks; preemption bound 1 to 2 (thorough: 2 to 3).")
add("C03", ["tpool"], assumptions=SCHEDA, technique=SENUM, note="Programs of up to four tasks on one or two pool threads, awaiting, groups, cancelling and nesting among them; preemption bound 1 to 2 (thorough: 2 to 3).")
add("C05", ["thrd"], assumptions=SCHEDA, technique=SENUM, note="Two or three threads, one or two rounds; preemption bound 1 to 4 (thorough: up to 6).")
add("C04", ["deque"], assumptions=SCHEDA + ["non-sequentially-consistent atomic stores pass through a store buffer (TSO); a sequential specification and brute-force linearizability decide"],
    technique=SENUM + " with store buffers, each history checked for linearizability", note="One owner and up to two thieves, up to four operations each, on the queue at its initial size and at growth; preemption bound 2 to 3 (thorough: 3 to 5).")

add("I01", ["io"], assumptions=LOOPA[:2] + ["the kernel's read, write, epoll_ctl and epoll_wait on the modelled descriptors are stand-ins of the harness"], technique="stateless exploration of every answer of a modelled kernel to the real code (amounts, would-block, errors, end, order and delay of readiness) up to a deviation bound, and exhaustive enumeration of programs", note="All pairs of a writer of up to two and a reader of up to three operations; 16 programs of up to three tasks with up to three deviations from the plain answer of the kernel (thorough: four).")
add("I02", ["sock"], assumptions=SCHEDA + ["a modelled network stack answers the socket calls; names are not looked up"], technique="stateless exploration of every answer of a modelled network stack (success, would-block, under way, each kind of error, arrivals in any turn) to the real code, against a reference of the endpoints and datagrams",
    note="53 programs: bind, connect with up to four deviating answers (thorough: five); accept, datagram servers, clients and reused descriptor numbers with up to three (thorough: four); more are outside the bound.")
add("I03", ["fs"], assumptions=SCHEDA + ["a modelled file system of three files answers the system calls"], technique="stateless exploration of every answer of a modelled file system (success, fewer bytes, errors) and of thread interleavings of the real code under a controlled scheduler, against the plain call",
    note="Each of the 43 operations (streams and their promises through the real stdio) alone with every combination of up to three deviating answers (thorough: four), alone with one thread switch or deviating answer anywhere (thorough: two), and six pairs at once on one and two threads; more are outside the bound.")
add("I05", ["spawn"], assumptions=SCHEDA[:2] + ["real processes and pipes of this kernel; each child acts only when the harness tells it to", "a virtual clock; vfork, pipe2, eventfd and epoll_ctl may be made to fail"], technique="stateless exploration of every program of steps of real child processes, led in lockstep, between the turns of the real event loop, and of every combination of failing calls",
    note="All scripts of up to three steps of seven kinds (thorough: four) with seven ways to end and up to three turns in between; all interleavings of two steps of two and three children; argument texts of up to two tokens and seven environments; six moments of ending before each look of exec_wait with four time limits; up to two failing calls (thorough: three); a growing table.")
add("W01", ["watch"], assumptions=SCHEDA + ["a modelled kernel answers inotify_init, inotify_add_watch, inotify_rm_watch, read, opendir and readdir, and reports the readiness of its descriptors"], technique="exhaustive bounded enumeration of histories of adding, removing and changing and of batchings of events against a modelled kernel, on the real watch code and event loop",
    note="All histories of up to four operations of eleven kinds (of three with up to two failing answers of the kernel), all batchings of up to four events over two watches into reads, also with handlers that suspend, and all pairs of actions inside the handlers; more are outside the bound.")
add("W02", ["fsev"], assumptions=SCHEDA[:2] + ["the real inotify of this kernel on scratch directories, a virtual clock", "an action counts as seen once the pool thread had ten turns"], technique="exhaustive bounded enumeration of histories of starting, cancelling, changing and removing against a reference of the watches in force, and stateless exploration of thread interleavings of the real code under a controlled scheduler",
    note="All histories of up to four steps of seven kinds on two directories with one pool thread, of up to three with two (thorough: five and four), seven short programs with one thread switch anywhere (thorough: two); more are outside the bound.")
add("L01", ["restart"], assumptions=SCHEDA[:2] + ["real descriptors, signals and epoll of this kernel, a virtual clock"], technique="exhaustive bounded enumeration of histories of starting, using and stopping the real library, and stateless exploration of the thread interleavings of stopping it under a controlled scheduler",
    note="All histories of two runs of seven kinds of loop work with six things left undone and of nine kinds of task work with six, of three runs of four kinds with three or two, stopping inside a task with eight things under way after nine kinds of work, each with the number just set free taken by somebody else or not; one run with one thread switch anywhere while stopping; more are outside the bound.")
add("I06", ["fifo"], assumptions=["real named pipes and descriptors of this kernel in the library's own pipe directory, under names of this process"], technique="exhaustive bounded enumeration of operation histories on real named pipes against a reference model", note="All histories of up to five operations (thorough: six) over two names, with failing calls and ordinary descriptors in between, and a long run of pipes made one after another; more are outside the bound.")
add("I07", ["dns"], assumptions=SCHEDA[:2] + ["a modelled resolver with four functions, of which gethostbyname keeps one answer for the process"], technique="stateless exploration of thread interleavings and resolver answers of the real lookup code under a controlled scheduler", note="One to three tasks with eight combinations of lookups on one or two pool threads: every combination of answers, and one thread switch anywhere with up to that many deviations (thorough: two for up to two tasks).")
add("I04", ["pseudo"], assumptions=LOOPA[:2], technique="exhaustive bounded enumeration of operation histories on the real table against a reference model, every number asked about after every operation", note="All histories of three operations of 66 kinds and of up to six of 13 kinds, on an empty, a nearly full and a growing table.")
