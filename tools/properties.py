#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/properties.py > properties.jsonl"""
import json, sys
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})


prop("C01", "Memory transactions are all-or-nothing",
     "A transaction always reads the memory content it started from overlaid with its own earlier loads, stores, copies and direct accesses to memory it privatised. On commit exactly the bytes it wrote have their final values; after a roll-back for any reason every byte is as it was before the transaction.",
     ["histories", "inputs"],
     "for every sequence of loads, stores, copies, privatisations and discards at every alignment, size and overlap, ending in commit, conflict, error, recovery+restart or irrevocability",
     "The module's tests use a few aligned, non-overlapping accesses and only one access mode per location; mixed-mode overlapping histories and the memory state after roll-back are not examined.",
     ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/tm/include/picotm/picotm-tm.h"],
     [("write-back/write-through buffering of 8-byte blocks", "modules/tm/src/vmem_tx.c"),
      ("per-byte validity mask", "modules/tm/src/page.c")],
     ["memory contents", "values returned by load operations"],
     [("page buffer", "transaction-local copy of a block or its undo value", "modules/tm/src/page.h")])

prop("C02", "Concurrent memory transactions are strictly serialisable",
     "The committed memory transactions of any number of threads have the same effect and observe the same values as some serial execution that respects real-time order. Even an attempt that is later rolled back only ever observes memory states that occur in such an execution.",
     ["schedules", "histories"],
     "for every interleaving of the operations of concurrently running transactions, in write-back and privatised access modes",
     "Tests run fixed workloads and check one final invariant; they control no interleaving and never look at what aborted attempts saw.",
     ["modules/tm/src/vmem_tx.c", "modules/tm/src/frame.c", "modules/tm/src/framemap.c", "src/picotm-lib-rwlock.c", "src/picotm-lib-rwstate.c", "src/picotm.c"],
     [("two-phase locking of memory blocks", "modules/tm/src/frame.c"),
      ("conflict detection and restart", "src/picotm.c"), ("block table growth", "modules/tm/src/framemap.c")],
     ["values read inside transactions", "memory after commit"])

prop("C03", "Modules are driven through a well-formed transaction life-cycle",
     "Every module that was registered before is told of the transaction's begin; every registered module is told on commit of prepare, apply, its logged events exactly once in logging order, and finish; on roll-back of undo, its logged events exactly once in reverse order, and finish. No event is applied after a failure before the point of no return, and none is undone after commit.",
     ["histories", "fault_sequences"],
     "for every sequence of operations by up to 256 modules, every failing callback, and every ending or restart of the transaction",
     "Core module tests exercise a handful of hand-written module sequences; they do not combine failures in arbitrary callbacks with restarts and event logs.",
     ["src/picotm_tx.c", "src/picotm_log.c", "src/picotm_module.c", "src/picotm_event.c", "src/picotm.c", "src/table.c"],
     [("event log", "src/picotm_log.c"), ("module table walk", "src/picotm_tx.c")],
     ["sequence of module callbacks"])

prop("C04", "Irrevocable transactions run alone and every transaction finishes",
     "While a transaction is irrevocable no other transaction is executing, and it commits without being restarted for conflicts. Requesting irrevocability restarts a transaction once, and has no effect in an irrevocable one. A transaction that keeps conflicting becomes irrevocable after a bounded number of restarts, so every transaction eventually completes as long as the others do.",
     ["schedules", "histories"],
     "for every mix of revocable, conflicting and irrevocable transactions, under every schedule, thread count and transaction duration",
     "Tests run one irrevocable code path without checking mutual exclusion, the restart bound, or progress with waiting transactions.",
     ["src/picotm_tx.c", "src/picotm_lock_manager.c", "src/picotm_os_rwlock.c", "src/picotm.c"],
     [("exclusive-transaction lock", "src/picotm_lock_manager.c"), ("retry limit", "src/picotm_tx.c")],
     ["overlap of transaction executions", "restart counter", "completion"])

prop("C05", "Effects through different modules commit or vanish together",
     "A transaction that combines memory, heap, file, arithmetic, string, container and error-state operations makes either all of its effects or none of them permanent. An error raised by any operation rolls back the effects of all earlier operations and reports exactly that error to the recovery code.",
     ["histories", "fault_sequences"],
     "for every combination and order of operations of different modules with an error raised at every position",
     "Each module's tests run in isolation; nothing combines modules in one transaction and fails it half-way.",
     ["src/picotm_tx.c", "modules/tm/src/module.c", "modules/libc/src/fildes/module.c", "modules/libc/src/allocator/module.c", "modules/txlib/src/txlib_module.c", "modules/libc/src/error/module.c"],
     [("undo of modules then events", "src/picotm_tx.c")],
     ["memory", "file contents", "errno", "container contents", "error status"])

prop("C06", "Reader/writer locks exclude writers and never leak",
     "At any time a reader/writer lock is held either by one writer or by readers only, an upgrade succeeds only for the sole reader, and a failed acquisition is reported as a conflict and changes nothing. After the last holder unlocks, the lock can be acquired again by anyone. Spinlocks have at most one holder and are free again after their release.",
     ["schedules", "histories"],
     "for every sequence of acquisitions, upgrades and releases by any number of threads and transaction ages, with and without waiting lock owners",
     "The lock tests run short fixed sequences with a few threads and no transaction long enough to enter the waiting list.",
     ["src/picotm-lib-rwlock.c", "src/picotm-lib-rwlock.h", "src/picotm-lib-rwstate.c", "src/picotm_lock_manager.c", "src/picotm_lock_owner.c", "include/picotm/picotm-lib-spinlock.h"],
     [("reader counter with writer mark", "src/picotm-lib-rwlock.c"), ("waiter list", "src/picotm_lock_manager.c")],
     ["result of lock operations", "critical-section overlap"])

prop("C07", "Concurrent transactions across modules are serialisable",
     "Transactions that combine memory, heap blocks, files, pipes, queues and multisets and run concurrently have the effects and results of some serial order of the committed transactions, the same order for all modules; an aborted or restarted transaction leaves nothing behind in any of them, and the program never deadlocks.",
     ["schedules", "histories", "fault_sequences"],
     "for every set of concurrent transactions over several modules, every interleaving, with aborts, conflicts and irrevocable transactions",
     "Each module is tested by itself; no test checks one transaction across modules against concurrent ones.",
     ["src/picotm.c", "src/picotm_tx.c", "src/picotm_module.c", "src/picotm_lock_manager.c", "modules/tm/src", "modules/libc/src", "modules/txlib/src"],
     [("commit protocol over modules", "src/picotm_tx.c"), ("irrevocability and conflict resolution", "src/picotm.c"), ("lock waiting", "src/picotm_lock_manager.c")],
     ["operation results", "final memory, file, pipe, queue and multiset contents", "termination"])

prop("C08", "Only transactions that are active conflict",
     "A transaction is restarted because of a conflict only if another transaction was active during the conflicting operation. When a transaction has ended, by commit or by roll-back, nothing it used stays locked, in any module, so that later operations of others that would have conflicted with it succeed.",
     ["schedules", "histories", "fault_sequences"],
     "for every set of concurrent transactions over memory, files, directories, streams, containers, the working directory and locales, every interleaving, with aborts, conflicts and irrevocable transactions",
     "Unit tests run one transaction, or wait for all; none observes that a transaction that goes on alone is left alone.",
     ["src/picotm_tx.c", "modules/tm/src/vmem_tx.c", "modules/libc/src/fildes", "modules/libc/src/cwd", "modules/libc/src/locale", "modules/txlib/src"],
     [("release of locks when a transaction ends", "modules/libc/src/fildes/seekbuf_tx.c"), ("memory frames", "modules/tm/src/vmem_tx.c"), ("locale objects", "modules/libc/src/locale/locale_tx.c")],
     ["restarts of a transaction, with the set of active transactions at the time"])

prop("C09", "Errors reach the recovery code exactly as they were raised",
     "Whatever raises an error - the program, an operation, or a module's call-back - the transaction's recovery code sees exactly that error: its kind, its code, errno value or complete signal information, and whether the transaction can be recovered from. It stays so until the thread's next attempt, whatever other threads raise, and no earlier error shows through. Conflicts and requests for irrevocability restart the transaction instead. Error objects report what was set last, and nothing of what was set before.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "for every sequence of attempts that fail in different ways, every kind and value of error, every call-back that raises it, and any number of threads that recover at the same time",
     "The core's tests raise one error of each kind with a fixed value; none combines failures of several attempts, call-backs and threads, or looks at leftovers of an earlier error.",
     ["src/picotm.c", "src/picotm-error.c", "src/picotm_tx.c", "src/picotm_module.c"],
     [("thread-local error state", "src/picotm.c"), ("error objects", "src/picotm-error.c"), ("failure paths of commit and roll-back", "src/picotm_tx.c")],
     ["picotm_error_status(), picotm_error_as_*(), picotm_error_is_*()"])

prop("R01", "Repeating a transaction accumulates no resources",
     "A program that executes the same transactions again and again does not use more and more resources. Whatever a transaction does and however it ends - by commit, error, conflict or irrevocably, on a thread that goes on or on one that exits - the memory that picotm allocates and the descriptors that it holds open settle at a level that does not depend on the number of repetitions. (Records of the parts of the address space that transactions have used may remain.)",
     ["histories", "inputs", "fault_sequences"],
     "for all sequences of operations over all modules, all ways in which the transactions end, any assignment to threads, and any number of repetitions",
     "Each unit test executes its transactions once or some times and never looks at memory in use or open descriptors; a list that never shrinks shows only in long-running programs.",
     ["src", "modules/libc/src", "modules/tm/src", "modules/txlib/src"],
     [("state at the end of a transaction", "modules/libc/src/fildes/fildes_tx.c"), ("buffers of file transactions", "modules/libc/src/fildes/seekbuf_tx.c"), ("allocation events", "modules/libc/src/allocator/allocator_tx.c"), ("container events", "modules/txlib/src/txlib_tx.c"), ("pages", "modules/tm/src/vmem_tx.c")],
     ["bytes allocated (interposed allocator)", "open descriptors"])

prop("L01", "Tree maps map keys to exactly one value",
     "Looking up a key yields the value created for exactly that key, created once and never lost or moved, for any key width and any set of keys; cleaning up visits every created value exactly once. Concurrent look-ups of a key all yield the same value.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "for every set and order of keys, every key-bit/level configuration, concurrent look-ups, and failing value creation or allocation",
     "Tests use a few dozen consecutive keys in one configuration.",
     ["src/picotm-lib-treemap.c", "src/picotm-lib-shared-treemap.c"],
     [("level-wise table walk", "src/picotm-lib-treemap.c"), ("lock-free slot publication", "src/picotm-lib-shared-treemap.c")],
     ["values returned", "create/destroy callbacks"])

prop("L02", "Reference-counted objects are set up and torn down exactly once",
     "A shared object is initialised by its first reference only, is usable while any reference exists, and is cleaned up when and only when the last one goes; afterwards it can be set up again. Conditional references succeed exactly if the object is in use and meets the condition.",
     ["schedules", "histories", "fault_sequences"],
     "for every interleaving of taking and dropping references by any number of threads, with initialisation failing at any time",
     "Single-threaded tests and one stress loop; failing initialisation and first/last races are not controlled.",
     ["include/picotm/picotm-lib-shared-state.h", "src/picotm-lib-shared-ref-obj.c", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-global-state.h", "include/picotm/picotm-lib-thread-state.h"],
     [("reference counter with first/final callbacks", "src/picotm-lib-shared-ref-obj.c"), ("locked state", "include/picotm/picotm-lib-shared-state.h")],
     ["init/uninit callbacks", "state of the object while referenced"])

prop("L03", "Library lists and tables behave like sequences",
     "Intrusive lists keep their elements in the order their operations describe, with traversal, search, removal and clean-up visiting each element exactly once; table helpers grow without losing elements and sort, search, walk and make unique exactly as specified.",
     ["inputs", "histories"],
     "for every sequence of list operations and every table content and callback outcome",
     "Unit tests check each operation on one or two tiny lists.",
     ["include/picotm/picotm-lib-slist.h", "src/picotm-lib-tab.c", "src/table.c", "include/picotm/picotm-lib-tab.h"],
     [("doubly linked list operations", "include/picotm/picotm-lib-slist.h"), ("table operations", "src/picotm-lib-tab.c")],
     ["element order", "callback sequence"])

prop("A01", "Casts succeed exactly when the value is representable",
     "A transactional cast returns the value unchanged if the destination type can represent it, and otherwise fails the transaction with a range error; it never returns a different value. Casts to floating-point types round as the language's conversion does and fail only if the value is out of the type's range.",
     ["inputs"],
     "for every value of every source type and every destination type",
     "Tests cover a few boundary constants per type pair.",
     ["modules/cast/include/picotm/picotm-cast.h", "modules/cast/include/picotm/picotm-cast-ctypes.h"],
     [("range comparison macros", "modules/cast/include/picotm/picotm-cast.h")],
     ["returned value", "error status"])

prop("A02", "Checked arithmetic is exact or fails",
     "A transactional arithmetic operation returns the mathematically exact result if the type can represent it, and otherwise fails the transaction with the matching error (overflow, underflow, division by zero, undefined). Operations on in-range operands never fail spuriously. Floating-point results are the correctly rounded ones.",
     ["inputs"],
     "for every pair of operands of every supported integer and floating-point type and every operation",
     "Tests cover a few operand pairs per operation, none with two negative factors or fractional factors.",
     ["modules/arithmetic/include/picotm/picotm-arithmetic.h", "modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h"],
     [("per-signedness range checks", "modules/arithmetic/include/picotm/picotm-arithmetic.h")],
     ["returned value", "error status"])

prop("T01", "Transactional lists behave like sequences and roll back",
     "Within a transaction a list behaves as a sequence under pushing, popping, inserting, erasing, clearing, iterating and measuring; a committed transaction leaves the final sequence, a rolled-back one leaves the list and all entries as before.",
     ["histories"],
     "for every sequence of list operations over several transactions, committed or rolled back at any point",
     "Tests run single operations on small lists and rarely roll back.",
     ["modules/txlib/src/txlist.c", "modules/txlib/src/txlist_tx.c", "modules/txlib/src/txlist_state.c", "modules/txlib/src/txlist_entry.c"],
     [("immediate update with undo events", "modules/txlib/src/txlist_tx.c")],
     ["sequence seen by iteration, front, back, size"])

prop("T02", "Transactional multisets keep sorted order and roll back",
     "A multiset's iteration yields every inserted and not erased entry exactly once in key order; look-up, bounds and counting agree with that order, including for equal keys. A rolled-back transaction leaves the set as before.",
     ["histories", "inputs"],
     "for every sequence of insertions, erasures, look-ups and clears with any mix of equal and distinct keys, committed or rolled back",
     "Tests insert a few keys in ascending order and never combine duplicates with erasure and iteration.",
     ["modules/txlib/src/txmultiset.c", "modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txmultiset_state.c", "modules/txlib/src/txmultiset_entry.c"],
     [("search tree with duplicate chains", "modules/txlib/src/txmultiset_entry.c")],
     ["iteration order", "results of find, bounds, count, size"])

prop("T03", "Transactional queues are FIFO and roll back",
     "Elements leave a queue in the order they entered it, within a transaction and across transactions and threads; a rolled-back transaction returns what it took, in order, and leaves nothing it added.",
     ["histories"],
     "for every sequence of push, pop, front, back, size and empty operations over several transactions, committed or rolled back",
     "Tests push or pop a few elements per transaction and rarely mix own and shared elements or roll back.",
     ["modules/txlib/src/txqueue.c", "modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txqueue_state.c"],
     [("separate local and shared queue", "modules/txlib/src/txqueue_tx.c")],
     ["elements returned", "contents after commit"])

prop("T04", "Transactional stacks are LIFO and roll back",
     "The element a stack pops is always the most recently pushed one that has not been popped, within and across transactions; a rolled-back transaction leaves the stack exactly as before.",
     ["histories"],
     "for every sequence of push, pop, top, size and empty operations over several transactions, committed or rolled back",
     "Tests push or pop a few elements per transaction and rarely mix own and shared elements or roll back.",
     ["modules/txlib/src/txstack.c", "modules/txlib/src/txstack_tx.c", "modules/txlib/src/txstack_state.c"],
     [("separate local and shared stack", "modules/txlib/src/txstack_tx.c")],
     ["elements returned", "contents after commit"])

prop("T05", "Shared containers stay serialisable under concurrency",
     "When several threads use lists, multisets, queues and stacks transactionally, every element is owned by exactly one container or thread at any time, none is lost or duplicated, and each transaction sees container states consistent with a serial order.",
     ["schedules", "histories"],
     "for every interleaving of container transactions by several threads, with conflicts and roll-backs",
     "Tests run one operation type per thread and check only the final size.",
     ["modules/txlib/src/txlib_module.c", "modules/txlib/src/txlib_tx.c", "modules/txlib/src/txlist_tx.c", "modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txstack_tx.c", "modules/txlib/src/txmultiset_tx.c"],
     [("container reader/writer locks held to the end of the transaction", "modules/txlib/src/txlist_state.c")],
     ["container contents", "values observed inside transactions"])

prop("H01", "Transactional heap operations leak and free nothing wrongly",
     "Memory allocated in a transaction is valid and correctly sized, zeroed, duplicated or aligned as requested; it stays allocated if the transaction commits and is released exactly once if it rolls back. Memory freed in a transaction is released exactly once on commit and stays valid and unchanged if it rolls back.",
     ["histories", "inputs"],
     "for every sequence of allocation, resizing, duplication and free operations of any size, committed, retried or rolled back",
     "Tests allocate one block of a fixed size; leaks and double frees on roll-back paths are not measured.",
     ["modules/libc/src/stdlib.c", "modules/libc/src/allocator/allocator_tx.c", "modules/libc/src/allocator/module.c", "modules/libc/src/string.c"],
     [("allocation log applied on undo, free log applied on commit", "modules/libc/src/allocator/allocator_tx.c")],
     ["allocator calls reaching the C library", "block contents"])

prop("H02", "Running out of resources anywhere is reported and undone",
     "If any single allocation or system call made on behalf of a transaction fails, the transaction either still completes correctly or enters recovery with that error and with all its effects undone; it neither crashes, hangs, leaks locks nor keeps a partial effect.",
     ["fault_sequences", "histories"],
     "for every operation sequence and every position at which one allocation fails",
     "Tests inject no faults.",
     ["src/picotm_log.c", "src/table.c", "src/picotm_tx.c", "modules/tm/src/vmem_tx.c", "modules/txlib/src/txlib_tx.c", "modules/libc/src/allocator/allocator_tx.c", "modules/libc/src/fildes/fildes_tx.c"],
     [("error propagation into recovery", "src/picotm.c")],
     ["error status in recovery", "state after recovery", "subsequent transactions"])

prop("S01", "Transactional string functions equal the C library's",
     "Each transactional memory, string, sorting and random-number function computes the same result and the same memory contents as its C-library counterpart on the transaction's view, accesses no memory its counterpart would not, and its effects vanish on roll-back; so do the variants for memory that the transaction has privatised.",
     ["inputs", "histories"],
     "for every content, length, alignment, overlap, embedded terminator and character argument, on memory that was or was not accessed before in the transaction",
     "Tests call each function once with one short constant string.",
     ["modules/libc/src/string.c", "modules/libc/include/picotm/string.h", "modules/libc/include/picotm/string-tm.h"],
     [("privatisation of exactly the accessed ranges", "modules/libc/src/string.c")],
     ["return value", "memory contents", "accessed ranges"])

prop("S02", "Transactional formatting equals the C library's",
     "Transactional formatted printing and scanning and time formatting and parsing produce the same output, results and stored values as the C-library functions for the same arguments, access no other memory, and their effects vanish on roll-back. Formats that cannot be made safe (scanned strings without a width, positional arguments, unknown conversions) fail the transaction.",
     ["inputs"],
     "for every format string with any flags, width, precision, length modifier and argument types, and every buffer size",
     "Tests print one or two constant formats.",
     ["modules/libc/src/stdio.c", "modules/libc/src/time.c", "modules/libc/src/stdlib.c"],
     [("format parsing and privatisation of pointer arguments", "modules/libc/src/stdio.c")],
     ["buffer contents", "return value", "stored values"])

prop("S03", "The error indicator survives transactions correctly",
     "Setting the thread's error number transactionally is visible to the transaction and kept on commit; after a roll-back it has its value from before the transaction, whatever library calls the transaction made.",
     ["histories"],
     "for every sequence of saving, reading, setting and failing operations, committed, restarted or recovered",
     "Tests set it once and commit.",
     ["modules/libc/src/errno.c", "modules/libc/src/error/error_tx.c", "modules/libc/src/error/module.c"],
     [("saved value restored on undo", "modules/libc/src/error/error_tx.c")],
     ["errno"])

prop("F01", "File I/O in a transaction behaves like immediate I/O",
     "Reads, writes, positioned I/O, seeks and status queries on regular files return, within a transaction, what they would return if executed immediately without interference, including the transaction's own earlier writes, through every descriptor of the file. After commit, file contents, length and file offsets equal those after immediate execution.",
     ["histories", "inputs"],
     "for every sequence of reads, writes, positioned reads and writes, seeks and duplications of any size and offset on files of any length, incl. holes and several descriptors",
     "Tests do one or two operations of a fixed size per transaction.",
     ["modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/regfile.c", "modules/libc/src/fildes/seekbuf.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/seekbuf_tx.c", "modules/libc/src/fildes/iooptab.c"],
     [("buffered write table merged into reads", "modules/libc/src/fildes/regfile_tx.c"), ("record locks", "modules/libc/src/fildes/seekbuf.c")],
     ["return values and buffers", "file contents, size and offsets after commit"])

prop("F02", "Rolled-back file operations leave no trace",
     "After a transaction rolls back, the contents, length, mode and existence of all files, the offsets of all descriptors and the set of open descriptors are exactly as before it started.",
     ["histories", "fault_sequences"],
     "for every sequence of opening, creating, reading, writing, seeking, mode-changing, linking, duplicating and closing operations, rolled back at any point",
     "Tests hardly ever roll back file transactions and never compare the file system afterwards.",
     ["modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/module.c"],
     [("undo events in reverse order", "modules/libc/src/fildes/fildes_tx.c")],
     ["directory tree, file contents and modes", "/proc/self/fd", "descriptor offsets"])

prop("F03", "Concurrent file transactions are isolated",
     "Transactions of several threads that read and write the same regular file, through the same or different descriptors, have the effect of some serial execution; no transaction observes part of another's writes and no update is lost.",
     ["schedules", "histories"],
     "for every interleaving of reads, writes and seeks on overlapping and unaligned ranges by several threads",
     "Tests use fixed, aligned ranges and check one final value.",
     ["modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/rwcountermap.c", "modules/libc/src/fildes/seekbuf.c", "modules/libc/src/fildes/filebuf.c"],
     [("record and field reader/writer locks", "modules/libc/src/fildes/regfile_tx.c")],
     ["data read", "file contents after commit"])

prop("F04", "Stream output happens once, in order, at commit",
     "Data written to pipes, FIFOs, sockets and terminals-like devices in a transaction appears exactly once and in order when the transaction commits and never if it rolls back. Data read from them is never lost by committed transactions. Reading where there is nothing without blocking reports that, or aborts the transaction if the thread asked for full error recovery.",
     ["histories", "schedules"],
     "for every sequence of reads and writes on pipes, FIFOs and sockets, committed, restarted or rolled back",
     "Tests write one message per transaction and always commit.",
     ["modules/libc/src/fildes/fifo_tx.c", "modules/libc/src/fildes/socket_tx.c", "modules/libc/src/fildes/chrdev_tx.c", "modules/libc/src/fildes/fildes_tx.c"],
     [("deferred writes; irrevocable reads", "modules/libc/src/fildes/fifo_tx.c")],
     ["bytes arriving at the other end"])

prop("F05", "Descriptors live exactly as long as transactions say",
     "A descriptor opened, duplicated or created as a pipe or socket in a transaction is usable in it and stays open only if it commits; a descriptor closed in a transaction is closed when it commits and open otherwise. Operations on invalid descriptors fail with the error the operating system gives and harm nothing.",
     ["histories", "inputs"],
     "for every sequence of open, create, dup, dup2, pipe, socket, close and control operations with any descriptor numbers and flags, committed or rolled back",
     "Tests open or close one descriptor per transaction.",
     ["modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/fdtab.c", "modules/libc/src/fildes/fildes.c"],
     [("reference-counted descriptor table with deferred close", "modules/libc/src/fildes/fdtab.c")],
     ["/proc/self/fd", "errors"])

prop("F06", "File-name operations act on the file the name denotes",
     "In a transaction, stat, lstat, chmod, mkdir, mkfifo, mknod, link, unlink, open, creat, mkstemp and mkdtemp act on exactly the file that the given name denotes, as the immediate POSIX call would from the transaction's working directory: absolute and relative names, symbolic links, dots, slashes, missing, empty or overlong names; same results and errors. Temporary files of rolled-back transactions vanish, and buffers filled by status queries are restored.",
     ["inputs", "histories"],
     "for every directory tree, working directory and name, and every sequence of such operations, committed or rolled back",
     "Tests use absolute names of plain files in a temporary directory.",
     ["modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/unistd.c", "modules/libc/src/unistd-tm.c", "modules/libc/src/sys_stat.c", "modules/libc/src/sys_stat-tm.c", "modules/libc/src/fcntl.c", "modules/libc/src/stdlib.c"],
     [("resolution of names against the transaction's working directory", "modules/libc/src/fildes/fildes_tx.c")],
     ["results, errno", "the directory tree", "getcwd"])

prop("D01", "Working-directory changes are transactional",
     "A transaction that changes the working directory sees relative names resolved against the new directory; the process's working directory is the new one after commit and the original one after roll-back. Queries return the transaction's current directory.",
     ["histories"],
     "for every sequence of directory changes and queries, with any path and buffer size, committed or rolled back",
     "Tests change to one directory and commit.",
     ["modules/libc/src/cwd/cwd_tx.c", "modules/libc/src/cwd/cwd.c", "modules/libc/src/cwd/module.c", "modules/libc/src/unistd.c"],
     [("directory change with undo event", "modules/libc/src/cwd/cwd_tx.c")],
     ["getcwd before, in and after transactions"])

prop("D02", "Locale changes are transactional",
     "A locale set in a transaction is in effect for its later operations and after commit; after roll-back each category has its previous locale. Queries return the locale in effect and failing requests change nothing.",
     ["histories"],
     "for every sequence of locale queries and changes of every category and name, committed or rolled back",
     "Tests set one category once.",
     ["modules/libc/src/locale/locale_tx.c", "modules/libc/src/locale/locale.c", "modules/libc/src/locale/module.c"],
     [("undo to the previous locale string", "modules/libc/src/locale/locale_tx.c")],
     ["setlocale and localeconv results"])

prop("D03", "Signals raised by transactional code abort it cleanly",
     "A signal acquired by the module and added by the thread as recoverable, raised synchronously by the code of a transaction (fault, trap, or raised by itself), rolls it back and reaches the recovery code with the signal's information, also on the next occurrence and after a restart; one added as not recoverable reaches it marked so. Otherwise acquired signals reach the handler for non-transactional code, and released ones have the program's disposition. Signal masks do not change.",
     ["histories", "fault_sequences"],
     "for every sequence of acquiring, releasing, adding and removing signals in several threads, and every position in a transaction at which a synchronous signal is raised, on first and repeated occurrences",
     "Tests raise each signal once.",
     ["modules/libc/src/signal/sigstate.c", "modules/libc/src/signal/signal_tx.c", "modules/libc/src/signal/module.c", "modules/libc/src/libc.c", "src/picotm.c"],
     [("per-process handler dispatching to the running transaction", "modules/libc/src/signal/sigstate.c")],
     ["recovery status", "program-visible effects", "signal mask and dispositions"])

prop("M01", "Transactional math equals the C library's",
     "Each transactional math function returns the C library's result for every argument for which that function reports no error, and otherwise fails the transaction with the reported error; previous floating-point exceptions never influence it. Values stored through pointer arguments vanish on roll-back, and the floating-point exception flags are then as before.",
     ["inputs", "histories"],
     "for every function and argument, after every floating-point exception state",
     "Tests call each function with one benign argument.",
     ["modules/libm/src/math.c", "modules/libm/src/matherr.c"],
     [("capture of errno and floating-point exceptions", "modules/libm/src/matherr.c")],
     ["return value", "error status", "floating-point exception flags"])

prop("P01", "Data attached to pointers is exact, private or atomically shared",
     "Thread-local data attached to an address is returned to that thread for exactly that address, until replaced, cleared, or the thread's state is released. Shared data is seen by every thread, changes atomically (of concurrent test-and-set operations from one value exactly one succeeds) and stays while a thread uses the module. Unset addresses read NULL; released states leave no memory behind.",
     ["schedules", "histories", "inputs"],
     "for every interleaving of setting, querying, clearing and test-and-set by any threads on any set of addresses",
     "Tests attach data to a few pointers once, in one thread.",
     ["modules/ptrdata/src/ptrdata.c", "modules/ptrdata/src/ptrdata_tx.c", "modules/ptrdata/src/module.c"],
     [("per-thread pointer map", "modules/ptrdata/src/ptrdata_tx.c"), ("shared pointer map", "modules/ptrdata/src/ptrdata.c")],
     ["data returned", "result of test-and-set", "allocated memory after release"])

prop("E01", "Ending the process from a transaction commits it first",
     "exit_tx, _exit_tx, _Exit_tx and abort_tx commit the transaction and then end the process: all effects of the transaction up to the call are permanent, nothing of aborted attempts and nothing behind the call is, and the process ends exactly as by the C function of that name (termination status, exit handlers, buffered output). Exit handlers can run transactions.",
     ["histories", "inputs"],
     "for every history of transactions, aborted attempts and operations before the call, at every position in a transaction, in any thread",
     "Tests cannot end their own process and so never call these functions.",
     ["modules/libc/src/stdlib.c", "modules/libc/src/unistd.c", "src/picotm.c", "src/picotm_tx.c"],
     [("commit before termination", "modules/libc/src/stdlib.c")],
     ["termination status of a forked process", "shared memory, files, pipes, names", "exit handlers"])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]:
            import os
            if not os.path.exists("/repo/" + f):
                print("missing", p["id"], f, file=sys.stderr)
        print(json.dumps(p))
