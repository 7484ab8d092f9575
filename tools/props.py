#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, technique="", note="", na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], technique=technique, note=note, na=na, hook=hook))

SCHED = "Stateful property-based testing under a deterministic scheduler: generated programs and schedules, model oracle, tape shrinking"
SEQ = "Stateful model-based property testing: generated operation sequences against a reference model, tape shrinking"
IO = "Property-based testing with generated programs, schedules and injected I/O faults, oracle on the delivered history, tape shrinking"
NOTE = ("Exploration of generated cases; every case is a pure function of the seed. Preemption at every memory access of library code, "
        "virtual clock, sequentially consistent memory only; absence of violations outside the explored cases is not established.")

prop("C01", "Fibers run exactly once and join/exit notification is exact",
 "A started fiber runs its function exactly once, with the given argument and length, on the event-loop thread it was assigned to. Every holder of a handle that joins it (from a fiber, by callback, or from a plain thread) is released once, only after the function has returned, with its return value; every registered exit callback fires once with that value. When all fibers have ended and all handles are joined, the live-fiber count is zero.",
 ["programs", "schedules"], "All trees of fibers (creation kind, target loop, stack size), all mixes of join / try-join / callback-join / exit-callback / self-references, all interleavings of loop threads and plain threads.",
 "Existing tests create a handful of fibers on one schedule; join-before-exit vs exit-before-join across threads is decided by interleaving.",
 ["src/kfiber.c", "src/kfiber_sync.c", "include/kfiber.h"],
 [("close condition set at creation and notified on exit", "src/kfiber.c:result_fiber_exit"), ("reference count", "src/kfiber.c:kfiber_release")],
 technique=SCHED, note=NOTE)
prop("C02", "A fiber's execution context survives every suspension",
 "Across any suspension (sleep, join, lock, channel, I/O, nested creation) a fiber resumes with its local variables, registers, floating-point settings and stack contents intact, and with the result meant for it. Fibers of any permitted stack size can use the whole stack they asked for without disturbing any other fiber or the event loop.",
 ["programs", "schedules"], "All stack sizes, recursion depths below the stack size, live register/stack/floating-point contents and suspension orders.",
 "Tests never keep more than trivial state live across a switch; corruption depends on what is live at the switch and on stack depth.",
 ["src/kfiber.c", "fcontext/src/asm/jump_x86_64_sysv_elf_gas.S", "fcontext/src/asm/make_x86_64_sysv_elf_gas.S"],
 [("context switch", "fcontext/src/asm/jump_x86_64_sysv_elf_gas.S"), ("stack placement", "src/kfiber.c:kfiber_new")],
 technique=SCHED, note=NOTE)
prop("C03", "Timers and sleeps fire once, never early, never lost",
 "Every timer and every fiber sleep of a non-negative delay completes exactly once, on the loop it was set on, not before its delay has elapsed on an unadjusted clock and within a bounded time after it. Timers of one loop fire in order of their deadlines, and setting a timer from inside a timer or from another thread never loses or duplicates one. Registered loop ticks keep being called at least at the interval they ask for, until they are closed, and the hook given to the selector manager is called once for each second that passes.",
 ["programs", "schedules"], "All sets of timers (delays incl. equal and zero ones, set from fibers, callbacks, other threads, before start-up) and all clock progress patterns.",
 "Tests use one or two sleeps in real time; ordering, ties and red-black tree shapes are never sampled.",
 ["src/kselector.c", "src/kselector_manager.c", "src/krbtree.c", "src/kfiber.c"],
 [("ordered timer tree", "src/kselector.c:kgl_insert_block_queue"), ("expiry loop", "src/kselector.c:kselector_check_timeout")],
 technique=SCHED, note=NOTE + " Clock is virtual; lateness bound is the loop's documented 100 ms poll plus generated jitter.")
prop("C04", "System clock adjustments do not disturb pending timers and time-outs",
 "When the system clock is set back by a second or more, pending timers, sleeps and connection time-outs still fire after their remaining time, neither firing early nor being postponed by the size of the adjustment. Work that is already due or unaffected continues normally.",
 ["fault_sequences", "histories"], "All backward adjustments at any moment relative to pending timers on any number of loops.",
 "No test changes the clock.",
 ["src/kselector.c", "src/kselector_manager.c"],
 [("time adjustment", "src/kselector.c:kselector_update_time / kselector_adjust_time")],
 technique=SCHED, note=NOTE)
prop("C05", "Fiber mutex: bounded exclusion, no lost wake-up, exact counts",
 "A fiber mutex with limit N is held by at most N fibers or callbacks at any time, across all event-loop threads. Every lock request is eventually granted once enough holders unlock, a bounded try-lock is refused exactly when the allowed number of holders and waiters is reached, and the reported holder and request counts are exact at quiescence.",
 ["schedules", "programs"], "All interleavings of lock / try-lock / callback-lock / unlock / limit changes by any number of fibers on any number of loops.",
 "Tests sample a few uncontended or single-loop runs; exclusion and wake-up hand-over depend on the interleaving.",
 ["include/kfiber_sync.h", "src/kfiber_sync.c"],
 [("waiter queue under the mutex lock", "include/kfiber_sync.h:__kfiber_mutex_lock"), ("hand-over on unlock", "include/kfiber_sync.h:kfiber_mutex_unlock")],
 technique=SCHED, note=NOTE)
prop("C06", "Fiber reader-writer lock: exclusion and progress",
 "A writer never overlaps any reader or other writer, readers may overlap each other, and every waiting reader or writer is eventually granted the lock once the holders release it, across all event-loop threads.",
 ["schedules", "programs"], "All interleavings of read/write lock and unlock by any number of fibers on any number of loops.",
 "The lock has no test; exclusion and lost wake-ups are interleaving properties.",
 ["include/kfiber_sync.h", "src/kfiber_sync.c"],
 [("reader/writer queues and count", "include/kfiber_sync.h:kfiber_rwlock_wunlock")],
 technique=SCHED, note=NOTE)
prop("C07", "Fiber conditions and events never lose or invent a wake-up",
 "An auto-reset condition releases exactly one waiter per notification and remembers unconsumed notifications; a manual-reset condition releases every present and future waiter. This holds for single-loop, thread-safe and plain-thread conditions, for fibers, callbacks and plain threads waiting, and each released waiter observes the notified value.",
 ["schedules", "programs"], "All interleavings of wait / try-wait / callback-wait / notify by fibers, callbacks and threads, for all condition kinds.",
 "Tests exercise one wait and one notify order.",
 ["src/kfiber_sync.c", "include/ksync.h"],
 [("pending event count", "src/kfiber_sync.c:kfiber_cond_notice_ts_ar"), ("sync event", "include/ksync.h:kcond_wait")],
 technique=SCHED, note=NOTE)
prop("C08", "Fiber channel: each item is received exactly once; close releases all",
 "A send completes only when its item has been handed to a receiver, every item is received exactly once, and senders and receivers never wait at the same time. Closing the channel makes every blocked and later operation fail, delivers nothing afterwards, and a sender held by its receiver resumes with the value the receiver gives it. A channel lives while it has holders and is released exactly once, by the last.",
 ["schedules", "programs"], "All sequences of send / receive / receive-and-hold / close by any number of fibers on a loop.",
 "The channel has no exhaustive test; pairing depends on arrival order.",
 ["src/kfiber_sync.c", "include/kfiber_sync.h"],
 [("waiter queue with direction flag", "src/kfiber_sync.c:kfiber_chan_send")],
 technique=SCHED, note=NOTE)
prop("C09", "Work posted to an event loop runs exactly once on that loop",
 "Every callback posted to an event loop from any thread, at any time including before start-up, runs exactly once, on that loop's thread and main context, with the posted argument and value, without waiting for unrelated events. Start-up callbacks run exactly once, per-thread callbacks once at the start and once at the end of every thread that runs a loop, on that loop's main context; the number of loops is the largest power of two not above the request (at least 1, at most 64); loop lookup wraps around that number; growth happens exactly when it is allowed (on the only loop's own thread), keeps already posted work, and added loops have the configured time-outs.",
 ["schedules", "programs"], "All interleavings of posting threads, fibers and loops, loops on threads of their own or stepped by the program (also continued on another thread); all requested loop counts; growth at any moment allowed by the API.",
 "Tests post from one thread; lost or duplicated posts need a race with the loop draining its queue.",
 ["src/kselector_manager.c", "src/kepoll_selector.c", "include/kepoll_selector.h", "src/kselectable.c"],
 [("notice queue plus wake-up descriptor", "src/kepoll_selector.c:kepoll_notice"), ("manager callbacks", "src/kselector_manager.c")],
 technique=SCHED, note=NOTE)
prop("C10", "Stream sockets deliver the exact byte stream",
 "Over a plain stream connection the reader receives exactly the bytes the writer wrote, in order, whatever the split of buffers and whatever short transfers, would-block or reset conditions the kernel produces. Each read or write reports the number of bytes it transferred, zero or less only at end of stream or on error, and full-buffer transfers complete or report exactly how much is left.",
 ["inputs", "schedules", "fault_sequences"], "All write/read segmentations, buffer vectors (including empty buffers), kernel short reads/writes and event orders, with both directions active.",
 "Existing tests send a few small messages on loopback where the kernel never splits transfers.",
 ["src/kselectable.c", "src/kepoll_selector.c", "src/kfiber.c", "include/kfiber.h", "src/ksocket.c"],
 [("read/write readiness and completion", "src/kselectable.c"), ("full transfers", "include/kfiber.h:kfiber_net_writev_full")],
 technique=IO, note=NOTE)
prop("C11", "TLS connections deliver the exact byte stream",
 "After a successful handshake both peers read exactly the bytes the other wrote, in order, for any buffer split and any fragmentation of the underlying transport, in both TLS transport modes. A peer's orderly shutdown is seen as end of stream, never as extra, missing or altered bytes, and a truncated or corrupted transport never delivers altered data.",
 ["inputs", "schedules", "fault_sequences"], "All write/read segmentations, transport fragmentations, record sizes, and truncations.",
 "The tests exchange one short message per connection.",
 ["src/kgl_ssl.c", "src/kssl_bio.c", "src/kselectable.c", "src/kfiber.c"],
 [("TLS status to event mapping", "src/kgl_ssl.c"), ("memory transport", "src/kssl_bio.c")],
 technique=IO, note=NOTE + " Uses the installed OpenSSL as the peer and for both modes.")
prop("C12", "Connection time-outs fire when idle and only when idle",
 "A pending read, write or connect on a connection that makes no progress is ended by its configured time-out, not earlier than the configured time (times the configured multiplier) and within a bounded delay after it. Activity restarts the wait, a read time-out that was requested as a notification leaves the connection usable, and connections that are not idle that long are never disturbed.",
 ["histories", "configurations"], "All idle/active patterns, time-out values and multipliers, and any number of connections on a loop.",
 "No test waits for a time-out; the default is 60 seconds.",
 ["src/kselector.c", "src/kselectable.c", "src/kselector_manager.c", "src/kconnection.c"],
 [("time-out lists", "src/kselector.c:kselector_check_timeout")],
 technique=IO, note=NOTE)
prop("C13", "Servers accept every connection once and release everything",
 "Every connection a client establishes to a listening server is handed out exactly once with the correct peer address, on a loop of the server, even across bursts and transient accept failures. Closing the server stops accepting, ends pending accepts, releases its sockets and memory exactly once when every listener and connection is gone, and the address can be used again.",
 ["schedules", "fault_sequences"], "All connection arrival patterns, accept-failure sequences, and close moments, for TCP and Unix-domain servers, with one or several listeners.",
 "Tests open and close servers without load and never inject accept errors.",
 ["src/kserver.c", "src/kconnection.c", "src/ksocket.c", "src/kepoll_selector.c"],
 [("accept loop", "src/kserver.c"), ("server reference count", "src/kserver.c:kserver_release")],
 technique=IO, note=NOTE)
prop("C14", "Sendfile transmits exactly the requested file range",
 "Sending a file over a connection transmits exactly the bytes of the file from its current position, in order, interleaved correctly with ordinary writes, whatever short transfers occur; each call reports what was sent and advances the file position by exactly that much.",
 ["inputs", "fault_sequences"], "All file sizes, offsets, lengths, short transfers and interleavings with writes.",
 "Sendfile is only exercised by an example with one file.",
 ["src/kselectable.c", "src/kfiber.c", "src/kepoll_selector.c"],
 [("sendfile path", "src/kselectable.c:selectable_sendfile")],
 technique=IO, note=NOTE)
prop("C15", "Asynchronous file I/O behaves like a file with a position",
 "Any sequence of asynchronous reads, writes, full reads/writes, seeks, tells and size queries on a file gives the results and leaves the contents that the same sequence gives on a plain file with a position, on any loop, from other loops through the safe calls, with several files and fibers at once and however many operations are in flight; each operation completes exactly once on the file's loop while other fibers of the loop go on. End of file is reported as 0, errors and seeks before the start as -1, and neither moves the position; short transfers are continued by the full calls. Open modes and flags do what they say (truncate, append, create, not follow links, not be inherited). A direct-mode read returns bytes of the file from the requested position whatever its alignment, never more than asked for, and writes no further than the aligned buffer.",
 ["inputs", "programs"], "All operation sequences, sizes and offsets (also unaligned and beyond the end), open modes and loops.",
 "The one stable file test writes and reads one small buffer.",
 ["src/kasync_file.c", "src/kfile.c", "src/kfiber.c", "src/kepoll_selector.c", "include/kasync_file.h"],
 [("direct-I/O adjustment", "src/kasync_file.c:kasync_file_adjust_result"), ("AIO submission/completion", "src/kepoll_selector.c")],
 technique=SEQ, note=NOTE + " Kernel AIO is real in some cases, in most an emulation that delays, reorders, shortens, refuses and fails operations.")
prop("C16", "The worker queue runs every accepted job once within its limits",
 "A worker queue with a thread limit and a queue limit runs every accepted job exactly once, with never more than the allowed number at a time, in arrival order (high-priority jobs first), and refuses a job (or makes a blocking submission wait until its job is taken) exactly when more jobs than the queue limit are already waiting. It never loses a job when jobs arrive while workers finish; if no thread can be started the job is refused, run by another worker or run by its submitter. It is destroyed exactly once, after its last user is gone and its jobs have run.",
 ["schedules", "fault_sequences"], "All interleavings of submitters and workers, limits, and thread-creation failures.",
 "The only test submits jobs without contention.",
 ["src/kasync_worker.c", "include/kasync_worker.h"],
 [("queue under lock", "src/kasync_worker.c")],
 technique=SCHED, note=NOTE)
prop("C17", "The thread pool runs every started job once and reuses threads safely",
 "Every job given to the thread pool runs exactly once with its argument, also when idle threads are reused, when they are being flushed at the same time, and on threads that end; if a thread cannot be created the start call reports failure and the job does not run. Flushing ends only idle threads and never loses a job handed to one; with the manager's timer for threads installed, a thread that stays idle for more than two minutes is ended.",
 ["schedules", "fault_sequences"], "All interleavings of starts, completions and flushes, and thread-creation failures.",
 "Not covered by tests: needs races between hand-over and flush.",
 ["src/kthread.c", "src/kselector_manager.c"],
 [("idle list and signal hand-over", "src/kthread.c")],
 technique=SCHED, note=NOTE)
prop("C18", "Memory pools give disjoint, aligned, stable blocks; arrays keep elements",
 "Every block from a memory pool has the requested size and alignment, never overlaps another live block or changes until freed, and clean-ups run exactly once when the pool is destroyed. Growable arrays keep their elements in order across growth.",
 ["inputs", "histories"], "All allocation/free sequences, sizes around the small/large limit, pool sizes and alignments.",
 "No test exercises pools beyond start-up use.",
 ["src/kmalloc.c", "include/kmalloc.h"],
 [("small/large allocation", "src/kmalloc.c:kgl_palloc_small")],
 technique=SEQ, note="Generated operation sequences against a shadow model under AddressSanitizer; no claim outside explored cases.")
prop("C19", "The red-black tree behaves as an ordered set and stays balanced",
 "For any sequence of insertions, removals, replacements and lookups the tree holds exactly the inserted and not removed keys, iterates them in comparator order in both directions, finds exactly the present ones, and its height stays within the red-black bound. The integer-key helpers order all representable keys correctly.",
 ["histories", "inputs"], "All operation sequences and key sets, including extreme integers and duplicates.",
 "No test touches the tree directly.",
 ["src/krbtree.c", "include/krbtree.h"],
 [("rebalancing", "src/krbtree.c")],
 technique=SEQ, note="Generated operation sequences against std::set plus structural invariants; no claim outside explored cases.")
prop("C20", "Buffer chains hold exactly the bytes written",
 "For any sequence of writes, reads, space reservations, insertions and take-overs, a buffer chain yields exactly the bytes written, in order, with the total length it reports; the two-pointer window used to feed a transport exposes exactly the unconsumed bytes as they are consumed in arbitrary steps.",
 ["histories", "inputs"], "All operation sequences and sizes around the chunk size and when the chain is empty or partially consumed.",
 "No test touches the buffers directly.",
 ["src/kbuf.c", "include/kbuf.h"],
 [("chunk chain", "src/kbuf.c")],
 technique=SEQ, note="Generated operation sequences against a byte-string model under AddressSanitizer; no claim outside explored cases.")
prop("C21", "Socket addresses round-trip and compare consistently",
 "Formatting an address and parsing the text gives back the same address and port; parsing accepts exactly valid numeric addresses; equality, ordering and hashing of addresses are consistent with each other (equal iff same family and address; the order is total and transitive). Mask, unix-path, port and blocking-mode helpers agree with the address or socket they are given and keep within their buffers for any input.",
 ["inputs"], "All IPv4/IPv6 addresses, ports, textual forms and path lengths.",
 "No test covers address helpers beyond 127.0.0.1.",
 ["src/ksocket.c", "include/ksocket.h", "src/kaddr.c"],
 [("address helpers", "include/ksocket.h")],
 technique="Property-based testing: round-trip, algebraic laws and differential oracle against inet_pton/inet_ntop", note="Generated addresses and texts; no claim outside explored cases.")
prop("C22", "TLS configuration is honoured",
 "A protocol list enables exactly the TLS versions it names, in any spelling and order, replacing an earlier list, so the negotiated version is one both sides enabled and without one the handshake fails; cipher lists, the server's cipher preference, certificates with their chains (buffers or files, also together with the key), CA files and directories and the verification they ask for take effect. A host name picks the context (certificate, application protocols) the host name callback gives for it, the callback's token is released with the connection, and a server that requires a name refuses clients without one. Application protocols are negotiated from the configured lists (the server's order wins, http/1.1 by default, none shared leaves none), sessions can be resumed with the server that issued them. Every handshake comes out as between plain OpenSSL contexts set up that way. Invalid certificates, keys, chains, CA files and cipher lists are refused, and freed contexts leave nothing behind.",
 ["configurations", "inputs"], "All subsets and spellings of protocol lists on both sides, host names, application protocols, certificates.",
 "The tests use one default configuration.",
 ["src/kgl_ssl.c", "include/kgl_ssl.h"],
 [("protocol option mapping", "src/kgl_ssl.c")],
 technique="Property-based testing: generated configurations, handshake outcome against a set model", note="Runs handshakes against the installed OpenSSL; no claim outside explored cases.")
prop("C23", "Name resolution answers every lookup once with the right addresses",
 "Every name lookup completes exactly once on the loop it was started from, with the addresses the resolver returned for that name and family or with failure if it failed, whether or not the answer is cached, shared with a concurrent lookup, expired or flushed meanwhile. An answer is served from the cache while younger than 30 seconds; an older one is served once more while the resolver is asked again, a remembered answer survives up to nine resolver failures in a row and is dropped at the tenth, and an entry unused for an hour is dropped. Address results stay valid while referenced and are released once after, whichever threads their holders are on.",
 ["schedules", "histories", "fault_sequences"], "All interleavings of lookups, expirations, flushes and resolver results or failures over several names and types.",
 "No test resolves names; the cache needs races and time.",
 ["src/kaddr.c", "include/kaddr.h"],
 [("address cache and in-flight list", "src/kaddr.c")],
 technique=IO, note=NOTE + " The resolver is replaced by a generated one.")
prop("C24", "UDP sockets preserve datagrams and peer addresses",
 "Each datagram received is exactly one datagram that was sent, with its own length (truncated only to the buffer) and its sender's complete address, IPv4 or IPv6; sends go to the given destination with exactly the given bytes.",
 ["inputs", "schedules"], "All datagram sizes, buffer splits, address families, senders and receive orders.",
 "No test covers UDP.",
 ["src/kudp.c", "include/kudp.h", "src/kselectable.c"],
 [("message receive", "src/kudp.c")],
 technique=IO, note=NOTE + " Loopback delivery within socket buffers is assumed reliable.")
prop("C25", "Thread locks: reader-writer exclusion and progress",
 "The plain-thread reader-writer locks never let a writer overlap a reader or another writer, let readers overlap, and never leave a waiting reader or writer blocked once the lock is free, for any mix of threads and priorities.",
 ["schedules"], "All interleavings of lock and unlock by any number of threads.",
 "No test covers these locks.",
 ["include/ksync.h"],
 [("reader/writer lock", "include/ksync.h")],
 technique=SCHED, note=NOTE)
prop("C26", "Running the library as a main function is complete and leaves nothing behind",
 "Running a main fiber returns its exact result after it and all work it waited for completed, and can be repeated any number of times in a process without accumulating descriptors, threads or fibers. A call handed to another thread from a fiber runs there exactly once, and the fiber resumes on its own loop with its result while the loop keeps serving other fibers.",
 ["histories", "schedules"], "All repetition counts, nested fiber programs, thread calls and result values.",
 "Tests run one main each; leaks and ordering appear only on repetition.",
 ["src/kselector_manager.c", "src/kfiber.c", "src/kepoll_selector.c"],
 [("main loop", "src/kselector_manager.c:kasync_main"), ("thread call", "src/kfiber.c:kfiber_thread_call")],
 technique=SCHED, note=NOTE)
prop("C27", "A peer's disconnect is reported once to the one who watches for it",
 "Watching an idle connection for the peer's disconnect reports it once when the peer closes or shuts down, not before, and not after the watch was removed or replaced by a read or write; the connection's later operations still see the remaining data and then end of stream. Local shutdown ends pending operations once.",
 ["histories", "schedules"], "All orders of watch, removal, peer data, peer close, local shutdown and following operations.",
 "No test covers disconnect watching.",
 ["src/kselectable.c", "src/kepoll_selector.c", "include/kselectable.h"],
 [("hang-up readiness", "src/kepoll_selector.c:epoll_selector_readhup")],
 technique=IO, note=NOTE)
prop("C28", "Shared strings, lists, atomics and file helpers keep their semantics",
 "A reference-counted string keeps its exact bytes and length until its last holder releases it, whichever thread that is, and is then released once. List helpers keep exactly the inserted and not removed elements in their order. Atomic add, subtract, increment, set and compare-and-set return the documented old or new value and never lose an update between threads. Plain file helpers (open modes, read, write, seek, size, read-all, times) and path helpers give what the same operations on the underlying file system give.",
 ["inputs", "histories", "schedules"], "All strings and lengths (embedded and missing terminators, empty), list operation sequences, file operation sequences and modes, and interleavings of holders and atomic updates.",
 "No test covers these helpers.",
 ["include/kstring.h", "include/klist.h", "include/katom.h", "src/kfile.c", "include/kfile.h"],
 [("string reference count", "include/kstring.h:kstring_release"), ("atomics", "include/katom.h"), ("file modes", "src/kfile.c:kfopen")],
 technique=SEQ, note="Generated operation sequences against reference models under AddressSanitizer, atomics under the deterministic scheduler; no claim outside explored cases.")

def main():
    done = {os.path.basename(p)[:3] for p in glob.glob(f"{V}/props/C*.cc")}
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "python3 check.py --build",
         "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the harness interposes on libc/pthread calls and on the compiler's outlined memory-access callbacks."}
    for p in P:
        if p["id"] in done and not p["na"]:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "No check built yet."})
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
main()
