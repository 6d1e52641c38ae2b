#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
MAP=["coda/shm_hash_map.hpp","coda/shm_hash_map.tcc","coda/shm_pool.hpp","coda/shm_pool.tcc","coda/shm_stack.hpp","coda/shm_stack.tcc"]
QUE=["coda/shm_queue.hpp","coda/shm_queue.tcc"]
NOSHM="No test includes the shared-memory headers at all; "
p("M01","Shared hash map: concurrent operations are linearizable",
 "For any set of processes attached to one shared hash map, the results of all read, insert, erase, batch insert/erase, clear and size calls are those of some one-at-a-time order of the calls that respects real time: a read returns exactly the last value stored for its key (never a mixture of two values), and a batch or a clear is seen entirely or not at all.",
 ["schedules","histories"],"every interleaving of operations of 2-4 attached processes, preempted at any system call or shared-memory access",
 NOSHM+"a test runs one schedule, while a lost lock or a value read half-written shows only under particular preemptions.",
 MAP,[("reader/writer lock on a two-semaphore set","coda/shm_hash_map.tcc lock_read_rw/lock_write_rw"),("chained buckets over a node pool","coda/shm_hash_map.tcc unprotected_insert/erase/read")],
 ["return values and out-parameters of the public operations"])
p("M02","Shared hash map: explicit lock API excludes writers and admits readers",
 "While a process holds the map's write lock taken through the public lock calls, no other process completes any operation on the map or obtains either lock, so a sequence of unlocked-variant operations under it is atomic. While only read locks are held, further readers are admitted and writers wait, and once every holder has released its lock a waiting process proceeds.",
 ["schedules"],"every interleaving of explicit lock/unlock sections and ordinary operations of several processes",
 NOSHM+"mutual exclusion and the absence of a lost release are statements about all schedules.",
 MAP,[("multi-operation semop on R/W semaphores","coda/shm_hash_map.tcc lock_*_rw/unlock_*_rw")],
 ["order of lock acquisition and release, values seen under the locks, progress of waiters"])
p("M03","Shared hash map survives the death of any attached process",
 "If a process dies at any instant, including in the middle of an operation or while it holds a lock, the remaining and later-attaching processes are never blocked and never loop. Every key that the dead process's unfinished operation was not modifying keeps exactly its last acknowledged value, and later inserts, updates and erases keep taking effect, at most losing some capacity.",
 ["crash_points","schedules"],"every instant (system call or single shared-memory store) at which one or two of the attached processes are killed",
 NOSHM+"a kill at a particular store inside an insert, erase or clear cannot be placed by a unit test.",
 MAP,[("SEM_UNDO on every lock operation","coda/shm_hash_map.tcc lock_*"),("order of link/unlink and pool bookkeeping stores","coda/shm_hash_map.tcc, coda/shm_pool.tcc, coda/shm_stack.tcc")],
 ["progress of the survivors, their reads after the death"])
p("M04","Shared hash map: racing first connects give one working map",
 "When any number of processes connect at the same time to a map that may not exist yet, each connect succeeds, all of them share one and the same map, and nothing a process acknowledged is lost or reset by another process still connecting. Afterwards the map's locking still gives mutual exclusion and no process stays blocked; disconnecting and connecting again finds the contents unchanged.",
 ["schedules","histories"],"every interleaving of 2-4 processes that connect, operate, disconnect and reconnect, starting from nothing",
 NOSHM+"the creation race has a window of a few system calls.",
 MAP,[("create-or-open of the semaphore set and segment","coda/shm_hash_map.tcc connect_sem/connect_shm"),("first-attacher initialisation under the write lock","coda/shm_hash_map.tcc attach, shm_pool.tcc attach, shm_stack.tcc attach")],
 ["operation results after connect; semaphore state at quiescence"])
p("M05","Shared hash map: failed connect is clean, disconnect releases everything",
 "A connect that fails for any reason (missing key file, semaphore or segment refused, attach refused, interrupted wait, a map of another shape under the same key) reports it by an exception, leaves the object disconnected and able to connect later, leaves nothing attached and no lock held, and does not disturb other processes or the stored contents. After disconnect or destruction the process has no attachment left.",
 ["fault_sequences","schedules"],"every system call of connect failing, in any order, with other processes active",
 NOSHM+"refused shmget/shmat/semget calls and interrupted waits do not occur in a test run.",
 MAP,[("exception clean-up in connect","coda/shm_hash_map.tcc connect/disconnect"),("shape check","coda/shm_hash_map.tcc attach")],
 ["exceptions, attachment counts, semaphore values, later connects"])
p("M06","Shared hash map: an interrupted or refused lock never runs unlocked",
 "When acquiring the map's lock fails (interrupted by a signal while waiting, semaphore resources exhausted, semaphore set removed), the operation raises an error and has no effect on the map, and it neither releases nor weakens a lock held by another process. All other operations stay linearizable.",
 ["fault_sequences","schedules"],"every interruption or failure of a semaphore operation at any point of any interleaving",
 NOSHM+"EINTR at a contended lock requires a signal at the right instant.",
 MAP,[("error check after semop","coda/shm_hash_map.tcc lock_read_rw/lock_write_rw")],
 ["exceptions and the subsequent contents of the map"])
p("M07","Shared hash map: capacity is exact and never leaks; iteration is complete",
 "Through any history of inserts, updates, erases, batches and clears by any processes, an insert of a new key is refused exactly when the map already holds as many keys as its capacity, erased or cleared room is always reusable, and size equals the number of distinct keys stored. Iterating under a lock visits every stored key exactly once with its value, and nothing else. This holds for maps of any size the segment can be created for, beyond 2 and 4 GB too.",
 ["histories","schedules"],"all histories around the full map with colliding keys, by several processes",
 NOSHM+"a node leaked or reused on one rare path shows only after a particular sequence of erases, collisions and refills.",
 MAP,[("free-node stack and bump index","coda/shm_pool.tcc allocate/free/clear, coda/shm_stack.tcc"),("bucket-walking iterator","coda/shm_hash_map.hpp const_iterator")],
 ["return values of insert/erase/size, keys seen by iteration"])
p("M08","Shared hash map: the death of a connecting process harms nobody",
 "If a process dies at any instant while it connects to the map, be it the one that creates it, every other process can still connect, now and later, nobody stays blocked, all share one and the same map, and that map holds exactly what was acknowledged: it is empty if it was new, and unchanged if it existed.",
 ["crash_points","schedules"],"a kill at every system call and store of a connect, creating or joining, with other connects at the same time or afterwards",
 NOSHM+"a process dying inside the initialisation of the segment cannot be arranged by a test.",
 MAP,[("initialisation of the segment's headers, free-node stack and buckets, each marked complete last","coda/shm_hash_map.tcc attach, coda/shm_pool.tcc attach, coda/shm_stack.tcc attach")],
 ["later connects and their view of the map"])
p("Q01","Shared queue delivers every flushed box once, in order, intact",
 "For any number of writer and reader processes on one shared queue, each box that was flushed while the ring had room is received by exactly one reader, with exactly the messages put into it, in the order they were put, and boxes are received in the order they were flushed. Unread boxes survive the disconnection of every process, and the reported number of boxes at rest equals the number of unread ones.",
 ["schedules","histories"],"every interleaving of writers and readers, preempted at any system call or shared-memory access",
 NOSHM+"loss, duplication and reordering depend on the interleaving of ring-index and semaphore updates.",
 QUE,[("ring lock and box-count semaphore","coda/shm_queue.tcc lock_queue/flush/unflush"),("start/end ring indices","coda/shm_queue.hpp queue_info")],
 ["messages obtained by readers compared with messages put by writers"])
p("Q02","Shared queue survives the death of writers and readers",
 "If a process connected to the queue dies at any instant, the other processes are never blocked by it and never receive a corrupt, duplicated or out-of-order message. At most the box the dead process was itself flushing or taking is lost; boxes flushed by others are at worst delayed, one box per death, until further boxes are flushed (for rings with more usable places than processes have died).",
 ["crash_points","schedules"],"every instant (system call or single shared-memory store) at which one or two participants are killed",
 NOSHM+"a kill between two particular stores or semaphore operations cannot be placed by a test.",
 QUE,[("SEM_UNDO on the ring lock","coda/shm_queue.tcc lock_queue/unlock_queue"),("order of copy, index update and count update","coda/shm_queue.tcc flush/unflush")],
 ["progress and received messages of the survivors"])
p("Q03","Shared queue: interrupted waits never break its mutual exclusion",
 "When signals interrupt processes that wait for the queue's lock or for a box, no process ever proceeds without the lock and no lock or box accounting is lost: messages remain exactly-once, ordered and intact, registers remain consistent, and after the interruptions stop all processes make progress.",
 ["fault_sequences","schedules"],"every placement of EINTR at blocked semaphore operations in any interleaving",
 NOSHM+"EINTR at a contended lock requires a signal at the right instant.",
 QUE,[("semop result handling","coda/shm_queue.tcc lock_queue/unlock_queue/unflush")],
 ["delivered messages, registers, lock semaphore at quiescence"])
p("Q04","Shared queue: waiting for a box honours its timeout and wakes on arrival",
 "Waiting for a box returns false only if no box became available for the whole requested timeout (or, in no-wait mode, none was available at the call) or the wait was interrupted, and it gives up when exactly the requested time (100 ms if none is given) has passed. A box flushed while a reader waits makes a waiting reader return true with it at once, and a false return consumes nothing.",
 ["schedules","inputs"],"every interleaving of waiters and writers on simulated time, for timeouts from microseconds to minutes",
 NOSHM+"timeouts of minutes and races between arrival and expiry are not sampled in real time.",
 QUE,[("semtimedop with a converted timespec","coda/shm_queue.tcc unflush")],
 ["return value and simulated time of return"])
p("Q05","Shared queue: racing first connects give one working queue",
 "When any number of processes connect at the same time to a queue that may not exist yet, each connect succeeds, all share one queue, no flushed box is lost or duplicated because another process is still connecting, and afterwards the lock still gives mutual exclusion and nobody stays blocked.",
 ["schedules"],"every interleaving of 2-4 processes that connect and immediately write and read, starting from nothing",
 NOSHM+"the creation race has a window of a few system calls.",
 QUE,[("create-or-open of the semaphore set","coda/shm_queue.tcc connect_sem"),("segment creation under the lock","coda/shm_queue.tcc connect_shm")],
 ["messages delivered after connect; lock semaphore at quiescence"])
p("Q06","Shared queue: failed connect is clean, disconnect releases everything",
 "A connect that fails for any reason (missing key file, semaphore or segment refused, attach refused, different box size or ring length) reports it by an exception, leaves no lock held, leaves nothing attached, lets the same object connect successfully later, and does not disturb other processes or the queued boxes. After disconnect or destruction the process has no attachment left.",
 ["fault_sequences","schedules"],"every system call of connect failing, in any order, with other processes active",
 NOSHM+"refused shmget/shmat/semget calls do not occur in a test run.",
 QUE,[("connect/disconnect","coda/shm_queue.tcc connect, connect_shm, connect_sem, disconnect")],
 ["exceptions, attachment counts, progress of other processes, later connects"])
p("Q07","Shared queue registers are atomic and independent of the boxes",
 "Each shared register behaves as one atomic integer across all processes: a get returns the latest set in some order consistent with real time, zero before the first set. Registers do not affect one another, are unaffected by any traffic of boxes and by reconnecting, and an out-of-range index changes nothing and reads as zero.",
 ["schedules","histories"],"every interleaving of register operations with box traffic and reconnects by several processes",
 NOSHM+"atomicity is a statement about all interleavings.",
 QUE,[("registers in the shared header under the ring lock","coda/shm_queue.tcc set_register/get_register")],
 ["values returned by get_register"])
p("Q08","Shared queue overflow drops only whole boxes and only when the ring is full",
 "A flushed box is dropped only if the ring already holds its full number of unread boxes (one less than the configured length, and at most 32767, the biggest count a semaphore holds); a drop removes exactly that box, whole, blocks nobody, and leaves the queued boxes, their order and the count untouched. As soon as a reader has taken a box, the next flush is stored again. This holds for rings of any size the segment can be created for, beyond 4 GB too.",
 ["histories","schedules"],"all interleavings that fill and drain small rings with several writers and readers, including wrap-around",
 NOSHM+"a full ring at the wrap-around point is one specific history among many.",
 QUE,[("full test on ring indices","coda/shm_queue.tcc flush")],
 ["messages received, number of boxes reported"])
p("Q09","Shared queue: the death of a connecting process harms nobody",
 "If a process dies at any instant while it connects to the queue, be it the one that creates it, every other process can still connect, now and later, nobody stays blocked, all share one and the same queue, and no box flushed by another process is lost, duplicated or reordered.",
 ["crash_points","schedules"],"a kill at every system call and store of a connect, creating or joining, with other connects and traffic at the same time or afterwards",
 NOSHM+"a process dying inside the creation of the queue cannot be arranged by a test.",
 QUE,[("creation of the semaphore set and initialisation of the ring's header","coda/shm_queue.tcc connect/connect_sem/connect_shm")],
 ["later connects, messages received"])
p("S01","Thread queue delivers each element once, in FIFO order",
 "For any number of producer and consumer threads, every element added to the thread-safe queue is obtained by exactly one get, single or batch, and elements are obtained in the order they were added. A batch get returns at most the requested number and otherwise all elements present at that moment, a non-waiting get fails only when the queue is empty, and size is exact.",
 ["schedules"],"every interleaving of 2-5 threads at any lock operation or memory access",
 "No test uses the thread queue; its guarantees are about all interleavings.",
 ["coda/synque.hpp"],[("one mutex around a deque","coda/synque.hpp add/get/size")],["return values of add/get/size"])
p("S02","Thread queue never strands a waiter and never loses a wake-up",
 "A consumer waiting on the queue is woken when an element is added for it: it never happens that the queue stays non-empty while consumers remain blocked. A signal call wakes a waiting consumer, which then returns (empty-handed if nothing is queued); non-waiting calls never block, and a waiting get never returns empty-handed without a reason: a signal, a spurious wake-up, or an added element that another consumer took first.",
 ["schedules","fault_sequences"],"every interleaving of waits, adds, signals and spurious wake-ups of several threads",
 "No test uses the thread queue; a lost wake-up needs one exact interleaving.",
 ["coda/synque.hpp"],[("condition variable signalled under the mutex","coda/synque.hpp add/signal/get")],["set of blocked threads at quiescence; return values"])
p("S03","Thread queue stays usable when an allocation or element copy fails",
 "If storing or copying an element fails with an exception inside add or get, the exception reaches the caller, no lock stays held, every other thread can go on using the queue, and no element is lost, duplicated or reordered: a failed add adds nothing, and an element whose extraction failed stays at the head of the queue or is already in the caller's output; no consumer stays asleep while an element is left.",
 ["fault_sequences","schedules"],"an allocation or copy failing at any point of any interleaving",
 "Allocation failures do not occur in a test run.",
 ["coda/synque.hpp"],[("mutex release on every path","coda/synque.hpp add/get")],["exceptions, progress of other threads, elements obtained"])
p("C01","Cache entries live exactly their lifetime, whatever the clock does",
 "A lookup returns the most recently stored value of its key until more than the configured lifetime has passed on the clock since the entry's time stamp, and never after that; the stamp is set at first insertion and moved only by a store that asks for it. With lifetime zero entries never expire, and clock jumps in either direction change nothing but the age so computed; an expired entry that is looked up disappears and its room is released.",
 ["schedules","histories"],"all histories of store/lookup/erase under arbitrary clock advances, jumps and steps backwards",
 "The cache test prints results for two sleeps and always exits 0.",
 ["coda/cache.hpp","coda/cache.tcc"],[("time stamp compare on lookup","coda/cache.tcc get"),("conditional re-stamp","coda/cache.tcc set")],["values returned by both get forms"])
p("C02","Cache never exceeds its size limit and evicts the oldest entries first",
 "After every operation the total estimated size of the stored values is at most the configured maximum. When a store exceeds the maximum, entries are removed strictly in order of least recent store until the rest fits, and no more than necessary; no other operation than eviction, expiry on lookup or erase ever removes an entry, and the reported element count and size always match the entries retrievable.",
 ["histories"],"all histories of stores, overwrites with other sizes, erases and expiries on a simulated clock",
 "The cache test stores one element; order of eviction depends on long histories.",
 ["coda/cache.hpp","coda/cache.tcc","coda/estimate_capacity.hpp"],[("doubly linked age list and size counter","coda/cache.tcc set/erase/drop_last_unused")],["get results and the dbg report"])
p("C03","Cache survives allocation failure with contents and accounting intact",
 "If memory runs out or copying a value fails inside a store, the exception reaches the caller, and afterwards the affected key either still has its previous value or is absent, every other entry is intact or was evicted oldest-first, a lookup never returns a value that was not stored, and the size limit and eviction order keep working as before.",
 ["fault_sequences","histories"],"an allocation or value copy failing at any point of any history",
 "Allocation failures do not occur in a test run.",
 ["coda/cache.hpp","coda/cache.tcc"],[("order of linking, value assignment and size accounting","coda/cache.tcc set")],["get results, dbg report after a failure"])
p("L01","Each enabled log message is exactly one intact line; others print nothing",
 "A log call whose severity is within the configured threshold writes exactly one line with the local wall-clock time of the call, its severity, the calling thread's name (or its id if it has none) and the formatted message, however long, and a call beyond the threshold writes nothing. Lines of concurrently logging threads never mix, none is lost, and each thread's lines keep its call order and only its own name.",
 ["schedules"],"every interleaving of logging threads that set names and log at all levels while the clock moves",
 "No test exercises the logger.",
 ["coda/logger.h","coda/logger.c"],[("one formatted stream write per message","coda/logger.h log_fmt"),("thread-specific name","coda/logger.c log_thread_name_set/get")],["bytes written to the log destination"])
p("L02","A failed log open or rotation keeps the old destination and leaks nothing",
 "If creating or rotating the log file fails at any system call, the call returns an error, messages keep going to the previous destination at the previous level, and no descriptor is left open; on success they go to the new file, appended after its existing contents, creating missing parent directories, with exactly the requested level. The caller's path string is never modified, not even temporarily, and no descriptor other than the standard error stream is kept.",
 ["fault_sequences"],"every system call of log creation and rotation failing, across sequences of rotations",
 "No test exercises the logger, and failing open/dup2/mkdir calls do not occur in tests.",
 ["coda/logger.c","coda/system.c"],[("open then dup2 over standard error","coda/logger.c log_create, coda/system.c coda_fdopen/coda_fdmove")],["contents of log files, open descriptors, return values"])
p("L03","Log rotation loses, duplicates and splits no message",
 "While some threads log and others rotate the log, or several processes append to the same file, every message of whatever length appears exactly once and whole, in either the file that was current before or the one current after the rotation, in the order each thread wrote them, and existing log contents are never overwritten or truncated.",
 ["schedules"],"every interleaving of logging threads, rotations, renames and a second process appending to the same path",
 "No test exercises rotation; a lost line needs a write between two particular system calls.",
 ["coda/logger.c","coda/system.c","coda/logger.h"],[("atomic descriptor replacement by dup2","coda/system.c coda_fdmove"),("append mode","coda/logger.c log_create")],["contents of all log files"])
p("P01","A pid file admits at most one running daemon",
 "Among any number of processes that start, run, stop and restart with the same pid file, at most one at a time has started successfully and not yet stopped, whatever the interleaving. When nobody owns the pid file, an undisturbed start succeeds; after an orderly stop the file is gone and the next start succeeds; a start that is refused leaves the owner's file untouched.",
 ["schedules","crash_points"],"every interleaving and kill of 2-4 processes at any system call of start and stop",
 "No test exercises the pid file.",
 ["coda/system.c","coda/daemon.c"],[("non-blocking exclusive file lock plus emptiness check","coda/system.c coda_mkpidf"),("removal on stop","coda/daemon.c coda_daemon_stop")],["success of start calls over time, pid file contents"])
p("P02","Successful start leaves an exact pid file; failed start leaves no residue",
 "When writing the pid file reports success, the file contains exactly the decimal id of the calling process and a newline, even if writes are short or interrupted. When it reports failure because of any failing system call, no descriptor or lock is left behind and the failed attempt does not make a later attempt fail. A stop that reports success has removed the pid file; one that could not remove it reports failure.",
 ["fault_sequences","crash_points"],"every system call of pid-file creation failing or writing short",
 "No test exercises the pid file, and disk-full or short writes do not occur in tests.",
 ["coda/system.c"],[("write and error paths","coda/system.c coda_mkpidf")],["pid file contents, open descriptors, result of the next attempt"])
p("P03","Detaching leaves one clean background session or reports failure",
 "After a successful detach the continuing process is a child of the original one, leads its own session, has standard input and output on the null device and standard error untouched, has a file mode mask of zero and no additional descriptor open, while the original process has exited successfully. A start that is not asked to detach stays in the calling process and session. After a successful start each managed signal sets its flag. If a system call needed for this fails, the call reports failure instead of success; a pid file written by a detaching start names the surviving background process, and a start refused because another daemon holds the pid file reports failure and leaves that file unchanged.",
 ["fault_sequences","configurations"],"every system call of detaching failing, started with any of the standard descriptors closed or open",
 "No test exercises daemon code; a test process that forks and exits cannot observe it.",
 ["coda/daemon.c","coda/system.c"],[("fork, setsid, dup2 sequence","coda/daemon.c coda_daemon_fork"),("pid file after fork","coda/daemon.c coda_daemon_load")],["descriptor table, session, exit status, pid file"])
p("P04","Every managed signal sets exactly its own flag, at any moment",
 "After signal set-up, a hang-up, terminate or interrupt, user-1 or user-2 signal arriving at any point of the program sets exactly the reload, terminate, rotate-log or change-binary flag and no other, all other managed signals set none, and none of them kills or stops the process. Flags stay set until the program clears them, repeated signals do not cancel each other, and the interrupted code finds its error number unchanged, whatever handlers the program or its parent had set before.",
 ["schedules","fault_sequences"],"signals in any order arriving between any two steps of running or logging code, with failing log writes",
 "No test exercises signal handling.",
 ["coda/daemon.c","coda/daemon.h"],[("signal table and handler","coda/daemon.c CODA_SIG_LIST, coda_signal_handle")],["the four flags, errno, process survival"])
p("P05","Signal masks defer and restart modes interrupt exactly as asked",
 "A managed signal blocked through the mask call sets no flag until it is unblocked and then sets it once; signals not named in the mask are unaffected. After the no-restart set-up a signal arriving during a blocking system call makes that call return as interrupted, after the default set-up the call resumes, and in both cases the signal's flag is set.",
 ["schedules","configurations"],"any sequence of masks, set-ups and signals around blocking calls",
 "No test exercises signal handling.",
 ["coda/daemon.c"],[("sigprocmask over the managed list","coda/daemon.c coda_signal_mask"),("handler installation without restart","coda/daemon.c coda_signal_init_norestart")],["flags, result of the interrupted call"])
p("F01","Making parent directories tolerates races and restores its argument",
 "When any number of processes create the parent directories of overlapping paths at once, every call succeeds and all parent directories of its path exist afterwards, while the last path component is not created. A call fails only if some component could not be created or entered, and on every outcome the path string is the same as before the call.",
 ["schedules","fault_sequences"],"every interleaving of several creators on overlapping trees, with failing mkdir calls",
 "No test exercises it, and the race between two creators needs an exact interleaving.",
 ["coda/system.c"],[("tolerating already existing directories","coda/system.c coda_mkpath")],["directory tree, return value, path string"])
p("F02","File mapping yields the whole file or fails without leaking",
 "A successful file mapping gives the file's exact contents and size (resized first if a size was given), writes through a shared writable mapping reach the file, and an anonymous mapping is zeroed memory of the requested size. If any system call fails, the call reports failure and leaves no descriptor open and no mapping behind; on success no descriptor stays open either. A failed call can be repeated with the same area and is then decided afresh.",
 ["fault_sequences","inputs"],"every system call of mapping failing, for existing, missing, empty and resized files",
 "No test exercises it, and failing mmap/fstat/ftruncate calls do not occur in tests.",
 ["coda/system.c","coda/system.h"],[("error paths","coda/system.c coda_mmap")],["mapped bytes, open descriptors, mappings"])
p("F03","Opening onto a descriptor replaces it atomically or not at all",
 "Opening a file onto a given descriptor number either returns that number now referring to the opened file, with no other descriptor left open, or fails with the target descriptor still referring to what it did before and nothing leaked; with a negative or equal target the new descriptor itself is returned. At no instant in between is the target closed or reused for something else, whatever other threads open meanwhile.",
 ["fault_sequences","schedules"],"every system call failing, with other threads opening and closing files at any point",
 "No test exercises it.",
 ["coda/system.c"],[("dup2 then close","coda/system.c coda_fdmove/coda_fdopen")],["descriptor table"])
p("N01","Socket receive survives signals; send never kills the process",
 "Receiving returns the next available bytes, zero at end of stream, or an error other than interruption: interruptions by signals are retried and never lose or repeat bytes. Sending to a peer that has gone away returns an error and never raises a pipe signal, and every byte reported as sent arrives exactly once and in order.",
 ["fault_sequences","schedules"],"every interruption, short transfer, reset and close on a simulated stream",
 "No test exercises socket code.",
 ["coda/socket.h"],[("retry loop","coda/socket.h coda_unix_recv"),("signal suppression flag","coda/socket.h coda_unix_send")],["bytes received and sent, signals"])
p("N02","Socket set-up either yields a fully configured socket or leaks nothing",
 "Listening, connecting and accepting return a socket that is bound, connected or accepted as requested (given address and port, address reuse for listeners, non-blocking mode exactly if requested, and the peer's address reported on accept), or return an error with no descriptor left open. A non-blocking connect still in progress counts as success.",
 ["fault_sequences","configurations"],"every system call of set-up failing, in blocking and non-blocking mode",
 "No test exercises socket code, and these failures do not occur in tests.",
 ["coda/socket.h"],[("close on each error path","coda/socket.h coda_listen/coda_accept/coda_connect")],["socket state, open descriptors, return value"])
p("N03","A receive timeout expires after exactly the requested time",
 "After a receive timeout of N microseconds has been set successfully, a receive with no data returns after N microseconds and not earlier (zero meaning no limit), data arriving before that is returned at once, and setting succeeds for every non-negative N, short or long.",
 ["schedules","inputs"],"all timeouts from one microsecond to hours against all arrival times on the simulated clock",
 "No test exercises socket code, and long timeouts are not sampled in real time.",
 ["coda/socket.h"],[("timeval conversion","coda/socket.h coda_set_socket_timeout")],["return value and simulated time of return"])
p("R01","Random initialisation succeeds only fully seeded, and leaks nothing",
 "Random initialisation reports success only if a complete seed was read from the system's random source, and then the generator is seeded with it exactly once, however often and by however many threads at once it is called. On any failing or short read it reports failure, leaves no descriptor open, and a later call can still succeed; random strings always have the requested length and use only the given alphabet, even when no seed is available.",
 ["fault_sequences","schedules"],"every open/read/close failing or short, over any sequence of calls by 1-4 threads",
 "No test exercises it, and a short read of the random device does not occur in tests.",
 ["coda/random.c","coda/string.cpp"],[("seed read and once-flag","coda/random.c coda_random_init")],["return values, seeding, open descriptors"])
p("X01","Loading XML from a file equals loading it from memory, or fails cleanly",
 "Loading a document from a file gives exactly the values loading the same bytes from memory gives, in one piece or of any size, however the file is split by reads and whatever its length relative to the read buffer. A read error, malformed or truncated document or exhausted memory raises an exception, never silently accepts a partial document, an exception of the object's own code reaches the caller unchanged, and in every case the file is closed and no memory is leaked.",
 ["fault_sequences","inputs"],"all documents around the buffer size under all read splits, read errors and allocation failures",
 "One test parses one 30-byte string from memory; files, chunk boundaries and failures are untested.",
 ["coda/txml.cpp","coda/txml.hpp"],[("chunked read loop","coda/txml.cpp load_from_file"),("accumulating character data","coda/txml.cpp characters/begelement/endelement")],["loaded values, exceptions, open files"])
p("A01","String storage survives allocation failure without losing strings",
 "If memory runs out while a string is added, the call returns null (or succeeds), the process does not crash, every string added before is still found and enumerated exactly once with its user data unchanged at the same address, and later additions work. Adding the same string again always returns the same user data, distinct strings have their own, which starts as zeros, however long they are and however much they have in common, enumeration reports each string's text (its first 255 characters), and releasing the storage frees everything.",
 ["fault_sequences","histories"],"an allocation failing at any point of any sequence of additions",
 "The smoke test adds three strings and always exits 0; allocation never fails in it.",
 ["coda/stringstorage.c","coda/stringstorage.h"],[("growable child arrays and string blocks","coda/stringstorage.c internal_find_add")],["pointers returned by add, enumeration, live allocations"])
p("A02","Codecs report allocation failure without crashing or leaking",
 "When an allocation fails inside an allocating or fixed-buffer encode or decode call, the call does not crash: the allocating forms set the output to null and never return partial data as valid, the fixed-buffer decode reports an error. Whether or not allocation or decoding fails, no memory other than the returned buffer stays allocated, and when no allocation fails decoding gives back the encoded bytes.",
 ["fault_sequences","inputs"],"an allocation failing at any point of any encode or decode of valid or invalid data",
 "Tests decode valid base58 with working allocation only.",
 ["coda/base58.c","coda/base64.c"],[("null checks and frees on each path","coda/base58.c, coda/base64.c *_alloc")],["return values, output pointers, live allocations"])
p("A03","URL objects survive allocation failure and never leak",
 "When an allocation fails while a URL object is created, copied or assigned, the call reports failure or leaves the object empty but valid, without crashing; the source object is unchanged, the object can be reset, assigned and destroyed afterwards, and the given text is never read beyond its length, and no memory is leaked or freed twice in any history of such operations.",
 ["fault_sequences","histories"],"an allocation failing at any point of any history of create/copy/assign/destroy",
 "URL parsing has no automatic test and allocation never fails in tests.",
 ["coda/url_parser.cpp","coda/url_parser.hpp"],[("ownership of one malloc'd buffer","coda/url_parser.cpp constructors, operator=, create_*")],["URL text of all objects, live allocations"])
p("A04","Formatted appends are all-or-nothing when memory runs out",
 "If memory runs out while text is formatted into, appended to or inserted in a string, the exception reaches the caller, the target string is unchanged and nothing is leaked; otherwise exactly the formatted text, cut at the given limit, is added at the given place and its length returned, whatever its length relative to internal buffers and however big the limit.",
 ["fault_sequences","inputs"],"an allocation failing at any point, for outputs around the internal buffer size",
 "No test exercises these helpers.",
 ["coda/string.cpp"],[("temporary buffer and single append","coda/string.cpp coda_strappend/coda_strnappend/coda_strnprintf/coda_strprintf")],["target string, return value, live allocations"])
p("A05","Calls that fill containers are complete or fail",
 "When memory runs out while text is split, escaped, unescaped, stripped of tones or parsed into sets, query parameters or headers, the exception reaches the caller; a call that returns normally returns its complete result. What the caller's container held before stays in it, unless the call replaced it with a parsed value of the same key, nothing that is not in the text is put into it, the text is not changed nor read beyond its length, and nothing is leaked.",
 ["fault_sequences","inputs"],"an allocation failing at any point of any of these calls, into empty and non-empty containers",
 "No test exercises these helpers, and allocation never fails in tests.",
 ["coda/string.cpp","coda/url.cpp","coda/vietnam.cpp"],[("results built in containers","coda/string.cpp coda_split_string, coda_get_*set; coda/url.cpp; coda/vietnam.cpp")],["returned strings and containers, live allocations"])
p("T01","A millisecond sleep lasts exactly as long as asked unless interrupted",
 "Sleeping for N milliseconds suspends the caller for exactly N milliseconds of clock time for every non-negative N and then reports success; if a signal interrupts it, it returns early and reports the interruption.",
 ["inputs","fault_sequences"],"all durations including whole seconds and hours, interrupted at any instant, on simulated time",
 "No test exercises it, and hour-long sleeps cannot be sampled in real time.",
 ["coda/gmtime.h"],[("timespec conversion","coda/gmtime.h coda_msleep")],["simulated time elapsed, return value"])
p("H01","Calls on distinct objects depend on nothing but their arguments",
 "Whatever threads do at the same time and whatever was called before: every encoding, decoding, escaping, parsing, searching, formatting, URL, storage, cache, document and error-text call on a thread's own arguments and objects gives exactly the result the same call gives alone in a fresh process, and changes neither its inputs nor another thread's results.",
 ["schedules","histories"],"every interleaving of 1-3 threads calling any of these functions, pre-empted at any heap or static memory access, after any earlier calls",
 "Tests call each function once in one thread; a shared buffer, a lazily built table or a stale variable shows only among other calls.",
 ["coda/base58.c","coda/base64.c","coda/web64.c","coda/string.c","coda/string.cpp","coda/stringstorage.c","coda/url.cpp","coda/url_parser.cpp","coda/vietnam.cpp","coda/easy_parsing.cpp","coda/txml.cpp","coda/txml.hpp","coda/error.hpp","coda/error.h","coda/gmtime.h","coda/socket.h","coda/logger.c"],
 [("no mutable static state; buffers on the caller's stack","all of the listed files"),("error text in a buffer of the caller","coda/error.h coda_strerror")],["results of the calls, their inputs"])
# ---- pure functions: listed for breadth, not simulation targets
NA="pure function of its input: "
p("B01","Base58 and base64 codecs round-trip and reject foreign characters",
 "Decoding an encoded byte string gives the original bytes for every input including leading zeros and the empty string, the web-safe variant likewise, encoding uses only the documented alphabet and padding, and decoding input with a character outside the alphabet or wrong padding reports an error instead of data.",
 ["inputs"],"all byte strings","Fourteen fixed base58 vectors; base64 and web64 have no test.",
 ["coda/base58.c","coda/base64.c","coda/web64.c"],[("digit tables and bit packing","coda/base58.c, coda/base64.c, coda/web64.c")],["encoded and decoded bytes"])
p("U01","URL escaping round-trips every byte string",
 "Unescaping an escaped string gives the original bytes, with and without plus for blank, escaped output contains only characters allowed in a URL, and unescaping never reads or writes outside its buffers.",
 ["inputs"],"all byte strings","No automatic test.",["coda/url.cpp"],[("escape tables","coda/url.cpp")],["returned strings"])
p("U02","URL normalisation is idempotent and never leaves the host",
 "Creating a URL from an already normalised URL returns it unchanged, dot segments never climb above the root of the host, resolving a relative reference keeps the parent's scheme and host, and the reported domain is the registered suffix of the host.",
 ["inputs"],"all URL texts and parents","No automatic test; the URL tool has no expected outputs.",["coda/url_parser.cpp"],[("segment rewriting","coda/url_parser.cpp assign_refers/assign_anchor")],["get_url/get_domain"])
p("U03","Query and header parsing recovers exactly the given pairs",
 "Parsing a query string or header block yields for each key the text of its last occurrence, ignores parts without separator, stops headers at the empty line, and never reads beyond the given length.",
 ["inputs"],"all byte strings","No automatic test.",["coda/url.cpp"],[("separator scan","coda/url.cpp coda_get_params_buf/coda_get_header_buf")],["resulting maps"])
p("W01","String search and span helpers agree with their definitions within bounds",
 "Each search, span and splitting helper returns what its definition over the given characters says, for both directions and case modes, and never reads outside the stated length.",
 ["inputs"],"all strings, alphabets and lengths","No automatic test.",["coda/string.c","coda/string.h","coda/string.cpp","coda/easy_parsing.cpp"],[("loops over bounded buffers","coda/string.c")],["returned positions and lists"])
p("W02","Bounded integer parsing accepts exactly decimal numbers",
 "Converting a bounded digit string gives its value for every number that fits and zero for malformed input, never reading beyond the given size.",
 ["inputs"],"all byte strings","No automatic test.",["coda/string.h"],[("digit loop","coda/string.h coda_atou/coda_atoi")],["returned integers"])
p("G01","Calendar conversion matches the Gregorian calendar",
 "Converting any non-negative time to calendar fields gives the correct UTC date, time of day and weekday.",
 ["inputs"],"all non-negative times","No automatic test.",["coda/gmtime.h"],[("Gauss formula","coda/gmtime.h coda_gmtime")],["calendar fields"])
p("V01","Tone removal maps each letter to its base and keeps all other text",
 "Removing tones replaces exactly the Vietnamese toned letters by their base letters, drops combining marks, and passes every other character, including incomplete trailing sequences, through unchanged.",
 ["inputs"],"all byte strings","No automatic test.",["coda/vietnam.cpp"],[("code point table","coda/vietnam.cpp")],["returned string"])
p("D01","Command-line options and level names parse to the documented settings",
 "Parsing a command line sets exactly the given configuration, pid-file and daemon options with the last occurrence winning, rejects unknown options, and every level name maps to its level with unknown names meaning informational.",
 ["inputs"],"all argument vectors and level names","No automatic test.",["coda/daemon.c","coda/logger.c"],[("getopt table, letter switch","coda/daemon.c coda_getopt_parse, coda/logger.c log_levels")],["parsed options, level"])
p("K01","String storage trie finds every string for arbitrary key sets",
 "With working allocation, for any set of strings shorter than a block, every added string is found under its own entry, distinct strings have distinct entries, and enumeration reports each string's exact text.",
 ["inputs"],"all sets of strings","The smoke test adds three strings and always exits 0.",["coda/stringstorage.c"],[("prefix-sharing trie","coda/stringstorage.c internal_find_add")],["returned entries, enumerated keys"])
p("K02","Logarithmic array and size estimates follow their definitions",
 "A value maps to the slot of its binary logarithm capped at the last slot, and size estimates equal the stated formula for each supported type.",
 ["inputs"],"all values","No automatic test.",["coda/log_array.hpp","coda/estimate_capacity.hpp"],[("shift loop, overloads","coda/log_array.hpp")],["slots and sizes"])
p("X02","XML values convert by type and lists grow by one per element",
 "Each element or attribute is delivered to the member it names, converted to that member's type, and each repeated element adds exactly one entry to its list or vector in document order.",
 ["inputs"],"all documents","One test parses one document.",["coda/txml.cpp","coda/txml.hpp"],[("level stack and setValue overloads","coda/txml.hpp")],["loaded values"])
for x in P: print(json.dumps(x,ensure_ascii=False))
