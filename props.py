# What each check runs. quick/thorough: number of simulated executions.
WRAP = {
    'mem': ['memcpy', 'memset', 'memmove', 'memcmp'],
    'alloc': ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'asprintf', 'vasprintf', 'reallocarray'],
    'pth': ['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_mutex_timedlock', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_once', 'pthread_key_create', 'pthread_key_delete', 'pthread_setspecific', 'pthread_getspecific', 'pthread_self', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'] + ['_ZNSt18condition_variable' + x for x in ('C1Ev', 'D1Ev', '4waitERSt11unique_lockISt5mutexE', '10notify_oneEv', '10notify_allEv')],
    'clk': ['time', 'gettimeofday', 'clock_gettime', 'nanosleep', 'clock_nanosleep', 'usleep', 'sleep', 'timespec_get', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv'],
}
KERNEL = 'System V semaphores (semop/semtimedop with SEM_UNDO), shared-memory segments and ftok: sim/ipc.cpp'
SCHED = 'scheduler, clock, process death: sim/core.cpp; every shared load/store reported by compiler instrumentation: sim/mem.cpp'
HARNESS = {
    'map': dict(src=['h_map.cpp'], flavour='tsan', sim=['core', 'ipc', 'mem', 'alloc', 'lin', 'pth'],
                real=['coda/shm_hash_map.hpp+.tcc', 'coda/shm_pool.hpp+.tcc', 'coda/shm_stack.hpp+.tcc', 'coda/error.hpp'],
                stub=[KERNEL, SCHED],
                assume=['sequentially consistent shared memory', 'the System V stub behaves as Linux does (semctl zero-initialises new sets, undo is per process)']),
}
PROPS = {}


def P(id, h, quick, thorough, **kw):
    PROPS[id] = dict(h=h, quick=quick, thorough=thorough, **kw)


LINZ = 'a linearizability search over a capacity-bounded map'
P('M01', 'map', 800000, 12000000, tech='interleavings of 2-4 processes, pre-empted at every system call and shared-memory access', oracle=LINZ)
P('M02', 'map', 800000, 10000000, tech='interleavings of lock sections and operations of 2-4 processes', oracle='a lock-section monitor, ' + LINZ + ' and absence of stuck processes')
P('M03', 'map', 800000, 12000000, tech='interleavings and kill points (system calls, single stores) of 2-4 processes', oracle='a linearizability search that admits only the loss of what dead processes were modifying')
P('M04', 'map', 800000, 8000000, tech='interleavings of racing first connects, operations and reconnects', oracle=LINZ + ' and absence of failed connects and stuck processes')
P('M05', 'map', 800000, 8000000, tech='failing and interrupted system calls of connect while other processes work', oracle='attachment and lock accounting, later connects and ' + LINZ)
P('M06', 'map', 800000, 10000000, tech='interrupted and refused semaphore operations in interleavings of 2-4 processes', oracle=LINZ + ' in which refused operations have no effect')
P('M08', 'map', 800000, 8000000, tech='kill points (system calls, single stores) of 2-4 connecting processes and their interleavings', oracle=LINZ + ' and absence of failed connects and stuck processes')
P('M07', 'map', 800000, 8000000, tech='histories of 1-3 processes around the full map', oracle='an exact-capacity reference map and iteration audits')

PURE = 'a pure function of its input: there is no schedule, clock, fault or interleaving for a simulator to decide; generating inputs for it would be another technique'
NA = {i: PURE for i in 'B01 U01 U02 U03 W01 W02 G01 V01 D01 K01 K02 X02'.split()}

HARNESS['queue'] = dict(src=['h_queue.cpp'], flavour='tsan', sim=['core', 'ipc', 'mem', 'alloc', 'lin', 'pth'],
                real=['coda/shm_queue.hpp+.tcc', 'coda/error.hpp'], stub=[KERNEL, SCHED], assume=HARNESS['map']['assume'])
QH = 'uniquely numbered, checksummed messages: exactly-once, interval FIFO order, whole boxes, ring-occupancy bounds, counts at rest'
P('Q01', 'queue', 640000, 8000000, tech='interleavings of 2-4 writers and readers', oracle=QH)
P('Q02', 'queue', 640000, 10000000, tech='interleavings and kill points of 2-4 writers and readers', oracle=QH + '; only what dead processes were handling may be missing')
P('Q03', 'queue', 640000, 8000000, tech='interruptions of blocked semaphore operations in interleavings of 2-4 processes', oracle=QH)
P('Q04', 'queue', 640000, 8000000, tech='interleavings of waiters and writers on a virtual clock', oracle='exact virtual times of return; ' + QH)
P('Q05', 'queue', 640000, 8000000, tech='interleavings of racing first connects and traffic', oracle=QH + '; no failed connect')
P('Q06', 'queue', 640000, 8000000, tech='failing and interrupted system calls of connect while other processes work', oracle='attachment accounting, later connects; ' + QH)
P('Q07', 'queue', 640000, 8000000, tech='interleavings of register operations with traffic and reconnects', oracle='a linearizability search over twelve registers')
P('Q09', 'queue', 640000, 8000000, tech='kill points (system calls, single stores) of 2-4 connecting processes and their interleavings', oracle=QH + '; no failed connect, nobody stuck')
P('Q08', 'queue', 640000, 8000000, tech='interleavings that fill and drain rings of 2-4 places', oracle=QH)

HARNESS['synque'] = dict(src=['h_synque.cpp'], flavour='tsan', sim=['core', 'mem', 'alloc', 'pth'],
                real=['coda/synque.hpp'], stub=['pthread mutexes and condition variables (with spurious wake-ups): sim/pth.cpp', SCHED, 'malloc: sim/alloc.cpp'],
                assume=['sequentially consistent memory', 'pthread stubs allow everything POSIX allows for default mutexes and conditions'])
P('S01', 'synque', 800000, 6000000, tech='interleavings of 2-5 threads, pre-empted at every lock operation and memory access', oracle='a search for a FIFO order that explains all results')
P('S02', 'synque', 800000, 8000000, tech='interleavings of waits, adds and signals with spurious wake-ups', oracle='the set of blocked threads at rest and a reason for every empty return')
P('S03', 'synque', 800000, 8000000, tech='failing allocations and element copies in interleavings of 1-4 threads', oracle='a search for a FIFO order in which failed adds have no effect; nobody blocked; nothing leaked')

CLK = 'clocks and sleeps: sim/clk.cpp'
MEM = 'malloc and operator new: sim/alloc.cpp'
HARNESS['cache'] = dict(src=['h_cache.cpp'], flavour='asan', sim=['core', 'alloc', 'clk'],
                real=['coda/cache.hpp+.tcc', 'coda/estimate_capacity.hpp', 'coda/string.cpp'], stub=[CLK, MEM], assume=['one thread (the cache has no locking of its own)'])
P('C01', 'cache', 1000000, 6000000, tech='histories with clock advances, jumps and steps backwards', oracle='a reference cache on the virtual clock')
P('C02', 'cache', 240000, 6000000, tech='histories of stores, overwrites, erases and expiries', oracle='a reference cache with exact eviction order and size accounting')
P('C03', 'cache', 240000, 6000000, tech='failing allocations and value copies at drawn points of histories', oracle='a reference cache in which a failed store keeps or removes the key; exact accounting; nothing leaked')

KRN = 'kernel (files, descriptors, memory mappings, fork and exit, signals, stream sockets, standard error): sim/vfs.cpp, sim/sig.cpp, sim/net.cpp'
KRNSIM = ['core', 'mem', 'alloc', 'pth', 'clk', 'vfs', 'sig', 'net']
WRAP['vfs'] = '_Exit _IO_putc _exit abort access chdir chmod close creat creat64 dprintf dup dup2 dup3 exit fchmod fclose fcntl fcntl64 fdatasync fdopen fflush fileno flock flockfile fopen fopen64 fork fprintf fputc fputc_unlocked fputs fputs_unlocked freopen freopen64 fstat fstat64 fsync ftruncate ftruncate64 funlockfile fwrite fwrite_unlocked getentropy getpid getppid getrandom getsid isatty lockf lockf64 lseek lseek64 lstat lstat64 mkdir mkdirat faccessat fstatat fstatat64 mmap mmap64 munmap open open64 openat openat64 perror pread pread64 printf putc putc_unlocked putchar puts pwrite pwrite64 rand random read remove rename rmdir setsid setvbuf srand srandom stat stat64 truncate truncate64 umask unlink unlinkat vdprintf vfork vfprintf vprintf write writev'.split()
WRAP['sig'] = '__sysv_signal bsd_signal kill pause pthread_sigmask raise sigaction siginterrupt signal sigpending sigprocmask sysv_signal'.split()
WRAP['net'] = 'accept accept4 bind connect getpeername getsockname getsockopt ioctl listen poll ppoll select pselect recv recvfrom recvmsg send sendmsg sendto setsockopt shutdown socket'.split()
HARNESS['logger'] = dict(src=['h_logger.cpp'], flavour='tsan', sim=KRNSIM,
                real=['coda/logger.c', 'coda/logger.h', 'coda/system.c', 'coda/error.h'], stub=[KRN, CLK, SCHED, 'pthread once and thread-specific data: sim/pth.cpp', MEM],
                assume=['standard error behaves as glibc\'s unbuffered stream: one lock per call, writes of at most 8192 bytes'])
P('L01', 'logger', 600000, 5000000, tech='interleavings of 2-4 logging threads on a moving clock', oracle='the exact set and order of expected lines')
P('L02', 'logger', 1000000, 6000000, tech='failing system calls in sequences of log creations, rotations and messages', oracle='a model of the current destination and level; the descriptor table')
P('L03', 'logger', 700000, 5000000, tech='interleavings of logging threads, rotations, renames and a second process', oracle='each message whole and exactly once in a file that was current during the call')
HARNESS['daemon'] = dict(src=['h_daemon.cpp'], flavour='tsan', sim=KRNSIM,
                real=['coda/daemon.c', 'coda/system.c', 'coda/logger.c', 'coda/logger.h', 'coda/socket.h (P05)'], stub=[KRN, CLK, SCHED, MEM],
                assume=['standard error behaves as glibc\'s unbuffered stream', 'after fork one of the two processes is followed, drawn at random; the parent\'s only remaining action is to exit'])
P('P01', 'daemon', 1500000, 8000000, tech='interleavings and kill points of 2-4 processes that start and stop', oracle='an ownership monitor over the recorded starts and stops')
P('P02', 'daemon', 2000000, 8000000, tech='failing, short and interrupted system calls of pid-file creation', oracle='exact file contents, descriptor and lock tables and the result of the next attempt')
P('P03', 'daemon', 1000000, 6000000, tech='failing system calls, fork roles and descriptor configurations of detaching', oracle='descriptor table, session, exit status and pid file')
P('P04', 'daemon', 2000000, 6000000, tech='signals delivered at any system call or memory access of running and logging code', oracle='a model of the four flags; errno; process survival')
P('P05', 'daemon', 2000000, 6000000, tech='sequences of masks, set-ups and signals around blocking calls', oracle='a model of pending and blocked signals and of call interruption')
HARNESS['system'] = dict(src=['h_system.cpp'], flavour='tsan', sim=KRNSIM,
                real=['coda/system.c', 'coda/logger.c'], stub=[KRN, SCHED, MEM],
                assume=['a descriptor is released even if close reports a failure, as on Linux'])
P('F01', 'system', 2000000, 6000000, tech='interleavings, kill points and failing system calls of 1-4 processes creating overlapping paths', oracle='the resulting directory tree and the image of the path string')
P('F02', 'system', 800000, 6000000, tech='failing system calls and file replacements by another process', oracle='a model of the file contents; the descriptor and mapping tables')
P('F03', 'system', 2000000, 6000000, tech='interleavings of 1-3 threads that open and move descriptors, with failing system calls', oracle='a monitor of every change of the descriptor table')
HARNESS['net'] = dict(src=['h_net.cpp'], flavour='asan', sim=[x for x in KRNSIM if x != 'mem'],
                real=['coda/socket.h', 'coda/gmtime.h (sleep)', 'coda/random.c', 'coda/string.cpp (random strings)'], stub=[KRN, CLK, 'scheduler: sim/core.cpp', MEM],
                assume=['pre-emption at system calls only', 'system-call results as documented for Linux'])
HARNESS['netthr'] = dict(HARNESS['net'], flavour='tsan', sim=KRNSIM, real=['coda/socket.h', 'coda/gmtime.h (sleep)', 'coda/random.c', 'coda/string.cpp (random strings)'], stub=[KRN, CLK, SCHED, MEM], assume=['system-call results as documented for Linux'])
P('N01', 'netthr', 800000, 6000000, tech='interleavings of receiver, sender, peer and signals, with short and failing calls', oracle='byte streams compared position by position; signal and result accounting')
P('N02', 'netthr', 1000000, 6000000, tech='failing and interrupted system calls of socket set-up with racing clients', oracle='the configuration of the simulated sockets and the descriptor table')
P('N03', 'netthr', 1500000, 6000000, tech='arrival times drawn around the timeout on a virtual clock', oracle='exact virtual times of return')
P('T01', 'netthr', 1500000, 6000000, tech='interleavings of sleepers, signals and clock steps on a virtual clock', oracle='exact virtual times of return')
P('R01', 'net', 1500000, 6000000, tech='failing and short reads and opens in sequences of initialisations', oracle='record of device reads and seedings; the descriptor table')
HARNESS['xml'] = dict(src=['h_xml.cpp'], flavour='asan', sim=[x for x in KRNSIM if x != 'mem'], libs=['-l:libexpat.a'],
                real=['coda/txml.hpp', 'coda/txml.cpp', 'coda/error.hpp', 'libexpat (on simulated memory)'], stub=[KRN, 'scheduler: sim/core.cpp', MEM],
                assume=['libexpat is correct'])
P('X01', 'xml', 250000, 4000000, tech='short, failing and interrupted reads and failing allocations at drawn points of loading generated documents', oracle='the values the generator put into the document; descriptor table and allocation accounting')
HARNESS['mem'] = dict(src=['h_mem.cpp'], flavour='asan', sim=['core', 'alloc'],
                real=['coda/stringstorage.c', 'coda/base58.c', 'coda/base64.c', 'coda/web64.c', 'coda/url_parser.cpp', 'coda/string.c', 'coda/string.cpp', 'coda/url.cpp', 'coda/vietnam.cpp'], stub=['malloc and operator new: sim/alloc.cpp', 'driver: sim/core.cpp'],
                assume=['AddressSanitizer notices accesses outside of blocks'])
P('A01', 'mem', 160000, 5000000, tech='allocations failing at drawn points of histories of additions', oracle='a reference set of strings with their user data; allocation accounting')
P('A02', 'mem', 600000, 5000000, tech='allocations failing at drawn points of encoding and decoding calls', oracle='reference encoders; allocation accounting')
P('A03', 'mem', 800000, 5000000, tech='allocations failing at drawn points of histories of URL operations', oracle='the same operations on separate objects with memory available; allocation accounting')
P('A05', 'mem', 300000, 3000000, tech='allocations failing at drawn points of calls that return or fill containers', oracle='the same call with memory available; allocation accounting')
P('A04', 'mem', 300000, 3000000, tech='allocations failing at drawn points of formatting calls', oracle='a reference string; allocation accounting')
HARNESS['indep'] = dict(src=['h_indep.cpp'], flavour='tsan', sim=KRNSIM, libs=['-l:libexpat.a'], std='gnu++11', rename=True,
                real=['coda/base58.c', 'coda/base64.c', 'coda/web64.c', 'coda/string.c', 'coda/string.cpp', 'coda/stringstorage.c', 'coda/url.cpp', 'coda/url_parser.cpp', 'coda/vietnam.cpp', 'coda/easy_parsing.cpp', 'coda/txml.cpp', 'coda/logger.c', 'headers of cache, log_array, estimate_capacity, synque, error, socket, gmtime'],
                stub=[SCHED, CLK, MEM, 'function-local static guards and pthread calls: sim/pth.cpp'],
                assume=['libexpat is thread-safe on distinct parsers'])
P('H01', 'indep', 500000, 4000000, tech='interleavings of 1-3 threads calling the library on separate objects, pre-empted at every heap and static memory access', oracle='the result of the same call alone in a fresh process image')
