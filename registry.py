"""Single source of truth: the properties, how each is decided, and the programs that decide it.
gen.py writes properties.jsonl and MANIFEST.json from this file; check.py runs the programs."""
COMMON_ASSUMPTIONS = [
    "x86-64 Linux, gcc 13 code generation, headers of /repo/include as they are in the working tree",
    "the explored space is exhaustive only inside the stated bounds (small-scope hypothesis)",
]
TS_ASSUME = [
    "sequentially consistent interleavings at synchronisation operations; plain accesses are race-checked (happens-before), so switching only there is complete for race-free code",
    "pthread primitives, thread creation, sleeping and pipes are replaced by models of their POSIX contract (incl. spurious wakeups, EINTR, creation failure)",
]
CHECKS = {}
TS_WRAP = ['pipe', 'pipe2', 'close', 'read', 'write', 'clock_gettime']

def ts(name, src, **kw):
    return dict(name=name, src=src, mode='tsched', wrap=TS_WRAP, **kw)
FOS_WRAP = ['open', 'open64', 'close', 'read', 'write', 'recv', 'send', 'lseek', 'lseek64', 'fsync', 'fdatasync', 'fstat', 'fstat64', 'mmap', 'mmap64', 'munmap',
            'socket', 'connect', 'bind', 'listen', 'accept', 'accept4', 'select', 'poll', 'ioctl', 'fcntl', 'fcntl64', 'shutdown', 'setsockopt', 'getsockopt']
FOS_ASSUME = ["the kernel is replaced by a model of its POSIX contract (short counts, EINTR, errors, readiness chosen nondeterministically); the model is exercised against the real kernel in the loopback/real-file sections"]
def fos(name, src, **kw):
    return dict(name=name, src=src, wrap=FOS_WRAP, **kw)
def seq(name, src, **kw):
    return dict(name=name, src=src, **kw)

def P(id, title, statement, over, qtext, why, files, mech, observe, programs, rule, bounds, technique, level='model_checking', note='', assumptions=(), state=()):
    assert len(title) <= 80, (id, len(title))
    CHECKS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=[dict(name=m[0], where=m[1]) for m in mech], observe=observe, programs=programs, rule=rule, bounds=bounds,
                      technique=technique, level=level, note=note, assumptions=list(assumptions), state=list(state))
I = 'include/cybozu/'

P('C01', 'parallel_for runs every index exactly once and reports every failure',
  "parallel_for(f, n, threads) calls f exactly once for every index 0..n-1, passing a thread number below min(n, threads) that no two concurrently running threads share, and returns only when all calls have finished and their effects are visible to the caller. A call that returns false or throws ends only the rest of its own thread's contiguous, evenly sized share; if any call throws a std::exception (with whatever message) or a thread cannot be started, parallel_for throws after all started threads have ended.",
  ['schedules', 'inputs', 'fault_sequences'], 'all n and thread counts, all interleavings, every set of calls that stop or throw, every thread creation that fails',
  'tests run a handful of sizes on whatever schedule the OS gives and never fail a thread creation',
  [I + 'parallel.hpp', I + 'thread.hpp'], [('static partition of [0,n)', I + 'parallel.hpp:parallel_for'), ('join of all threads before reading errors', I + 'parallel.hpp'), ('per thread error capture', I + 'parallel.hpp:Thread::threadEntry')],
  ['calls received by the functor', 'exceptions leaving parallel_for', 'memory written by the functor'],
  [ts('parallel', 'c_parallel.cpp')],
  'every (n, threads, failing set, creation failure, schedule) within bounds is one execution; non-trivial when at least one thread was started',
  'partition: n<=33 x threads<=10 plus n=250..255 in 8/16-bit types; schedules: n<=5, threads<=4, preemptions<=2..4; all stop/throw sets for n<=5; creation failures at every subset of <=2 creations',
  'stateless model checking of the real code (controlled scheduler)', note='exhaustive over schedules within the preemption bound; race detection covers the publication part', assumptions=TS_ASSUME)

P('C02', 'Event never loses a wakeup and never returns from wait without one',
  "For any number of threads calling wait and wakeup on one Event in any order, every wait that returns has consumed a wakeup that no other wait consumed, a wakeup issued while nobody waits is remembered (several may coalesce into one), and no wait stays blocked while a wakeup is pending. What a thread wrote before wakeup is visible to the thread whose wait it releases. This holds for the C++11 and for the pipe based implementation, also when signals interrupt the blocking calls.",
  ['schedules', 'programs', 'fault_sequences'], 'all programs of 2-4 threads over {wait, wakeup} up to the bound, all interleavings, spurious wakeups and EINTR',
  'the test ping-pongs two threads once; a lost wakeup needs a specific interleaving or a signal',
  [I + 'event.hpp'], [('flag guarded by mutex and predicate wait', I + 'event.hpp:Event::wait'), ('one byte per wakeup in a pipe', I + 'event.hpp (pre C++11)')],
  ['returns of wait and wakeup'], [ts('event', 'c_event.cpp', extra=[('event98.cpp', 'c++98')])],
  'one execution per (thread programs, schedule); judged by a linearizability search against the wakeup specification; non-trivial when threads were created',
  '2 threads x <=3 operations each, 3 threads x <=2, 3 waiters + 1 waker; preemptions<=1..4; 1 spurious wakeup or EINTR',
  'stateless model checking of the real code (controlled scheduler) + linearizability check', assumptions=TS_ASSUME)

P('C03', 'Mutex, CriticalSection and condition variables: exclusion, no lost wakeup',
  "At most one thread is between lock and unlock of the same Mutex or CriticalSection, distinct lock objects are independent, and the scoped locks release on every exit including exceptions. ConditionVariable and ConditionVariableCs release the lock while waiting and hold it again on return; notifyOne wakes at least one waiter if there is any and notifyAll wakes all of them, so programs that re-check their predicate neither lose data nor sleep forever.",
  ['schedules', 'programs'], 'all interleavings of exclusion, bounded-buffer, gate and hand-over programs with 2-4 threads, with spurious wakeups',
  'tests sample a few OS schedules of one producer/consumer program',
  [I + 'mutex.hpp', I + 'critical_section.hpp', I + 'condition_variable.hpp', I + 'condition_variable_cs.hpp'],
  [('pthread mutex wrapper', I + 'mutex.hpp'), ('scoped lock', I + 'mutex.hpp:AutoLockT'), ('pthread condition variable wrapper', I + 'condition_variable.hpp, condition_variable_cs.hpp')],
  ['who is inside a critical section', 'items transferred', 'blocked threads'], [ts('sync', 'c_sync.cpp')],
  'one execution per (program, schedule); monitors: occupancy of the critical section, item multiset, deadlock, data races; non-trivial when threads were created',
  '2-3 threads exclusion (<=6 preemptions for 2 threads), producers/consumers <=2x2 with delay bound 2, gates with <=3 waiters',
  'stateless model checking of the real code (controlled scheduler)', assumptions=TS_ASSUME)

P('C04', 'Threads run once, join waits for them, each is joined or detached once',
  "A successful start runs the entry exactly once; join returns only after the entry finished and makes its effects visible; join with nothing attached succeeds at once, detach succeeds only with a thread attached, and every started thread is joined or detached exactly once, also when several threads call join and detach concurrently, after a failed start, when the object is reused, and when it is destroyed with a thread still attached (destruction waits). A thread gets at least the stack size asked for; if the system refuses that size the start fails and nothing runs. Sleep lasts the full requested time however often signals interrupt it.",
  ['schedules', 'histories', 'fault_sequences'], 'all sequences of begin/join/detach up to the bound, all concurrent join/detach pairs and triples, all schedules, creation failures, EINTR',
  'tests start and join threads on the happy path only',
  [I + 'thread.hpp'], [('atomic exchange of the handle', I + 'thread.hpp:joinThread,detachThread'), ('join in the destructor', I + 'thread.hpp:~ThreadBase'), ('restart of nanosleep', I + 'thread.hpp:Sleep')],
  ['return values', 'entry executions', 'plain data after join'], [ts('thread', 'c_thread.cpp')],
  'one execution per (operation sequence or concurrent program, fault choice, schedule); non-trivial when threads were created',
  'sequences of <=4 operations, <=2 creation failures, 2-3 concurrent joiners/detachers, preemptions<=2..5, <=4 EINTR',
  'stateless model checking of the real code (controlled scheduler)', assumptions=TS_ASSUME)

P('C05', 'Atomic operations are linearizable and exact',
  "AtomicAdd, AtomicExchange and AtomicCompareExchange on 4- and 8-byte integers each behave as one indivisible step that returns the previous value and stores the sum (wrapping), the new value, or the new value exactly if the old one matched, for any concurrent use. Writes made before an atomic operation are visible to the thread that observes its result, and neighbouring memory is untouched.",
  ['schedules', 'programs', 'inputs'], 'all programs of 2-3 threads over the operations up to the bound, all interleavings; all pairs of boundary values sequentially',
  'the test is single threaded on a few values',
  [I + 'atomic.hpp'], [('compiler atomic builtins selected by size', I + 'atomic.hpp:atomic_local::Tag')], ['return values and final value'], [ts('atomic', 'c_atomic.cpp')],
  'one execution per (program, schedule), judged by brute force linearization; non-trivial when threads were created or values differ',
  '2 threads x <=2 operations (all schedules), 3 threads x 1; 4 integer types; ~130-260 boundary values squared',
  'stateless model checking of the real code (controlled scheduler) + linearizability check', assumptions=TS_ASSUME)

P('C06', 'Thread-local slots are isolated per object and per thread',
  "A thread reads from a thread-local slot exactly the last value it stored there itself, or null if it stored none, whatever other threads or other slots do. A slot created after another was destroyed never shows the old one's values in any thread, and when the system has no slot left, storing fails and reading gives null without affecting other slots.",
  ['schedules', 'histories', 'fault_sequences'], 'all programs of two threads plus main over {set, clear, get} on two slots, all create/destroy patterns, key exhaustion',
  'the test checks one slot with a few threads on one schedule',
  [I + 'tls.hpp'], [('one pthread key per object', I + 'tls.hpp:Tls')], ['values returned by get', 'result of set'], [ts('tls', 'c_tls.cpp')],
  'one execution per (programs, schedule); non-trivial when threads were created',
  'programs of <=2 operations per thread, 256 create/destroy patterns of 8 steps, 16 keys in the model',
  'stateless model checking of the real code (controlled scheduler)', assumptions=TS_ASSUME)

P('C07', 'Socket transfers exactly the requested bytes, in order, or reports failure',
  "However the system splits, interrupts or fails the underlying calls: Socket::write reports success only if exactly the given bytes were handed over once and in order, Socket::read returns only with the buffer filled with the next bytes of the stream (neither more nor fewer consumed) and throws if the stream ends or fails first, readSome returns the next 1..n bytes or 0 at end of stream, interruptions by signals are retried, sizes beyond 2 GiB work, and waitForClose succeeds only if the peer closed without sending more. A write to a vanished peer reports an error and never kills the process.",
  ['inputs', 'fault_sequences'], 'all sizes, all partitions into short transfers, EINTR and errors at every call',
  'the tests never transfer data over a socket; short counts and EINTR cannot be provoked on demand',
  [I + 'socket.hpp'], [('retry loops', I + 'socket.hpp:Socket::write, read, readSome'), ('SIGPIPE ignored', I + 'socket.hpp:InitTerm')],
  ['bytes seen by the peer', 'buffer contents', 'exceptions'], [fos('sockio', 'c_sockio.cpp')],
  'one execution per (call, size, answers of the kernel); non-trivial when at least one byte is requested',
  'sizes 0..8 with every split, <=2 EINTR, an error at every call; 7 errno values at every call for sizes <=4; programs of 3 read/readSome calls over streams of <=5 bytes; 10 sizes around 2^31 and 2^32 with <=2 deviations',
  'explicit enumeration of kernel behaviours under the real code (fault injector via --wrap)', level='fault_enumeration', assumptions=FOS_ASSUME)

P('C08', 'Each Socket owns its descriptor exclusively; connect, bind, accept are exact',
  "At every moment each open socket descriptor belongs to exactly one valid Socket: nothing is leaked, closed twice or shared, whatever sequence of connect, bind, accept, close, moves and destruction is executed and whichever system call fails. connect, bind and accept return normally only if the connection is established (to the given address, in blocking mode) respectively the socket listens, and when the address cannot be bound the Socket is left closed; a connect with a timeout waits that long at most. Moving transfers the connection and leaves the source invalid; also when several threads close or move from one Socket at the same time, its descriptor is closed exactly once and at most one of them obtains it. queryAccept reports exactly what the system reports and stays within the descriptor set for any descriptor number.",
  ['histories', 'fault_sequences'], 'all sequences of operations on two sockets and a server up to the bound, with failures injected at every system call',
  'tests bind and move one socket; failures of system calls and re-use of a bound or accepted object never occur in them',
  [I + 'socket.hpp'], [('ownership by atomic exchange of sd_', I + 'socket.hpp:Socket::close, moveFrom'), ('non-blocking connect and SO_ERROR check', I + 'socket.hpp:Socket::connect'), ('FD_SETSIZE guard', I + 'socket.hpp:queryAcceptNoThrow')],
  ['open descriptors', 'isValid', 'where written bytes go'], [fos('sockown', 'c_sockown.cpp'), dict(ts('sockthr', 'c_sockthr.cpp'), wrap=TS_WRAP + ['socket', 'connect'])],
  'one execution per (operation sequence, answers of the kernel); non-trivial: at least one operation',
  'all sequences of <=3 of 28 operations and of 4 of 11 operations, 1..8 deviations; 13 late connection errors; 2..3 threads closing/moving one socket, all schedules with <=3..4 preemptions; descriptor numbers 0..70000 around FD_SETSIZE',
  'explicit enumeration of operation sequences x kernel faults on the real code', level='fault_enumeration', assumptions=FOS_ASSUME)

P('C09', 'Socket options and addresses reach the system exactly as given',
  "Every option set through Socket (send/receive timeout in milliseconds, linger, buffer sizes, IPv4/IPv6 mode and port of bind) is what the system receives and what the getter returns afterwards, and a refused option is reported. A SocketAddr keeps address, family and port for every port, toStr renders them, and hasSameAddr is true exactly if both denote the same host, treating an IPv4-mapped IPv6 address and the IPv4 address as equal.",
  ['inputs', 'fault_sequences'], 'all timeouts/linger values/ports in range, all pairs of representative addresses',
  'tests read back one timeout value and compare four addresses',
  [I + 'socket.hpp'], [('setSocketOption<T>/getSocketOption', I + 'socket.hpp'), ('setTimeout/getTimeout', I + 'socket.hpp'), ('hasSameAddr', I + 'socket.hpp:SocketAddr')],
  ['bytes passed to setsockopt/bind', 'getter results', 'toStr'], [dict(fos('sockopt', 'c_sockopt.cpp'), wrap=FOS_WRAP + ['getaddrinfo', 'freeaddrinfo'])],
  'one execution per value; every case is distinct',
  'timeouts 0..50000 (10^6 thorough) and near 2^31; all 65536 linger values x 3; ports; 22 addresses squared; <=2 refused options',
  'explicit enumeration of inputs x kernel faults on the real code', level='fault_enumeration', assumptions=FOS_ASSUME)

P('C10', 'File keeps contents, position and descriptor exact under faults and crashes',
  "For every sequence of operations on a cybozu::File: write stores exactly the given bytes at the position (at the end in append mode) or throws, read fills the buffer with exactly the next bytes or throws (also at end of file), readSome returns a non-empty prefix of them or 0 only at end of file, seek and getSize match the file, opening for output truncates, append preserves, any other mode combination is refused without touching the file, and operations that do not fit the mode or a closed file throw. Interrupted and short system calls are completed, failing ones are reported. The descriptor is open exactly while isOpen() and closed exactly once whatever fails, a File built on a given handle never closes it by itself, and after sync or destruction of a file open for output all written data survives a crash.",
  ['histories', 'fault_sequences', 'crash_points'], 'all operation sequences up to the bound on existing and missing files, system call failures at every point, crash after every sync/destruction',
  'tests write and read one small file on the happy path; they cannot provoke short counts, EINTR, ENOSPC, failing sync or a crash',
  [I + 'file.hpp'], [('retry loops', I + 'file.hpp:File::write, readSome, read'), ('mode validation and open flags', I + 'file.hpp:verifyMode, setHandle, openSub'), ('sync and close in the destructor', I + 'file.hpp:~File')],
  ['file contents', 'bytes read', 'exceptions', 'open descriptors', 'durable contents'], [fos('file', 'c_file.cpp')],
  'one execution per (operation sequence, answers of the kernel), each step judged against an in-memory file; the fault-free sequences are repeated on the real file system with the same oracle',
  'all sequences of <=3 of 25 operations and of 4 of 15 operations; <=4/1/1 deviations; 64 mode combinations; sizes around 2^31 and 2^32; real file system: sequences of 3',
  'explicit enumeration of operation sequences x kernel faults x crash points on the real code', level='fault_enumeration', assumptions=FOS_ASSUME)

P('C11', 'LineStream splits every byte stream into exact lines, however it is chunked',
  "For every byte stream and every way the reader delivers it, next() returns the successive lines without their LF or CRLF (an LF-less rest counts as a last line), then reports the end once and for all; getRemain() is exactly what the reader delivered beyond the last line. A line longer than maxLineSize (terminator not counted) is refused with an exception and neither it nor anything behind it is delivered afterwards, every shorter or equal one is delivered; an exception of the reader loses nothing.",
  ['inputs', 'fault_sequences'], 'all texts over {letter, CR, LF} up to the bound x all chunkings x limits x a reader failure at every call',
  'tests use a few texts with one chunking; terminators split across reads and buffer-boundary lengths are not covered',
  [I + 'line_stream.hpp'], [('search for LF, removal of CR', I + 'line_stream.hpp:LineStreamT::next'), ('moving the rest to the front of the buffer', I + 'line_stream.hpp:LineStreamT::next')],
  ['lines returned', 'getRemain', 'exceptions'], [seq('line', 'c_line.cpp')],
  'one execution per (text, chunking, limit, failing call); non-trivial when the text is not empty',
  'texts of <=7 bytes over 3 symbols, all 2^(n-1) chunkings, limits 0..4; reader failures for texts <=5; three-line texts around limits 1..2048',
  'explicit enumeration of inputs x chunkings x reader failures on the real code', level='model_checking')

P('C12', 'Stream adaptors move exactly the requested bytes or report failure',
  "For memory, string, std::istream/ostream and user-defined streams: readSome returns the next bytes (at most the size asked for, 0 only at the end), read and readChar deliver exactly the next bytes or fail when fewer remain, however short the reads of the underlying stream are, and write stores exactly the given bytes or fails; a memory stream never reads or writes outside its memory and refuses a write that does not fit entirely, leaving it unchanged. getPos is the number of bytes transferred. The exception and the bool* forms agree.",
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of read calls and of write sizes up to the bound, all short-read patterns',
  'tests make a few calls per stream type',
  [I + 'stream.hpp'], [('dispatch on istream/ostream or user stream', I + 'stream.hpp:stream_local'), ('read loop', I + 'stream.hpp:read'), ('bounds of memory streams', I + 'stream.hpp:MemoryInputStream, MemoryOutputStream')],
  ['bytes read or written', 'return values', 'getPos'], [seq('stream', 'c_stream.cpp')],
  'one execution per (stream type, call sequence, short-read pattern)',
  'streams of <=5 bytes x sequences of <=4 of 8 read calls; 4 writes of 0..4 bytes into capacities 0..6 in 3 forms; sizes up to SIZE_MAX; streams of up to 131077 bytes; ostreams in all 8 states',
  'explicit enumeration of call sequences on the real code')

P('C13', 'Mmap and the file helpers show the file system exactly and leak nothing',
  "A successfully constructed Mmap exposes exactly the file's bytes and size (an empty file gives size 0) and keeps no descriptor; any failing step throws and leaves neither descriptor nor mapping behind. DoesFileExist, GetFileSize, GetFileList, RenameFile (which refuses to replace an existing file) and RemoveFile agree with the directory at every point of any history; a directory that cannot be read completely is reported, never listed in part as if complete, and no directory stays open; the name helpers (extension, base name, back slashes, path of the program) match their definition for every name.",
  ['inputs', 'histories', 'fault_sequences'], 'all file sizes 0..6 and page boundaries, a failure at every system call, all histories of 3 directory operations, all names up to the bound',
  'tests map one file and list one directory',
  [I + 'mmap.hpp', I + 'file.hpp'], [('error exits of the constructor', I + 'mmap.hpp:Mmap::Mmap'), ('refusal to overwrite', I + 'file.hpp:RenameFile'), ('directory scan', I + 'file.hpp:GetFileList')],
  ['mapped bytes', 'open descriptors and mappings', 'exceptions'], [dict(name='mmap', src='c_mmap.cpp', wrap=FOS_WRAP + ['opendir', 'closedir', 'readdir', 'readdir64', 'readlink'])],
  'one execution per (file, answers of the kernel), per name, or per history',
  'sizes 0..6, 4095..65536; every single and combined failure; names of <=6 symbols over 5; histories of 3 of 15 operations on 3 names on the real file system',
  'explicit enumeration of kernel faults, names and histories on the real code', level='fault_enumeration', assumptions=FOS_ASSUME)

P('C14', 'Process start: success means the program runs with exactly these arguments',
  "Process::run returns true exactly if the given program was executed with exactly the given arguments, and the exit code it later reports is the program's. run returns while the program runs. If any step fails (pipe, fork, redirection, exec) it returns false, the program has not run and no child process is left. The child inherits no descriptor above stderr and, if asked, gets /dev/null as stdio; the caller's descriptors are unchanged and its pending output is not written twice.",
  ['inputs', 'fault_sequences'], 'programs that exist, are missing or not executable x argument lists x failures and interruptions of every system call of the start',
  'there is no test for process.hpp',
  [I + 'process.hpp'], [('close-on-exec pipe that reports exec failure', I + 'process.hpp:Start'), ('closing of inherited descriptors', I + 'process.hpp:Start')],
  ['return value', 'report of the started program', 'children and descriptors left'], [seq('process', 'c_process.cpp', wrap=['pipe', 'pipe2', 'fork', 'read', 'fcntl', 'fcntl64', 'open', 'open64', 'dup2'], mode='plain')],
  'one execution (a real fork/exec) per (target, arguments, options, injected failures)',
  '3 targets x 4 argument lists x 3 exit codes x 4 options; descriptor limits 256..140000; <=2 injected failures/interruptions in parent and child',
  'explicit enumeration of system call failures on the real code with real processes', level='fault_enumeration', assumptions=['children are real processes; their own scheduling is the operating system\'s'])

P('C15', 'atoi and hextoi accept exactly the representable integers and return them',
  "For every text (NUL-terminated, or of a given length and ending at an embedded NUL) and every integer type, cybozu::atoi succeeds exactly if the whole text is a decimal integer (a minus sign only for signed types, leading zeros allowed) within the range of the type, and hextoi exactly if it is a hexadecimal number up to the maximum of the type; the value is then exact. Otherwise it throws, or sets *b to false if a bool* was given. Nothing outside the text is read.",
  ['inputs'], 'all texts over a critical alphabet up to the bound, all 16-bit values, all boundary values with every one-character change, all 10 types',
  'tests list a few dozen strings per type',
  [I + 'atoi.hpp'], [('overflow test before each digit', I + 'atoi.hpp:convertToInt, convertToUint'), ('special case of the minimum', I + 'atoi.hpp:convertToInt'), ('hex overflow test', I + 'atoi.hpp:convertHexToInt')],
  ['value, exception or *b'], [seq('atoi', 'c_atoi.cpp')], 'one execution per (text, type, form), memory exactly as long as the text; every text is distinct',
  'texts <=4 over 9 symbols, 1-3 byte texts over all bytes, -33500..33500, +-2^k, 10^k neighbourhoods with all one-character edits; hex likewise',
  'explicit enumeration of inputs on the real code (exact-size memory, AddressSanitizer)')

P('C16', 'Integer to text conversion is exact and reversible in every base and width',
  "itoa, itohex, itobin and itoaWithZero give for every integer of every supported type exactly its decimal, hexadecimal or binary text (in the requested case, zero-padded to the requested width), which the parsing functions turn back into the same integer; the buffer variants never write outside the buffer they are given and report failure exactly if the text does not fit.",
  ['inputs'], 'all 16-bit values, boundary values, powers of ten and two-bit patterns, for all types and buffer sizes',
  'tests list a few values per type', [I + 'itoa.hpp', I + 'bit_operation.hpp'], [('digit loops filling from the end', I + 'itoa.hpp:uintToDec, uintToHex, uintToBin'), ('minimum value', I + 'itoa.hpp:intToDec'), ('length from the highest bit', I + 'itoa.hpp:getHexLength')],
  ['text produced', 'memory around the buffer'], [seq('itoa', 'c_itoa.cpp')], 'one execution per (value, type); compared with 128-bit reference conversion and parsed back',
  '-40000..70000, +-2^k+-20, k*10^i+-2, all two-bit patterns; buffer sizes 0..70',
  'explicit enumeration of inputs on the real code (exact-size memory, AddressSanitizer)')

P('C17', 'Base64 encodes exactly as RFC 4648 and decoding restores every byte',
  "EncodeToBase64 turns every byte sequence, however the input stream delivers it, into exactly its RFC 4648 base64 text with padding, broken into lines of the requested length (a multiple of 4 up to 128; 0 means one line; other values are refused) ended in the requested style. DecodeFromBase64 and Base64Decoder, fed that text in any pieces and with any characters outside the alphabet interspersed, restore exactly the original bytes.",
  ['inputs'], 'all inputs of up to 2 bytes, all sizes around the buffers x line lengths x line ends x chunkings, all short texts over critical symbols x all splits',
  'tests encode a handful of strings and files', [I + 'base64.hpp'], [('3-state bit packing', I + 'base64.hpp:EncodeToBase64'), ('4-state decoder kept across writes', I + 'base64.hpp:Base64Decoder::write')],
  ['bytes written to the output stream'], [seq('base64', 'c_base64.cpp')], 'one execution per (input, line length, line end, chunking); compared with a bit-string reference',
  'inputs <=2 bytes all, 3 bytes over 256x30x30, sizes 0..420 and around multiples of 256 up to 4096, 33 line lengths x 3 modes x 8 chunkings; decode: texts <=5 over 9 symbols x all splits',
  'explicit enumeration of inputs x chunkings on the real code (AddressSanitizer)')

P('C18', 'CSV: every written row reads back, every text is split by one grammar',
  "Whatever rows CsvWriter writes (fields without CR), CsvReader returns exactly those rows, also if the final line end is missing. For any text, with any of the four separators and however it is delivered, read returns row after row according to the CSV grammar (CR ignored, quoted fields with doubled quotes and embedded separators and line feeds, an empty unquoted field at the end of a row not counted), then false for ever; it throws on an unterminated quote, on a character after a closing quote and exactly if the fields of one row hold MAX_LINE_SIZE or more characters.",
  ['inputs'], 'all texts over {letter, separator, quote, LF, CR} up to the bound, all rows over critical fields, all positions relative to the input buffer',
  'tests read about twenty texts and write one file', [I + 'csv.hpp'], [('4-state scanner', I + 'csv.hpp:CsvReaderT::read'), ('quoting', I + 'csv.hpp:CsvWriterT::append'), ('input buffer of 2048 bytes', I + 'csv.hpp:CsvReaderT::my_getchar')],
  ['rows returned', 'exceptions', 'text written'], [seq('csv', 'c_csv.cpp')], 'one execution per (text, separator, chunking) judged against a reference grammar; per (rows, separator) for the round trip',
  'texts <=7 over 5 symbols and <=5 over 7 symbols x 4 separators; every byte; rows <=3 fields over 15 critical fields; buffer positions 2036..2051 and 4084..4099; limits 1,2,5,20',
  'explicit enumeration of inputs on the real code (AddressSanitizer)')

P('C19', 'Serializer: load restores exactly what save wrote, and nothing else',
  "For every supported type (integers, floating point, bool, strings, vector, list, deque, set, map, unordered_map, user types with load/save, any nesting), loading what was saved gives an equal value whatever the target held before, consumes exactly the saved bytes however the stream delivers them, and throws if the bytes end early. Integers are read according to the documented header:data format, a datum too wide for the type being refused. Both the variable and the fixed size integer format have these properties.",
  ['inputs'], 'all 17-bit integers and neighbourhoods of every power of two in 6 types; all small containers over critical elements into non-empty targets; every truncation',
  'tests save and load one value per type into a fresh object', [I + 'serializer.hpp'], [('variable length integers', I + 'serializer.hpp:saveVariableInt, loadVariableInt'), ('container loaders', I + 'serializer.hpp:load'), ('exact read', I + 'stream.hpp:read')],
  ['value loaded', 'bytes consumed', 'exceptions'], [seq('serial', 'c_serial.cpp'), seq('serialfix', 'c_serial.cpp', cflags=['-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER'])], 'one execution per (value, previous contents of the target), each with all truncations and two chunkings',
  'integers -70000..70000 and +-2^k+-140 in 6 types, all 256 headers; containers of <=3..6 critical elements pairwise with previous contents; strings up to 70000',
  'explicit enumeration of values on the real code (AddressSanitizer)')

P('C20', 'UTF-8, UTF-16 and cybozu::String convert into each other exactly',
  "A text is accepted exactly if it is well-formed UTF-8 respectively UTF-16 (no overlong form, no unpaired surrogate, nothing above U+10FFFF, no truncated character), whichever conversion is used (String construction, assignment and append, ConvertUtf8ToUtf16, ConvertUtf16ToUtf8, ToUtf8, ToUtf16, Utf8ref, the single character functions); everything else is reported as an error. The characters obtained are exactly those encoded, converting back gives the identical text, an invalid Char is never encoded, and nothing outside the given range is read.",
  ['inputs'], 'every code point and every Char outside the range, all 1-2 byte prefixes with critical continuations (thorough: all byte sequences up to 4), all short texts over critical pieces in UTF-8 and UTF-16',
  'tests convert about a dozen texts', [I + 'string.hpp'], [('UTF-8 decoder', I + 'string.hpp:GetCharFromUtf8'), ('UTF-16 decoder', I + 'string.hpp:GetCharFromUtf16'), ('encoders', I + 'string.hpp:toUtf8, toUtf16'), ('character iterator', I + 'string.hpp:Utf8refT')],
  ['characters and bytes produced', 'return values and exceptions'], [seq('utf', 'c_utf.cpp')], 'one execution per text or code point; judged by encoders/decoders written from the Unicode tables',
  '0x110000 code points and neighbours; 65536 two-byte prefixes x 15 x 15; texts of <=3 of 20 UTF-8 pieces, <=4 of 13 UTF-16 units, every UTF-16 unit',
  'explicit enumeration of inputs on the real code (exact-size memory, AddressSanitizer)')

P('C21', 'cybozu::String behaves like std::basic_string under every operation sequence',
  "Every sequence of cybozu::String operations (construction, assignment, append, insert, erase, replace, resize, swap, move, element access, concatenation) leaves exactly the contents, return values and out_of_range errors that std::basic_string has for the same sequence, also when the argument is the string itself or points into it; every search, substring, copy and comparison, against String, character pointers, basic_string, UTF-8 std::string and UTF-16, agrees with it too; strings compare equal iff their characters are, and equal strings hash equal.",
  ['histories', 'inputs'], 'all sequences of 3 of about 115 operations on two strings from 4..32 starting contents; all texts of up to 4 characters x patterns x offsets for the search family',
  'tests call each operation on one or two strings', [I + 'string.hpp'], [('forwarding to basic_string', I + 'string.hpp:StringT'), ('iterator append/assign with transcoding', I + 'string.hpp:StringT::append'), ('comparison operators', I + 'string.hpp')],
  ['contents of the strings', 'return values', 'exceptions'], [seq('string', 'c_string.cpp')], 'one execution per operation sequence; after every step both strings are compared with the reference',
  'sequences of 2 (32 starts) and 3 (4 starts quick, 16 thorough) of ~115 operations including arguments that alias the string itself and its own iterators; 121 texts x 13 patterns x 8 offsets; 85^2 comparisons',
  'explicit enumeration of operation sequences on the real code against a reference implementation')

P('C22', 'Trim, case, split and case-insensitive search follow their definition',
  "For std::string and cybozu::String: IsSpace is true exactly for the documented characters; Trim/TrimCopy remove exactly the leading and trailing spaces (or those of a given predicate), Strip exactly the trailing CR and LF; ToLower/ToUpper change exactly the ASCII letters, in place, into another string or appending (also to itself); CaseCompare, CaseEqual, CaseEqualStartWith and CaseFind equal comparison and first-match search of the lower-cased texts; Split yields exactly the pieces between separators, the last one unsplit once maxNum is reached. None of them touches memory outside the strings.",
  ['inputs'], 'all characters; all strings over critical alphabets up to the bound; all pairs for comparison and search',
  'tests list a few strings per function', [I + 'string_operation.hpp', I + 'string.hpp'], [('IsSpace table', I + 'string_operation.hpp:IsSpace'), ('GetTrimPosition', I + 'string_operation.hpp'), ('Split loop', I + 'string_operation.hpp:Split'), ('ChangeCase', I + 'string_operation.hpp')],
  ['resulting strings and values'], [seq('strop', 'c_strop.cpp')], 'one execution per (function family, string or pair)',
  'strings <=5 over 8 bytes, <=4 over 9 Chars; split texts <=7 over 3 symbols x 7 limits; 400^2 pairs; 1365 texts x 85 targets',
  'explicit enumeration of inputs on the real code (AddressSanitizer)')

P('C23', 'Config accepts exactly its grammar and reads back what it prints',
  "Config::load accepts a text exactly if every line follows the documented grammar (empty line, ; or # comment, [NAME], NAME SP* = VALUE, ended by LF or CRLF, the last line end being optional), an empty name and a key repeated within one section being refused; sections that appear again are continued, keys before the first section belong to the global section, a further load adds to what is there by the same rules, values are kept verbatim. Lookups return exactly what was loaded or appended, an integer lookup returns the exact value or throws if it is not an integer of that type, defaults are used exactly for missing keys, and load(toString()) restores an equal configuration.",
  ['inputs'], 'all texts over critical characters up to the bound, all sequences of critical lines with all line ends, every byte at every position kind, all small configurations, all boundary integers',
  'tests load about ten texts', [I + 'config.hpp'], [('line classification', I + 'config.hpp:Config::load'), ('key/value split and name check', I + 'config.hpp:config_local::split, isName'), ('duplicate keys', I + 'config.hpp:Section::append')],
  ['sections and values', 'exceptions'], [seq('config', 'c_config.cpp')], 'one execution per text or configuration, judged against a reference parser, printed and loaded again',
  'texts <=6 over 2 alphabets of 7 characters; <=4 lines of 14 kinds x 3 line end styles; 256 bytes x 8 positions',
  'explicit enumeration of inputs on the real code', note='A CR inside a value or at the end of a file without LF is outside the grammar and not judged.')

P('C24', 'MiniXml builds exactly the tree of the document or refuses it, without leaking',
  "For every document of nested elements (names, attributes in either quote, text before the last child or end tag, short forms, white space wherever allowed), MiniXml's tree has exactly its elements, order, parents, attributes and contents; getFirstTagByName finds the first in document order; printing the tree and parsing it again gives the same elements and attributes. Every proper prefix, mismatched tag or malformed attribute is refused with an exception. No memory outside the text is read and no node leaks, also on errors and repeated parse. escape replaces exactly the five special characters, unescape inverts it and refuses unknown entities.",
  ['inputs'], 'all trees up to the bound x decorations x writing styles, all their prefixes, all short texts over markup characters, all short texts for escape/unescape',
  'tests parse two documents', [I + 'minixml.hpp'], [('tag and attribute scanner', I + 'minixml.hpp:InputStream'), ('tree construction', I + 'minixml.hpp:parseNode, appendChild'), ('ownership', I + 'minixml.hpp:~Node, ~MiniXml')],
  ['tree', 'exceptions', 'live allocations'], [seq('xml', 'c_xml.cpp')], 'one execution per (document, style) with all its prefixes; live blocks counted before and after',
  'all trees of <=3 (thorough 4) elements x 3 names x 5 decorations x 8-16 styles; larger fixed shapes; depth 40; texts <=6 over 7 markup characters',
  'explicit enumeration of documents on the real code (exact-size memory, AddressSanitizer, allocation counting)', note='MiniXml is documented as not strict: comments, mixed content with several text pieces and text after the root element are not judged.')

P('C25', 'Option parses every command line as documented',
  "For every registration and command line: bool, single, vector and mandatory options, positional, optional and variable parameters and the delimiter receive exactly the arguments the documented rules assign to them, unspecified ones keep their defaults, isSet tells which were given, and parse returns false exactly if an option is unknown, a value missing or not convertible, a mandatory option or parameter missing or an argument redundant. Integers accept decimal, 0x and the factors k m g K M G and are exact; a value outside the type is refused, never wrapped. Without a help option no argument ends the program.",
  ['inputs'], 'all command lines up to the bound over all kinds of tokens x registrations; all boundary integers x factors x types',
  'tests try one or two command lines per option kind', [I + 'option.hpp'], [('parse loop', I + 'option.hpp:Option::parse'), ('factor overflow test', I + 'option.hpp:convertInt'), ('negative numbers are not options', I + 'option.hpp:isOpt')],
  ['variables', 'isSet', 'return value'], [seq('option', 'c_option.cpp')], 'one execution per (registration, command line), judged against a reference parser',
  'command lines of <=4 of 12 tokens x 17 registrations (thorough 5); 6 of 5 tokens; ~5000 integer texts x 10 types; up to 40 registered options; delimiters and texts of vector options',
  'explicit enumeration of command lines on the real code', note='Floating point values and a non-dash delimiter inside a vector option are not judged.')

P('C26', 'Time texts and FILETIME convert exactly and refuse everything malformed',
  "Time::fromString accepts exactly the documented forms (numeric or three letter month, - or / separators, T or blank, optional milliseconds and Z) with fields in range, for the years 1970 to 3000, and gives the exact second and millisecond; everything else is reported (exception or *pb = false) without reading outside the text. toString prints exactly the date and time of the value and fromString restores it; FILETIME conversion is exact and reversible to the millisecond; comparison orders by time; setCurrentTime takes second and millisecond of the system clock.",
  ['inputs'], 'every day of 1031 years, every second of a day, every millisecond, every one-character edit of texts of all 32 forms, every value of every field',
  'tests convert about fifteen texts', [I + 'time.hpp'], [('field scanner', I + 'time.hpp:Time::fromString, getNum, getMonth'), ('FILETIME arithmetic', I + 'time.hpp:getFILETIME, setByFILETIME')],
  ['seconds and milliseconds', 'texts', 'exceptions'], [seq('time', 'c_time.cpp', wrap=['gettimeofday', 'clock_gettime'])], 'one execution per text; judged by calendar arithmetic written independently',
  'all days 1970-3000; 86400 seconds; 1000 ms; 32 forms x 6 dates x all positions x 256 bytes (substitute, insert, delete, cut)',
  'explicit enumeration of inputs on the real code (exact-size memory, AddressSanitizer)', note='Days beyond the end of the month (Feb 30) are not judged.')

P('C27', 'BitVector behaves like a vector of bits under every operation sequence',
  "For 8, 16, 32 and 64 bit units: every sequence of resize, init, append (from units, from a value, from another or the same vector), set, reset, clear, copy and extract leaves exactly the bits a plain vector of bits has; bits of a source beyond the given length never appear, unused bits of the last unit are zero; two vectors are equal iff size and all bits are. get, set, reset and extract refuse exactly the positions outside the vector, also when position plus length wraps around. ShiftLeftBit and CopyBit give exactly the shifted number, the carried-out bits being returned, also in place; nothing outside the units needed is touched.",
  ['histories', 'inputs'], 'all sequences of 2 (thorough 3) of about 80 operations at critical lengths around unit boundaries per unit type; every position x length of extract and every length x shift up to three units',
  'tests append and extract a few fixed patterns', [I + 'bitvector.hpp'], [('unaligned append', I + 'bitvector.hpp:bitvector_local::shiftLeftBit'), ('unaligned extract', I + 'bitvector.hpp:bitvector_local::shiftRightBit'), ('masking of the last unit', I + 'bitvector.hpp:BitVectorT::resize')],
  ['bits and units', 'return values', 'exceptions'], [seq('bitvec', 'c_bitvec.cpp')], 'one execution per operation sequence (compared after every step), per (length, position, count) and per (length, shift, pattern)',
  '4 unit types; sequences of <=2 of ~80 operations, 3 of every third one (thorough: all 3); lengths up to 3 units + 2',
  'explicit enumeration of operation sequences on the real code against a reference (exact-size memory, AddressSanitizer)', note='extract into the vector itself and getBlock of an empty vector are not judged.')

P('C28', 'SucVector rank, select and get equal counting the bits',
  "For every bit sequence, size type and way of building it (init from units whose surplus bits are arbitrary, resize/set/ready, load of a saved one, copy, re-use of a filled one): size() and size(b) are the number of bits and of bits equal to b, get returns the bit, rank(b, pos) the number of b before pos, select(b, r) the position of the r-th b or NotFound; positions outside are refused by get and set, set is refused once frozen, and select is refused when not compiled in.",
  ['inputs', 'histories'], 'all short bit sequences; sequences of critical words and of runs around the 64, 256 and 1024 bit boundaries of the index; every size up to the bound; every position and rank of each',
  'tests use sizes that are multiples of 64 and a few random vectors', [I + 'sucvector.hpp', I + 'select8.hpp', I + 'bit_operation.hpp'], [('block counters', I + 'sucvector.hpp:SucVectorT::initBlock'), ('select table and binary search', I + 'sucvector.hpp:initSelTblSub, selectSub'), ('select inside a word', I + 'sucvector.hpp:sucvector_util::select64')],
  ['return values', 'exceptions'], [seq('suc', 'c_suc.cpp')], 'one execution per (type, bit sequence); each built in six ways and asked for every position and every rank',
  '4 types; all sequences <=9 bits (thorough 12), 3 (5) of 6 words x 3 tails, 3 (4) of 8 (12) run lengths, all sizes <1100 (4400) x 3 kinds; 12288 words for select64',
  'explicit enumeration of contents and queries on the real code (exact-size memory, AddressSanitizer)', note='rank0 beyond the end and damaged saved data are not judged.')

P('C29', 'CSucVector compresses any bit sequence without changing get and rank',
  "CSucVector::init accepts every bit sequence, whatever its patterns, never ends the process, and afterwards get(pos) is the bit and rank1/rank0/rank(b, pos) the exact count before pos, for positions up to and (rank1) beyond the end; bits of the buffer beyond the given size are ignored; the same holds when an object is initialised again with other contents, and after save and load; get refuses positions outside.",
  ['inputs', 'histories'], 'every size up to the bound, every pair of run lengths around the code table lengths, periodic contents, all 14 bit patterns',
  'the test uses one sparse random vector', [I + 'csucvector.hpp'], [('code matching', I + 'csucvector.hpp:OutputStream::append'), ('table growth', I + 'csucvector.hpp:Bigram::getTopEncoding'), ('index', I + 'csucvector.hpp:initBlockVec')],
  ['return values', 'exceptions', 'process end'], [seq('csuc', 'c_csuc.cpp')], 'one execution per bit sequence in a re-used object and its loaded copy; every position asked',
  'sizes 0..64 x 4 kinds (thorough 200); 86 vectors with every one of 43 run lengths next to every other; 121..144 periods; 16384 14-bit patterns; 130 (1100) tails',
  'explicit enumeration of contents and queries on the real code (AddressSanitizer)')

P('C30', 'WaveletMatrix rank, rankLt, select and get equal counting the sequence',
  "For every sequence of values below 2^valBitLen (1 <= valBitLen <= 16), with or without select support, fresh, re-used, or saved and loaded: get returns the value, get(&v, pos) also its rank, rank(v, pos) and rankLt(v, pos) the number of values equal to and below v before pos (pos beyond the end meaning the end), size(v) the total, select(v, r) the position of the r-th v or NotFound. A larger valBitLen is refused.",
  ['inputs', 'histories'], 'all short sequences for 1-4 bits, critical values up to 16 bits, runs and sizes around the index boundaries; every value, position and rank of each',
  'tests use two fixed vectors and one random', [I + 'wavelet_matrix.hpp', I + 'sucvector.hpp', I + 'bitvector.hpp'], [('level construction', I + 'wavelet_matrix.hpp:init'), ('offset tables', I + 'wavelet_matrix.hpp:initFromTbl, initFromLtTbl'), ('select table', I + 'wavelet_matrix.hpp:initSelTbl')],
  ['return values', 'exceptions'], [seq('wavelet', 'c_wavelet.cpp'), seq('wavelet64', 'c_wavelet.cpp', cflags=['-DUSE_SEL', '-DCYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT'])], 'one execution per sequence, built in five ways, asked for every value, position and rank',
  'sequences <=9/5/4/3 for 1/2/3/4 bits (thorough 11/7/5/4); 6 critical values at 5-16 bits; 2-3 runs of 7 lengths; all sizes <300 (1200); counts 255..2000',
  'explicit enumeration of contents and queries on the real code (AddressSanitizer)', note='valBitLen 0 and values outside the range are not judged.')

P('C31', 'FMindex finds exactly the occurrences of every key and recovers the text',
  "For every text (8 bit, 16 bit, raw or mapped alphabet, also containing NUL when mapped) and every skip: getRange finds a key exactly if it occurs, the range has one entry per occurrence and convertPosition maps them to exactly the occurrence positions; convertPosition is a permutation of all positions; getPrevString returns exactly the text before a position. The same holds for a re-used index, after save and load, and with the compressed vector. Too large alphabets, zero characters in raw mode and non positive skips are refused; a failed allocation makes init throw, never yields a wrong index.",
  ['inputs', 'histories', 'fault_sequences'], 'all texts over 2-4 letters up to the bound x skips x all keys up to 3 letters and all prefixes; all alphabet sizes; periodic texts; every allocation that fails',
  'tests search about ten keys in three texts', [I + 'fmindex.hpp', 'include/sais.hxx', I + 'wavelet_matrix.hpp', I + 'frequency.hpp'], [('suffix sort', 'include/sais.hxx:saisxx'), ('backward search', I + 'fmindex.hpp:getRange'), ('sampled positions', I + 'fmindex.hpp:convertPosition')],
  ['ranges and positions', 'recovered text', 'exceptions'], [seq('fmindex', 'c_fmindex.cpp'), seq('fmindexc', 'c_fmindex.cpp', cflags=['-DCYBOZU_FMINDEX_USE_CSUCVECTOR'])], 'one execution per (text, skip), built four ways, with all keys',
  'texts <=6 over 3 letters, <=8 over 2 (thorough 8, 11), 16 bit <=5 over 4; 4 skips; alphabets 1..256; texts of 65534..140000 symbols; 4 texts x 400 allocation points',
  'explicit enumeration of texts, keys and allocation failures on the real code (AddressSanitizer)', note='Keys containing NUL in raw mode are not judged.')

P('C32', 'Frequency counts exactly and indexes elements by falling frequency',
  "After append/init and ready, getFrequency(e) is the exact number of times e was appended (0 if never), size() the number of distinct elements, getIndex and getElement are inverse bijections between them and 0..size-1 with non-increasing frequency; unknown elements and indices are refused (generic form). The same holds after further append and ready, clear and init, save and load (also into a used object), and for copies that outlive the original.",
  ['inputs', 'histories'], 'all sequences over 4 critical elements up to the bound for 5 element types',
  'tests count two texts', [I + 'frequency.hpp'], [('generic form', I + 'frequency.hpp:Frequency'), ('8 bit form', I + 'frequency.hpp:freq_local::FrequencyVec')],
  ['counts and indices', 'exceptions'], [seq('freq', 'c_freq.cpp')], 'one execution per element sequence, built seven ways',
  'sequences <=6 (thorough 8) over 4 elements x uint8_t, char, int, uint16_t, string; 24 larger alphabets',
  'explicit enumeration of element sequences on the real code against a map (AddressSanitizer)')

P('C33', 'Zlib streams restore exactly the data, however cut, and detect every damage',
  "Whatever data is written to ZlibCompressorT in whatever pieces, at any level, with or without gzip framing, any buffer size and with flushes, the stream produced is a valid zlib/gzip stream of exactly that data (zlib's own decoder agrees) and ZlibDecompressorT returns exactly that data for every chunking of input and output, then end of data, leaving bytes after the stream alone. A truncated stream or one with any changed header, body, checksum or size byte is reported by an exception or yields the same data, never silently other or shorter data. A failing output or input stream is reported and nothing leaks.",
  ['inputs', 'fault_sequences'], 'all data kinds x levels x cuts x buffer sizes; every truncation and every one-byte change; every gzip header flag combination; every failing stream call',
  'tests compress one text and read it back in one piece', [I + 'zlib.hpp'], [('compressor loop', I + 'zlib.hpp:ZlibCompressorT::write, flush'), ('decompressor loop', I + 'zlib.hpp:ZlibDecompressorT::readSome'), ('gzip header and trailer', I + 'zlib.hpp:readGzipHeader')],
  ['bytes written and read', 'exceptions', 'live allocations'], [seq('zlib', 'c_zlib.cpp', libs=['-lz'])], 'one execution per (data, level, framing, cut), per damaged stream, per failing call',
  'buffers of 1,2,3,64.. bytes; data up to some thousand bytes, and single writes and reads of up to 32 MiB; damaged tails at every division of the input; all truncations and 3 changes of every byte of 5 streams; 32 flag sets',
  'explicit enumeration of inputs and stream faults on the real code (AddressSanitizer)')

P('C34', 'Digests and HMAC equal the standard for every message, cut and copy history',
  "Sha1, Sha224, Sha256, Sha384, Sha512 (built-in and OpenSSL forms), crypto::Hash, crypto::Hmac, hmac256 and the one-shot functions give exactly the standard digest of the concatenation of all updates since the last restart, for every message length and every way of cutting it into updates, also beyond 2^32 bits and bytes. Copies and assigned objects continue independently; digest restarts the object where documented; nothing outside the given buffers is touched; a too small output buffer gives 0 and is not written.",
  ['inputs', 'histories'], 'every length up to the bound x every two-piece cut, all triples of critical pieces, all histories of update/digest/restart/copy/assign over two objects, all key lengths, messages beyond 2^32 bits',
  'tests hash about eight fixed texts', [I + 'sha1.hpp', I + 'sha2.hpp', I + 'crypto.hpp'], [('block buffering', I + 'sha2.hpp:update'), ('padding and length', I + 'sha2.hpp:digest'), ('hmac', I + 'sha2.hpp:hmac256'), ('context ownership', I + 'crypto.hpp:Hash')],
  ['digests', 'memory around the output'], [seq('hash', 'c_hash.cpp', cflags=['-DCYBOZU_DONT_USE_OPENSSL'], libs=['-lcrypto']), seq('hashssl', 'c_hash.cpp', cflags=['-DWITH_CRYPTO'], libs=['-lcrypto']), seq('hashbig', 'c_hashbig.cpp', mode='plain', libs=['-lcrypto'])], 'one execution per (length, cut), (pieces), history',
  'lengths 0..5 blocks; 14^3 pieces; histories of <=5 (thorough 7) operations; keys 0..140 x 13 messages; one update of more than 2^32 bytes',
  'explicit enumeration of messages and histories on the real code (AddressSanitizer) against OpenSSL', assumptions=['OpenSSL computes the standard functions'])

P('C35', 'crypto::Cipher is AES-CBC/ECB exactly, for every length, cut and copy',
  "For the six ciphers: update and finalize over any cutting of the text give exactly the AES ECB/CBC encryption (chained block by block with the iv) with or without padding, decoding inverts it, a damaged or wrongly sized text is reported where padding shows it, a key or iv of the wrong size is refused without reading outside it, copies continue independently of the original, and no object leaks its context, also when construction fails.",
  ['inputs', 'histories'], 'all six modes, all lengths up to the bound, all two-piece cuts, padding on and off, all key and iv lengths, copies after every length',
  'the test encrypts one text per mode', [I + 'crypto.hpp'], [('setup', I + 'crypto.hpp:Cipher::setup'), ('update/finalize', I + 'crypto.hpp:Cipher::update, finalize'), ('context ownership', I + 'crypto.hpp:Cipher')],
  ['bytes produced', 'return values and exceptions', 'leaks'], [seq('cipher', 'c_cipher.cpp', libs=['-lcrypto'])], 'one execution per (mode, length, data, padding) with all cuts; per copy point; per (key length, iv length)',
  '6 modes; lengths 0..80 (thorough 200); keys 0..40 x ivs 0..17 bytes; copies and re-use of one object; inputs of megabytes in one call', 'explicit enumeration of inputs on the real code (AddressSanitizer) against hand-chained AES blocks', assumptions=['OpenSSL AES block encryption is correct'])

P('C36', 'Byte order conversion, bit scans, SipHash and FNV are exact for every value',
  "Get/Set 16, 32, 64 bit as little or big endian read and write exactly the bytes of the value in that order at any alignment and nothing else, on the native path and the portable path alike; byteSwap reverses; bsf, bsr and popcnt return the lowest and highest set bit and the number of set bits for every non zero value; siphash24 and the FNV hashes equal their published definition for every length and key.",
  ['inputs'], 'every 16 bit value, a dense set of 32 bit values (thorough: all), all 64 bit values with up to 4 bits set or cleared, every length for the hashes',
  'tests use a few constants', [I + 'endian.hpp', I + 'bit_operation.hpp', I + 'siphash.hpp', I + 'hash.hpp'], [('accessors', I + 'endian.hpp'), ('bit scans', I + 'bit_operation.hpp'), ('compression rounds', I + 'siphash.hpp'), ('fnv', I + 'hash.hpp')],
  ['values and bytes'], [seq('endian', 'c_endian.cpp', mode='plain'), seq('endianp', 'c_endian.cpp', mode='plain', cflags=['-DCYBOZU_ENDIAN=2', '-DCYBOZU_ENDIAN_LITTLE=1'])], 'one execution per block of values, per hash input',
  '2^16 x 8 offsets; 2^27 (thorough 2^32) 32 bit values; ~1.5 million 64 bit values; hash lengths <=700 (3000)', 'explicit enumeration of values on the real code')

P('C37', 'AlignedArray and ScopedArray: exact contents, alignment, no leak on any history',
  "Every sequence of resize, copy, assignment, swap, move and clear of AlignedArray leaves the contents, size and aligned address a plain vector would have (new elements zero where promised); a size whose byte count overflows or an allocation that fails throws and leaves nothing leaked or half-changed; no block is freed twice. ScopedArray constructs and destroys each element exactly once, also if a constructor throws.",
  ['histories', 'fault_sequences'], 'all operation sequences up to the bound over two arrays x every allocation that fails',
  'the test resizes one array', [I + 'array.hpp'], [('allocation', I + 'array.hpp:AlignedMalloc, AlignedArray::resize'), ('copy and swap', I + 'array.hpp:AlignedArray::operator=')],
  ['contents and size', 'address alignment', 'live blocks', 'exceptions'], [seq('array', 'c_array.cpp', wrap=['posix_memalign', 'free'])], 'one execution per (sequence, failing allocation)',
  'sequences of <=5 (thorough 6) of 12 operations x 3 element types x every allocation', 'explicit enumeration of operation sequences and allocation failures on the real code (AddressSanitizer)')

P('C38', 'Random sources: published sequences, complete reads, unbiased shuffle',
  "XorShift and Pcg32 produce exactly the published sequence for every seed, whatever mixture of get32, get64 and read of any element type is used (read delivers the successive values cut to the requested bytes and writes nothing else). RandomGenerator delivers exactly the device's bytes for each request, never fewer, and throws if the device cannot be opened or gives too few, whatever the size. shuffle maps each choice sequence to a distinct permutation, so that all are equally likely. The nlp generators give reproducible values inside the requested range, depending on seed and range as documented.",
  ['histories', 'inputs', 'fault_sequences'], 'all histories of 8 operations up to the bound, critical seeds, all request sizes x all amounts the device gives, all choice sequences of shuffle',
  'tests compare the first values of one seed', [I + 'xorshift.hpp', I + 'pcg.hpp', I + 'random_generator.hpp', I + 'nlp/random.hpp'], [('generators', I + 'xorshift.hpp:XorShift'), ('byte reader', I + 'random_generator.hpp:RandomGenerator::read'), ('shuffle', I + 'random_generator.hpp:shuffle')],
  ['values', 'bytes written', 'exceptions'], [seq('random', 'c_random.cpp', wrap=['fopen', 'fopen64', 'fread'])], 'one execution per history; per (size, element, device amount); per choice sequence',
  'histories of <=5 (thorough 6) operations; sizes 0..20 x 4 element types x 0..40 bytes; shuffles of <=7 (8) elements and of a long array', 'explicit enumeration of histories and device answers on the real code (AddressSanitizer)')

P('C39', 'Sparse vectors, their set operations and TopScore equal the plain definition',
  "SparseVector with plain or compressed positions returns exactly the pushed positions and values in order (iteration, comparison, copy, swap, clear), whatever the gaps, and refuses non-increasing positions where documented; Intersection and Union visit exactly the common resp. all positions once, in order, telling which side holds them; InnerProduct is the sum over common positions; TopScore keeps exactly the best n scores seen, ordered, earlier ones first among equals, for any n including 0.",
  ['inputs', 'histories'], 'all sequences of critical position gaps, all pairs of subsets up to the bound, all score sequences',
  'tests use two vectors of five elements', [I + 'nlp/sparse.hpp', I + 'nlp/top_score.hpp'], [('gap coding', I + 'nlp/sparse.hpp:CompressedPositionTbl'), ('merge iteration', I + 'nlp/sparse.hpp:Intersection, Union'), ('insertion', I + 'nlp/top_score.hpp:TopScore::add')],
  ['positions and values', 'order', 'exceptions'], [seq('sparse', 'c_sparse.cpp')], 'one execution per gap sequence, pair of subsets, score sequence',
  'gaps of every code length, sequences <=3-4; 2^6 x 2^6 subsets (thorough 2^8) at three strides; scores <=6 (8) over 4 values x 6 sizes; vectors of thousands of entries; positions beyond 32 bits; own-vector arguments', 'explicit enumeration of contents on the real code (AddressSanitizer)')

P('C40', 'Logger: every message at or above the priority is in the log, once, in order',
  "After every history of messages, priority changes, target changes (file, FILE, syslog, none, unusable path) and failures, each target holds exactly the messages of at least the current priority that were directed to it, complete, one time-stamped line each, in order, whatever their length or contents; a message is in the file when the call returns, even if the process then dies; files are appended to, never truncated; an unusable new target is reported and the old one stays in use; a failing close or write leaks no file and does not disturb later messages. cybozu::format equals the printf family for every length.",
  ['histories', 'crash_points', 'fault_sequences'], 'all sequences of 12 operations up to the bound; process death after every message; failing close/write/open',
  'the tests only check that calls return', [I + 'log.hpp', I + 'format.hpp'], [('Logger', I + 'log.hpp:log_local::Logger'), ('format', I + 'format.hpp:vformat')],
  ['log files', 'syslog calls', 'open files', 'exceptions'], [seq('log', 'c_log.cpp', wrap=['fopen', 'fopen64', 'fclose', 'syslog'])], 'one execution per history, judged after every step; per crash point',
  'histories <=4 (thorough 6) of 12 operations; 36 crash points; formats of 0..600 (5000) bytes', 'explicit enumeration of operation histories and crash points on the real code (AddressSanitizer)')

P('C41', 'Json values keep exactly what was assigned, copied or swapped, without leaking',
  "Every sequence of assignments (null, bool, number, string, array, object), copies, swaps and nesting of Json values leaves each value with exactly the type and contents a plain value model has; copies are independent of the original, values may be assigned to themselves or from their own parts; no memory leaks or is freed twice, also if an allocation fails at any point.",
  ['histories', 'fault_sequences'], 'all operation sequences up to the bound over three values, every allocation that fails',
  'the test builds one value', [I + 'json.hpp'], [('ownership by type tag', I + 'json.hpp:Value')],
  ['types and contents', 'exceptions', 'live blocks'], [seq('json', 'c_json.cpp')], 'one execution per (sequence, failing allocation)',
  'sequences of <=4 (thorough 5) of 18 operations over 3 values', 'explicit enumeration of operation sequences on the real code (AddressSanitizer, allocation counting)')

P('C42', 'TF-IDF document frequencies and weights equal plain counting',
  "For every corpus: Df counts for each word (compared in lower case) the number of documents containing it, once per document; term keeps exactly the words above the limit, rarest first, cut to the rate; TfIdf gives every listed keyword its index in order of first appearance, ignores all other words, and gives each document holding a keyword the vector of exactly its keywords with weight tf times log(N/df), independently of the other documents.",
  ['inputs'], 'all corpora up to the bound over 6 words in mixed case x keyword sets', 'no test in the repository', [I + 'nlp/tfidf.hpp'], [('document frequency', I + 'nlp/tfidf.hpp:Df'), ('weights', I + 'nlp/tfidf.hpp:TfIdf')],
  ['frequencies, vectors and weights'], [seq('tfidf', 'c_tfidf.cpp')], 'one execution per (corpus, keyword set)', 'see evidence', 'explicit enumeration of corpora on the real code (AddressSanitizer)')

P('C43', 'ssl::ClientSocket delivers exactly the bytes or reports, for any TLS behaviour',
  "Whatever splits, retry requests (want read/write), ends of stream and failures the TLS layer answers with, write either has handed over exactly the bytes in order or throws, read and readSome return exactly the next bytes of the peer, readSome returning 0 and read throwing at the end, and every call returns (no endless loop) once the layer makes progress or fails. connect succeeds only after the handshake did. The TLS object and the socket are released exactly once on every path, also when connect fails or close reports an error, and the process ends normally afterwards.",
  ['fault_sequences', 'histories'], 'all programs of operations up to the bound x every answer of every TLS call within the deviation budget', 'no test in the repository runs it (it needs a server)',
  [I + 'ssl.hpp'], [('retry loops', I + 'ssl.hpp:ClientSocket::read, write'), ('release', I + 'ssl.hpp:ClientSocket::close')],
  ['bytes exchanged', 'exceptions', 'calls of SSL_new/SSL_free and close'],
  [seq('ssl', 'c_ssl.cpp', wrap=FOS_WRAP + ['SSL_new', 'SSL_free', 'SSL_set_fd', 'SSL_connect', 'SSL_read', 'SSL_write', 'SSL_get_error', 'SSL_shutdown', 'ERR_print_errors_fp'], libs=['-lssl', '-lcrypto'])],
  'one execution per (program, sequence of answers)', 'programs of <=3 (thorough 4) operations, 0..4 bytes from the peer, all answer sequences within the deviation bound; all splits for single operations',
  'stateless enumeration of every answer of a modelled TLS layer under the real code', level='fault_enumeration', assumptions=FOS_ASSUME + ['the TLS layer follows the OpenSSL return value contract'])

P('C44', 'Const use of shared objects and any use of separate objects is thread safe',
  "Any const operations on one shared object (String, BitVector, SucVector, WaveletMatrix, FMindex, Frequency, Config, MiniXml, SparseVector, Time, Option lookups and the like) by several threads, and any operations on separate objects, run without data race, without using C library functions that answer from shared static storage, and give in every schedule the results they give alone; a log message written by several threads to one log appears as one undivided line.",
  ['schedules'], 'all pairs of operations from two threads, triples from three, all interleavings within the preemption bound', 'tests are single threaded here', [I + 'string.hpp', I + 'sucvector.hpp', I + 'fmindex.hpp', I + 'nlp/sparse.hpp', I + 'time.hpp', I + 'log.hpp', I + 'itoa.hpp', I + 'exception.hpp'], [('no hidden mutable state', I + '*.hpp'), ('one stdio call per line', I + 'log.hpp:Logger::put')],
  ['results', 'happens-before races', 'log file'],
  [dict(name='constmt', src='c_constmt.cpp', mode='tsched', wrap=TS_WRAP + ['gmtime', 'localtime', 'asctime', 'ctime', 'strtok', 'strerror', 'rand', 'fflush', 'vfprintf', 'fprintf', 'fwrite', 'fputs', 'fputc', 'putc', 'flockfile', 'funlockfile'], libs=['-lz'])],
  'one execution per (pair of operations, schedule)', 'pairs with <=1-2 preemptions, 2-3 threads logging with <=2 (thorough 4)', 'stateless exploration of thread schedules with happens-before race detection on the real code', assumptions=TS_ASSUME)

P('C45', 'The unit test framework reports exactly the failures and never hides one',
  "For every program of tests made of passing checks, failing checks of every macro, checks that throw and tests that throw, with or without fixtures: the result counts (ok, ng, exceptions, modules) are exactly those of the checks executed, every failing check is listed with its values, a failing or throwing test does not prevent the later ones, and the exit status is 0 exactly if nothing failed, for any number of failures.",
  ['inputs', 'histories'], 'every check macro passing, failing and throwing, alone and in pairs; all small programs; 255..512 failures', 'the framework is tested only by using it', [I + 'test.hpp'], [('counts and verdict', I + 'test.hpp:AutoRun::run'), ('check macros', I + 'test.hpp')],
  ['printed report', 'exit status'], [seq('test', 'c_test.cpp')], 'one execution (a process) per test program', '46 checks alone x 8 fixtures, all pairs, programs of <=5 (thorough 6) steps, 255..512 failing tests', 'explicit enumeration of test programs on the real code')

P('C46', 'Exception texts, error numbers, environment and quit signals are exact',
  "Every sequence of << on an Exception gives exactly the name and the items, each preceded by a colon, from what() and toString(), also through std::exception, copies and assignment; ErrorNo and ConvertErrorNoToString give the system's text and the number for every error number; QueryEnv and GetEnv tell exactly whether a variable is set and its value, after any history of changes; after QuitSignalHandler was set up each SIGINT, SIGQUIT, SIGABRT or SIGTERM calls quit() of the last registered application exactly once and the process goes on, any number of times.",
  ['histories', 'inputs'], 'all sequences of 12 kinds of items, every error number, all histories of environment changes, all sequences of signals', 'tests print one exception', [I + 'exception.hpp', I + 'env.hpp', I + 'quit_signal_handler.hpp'], [('message', I + 'exception.hpp:Exception'), ('lookup', I + 'env.hpp:QueryEnv'), ('handler', I + 'quit_signal_handler.hpp:QuitSignalHandler')],
  ['texts', 'return values', 'calls of quit()', 'process survival'], [seq('except', 'c_except.cpp')], 'one execution per sequence', 'sequences <=4 (thorough 5) of 12 items x 3 names; errors -300..4500; 3 (4) of 24 changes; 4 (5) signals', 'explicit enumeration of operation sequences on the real code')

P('C47', 'Regular expressions on cybozu::String find exactly what the pattern means',
  "For every pattern (characters beyond 16 bit and NUL included), text, flag and way of constructing it: regex_match, regex_search, regex_replace, sregex_iterator and sregex_token_iterator on cybozu::String give exactly the leftmost matches in priority order with the groups, positions, prefix and suffix the pattern defines; ranges inside a longer text are not looked beyond, match and format flags take effect, copies of a regex and of the iterators behave as the original.",
  ['inputs'], 'all patterns of the grammar up to the bound x all texts up to the bound x constructors and flags', 'tests use four patterns', [I + 'regex.hpp'], [('construction', I + 'regex.hpp:regex'), ('search, match, replace', I + 'regex.hpp:regex_search, regex_match, regex_replace'), ('iterators', I + 'regex.hpp:sregex_iterator, sregex_token_iterator')],
  ['matches, groups, positions, replaced texts'], [seq('regex', 'c_regex.cpp')], 'one execution per (pattern, construction, text)', 'see evidence: patterns of up to three atoms with repetition, alternatives, groups and anchors, 3..13 groups; texts of <=4 (thorough 5) characters over 3 and <=3 over 4', 'explicit enumeration of patterns and texts on the real code against a backtracking matcher (AddressSanitizer)', assumptions=['Boost.Regex (outside the repository) is exercised, not assumed'])

P('C48', 'SVD decomposition and matrix files: consistent factors, exact or refused texts',
  "ComputeSVD gives for every matrix (dense or sparse, double or float) and rank factors of the stated sizes with t(U) A V = diag(S), S sorted and not negative, orthonormal vectors for every nonzero singular value, and U S t(V) = A if the rank is that of the number of rows; orthonormalization keeps the span; the unit matrix and the column compression distribute rows and columns evenly. Every saved matrix, sparse matrix or vector loads back to eight digits; every text that is not of the format, is cut short or is of the other kind is refused by returning false, never read in part; a failed write returns false.",
  ['inputs'], 'all small matrices over 3-5 values x ranks; all texts of up to 4 (5) tokens under 15 headers', 'tests use about ten matrices and two well formed files',
  [I + 'nlp/svd.hpp'], [('decomposition', I + 'nlp/svd.hpp:ComputeSVD, OrthonormalizeMatrix, InitUnitMatrix, CompressCol'), ('text format', I + 'nlp/svd.hpp:LoadHeader, LoadMatrix, LoadSparseMatrix, LoadVector')],
  ['factors', 'return values', 'loaded matrices'], [seq('svd', 'c_svd.cpp')], 'one execution per (matrix, rank) or text', 'matrices up to 3x3, 4x2, 2x4, also scaled by 1/256 and 4096; see evidence', 'explicit enumeration of matrices and texts on the real code (AddressSanitizer)')

P('C49', 'pLSI answers form one probability model that learning only improves',
  "For every item-user relation, number of topics and learning history: after any number of steps the joint, conditional and posterior item probabilities, the item probabilities per user and the perplexity belong to one probability model (they sum up to 1 and follow from each other); each step with temperature 1 leaves the item and user marginals equal to the data and never lowers the likelihood returned; with one topic all values are the plain frequencies; learning may be started again at any time; queries for unknown users or items give nothing; results are ordered by falling score.",
  ['inputs', 'histories'], 'all relations of up to 4 items x 3 users (thorough 3 x 4 too) x 1..3 topics x fresh or repeated learning, judged after each step', 'no test in the repository',
  [I + 'nlp/plsi.hpp'], [('EM step', I + 'nlp/plsi.hpp:Plsi::step'), ('queries', I + 'nlp/plsi.hpp:Plsi::search_items, similar_items, perplexity')],
  ['likelihoods, scores, perplexity'], [seq('plsi', 'c_plsi.cpp')], 'one execution per (relation, topics, history)', '6 (thorough 20) steps, one of them tempered', 'explicit enumeration of relations and histories on the real code (AddressSanitizer)')

P('C50', 'V128 operations equal the lane arithmetic they name',
  "Every V128 construction, load, store, shift, byte rotation over three registers, shuffle, insert, extract, unpack, compare, minimum, maximum, logic and test operation gives exactly the result its definition on 4 words, 2 double words or 16 bytes gives, for every immediate value and operand, and touches no memory beyond the 16 bytes.",
  ['inputs'], 'all 4-word operands over 5 (6) corner values in pairs, every byte value, every single bit, every immediate', 'no test in the repository',
  [I + 'v128.hpp'], [('shifts across lanes', I + 'v128.hpp:V128::shrBit, shlBit'), ('rotations', I + 'v128.hpp:rotrByte, rotlByte'), ('swap128, copy128', I + 'v128.hpp')],
  ['all bits of the results', 'memory around'], [seq('v128', 'c_v128.cpp')], 'one execution per pair of operands (all operations and immediates)', 'see evidence', 'explicit enumeration of operands and immediates on the real code (AddressSanitizer)')
