#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

I=["inputs"]
p("V01","Bit fields read back exactly what was written, and nothing else changes",
 "For every bit vector content, start index, field width of 0 to 64 bits and value, writing a field (MSB-first or reversed) and reading it back the same way yields the value modulo 2^width; the running read and write index advance by exactly the width; no bit outside the field changes. Reading the same bits in the other order yields the bit-reversed value, and a write or reversed read that would run past the end is stopped before it touches memory.",
 I,"every content, index, width 0..64 and value","The existing test prints one field; it never compares and never touches boundary widths or neighbours.",
 ["BitVector.cpp","BitVector.h"],[("fillField/peekField/readField/writeField and the Reversed forms","BitVector.cpp")])
p("V02","Bit vectors convert to and from bytes, strings and hex without loss",
 "Unpacking the packed form of any bit vector of any length restores it, the packed string and the packed bytes agree, and packing writes exactly ceil(n/8) bytes, MSB first, zero-padded on the right. Parsing a string of n '0'/'1' characters and printing it again is the identity; the hex text of a vector whose length is a multiple of 4 has n/4 digits that parse back to the same vector; parsing text that is not hexadecimal reports failure.",
 I,"every length (incl. not multiples of 4 or 8) and every content","The test prints one conversion of one vector and compares nothing.",
 ["BitVector.cpp"],[("pack/packToString/unpack/hex/hexstr/unhex, string constructor, operator<<","BitVector.cpp")])
p("V03","Bit reordering operations are the permutations they claim to be",
 "For every content: byte reversal reverses the first eight bits and leaves the rest; per-octet LSB/MSB reversal reverses each whole octet, leaves a trailing partial octet, and is its own inverse; mapping through an index table and unmapping through the same permutation restores the vector. Inversion flips every bit and is its own inverse; the bit sum counts exactly the one bits; two vectors of clean bits compare equal exactly when they have the same length and the same bits.",
 I,"every content, every length up to the bound, every permutation table","The test prints a few results on one constant vector.",
 ["BitVector.cpp"],[("reverse8/LSB8MSB/map/unmap/invert/sum/operator==","BitVector.cpp")])
p("V04","Puncturing removes exactly the listed positions; unpuncturing restores them",
 "For every vector and every strictly increasing list of positions, puncturing yields exactly the symbols whose positions are not listed, in order. Unpuncturing a soft vector with the same list places the symbols back at their original positions and puts 'unknown' (0.5) at each listed position. Neither reads or writes outside its vectors.",
 I,"every content, every valid puncture list (empty, at start, at end, adjacent)","No existing test calls either function.",
 ["BitVector.cpp"],[("copyPunctured/copyUnPunctured","BitVector.cpp")])
p("V05","Cyclic parity: generated codewords check clean and errors are detected",
 "For every generator polynomial up to 40 parity bits and every data word, the codeword formed by data followed by its non-inverted parity word has syndrome zero, and with the inverted parity word has the all-ones-remainder value independent of the data. The parity word equals the remainder of polynomial division of the data shifted by the parity length; any single-bit error (and any burst no longer than the parity word) in a codeword changes the syndrome when the polynomial has a constant term; results do not depend on what the generator computed before.",
 I,"every polynomial, every data word up to the length bound, every error pattern of the class","No existing test exercises parity at all.",
 ["BitVector.cpp","BitVector.h"],[("Generator::syndromeShift/encoderShift, Parity::writeParityWord/syndrome","BitVector.h, BitVector.cpp")])
p("V06","Vectors own, copy, alias and release their storage correctly",
 "For every sequence of construct, copy, assign, clone, resize, concatenate, segment, alias, duplicate and destroy on vectors and bit vectors: a copy of an owning vector is independent of the original, a segment or alias shares storage with its parent, contents are those of the sequence semantics. No storage is freed twice, used after being freed, accessed outside its bounds, or leaked.",
 ["inputs","histories"],"every bounded operation sequence over a pool of vectors, with symbolic operations, sizes and contents","Tests run one fixed sequence and print; ownership errors are invisible to them.",
 ["Vector.h","BitVector.h"],[("VectorBase::vInit/resize/clone/makeAlias/copyToSegment/vConcat/operator=","Vector.h")])
p("V07","Soft vectors: slicing, energy and SNR",
 "Converting bits to soft values and slicing back is the identity, and slicing decides 1 exactly when the soft value exceeds 0.5. For soft values in [0,1], energy lies in [0,1] and its reported minimum is the smallest per-symbol energy; SNR is finite, positive and at most 1000 for non-empty vectors, and 0 for an empty one; a perfectly hard vector has SNR 999 and energy 1 and an entirely unknown one has energy 0. Marking unknown sets every symbol to 0.5.",
 I,"every soft value in [0,1] (IEEE float), short lengths","Tests never evaluate energy, SNR or sliced values with an assertion.",
 ["BitVector.cpp"],[("SoftVector::sliced/getEnergy/getSNR/unknown","BitVector.cpp")])
p("N01","16.16 fixed-point arithmetic is exact within its range",
 "For all operands whose exact result is representable in 16.16 format: addition, subtraction and comparison are exact; multiplication and division of fixed-point values give the exact result to within one unit in the last place; conversion from an integer is exact and conversion to or from float is correct to within rounding. Plain assignment yields the assigned value, both in the target and as the value of the expression, and every compound operator agrees with its binary form.",
 I,"all operand pairs (32 bits each)","F16Test prints a handful of results and asserts nothing.",
 ["F16.h"],[("class F16 operators","F16.h")])
p("N02","Time values stay normalised and time arithmetic is exact",
 "For every current time and millisecond offset, a future time has microseconds (and nanoseconds in its timespec form) strictly within one second and lies exactly the offset after the current time. The difference, elapsed and remaining time between any two times agree with the true difference to under one millisecond with the right sign, over the whole range of times, and a time has passed exactly when the current time is strictly later. Adding minutes adds exactly that many minutes.",
 I,"every clock reading and every offset","TimevalTest sleeps and prints a few values near the present.",
 ["Timeval.cpp","Timeval.h"],[("Timeval::future/delta/elapsed/remaining/passed/timespec/addMinutes","Timeval.cpp, Timeval.h")])
p("N03","Initialised scalars, running statistics and bit sets compute what they say",
 "Initialised scalar wrappers start at their declared initial value and then behave exactly as the wrapped type under every assignment, increment, decrement and compound operation, in value and in result. A running statistic reports the current, minimum, maximum, count, and average of exactly the samples added. A bit set reports a bit as set exactly when the last operation on that bit set it, for each of its 32 bits.",
 ["inputs","histories"],"every operand and every operation sequence up to the bound","No test covers these classes.",
 ["ScalarTypes.h","Utils.h"],[("scalar wrapper macros","ScalarTypes.h"),("Statistic, BitSet","Utils.h")])
p("S01","URL encoding is reversible and emits only safe characters",
 "For every byte string, URL-encoding yields only unreserved characters and %XX triplets with two hexadecimal digits, leaves unreserved characters unchanged, and standard percent-decoding of the result restores the original bytes.",
 I,"every byte string up to the length bound, including NUL and bytes >= 0x80","The test prints one encoded string.",
 ["URLEncode.cpp"],[("URLEncode digits table and unreserved set","URLEncode.cpp")])
p("S02","Base64, hex and binary encodings round-trip and report malformed text",
 "For every byte string and each supported encoding (names matched case-insensitively), encoding produces the standard text form (base64 with padding, upper-case hex pairs, or verbatim) without error and decoding it, also with white space interspersed, restores the bytes without error. Decoding text with a foreign character, data after base64 padding, or an odd number of hex digits, and any use of an unknown encoding name, sets the error message. No call reads outside its input.",
 I,"every byte string and every text up to the length bound","UtilsTest round-trips a few fixed strings.",
 ["Utils.cpp"],[("encodeToString/decodeToString and the decoder maps","Utils.cpp")])
p("S03","Tokenizers return exactly the tokens of their input",
 "For every input string, splitting yields in order exactly the maximal runs of non-separator characters (up to the requested maximum), zero-terminates each one, and never touches memory outside the input and the result array. Asking for the n-th argument yields the position and length of exactly the n-th white-space separated word, or nothing when there are fewer than n words.",
 I,"every string, separator set, and count up to the bound","UtilsTest uses one or two inputs.",
 ["Utils.cpp"],[("cstrSplit/cstrGetArg/stringSplit","Utils.cpp")])
p("S04","String replacement, first lines and concatenation match their definitions",
 "Replacing all occurrences yields the left-to-right, non-overlapping replacement of every occurrence, never rescans inserted text, and terminates for every search string including the empty one (which changes nothing). The first n lines of a text are the shortest prefix holding n line ends, or the whole text when it has fewer. Concatenation of two to seven strings is their exact juxtaposition, including embedded NUL bytes.",
 I,"every text, search and replacement string and n >= 1 up to the bound","UtilsTest covers no replacement that overlaps, grows or is empty.",
 ["Utils.cpp"],[("replaceAll/firstlines/stringcat","Utils.cpp")])
p("S05","Formatted output equals what printf would produce, at every length",
 "Formatting a string returns exactly what the printf family produces for those arguments, for every result length up to the documented 5000-character limit, and beyond it exactly the first 5000 characters. Formatted stream output writes the same text as long as it fits its 300-byte line buffer and otherwise a prefix of it ending in an ellipsis. No result length causes an out-of-bounds access.",
 I,"every result length around each internal buffer size, with symbolic contents","UtilsTest formats only short strings.",
 ["Utils.cpp"],[("format/format1/osprintf","Utils.cpp")])
p("S06","128-bit and 32-bit values convert to fixed-width hex text and back",
 "A pair of 64-bit values converts to exactly 32 lower-case hexadecimal digits, most significant first and zero-padded, and converting any such 32-digit string (either letter case) gives the pair back. A 32-bit value converts to exactly eight hexadecimal digits.",
 I,"all values","UtilsTest converts one constant.",
 ["Utils.cpp"],[("stringToUint/uintToString","Utils.cpp")])
p("S07","Greatest common divisor, bounded scanning and time stamps are correct",
 "The greatest common divisor of two positive numbers divides both and is divisible by every common divisor. Scanning words from text assigns exactly the words scanned, leaves the other targets untouched and returns their number. A time stamp of a requested width is the rightmost part of the full stamp for the current time, never longer than requested, the ISO form of a time parses back to that time, and a time value prints as its seconds with six decimals. The clock in seconds is the system's to the microsecond, and a sleep lasts for the time asked.",
 I,"every pair below the bound, every text up to the bound, every time and width","UtilsTest prints two examples; time stamps are never compared.",
 ["Utils.cpp","Timeval.cpp"],[("gcd/myscanf/timestr/timef/sleepf","Utils.cpp"),("Timeval::isoTime","Timeval.cpp")])
p("S08","Tables, statistics and printable objects show every value, uncut",
 "For every table, each cell is printed in its row and column, padded to the widest cell of its column (at most 100) or separated by tabs, uncut, with a lone underscore shown as empty; a statistic prints its current, least, greatest and mean value and its count, whatever they are; and an object's text, streamed or as a string, is exactly what it prints.",
 I,"every content up to the bound, lengths across the internal limits","No test covers them.",
 ["Utils.cpp","Utils.h"],[("printPrettyTable/Text2Str/Statistic::text","Utils.cpp")])
H=["inputs","histories"]
p("Q01","Linked containers behave as the sequences they represent",
 "For every sequence of operations, the pointer FIFO, the intrusive single-linked list and the pointer-list wrapper return elements in exactly the order and number their operations define, keep size consistent with contents, return nothing when empty, and iterate over exactly their contents. No operation leaks, double-frees or touches freed nodes. (Copying a container is not an operation.)",
 H,"every operation sequence up to the bound","No test checks order, size or removal from the middle.",
 ["LinkedLists.cpp","LinkedLists.h","Interthread.h"],[("PointerFIFO put/push_front/get/peek/free","LinkedLists.cpp"),("SingleLinkList, PtrList","LinkedLists.h")])
SC=["schedules"]
p("Q02","Interthread queues lose nothing, duplicate nothing, keep order, wake readers",
 "Under every interleaving of writers and readers, every element written to an interthread queue is received exactly once or is still in the queue at the end, elements of one writer are received in the order written, and size equals the number held. A blocked reader wakes whenever an element is available to it, no operation deadlocks, and clearing deletes exactly the elements removed.",
 SC,"every schedule of the bounded thread programs (two to three threads, preemption at every shared access or synchronisation)","InterthreadTest runs one timing-dependent schedule and prints.",
 ["Interthread.h","Threads.h","Threads.cpp"],[("InterthreadQueue write/read/readNoBlock/clear/iqConnect","Interthread.h"),("Mutex, Signal","Threads.h, Threads.cpp")])
p("Q03","Timed operations honour their timeout and never miss available data",
 "For every schedule and clock behaviour, a timed read returns an element if one becomes available before its deadline, and otherwise returns empty once, and only once, the deadline has passed, to the documented precision of 2 milliseconds; it never spins forever or returns empty earlier than that. A timed lock or timed wait returns at the deadline or when granted, and its result says which.",
 ["schedules","inputs"],"every schedule of a timed reader against a writer, every timeout and every clock advance","InterthreadTest uses one timeout on an otherwise idle machine.",
 ["Interthread.h","Threads.cpp","Timeval.cpp"],[("InterthreadQueue::read(timeout), iqWaitForEither","Interthread.h"),("Signal::wait(timeout), Mutex::timedlock","Threads.cpp")])
p("Q04","The interthread map is linearizable and frees what it owns",
 "Under every interleaving, each write, read, non-blocking read, removal and size of an interthread map takes effect as on a plain key-value map at one instant; a blocking read of a key returns the value once it is written, and a timed one returns nothing only after its deadline, counted from when the read gets hold of the map. In the map that owns its values (pointers), replaced, removed, cleared and finally remaining values are each deleted exactly once.",
 ["schedules","histories"],"every schedule of bounded programs, every bounded operation sequence with symbolic keys","InterthreadTest prints one run.",
 ["Interthread.h"],[("InterthreadMap1, InterthreadMap write/read/readNoBlock/remove/clear","Interthread.h")])
p("Q05","Interthread priority queues deliver by priority without loss",
 "For every set of elements and every interleaving of writers and a reader, each element written to an interthread priority queue is delivered exactly once, and every read returns an element that no held element precedes in the queue's order. A blocked reader wakes when an element arrives, and a timed read returns empty only after its deadline.",
 ["schedules","inputs"],"every priority assignment and every schedule of bounded programs","No test covers the priority queue.",
 ["Interthread.h"],[("InterthreadPriorityQueue write/read/readNoBlock/peek","Interthread.h")])
p("Q06","Semaphores and bounded waits neither lose permits nor wakeups",
 "Under every interleaving, a binary semaphore holds at most one permit, grants one acquisition for each permit it held, never blocks while a permit is available, and its non-blocking attempt succeeds exactly when one is available. A queue with low-water waiting releases every waiting thread once its size is at or below the level that thread asked for, and not before.",
 SC,"every schedule of bounded programs with several waiters","No test covers semaphores or low-water waiting.",
 ["Interthread.h","Threads.h"],[("Semaphore, InterthreadQueueWithWait","Interthread.h, Threads.h")])
p("T01","Mutexes exclude, nest and report ownership correctly",
 "Under every schedule at most one thread holds a mutex, the holder may lock it again and it is released when unlocked as often as locked, the reported lock count and try-lock and timed-lock results match whether it was acquired. A scoped lock releases on every exit from its scope, including by exception.",
 SC,"every schedule of bounded lock/unlock programs, every nesting depth up to the bound","LockTest runs one schedule and prints.",
 ["Threads.h","Threads.cpp"],[("Mutex::lock/unlock/trylock/timedlock, ScopedLock","Threads.h, Threads.cpp")])
p("T02","Locking several mutexes at once never deadlocks and always takes all",
 "For every set of two or three mutexes, every order in which the threads name them and every subset the caller already holds, acquiring them together ends holding all of them, with no deadlock among threads that do the same, and releases on scope exit exactly those it acquired.",
 ["schedules","configurations"],"every schedule of two threads, every argument order and ownership pattern","LockTest samples random timings.",
 ["Threads.h","Threads.cpp"],[("ScopedLockMultiple::_lockAll/_init/_restart","Threads.cpp")])
p("T03","Reference-counted objects live exactly as long as they are referenced",
 "For every sequence of creating, copying, assigning, clearing and destroying counted pointers, and every interleaving of two threads doing so on their own pointers to one object, the object is destroyed exactly once, when its last pointer goes away, and never while a pointer refers to it; the reported count equals the number of pointers.",
 ["schedules","histories"],"every bounded operation sequence over a pool of pointers and objects, every schedule of two threads","No test asserts on object lifetime.",
 ["Utils.h","Utils.cpp"],[("RefCntPointer, RefCntBase inc/decRefCnt","Utils.h, Utils.cpp")])
p("T04","Threads run their task exactly once, and joining waits for it",
 "Under every schedule a started thread runs the given function with the given argument exactly once, joining returns only after it has finished, and a thread object can be started again afterwards. Broadcast wakes every waiter and signal at least one, once the waiter has begun waiting.",
 SC,"every schedule of bounded programs","ThreadTest and InterthreadTest rely on sleeping.",
 ["Threads.h","Threads.cpp"],[("Thread::start/join, Signal","Threads.h, Threads.cpp")])
p("C01","Configuration values follow every history of set, remove and default",
 "For every sequence of set, remove, lookup and reload over keys with and without schema defaults, a lookup yields the value most recently set for that key if it has not been removed since, else the schema default, and otherwise reports the key as not found; set values survive reopening. Setting one key never changes another, for values and keys containing any characters including quotes.",
 H,"every operation sequence up to the bound over several keys and symbolic string contents","ConfigurationTest sets a few keys and prints.",
 ["Configuration.cpp","Configuration.h","sqlite3util.cpp"],[("ConfigurationTable::set/remove/lookup/defines/getStr","Configuration.cpp")])
p("C02","Configuration reads are never staler than the cache lifetime",
 "For every history of changes to the stored configuration, by this process or another, and every clock behaviour, a read returns a value that was stored at some moment within the last three seconds (of steady time) or since, and a change made through the same table is visible to the next read. This holds for each table separately.",
 ["histories","inputs"],"every bounded history of local and foreign updates, reads and clock advances","ConfigurationTest never changes the database from outside.",
 ["Configuration.cpp"],[("checkCacheAge, purge, lookup cache","Configuration.cpp")])
p("C03","Typed configuration accessors return the value the text denotes",
 "For every stored text, numeric access returns the number it denotes (decimal, hexadecimal or octal notation; of text that is not a number, its numeric prefix), boolean access is false exactly for absent, empty, false-like and zero values, float access parses decimals, and vector access yields the numbers in order. A search lists exactly the keys containing the pattern, irrespective of case, and access to an undefined required key throws instead of returning a value.",
 I,"every stored text up to the bound","ConfigurationTest reads a few constants.",
 ["Configuration.cpp"],[("ConfigurationRecord number parsing, getNum/getFloat/getBool/getVector/getVectorOfStrings/find","Configuration.cpp")])
p("C04","Configuration validation accepts exactly the valid values of each kind",
 "For every key kind and every candidate text, validation accepts it exactly when it matches the kind's documented form: booleans, choice lists, value ranges (their steps are not enforced, as documented), IP addresses with and without port, host names, ports, CIDR blocks, numeric and string kinds. Validating never changes the configuration; for an unknown key every value is refused, and a separate query tells such a key from a refused value.",
 I,"every candidate text up to the bound, for each kind","No test validates values.",
 ["Configuration.cpp"],[("isValidValue/isValidIP/ConfigurationKey","Configuration.cpp")])
p("C05","Key=value argument lists parse into exactly their pairs",
 "For every argument text, parsing yields exactly the key/value pairs present, a lookup returns the value of that key or reports it missing, checked numeric lookup says whether the value is present and a number, and no parse leaks or reads outside the text.",
 I,"every text up to the bound","No test covers it.",
 ["Configuration.cpp","Configuration.h"],[("SimpleKeyValue addItem/addItems/get/getNum","Configuration.cpp")])
p("C06","Printed descriptions of configuration keys state each key's definition",
 "For every key, the printed description states exactly its own description, units, type, default, visibility, static flag, scopes and valid values (each choice with its own description or none, each range with its own limits), the printed key shows its current value and marks it as default only when it equals the default, and the generated documentation lists every key of the schema once, in the section of its visibility, with TeX characters escaped.",
 I,"every key definition up to the bound","No test covers them; a wrong line shows only for one kind of key.",
 ["Configuration.cpp","Configuration.h"],[("ConfigurationKey printKey/printDescription/typeToString/visibilityLevelToString, ConfigurationTable getTeX","Configuration.cpp")])
p("D01","Database calls survive busy and failing results without leaks or lies",
 "For every sequence of result codes the database may return, each statement prepared is finalised exactly once, busy results are retried up to the limit with a bounded number of attempts, and the reported success equals whether the statement completed. A failed or missing lookup never yields a stale or uninitialised value.",
 ["fault_sequences"],"every sequence of result codes up to the retry bound","The tests only ever see a healthy database.",
 ["sqlite3util.cpp","sqlite3util.h"],[("sqlite3_prepare_statement, sqlite3_run_query, sqlite3_command, sqlite3_single_lookup, sqlQuery","sqlite3util.cpp")])
p("D02","Database lookups and updates address exactly the named row and column",
 "For every table content and key, a single lookup returns the value stored in the named column of the row whose key equals the requested key, for numeric and string keys and values, and reports absence when there is none; setting an attribute changes exactly that attribute of that row and reading it back gives the value written.",
 I,"every key and value text up to the bound, including quotes and long values","No test covers these functions on their own.",
 ["sqlite3util.cpp"],[("sqlite3_condition, sqlite3_single_lookup, sqlite_get_attr/sqlite_set_attr","sqlite3util.cpp")])
p("L01","The alarm list keeps exactly the most recent alarms, in order",
 "For every sequence of alarm messages and every configured non-negative maximum, the alarm list holds after each alarm exactly the most recent messages up to the maximum then configured, in order of arrival, and every message is also emitted as a log record; concurrent alarms from two threads lose none within the maximum.",
 ["histories","schedules"],"every sequence up to the bound and every interleaving of two threads","LogTest prints one run.",
 ["Logger.cpp","Logger.h"],[("addAlarm/gGetLoggerAlarms","Logger.cpp")])
p("L02","Messages are logged exactly when their level is enabled, whole and once",
 "For every configured global or per-file level and every message level, a log statement evaluates and emits its message if and only if the level is at least as severe as the configured one; per-file settings override the global one, and a change of setting is in effect no later than after a thousand or so further log statements (levels are cached). Each enabled message results in exactly one record at its own severity carrying the complete text, and lookup of a level name is case-sensitive; an unknown name in the configuration is reported and replaced by the default level.",
 ["inputs","configurations"],"every level pair, file name and setting up to the bound","LogTest prints messages for inspection.",
 ["Logger.cpp","Logger.h"],[("gGetLoggingLevel/lookupLevel/Log::~Log, IS_LOG_LEVEL","Logger.cpp, Logger.h")])
p("L03","Log group levels follow the configuration",
 "For every configuration of log groups, a group's level is the configured one for that group; unset or empty it logs only emergencies, and an invalid name is reported and replaced by the default level. After every configuration change and refresh all groups reflect it; a group statement emits exactly when its level is enabled for the group or for its file.",
 ["configurations","histories"],"every combination of group settings up to the bound","No test covers log groups.",
 ["Logger.cpp","Logger.h"],[("LogGroup::setAll/LogGroupInit","Logger.cpp")])
p("R01","Report counters equal the sum of all increments since the last clear",
 "For every history of create, increment, maximum, clear and commit over created named and indexed counters (increments and maxima of one counter not mixed between commits), after a commit the stored value of each counter equals the number of increments (or largest maximum) since its last clear, failing database writes lose nothing, and times of update and clear are recorded. Concurrent increments during a commit are counted.",
 ["histories","fault_sequences","schedules"],"every bounded history, database failure pattern and interleaving of one incrementing thread with the committer","ReportingTest is not run by default and prints.",
 ["Reporting.cpp","Reporting.h"],[("ReportingTable::incr/max/clear/create/commit","Reporting.cpp")])
p("M01","The leak detector's counts are those of the live objects of each class",
 "For every history of creating, copying, assigning, labelling and deleting leak-checked objects, in any number of threads, the count of each class is the number of its live objects, its total the number ever made, the count of each allocation label the number of live objects carrying it, and the printed report states them whole.",
 ["histories","schedules"],"every history and interleaving up to the bound","No test covers it; the tests never look at the counts.",
 ["MemoryLeak.h","Utils.cpp"],[("MemStats memChkNew/memChkDel/memLabelAdd/text, DEFINE_MEMORY_LEAK_DETECTOR_CLASS, RN_MEMLOG","MemoryLeak.h")])
p("K01","Socket addresses resolve, sends and receives stay within their buffers",
 "For every host:port text, address resolution yields the IPv4 address and port denoted or, for an unknown host, a missing port or one above 65535, fails, and keeps no memory; two threads resolving at once each get their own answer. For every datagram size and path length, sending and receiving never access memory outside the caller's buffer or the address structures, and paths that do not fit are refused; timed reads work for every descriptor and time out only when no datagram arrived, and every socket opened is closed exactly once.",
 ["inputs","fault_sequences"],"every text, path and length up to the bound and every result of the system calls","SocketsTest needs a network and is not in the stable set.",
 ["Sockets.cpp","Sockets.h"],[("resolveAddress, DatagramSocket write/read/send, UDPSocket/UDDSocket destination/open","Sockets.cpp")])
p("U01","Signals reach every registered handler and a crash is reported",
 "For every sequence of handler registrations and every signal, delivering the signal calls exactly the handlers registered for it, once each, in order, and signal numbers outside 1 to 63 are rejected without memory access. Exactly the crash signals write a core, under the configured name. A self-detection file names this process, is created only if there is none, even when two instances start at once, and it and the registered files are removed at exit.",
 ["histories","inputs"],"every bounded registration sequence and signal number; every content of a pre-existing file","UnixSignalTest and SelfDetectTest are not in the stable set.",
 ["UnixSignal.cpp","UnixSignal.h","SelfDetect.cpp"],[("UnixSignal::Register/Handler/Dump","UnixSignal.cpp"),("SelfDetect::RegisterProgram/Exit","SelfDetect.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
