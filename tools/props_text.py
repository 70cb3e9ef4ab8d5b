p("C01", "Every lock taken is given back on every way out",
  """Whatever path a library operation takes, including an error or exception raised part-way (by the library itself, by
  a user callback or by an allocation), every mutex it acquired has been released by the time the operation is over, no
  mutex is released that is not held, re-acquired while held, or waited on while not held, and a lock guard always undoes
  exactly what its construction did.""",
  ["schedules", "inputs", "fault_sequences"],
  "every function that reaches a mutex operation, every path through it, normal and exceptional, for every input and error",
  """The tests drive a handful of success paths; a lock leaked on an error path only shows as a later deadlock in another
  thread, and only when that error happened.""",
  ["src/LintelLog.cpp", "src/Clock.cpp", "src/ClockPThread.cpp", "src/PThread.cpp", "src/SimpleMutex.cpp", "include/Lintel/PThread.hpp.in",
   "include/Lintel/SimpleMutex.hpp", "include/Lintel/LockOrderingGroup.hpp"],
  [("scope guards", "include/Lintel/PThread.hpp.in PThreadScopedLock/PThreadScopedUnlock/PThreadAutoLocker; include/Lintel/SimpleMutex.hpp SimpleScopedLock"),
   ("lock users", "src/LintelLog.cpp, src/Clock.cpp, src/ClockPThread.cpp")])
p("C02", "Process-wide mutable state is only touched under its lock",
  """Variables with static storage (and the heap objects they own) that library operations update after start-up are
  accessed by every operation under one common mutex, or only by atomic operations, or only during one-time thread-safe
  initialisation: the log configuration (category table, level patterns, appender list), the clock calibration rate, the cached processor
  count, the cache shared by quantile accumulators, lazily built tables, and any other static an operation comes to update. The
  log instance is created once and never replaced. Level checks may read the log level table without the lock, and therefore registering
  a category never moves that table's storage. (Interfaces meant for single-threaded start-up - assertion hooks, program options, StatsMaker, ConstantString,
  LintelLog::reserveCategories, Double::setEpsilonBits and the clock's scaling options - are outside this property.)""",
  ["schedules"],
  "every function of the library, every access to a mutable variable with static storage, under every interleaving",
  """A missing lock is invisible in single-threaded tests, and in multi-threaded ones almost always.""",
  ["src/LintelLog.cpp", "src/Clock.cpp", "src/ClockPThread.cpp", "src/StatsQuantile.cpp", "src/PThread.cpp", "src/StringUtil.cpp",
   "include/Lintel/Base64.hpp"],
  [("instance mutex and double-checked creation", "src/LintelLog.cpp maybeInitInstance, lockedCategoryToId"), ("clock rate mutex", "src/Clock.cpp setClockRate"),
   ("processor count cache", "src/PThread.cpp PThreadMisc::getNCpus"), ("quantile cache", "src/StatsQuantile.cpp")])
p("C03", "Atomic counters are indivisible and return what they promise",
  """Every operation of the atomic counter types is one indivisible read-modify-write (or one whole read) of the counter,
  so no concurrent update is ever lost or seen half-done, and no memory access moves across it; the value it returns is computed from that same
  indivisible step (the old value for fetch-and-op, the new value for op-and-fetch, whether the result is zero for the test operations).""",
  ["schedules", "inputs"],
  "every member operation of the atomic types, for every supported width, operand value and interleaving",
  """A lost update needs a precise interleaving of two threads inside a few instructions; the tests run a short hammer
  and check a total.""",
  ["include/Lintel/AtomicCounter.hpp"],
  [("atomic builtins / locked instructions", "include/Lintel/AtomicCounter.hpp")])
p("C04", "A failing system or thread call is never taken for success",
  """When a POSIX, stdio or pthread call that the library makes fails, with any error code, the library operation that made it does not carry on as if it had succeeded: it
  reports the failure in its result, raises an error, retries, or aborts. In particular a lock operation
  that returned an error is never treated as having acquired the lock, and a file stream that could not be opened is not read as an empty file. (Not covered: diagnostic output to
  the terminal, sleeps that are cut short, gettimeofday, closing a stream that was only read, formatting in memory, and destroying thread attribute objects.)""",
  ["fault_sequences", "inputs"],
  "every call site of a fallible OS interface in the library, and every error value it may produce",
  """The tests run on a machine where these calls succeed; provoking each one to fail at each call site is not something
  they do.""",
  ["src/PThread.cpp", "include/Lintel/PThread.hpp.in", "include/Lintel/SimpleMutex.hpp", "src/SimpleMutex.cpp", "src/Posix.cpp", "include/Lintel/Posix.hpp",
   "include/Lintel/FileUtil.hpp", "src/Clock.cpp", "src/TestUtil.cpp", "src/LintelLog.cpp"],
  [("checked results", "include/Lintel/PThread.hpp.in, include/Lintel/Posix.hpp, include/Lintel/FileUtil.hpp")])
p("C05", "Every file, directory or pipe opened is closed exactly once",
  """A file, directory stream, pipe or address-lookup result that a library operation
  opens is closed exactly once before the operation finishes, with the matching close call, on every path including errors and exceptions (running out of memory aside), unless it is
  handed to the caller or to an object that closes it when destroyed and cannot be copied; and it is not used after it is closed.""",
  ["inputs", "fault_sequences"],
  "every open site, every path from it to the end of the operation or of the owning object",
  """Handle leaks happen on error paths the tests do not take and do not fail a test even when taken.""",
  ["include/Lintel/FileUtil.hpp", "src/TestUtil.cpp", "src/LintelLog.cpp", "src/unstable/ProcessStatistics.cpp", "include/Lintel/Posix.hpp"],
  [("close on all paths", "include/Lintel/FileUtil.hpp"), ("owning objects", "src/unstable/ProcessStatistics.cpp")])
p("C06", "Owned heap memory is freed exactly once, with the matching form",
  """Memory that a library class or function allocates for itself (directly, or as the elements of an array or container it keeps) is freed exactly once: not leaked when the
  object is destroyed, reset, resized or refilled, when elements are discarded, or when an operation is abandoned with an exception (running out of memory aside); not used after it is
  freed, nor freed again by a copy of the object; and released with the deallocator that matches its allocation. Per-thread objects are freed when their thread ends.""",
  ["inputs", "histories", "fault_sequences"],
  "every allocation the library performs, every owning field, every sequence of operations on the owner",
  """Leaks and mismatched or double frees do not fail an assertion; they need particular operation sequences (copying an
  accumulator, growing twice, failing half-way).""",
  ["src/StatsHistogram.cpp", "src/StatsSeries.cpp", "src/StatsSeriesGroup.cpp", "src/StatsQuantile.cpp", "src/StatsRW.cpp", "src/Matrix.cpp", "src/Clock.cpp",
   "src/BoyerMooreHorspool.cpp", "include/Lintel/HashTupleStats.hpp", "include/Lintel/StatsCube.hpp", "include/Lintel/RotatingHashMap.hpp",
   "include/Lintel/Deque.hpp", "include/Lintel/PriorityQueue.hpp", "include/Lintel/ByteBuffer.hpp"],
  [("destructors and reset methods", "the classes listed")])
p("C18", "Every formatted message has a format string that matches its arguments",
  """Every message the library formats - the text of assertions and errors (debug-only ones included), warnings, log output and reports - uses a well-formed format string that takes exactly the
  arguments it is given: for boost::format as many as the string names, on every path to its use; for the printf family with the right number and types. Reporting an error
  therefore never turns into a different error, and never loses the message.""",
  ["inputs", "fault_sequences"],
  "every formatted message in the library, on every path that can produce it",
  """Almost all these messages are only produced when something fails, which tests do not provoke; a mismatch throws or prints garbage exactly then.""",
  ["include/Lintel/Posix.hpp", "include/Lintel/AssertBoost.hpp", "src/AssertBoost.cpp", "src/Clock.cpp", "src/PThread.cpp", "src/LintelLog.cpp", "src/StatsQuantile.cpp",
   "include/Lintel/HashTable.hpp", "include/Lintel/HashMap.hpp"],
  [("formatted messages", "every INVARIANT, FATAL_ERROR, LintelLog and report in src/ and include/Lintel/")])
p("C16", "A constructed object holds no indeterminate value",
  """Every constructor of a library class gives every scalar, enumeration, pointer and array member it declares (also those inside plain members and bases without a constructor of their own) a value on
  every path by which it returns, whatever its arguments, and reads no member before that; and no library function reads a local variable that has no value. What a fresh object
  does is therefore the same in every run, never a function of what its memory held before. (Excepted: the histogram parameters of StatsMaker::statDefT and the bounds
  of StatsQuantile's search helper, which their users set before reading.)""",
  ["inputs", "histories"],
  "every constructor and every path through it; every function for locals",
  """Fresh memory is usually zero in a test, so a forgotten initialiser passes there and misbehaves in a long-running program.""",
  ["include/Lintel/MarsagliaRandom.hpp", "include/Lintel/HashTable.hpp", "include/Lintel/PriorityQueue.hpp", "include/Lintel/Tuples.hpp", "include/Lintel/ByteBuffer.hpp", "src/StatsQuantile.cpp",
   "src/StatsHistogram.cpp", "src/StatsSequence.cpp", "src/Clock.cpp", "src/PThread.cpp"],
  [("constructors", "every constructor in include/Lintel/ and src/")])
p("C10", "Resetting, copying and merging leave no state out",
  """(1) reset() and clear() of the statistics classes, containers, byte buffer and iterators give every member that the class's (or its bases') other operations change a value again on
  every returning path - a member given a constant gets the constant the constructors give it - so nothing of the history before survives in it, whether the object had just been created, grown or
  merged. Kept on purpose are storage capacity, scratch space, configuration, and the number of growth steps of a growable histogram. (2) Copy constructors and assignment operators of library
  classes take every member from the same member of the source on every path on which source and destination differ (Deque, which copies element by element, excepted). (3) Stats::add(const Stats &)
  combines each of count, sum, sum of squares, minimum and maximum with the same member of the other statistic and leaves none out. (4) Every override of add(value) and addTimeSeq in a statistics
  class counts the value in the inherited count, sum and sum of squares exactly once on every returning path.""",
  ["inputs", "histories"],
  "every reset, clear, copy, merge and add function of the library's classes, every member, every path",
  """A test resets an object once, after a short history that changed only some members, and checks a few observers; a member left out shows only in the observer that reads it after the history that changed it.""",
  ["src/Stats.cpp", "src/StatsQuantile.cpp", "src/StatsEMA.cpp", "src/StatsSequence.cpp", "src/StatsHistogram.cpp", "src/StatsMaker.cpp", "src/StatsSeriesGroup.cpp", "src/StatsRW.cpp", "include/Lintel/HashTable.hpp",
   "include/Lintel/PriorityQueue.hpp", "include/Lintel/Deque.hpp", "include/Lintel/ByteBuffer.hpp", "include/Lintel/LeastSquares.hpp"],
  [("base statistic", "src/Stats.cpp")])
p("C11", "Seeded random streams and hash values are reproducible",
  """(1) init and initArray of every random generator give every member that any other operation reads or changes (state arrays element by element, buffered booleans included) a new value on every returning
  path and read no member before doing so, and a constructor given a seed seeds itself with exactly that seed: what is drawn afterwards is a function of the seed alone, whatever was drawn or seeded before.
  (2) Seeding, drawing, shuffling with a given generator, and hashing read no variable that changes while the program runs, use no object's address as a number, and call nothing that depends on
  clock, process, environment or files; the one exception is constructing a Mersenne Twister with seed 0, which asks for entropy. (3) randInt(n) and randIntUnbiased(n) (n > 0) return values below n;
  randDouble, randDoubleOpen and randDoubleOpen53 return values in [0,1), randDoubleClosed and randDoubleClosed53 in [0,1].""",
  ["inputs", "histories"],
  "every generator class and every one of its operations; every hash function; all seeds, ranges and histories",
  """Reference-sequence tests seed a fresh object with one seed; state that survives reseeding, or leaks in from outside, shows only after another history or in another process, and an end point of a range
  only once in 2^32 draws or less.""",
  ["include/Lintel/RandomBase.hpp", "include/Lintel/MarsagliaRandom.hpp", "include/Lintel/MersenneTwisterRandom.hpp", "src/MersenneTwisterRandom.cpp", "include/Lintel/HashFns.hpp", "src/HashFns.cpp"],
  [("generators", "include/Lintel/RandomBase.hpp"), ("hash functions", "src/HashFns.cpp")])
p("C12", "A failed assertion is reported once and never passed by",
  """(1) INVARIANT, CHECKED, SINVARIANT, FATAL_ERROR and (debugging on) DEBUG_INVARIANT, DEBUG_SINVARIANT, and AssertException(Msg), evaluate their condition exactly once, evaluate their message only when the
  condition does not hold, and then never let execution continue after them: AssertBoostFail is called with the text of the expression, the file and line, also when evaluating or formatting the message throws a
  standard exception, and an AssertBoostException raised by a hook reaches the caller as it is. With debugging off DEBUG_ forms evaluate nothing, and no debug-only check in the library changes anything when on.
  (2) AssertBoostFail never returns: it calls every hook registered for before the message, then writes expression, file, line and (if not empty) message to cerr, then calls every hook registered for after it, each with the expression,
  file, line and message of this failure, then terminates the program with a failure status, unless a hook throws. An assertion that fails inside a hook is reported and ends the program without calling hooks
  again; after a hook has thrown, later failures are handled like the first. (3) Clearing removes every hook; AssertBoostThrowExceptionFn always throws an AssertBoostException carrying the four values; its what() is never null nor
  dangling; formatted AssertException messages of any length arrive in full; the TEST_INVARIANT macros succeed only if the code raised an assertion, and leave no hook set.""",
  ["inputs", "fault_sequences", "histories"],
  "every assertion macro and every path through the assertion machinery, with hooks and message evaluation returning or throwing; every debug-only check in the library",
  """An assertion that fails is the end of a test; what happens with throwing hooks, failing hooks, throwing messages or two hooks is sampled once at best, and debug-only side effects show only in the build that is not tested.""",
  ["include/Lintel/AssertBoost.hpp", "src/AssertBoost.cpp", "include/Lintel/AssertException.hpp", "src/AssertException.cpp", "include/Lintel/TestUtil.hpp"],
  [("macros", "include/Lintel/AssertBoost.hpp"), ("hooks and termination", "src/AssertBoost.cpp AssertBoostFail")])
p("C15", "Asking an object something does not change it",
  """No const member function of a library class, none of the read-only operations without a const form (lookup, find, begin, end, top, front, back, at, size, walk, printing, ...), and no comparison changes the object
  it is called on, or anything that belongs to it (elements, chains, buffers, bins, sub-statistics), on any path, also when it throws; and no library function changes what it is given by const reference
  or pointer to const - the source of a copy or merge, a key, a buffer to hash or to search. So the order and number of questions asked never influences an answer, and objects that nobody
  changes can be read concurrently. (Excepted, because they work in the object's scratch space or cache: StatsQuantile's quantile and printing functions and AssertBoostException::what; RotatingHashMap::lookup and exists move entries on purpose;
  functions whose documentation says that they create a missing entry create it. What user callbacks do is their own business.)""",
  ["inputs", "histories", "schedules"],
  "every const or read-only operation and every const parameter of every library function, on every path",
  """C++'s const does not reach through pointers and every container here owns its storage through pointers; a query that rearranges storage still answers correctly in a test that asks once and from one thread.""",
  ["include/Lintel/HashTable.hpp", "include/Lintel/HashMap.hpp", "include/Lintel/Deque.hpp", "include/Lintel/PriorityQueue.hpp", "include/Lintel/ByteBuffer.hpp", "include/Lintel/StatsCube.hpp", "src/StatsHistogram.cpp",
   "src/StatsSeries.cpp", "src/StatsSequence.cpp", "src/LeastSquares.cpp", "src/Matrix.cpp"],
  [("read-only operations", "every const member function in include/Lintel/ and src/")])
p("C07", "An argument may live in the container it is given to",
  """Container operations (Deque, PriorityQueue, HashTable, HashMap, HashUnique, RotatingHashMap, HashTupleStats, StatsCube) that take an element or key by const reference do what they would do
  with a copy of it made before the call, also when it is an element (or part of one) of that same container: nothing is read through the reference once the operation has changed, moved or freed
  the elements the container keeps. Likewise an operation given another object of its own class by const reference (assigning a hash container or a Deque, adding one Stats to another, appending or assigning a
  ByteBuffer) reads no member of it after changing that member of its own, and uses no pointer into it after replacing its own storage, unless the two are known to be different objects.
  (Elements passed as iterators, and standard containers passed as arguments, are the caller's business.)""",
  ["inputs", "histories"],
  "every operation with a const reference parameter of element, key or own type, every path, every argument that refers into the object",
  """Self-references are rare in tests, and when storage happens not to be reallocated or freed memory still holds the old bytes the result is even right.""",
  ["include/Lintel/Deque.hpp", "include/Lintel/PriorityQueue.hpp", "include/Lintel/HashTable.hpp", "include/Lintel/HashMap.hpp", "include/Lintel/HashUnique.hpp",
   "include/Lintel/RotatingHashMap.hpp", "include/Lintel/HashTupleStats.hpp", "include/Lintel/StatsCube.hpp", "include/Lintel/ByteBuffer.hpp", "src/Stats.cpp"],
  [("element insertion with growth", "include/Lintel/Deque.hpp push_back/push_expand, include/Lintel/PriorityQueue.hpp push/replaceTop"),
   ("removal by key", "include/Lintel/HashTable.hpp remove, include/Lintel/RotatingHashMap.hpp remove/lookup"),
   ("own class", "include/Lintel/HashTable.hpp assign, include/Lintel/ByteBuffer.hpp append/assign")])
p("C08", "A byte buffer keeps its bytes and never changes another's",
  """ByteBuffer: no operation on one buffer ever changes what another buffer that was copied from it (or to it) reads: the storage is changed only when, on that path, it is known to be unshared; an operation that would
  have to change shared storage is refused unless copying on write is allowed or there is no storage, and then copies exactly the readable bytes. Only copying and assignment share. The readable bytes survive resizing and shifting
  unchanged and in order; extending, removing and consuming move one end of the readable region by exactly the amount asked for, extending and removing never beyond what there is (whatever the argument); reset and purge leave nothing
  readable; storage replaced is freed and the recorded size is its real size. Bytes appended, read from a stream or replaced go exactly into the region made for them, and comparing, printing and converting use
  exactly the readable bytes. (Consuming more than is readable is the caller's error, checked in debug builds only; pointers handed out earlier are the caller's responsibility.)""",
  ["inputs", "histories"],
  "every operation of ByteBuffer and its storage class, every path, every state of sharing and of the regions, every argument",
  """A write through a shared buffer, or a region off by a few bytes, shows only for particular histories of copying, consuming and resizing.""",
  ["include/Lintel/ByteBuffer.hpp"],
  [("sharing", "include/Lintel/ByteBuffer.hpp ByteBuffer::uniqueify, forceUnique, detach, operator="), ("regions", "include/Lintel/ByteBuffer.hpp NoCopyByteBuffer")])
p("C17", "Every byte of text or data counts as a number from 0 to 255",
  """Strings and buffers may hold any bytes. Wherever the library classifies, case-converts, escapes, encodes, decodes, hashes, searches or orders the bytes it is given, a byte's value is the unsigned number 0 to 255:
  on a machine where plain char is signed, a byte from 0x80 never turns into a negative number that is passed to a character-classification function, indexes a table, is combined arithmetically with other values,
  is compared with a byte taken as unsigned, or decides an ordering comparison.""",
  ["inputs"],
  "every place where a char taken from a string or buffer is widened or compared, for every byte value",
  """The tests use ASCII text. Bytes from 0x80 appear in real data (names, binary keys, damaged input), and what goes wrong with them is a wrong answer or a read outside a table.""",
  ["src/StringUtil.cpp", "include/Lintel/Base64.hpp", "src/BoyerMooreHorspool.cpp", "src/HashFns.cpp", "src/Clock.cpp"],
  [("classification and case", "src/StringUtil.cpp maybehexstring, escapeUnprintable, ishexstring, stringIsBlank, stringIsSpace, downcaseString, upcaseString"),
   ("tables", "include/Lintel/Base64.hpp decode, src/BoyerMooreHorspool.cpp find, src/StringUtil.cpp mysqlEscape"), ("hashing", "src/HashFns.cpp bobJenkinsHash")])
p("N01", "Quantile estimates stay within the declared error bound",
  """For every sequence of added values within the declared count, every quantile reported differs in rank from the true
  quantile by at most the declared error.""",
  ["inputs", "histories"], "all value sequences up to the declared length, all quantiles",
  "The tests sample a few distributions; the bound quantifies over all sequences.",
  ["src/StatsQuantile.cpp", "include/Lintel/StatsQuantile.hpp"], [("collapse algorithm", "src/StatsQuantile.cpp collapse()")])
p("N02", "The priority queue always yields its most important element",
  """After any sequence of pushes, pops and replacements the top of the queue is an element that no other element precedes under
  the given ordering, and the multiset of elements is exactly what was pushed and not popped.""",
  ["histories", "inputs"], "all operation sequences and element orderings",
  "The tests run some random sequences.", ["include/Lintel/PriorityQueue.hpp"], [("sift up / sift down", "include/Lintel/PriorityQueue.hpp")])
p("N03", "Hash containers behave as mathematical maps and sets",
  """After any sequence of insertions, removals, copies, clears and iterations a hash table, map, unique set or rotating map contains exactly the
  keys and values a mathematical map would.""",
  ["histories", "inputs"], "all operation sequences, hash functions and keys",
  "The tests sample sequences; the property quantifies over all of them.",
  ["include/Lintel/HashTable.hpp", "include/Lintel/HashMap.hpp", "include/Lintel/HashUnique.hpp", "include/Lintel/RotatingHashMap.hpp"],
  [("chains and free list", "include/Lintel/HashTable.hpp")])
p("N04", "Statistics equal their mathematical definitions",
  """Count, mean, variance, extrema, histogram contents, exponential averages and regression coefficients equal (up to rounding) the value of their definition on the values added,
  also after merging accumulators.""",
  ["inputs", "histories"], "all value sequences and merge trees",
  "A few samples are compared with known results.",
  ["src/Stats.cpp", "src/StatsHistogram.cpp", "src/StatsEMA.cpp", "src/LeastSquares.cpp", "src/StatsSequence.cpp"], [("accumulators", "src/Stats.cpp")])
p("N05", "Random numbers have the advertised distribution",
  "The random generators produce the published reference sequences and uniform, unbiased variates.",
  ["inputs"], "all seeds and ranges", "Only a few seeds are compared with reference output.",
  ["src/MersenneTwisterRandom.cpp", "include/Lintel/MarsagliaRandom.hpp", "include/Lintel/RandomBase.hpp"], [("generator recurrences", "src/MersenneTwisterRandom.cpp")])
p("N06", "Pattern search reports exactly whether the pattern occurs",
  "The string matcher says a pattern matches exactly when it occurs in the searched bytes, for every pattern and text.",
  ["inputs"], "all patterns and texts", "A few strings are tried.",
  ["src/BoyerMooreHorspool.cpp", "include/Lintel/BoyerMooreHorspool.hpp"], [("skip table", "src/BoyerMooreHorspool.cpp")])
p("N07", "Clock readings are accurate and never go backwards",
  "Successive clock readings never decrease and stay within the configured error of the operating system's time.",
  ["schedules", "histories"], "all machines, calibrations and preemptions", "Timing behaviour is only sampled.",
  ["src/Clock.cpp", "include/Lintel/Clock.hpp"], [("calibration and monotonic modes", "src/Clock.cpp")])
p("N08", "Encoders and parsers round-trip",
  """Decoding what was encoded gives back the original bytes, for base-64, hexadecimal, numeric and host-address conversions.""",
  ["inputs"], "all byte strings", "A few strings are tried.",
  ["include/Lintel/Base64.hpp", "src/StringUtil.cpp", "include/Lintel/StringUtil.hpp"], [("tables", "include/Lintel/Base64.hpp")])
p("N09", "Interpolation search finds the right position",
  "Interpolation search returns the same position as a binary search for every sorted sequence, estimator and probe value.",
  ["inputs"], "all sorted sequences and estimators", "A few sequences are tried.",
  ["include/Lintel/unstable/InterpolationSearch.hpp"], [("bracketing", "include/Lintel/unstable/InterpolationSearch.hpp")])
p("N10", "The Perl tools keep their files and jobs consistent",
  """The batch-parallel, locking, key-file and dependency tools lock, rewrite and clean up the files they manage without losing
  updates when interrupted or run concurrently.""",
  ["crash_points", "schedules"], "all interleavings and crash points of the scripts", "The tests run each tool once.",
  ["src/batch-parallel.in", "src/lintel-flock.in", "src/Lintel/File/Lock.pm", "src/Lintel/Net/SSH/KnownHostsFile.pm", "src/deptool.in"],
  [("lock files and renames", "src/Lintel/File/Lock.pm")])
p("N11", "Operations meet their stated complexity",
  "Deque and priority-queue operations are amortised constant or logarithmic and hash lookups constant in expectation.",
  ["inputs", "histories"], "all operation sequences", "Nothing measures it.",
  ["include/Lintel/Deque.hpp", "include/Lintel/PriorityQueue.hpp", "include/Lintel/HashTable.hpp"], [("growth policy", "the listed headers")])
