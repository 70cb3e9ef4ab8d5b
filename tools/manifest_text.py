TECH = {
 "C01": ("path-sensitive lockset dataflow over inlined LLVM IR",
   """Every path, normal and unwinding, of every function that reaches a pthread lock call; branch outcomes of lock results tracked.
   Trusts clang 18's IR, the pthread contract, and that mutexes with different access paths are different mutexes."""),
 "C02": ("static lockset analysis over inlined LLVM IR",
   """Every access to every mutable static of the library on every path; intersection of locks held must be non-empty; double-checked creation and storage stability
   by partial evaluation. Exempt by name: documented single-threaded configuration interfaces (listed in the rule file)."""),
 "C03": ("value-flow analysis of IR and inline assembly per path",
   """Each instantiated operation (8 widths): one indivisible access, barrier, value expressions equal to the promised function; 8-bit instances compared exhaustively,
   wider ones on a boundary grid (same template). Trusts the x86 meaning of the handful of mnemonics interpreted."""),
 "C04": ("constant propagation of every error value from every call site through the IR",
   """Every call of ~90 fallible POSIX/stdio/pthread interfaces and every file stream opened; each error value propagated path by path. Exempt by name (stated in the
   property): diagnostic output, sleeps, gettimeofday with no zone, closing a read-only stream, in-memory formatting, destroying thread attributes."""),
 "C05": ("ownership typestate dataflow over inlined LLVM IR",
   """Every open site (stdio, directory, pipe, descriptor, address lookup) and every field that keeps a handle; each handle followed along every normal and unwinding
   path to its close, its new owner or its caller. Exceptions counted: everything but memory exhaustion inside the standard library. Trusts that a handle passed to a
   library-external callee by pointer is not closed there unless the callee is a known closer."""),
 "C06": ("ownership typestate dataflow over inlined LLVM IR",
   """Every allocation site (new, new[], malloc family, allocators, XML strings, factories whose result is freed), every field that owns one block and every field whose
   elements are owned; each block followed along every normal and unwinding path. Exceptions counted: everything but memory exhaustion inside the standard library.
   Elements: freed by the destructor and before being discarded, by whole-range loops; not decided: which individual element a mutation replaces."""),
 "C18": ("typestate dataflow of format objects over LLVM IR",
   """Every boost::format object with a constant format string in the library and in every instantiated header, debug assertions included: arguments given when it is used,
   on every path, against the directives of its string; printf/scanf calls by the compiler's own checker. Format strings computed at run time are not decided (currently none)."""),
 "C16": ("must-initialise dataflow over every constructor's inlined LLVM IR",
   """Every constructor of the library (all instantiated templates included), every path: each scalar, pointer and array member written before return, none read earlier; locals by clang's definite analysis.
   Arrays count as filled by any store into them; heap arrays are not decided."""),
 "C10": ("modified-members against must-written-members dataflow (effect analysis) over each class's LLVM IR",
   """Every reset/clear, copy constructor, assignment, merge and add function, every member and every path, with interprocedural must-write summaries. Loops writing elements count as covering them;
   values are compared only as constants or as the members they are computed from."""),
 "C11": ("state-coverage and effect analysis over LLVM IR with scalar-evolution array coverage and interval analysis of results",
   """Every generator class instantiated (Mersenne Twister, Marsaglia micro, small and large): seeding must write every member another operation touches, arrays by constant-trip loops; purity of all seeding,
   drawing, shuffling and hash functions, fully inlined; result ranges by interval arithmetic with exact floating end points."""),
 "C12": ("typestate dataflow over the assertion machinery's and macros' LLVM IR; effect analysis of debug-only conditions on the syntax tree and IR",
   """Every path of AssertBoostFail (both forms), registration, clearing, exception and formatting functions, with hooks and formatting returning or throwing; each macro instantiated once, debugging on and off;
   every debug-only condition in the library and instantiated headers. Writing to cerr is taken to succeed."""),
 "C15": ("interprocedural effect analysis of every read-only operation over LLVM IR",
   """Every const member function and listed read-only operation, and every const reference or pointer parameter, of the library and of all instantiated templates: each store, memory intrinsic, call and virtual call
   whose target is reached from it. Trusts that standard functions keep const promises; does not follow places reached only through local standard iterators."""),
 "C08": ("sharing typestate dataflow and linear value analysis of the storage regions over LLVM IR",
   """Every member function of ByteBuffer (all overloads and templates instantiated) with its helpers inlined, every path; every member function of NoCopyByteBuffer, every path, with members as linear forms over their
   values on entry. Trusts boost::shared_ptr; appendFromStream's total is tied to the amount by its loop pattern."""),
 "C07": ("interprocedural may-read-after-change dataflow of reference arguments over LLVM IR",
   """Every member function of the library and of the instantiated containers with a const reference parameter of element, key or own type; each path, with the effects of called functions summarised.
   Fields and elements are told apart by debug information; element-wise array contents are one place."""),
 "C17": ("interprocedural sign-taint dataflow of byte values over LLVM IR",
   """Every widening and ordering of an 8-bit value loaded from text or data in the library and instantiated headers, followed through conversions, calls and returns within the library to its uses; ranges from dominating tests.
   Tables with static storage are not text; values stored to memory as wider integers are not followed."""),
}
NA = {
 "N01": "quantifies over value sequences and ranks: needs numerical reasoning about the collapse schedule that no static analysis in reach bounds",
 "N02": "heap order is an invariant over run-time contents and a user-supplied ordering; of its structural clauses, aliasing and ownership are claimed in C07 and C06",
 "N03": "functional correctness over histories of linked index chains; of its structural clauses, aliasing (C07), ownership (C06) and lookups not modifying (C15) are claimed",
 "N04": "numerical results; only the structural clauses (reset and merge cover all accumulated state) are claimed, in C10",
 "N05": "numerical sequences and distributions; only determinism under a seed is claimed, in C11",
 "N06": "functional correctness over all strings; only byte signedness is claimed, in C17",
 "N07": "timing behaviour of the machine; nothing about it is visible in the source",
 "N08": "round-trip equality over all inputs; only byte signedness is claimed, in C17",
 "N09": "functional correctness over sorted sequences and user-supplied estimators",
 "N10": "Perl: no resolved-program analyser for Perl is installed, and the guarantees are about crash points and file-system behaviour",
 "N11": "running time; no static bound in reach",
}
NOTES = "Everything is decided from /repo's current source by compiling it (clang 18, offline) and analysing IR and syntax trees; nothing of Lintel is executed."
for _i in ():
    NA.setdefault(_i, "check not built yet")
