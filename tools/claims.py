"""What each registered check does (technique, level note), and why the others are not claimed."""
REF = "bounded exhaustive exploration of the real code, every execution compared with an executable reference model"
CLAIMS = {
    "C02": ("exhaustive enumeration of operation histories on the real engine; invariant: state after undo = state before, future = future without the undone part",
            "Every (outer, undone pair, undoing construct, later operation) of the alphabet is run on the real system; no reference values are needed. Trusts g_read/fd_dom/findall as observers."),
    "C03": (REF, "All bodies of the grammar up to the bound, in every execution mode, against a reference interpreter (vlib/refpl.py) of the ISO execution model. Nothing is claimed beyond the bound."),
    "C04": (REF, "All nestings of catch/throw/cut up to the bound in every execution mode against the reference interpreter."),
    "C05": (REF, "All clause-key sequences up to the bound x all call keys, native and dynamic, against the reference interpreter."),
    "C06": (REF, "All update/consume histories up to the bound, with and without collector pressure, against a reference model of the logical update view."),
    "C07": (REF, "All clauses of the bounded families x calling patterns x compiler option sets against the reference interpreter."),
    "C01": (REF, "All pairs of a term universe under all aliasings of its variables, for each unification entry point, against a reference unifier; nothing is claimed beyond the universe."),
    "C10": (REF, "All pairs/lists of a bounded universe against a reference order and stable sort; two known findings (in-place sort of a list holding an unbound variable cell)."),
    "C11": (REF, "Every argument tuple over the term universe for every predicate of the group, interpreted and in native code with environment variables, against a reference implementation."),
    "C08": (REF, "Every functor and comparison over a lattice of operand pairs (0, +-1, word/tag boundaries, powers of two +-1), interpreted, native, native with constants, and --fast-math, against exact integers."),
    "C09": (REF, "Every functor over a lattice of special floats and integers and every pair/composition of unary functors, against IEEE doubles and the C library."),
}
CLAIMS["C32"] = (REF, "Every argument tuple of the list universe for every predicate against its definition run by the reference interpreter; lengths up to 70; native code with environment variables.")

CLAIMS["C15"] = (REF, "Every argument tuple of a bounded universe (shared variables and ill-typed arguments included) for every conversion, against the relation computed independently.")
CLAIMS["C16"] = (REF, "Every collector x template x quantifier x goal of the families, nested and left by exceptions, interpreted and compiled, against the reference interpreter; the order of groups whose keys differ only in variables is not judged.")
CLAIMS["C21"] = (REF, "Every history of up to three assignments/updates (with every undo shape) on eight initial stores against an abstract store; cases the manual leaves open are left out and named in the evidence.")
CLAIMS["C22"] = (REF, "Every constraint of every kind, sense and option over every domain triple of the families: the solutions are the integer solutions, propagation removes none, and the posted-then-labeled, late-domain and permuted forms agree with brute force.")
CLAIMS["C23"] = (REF, "Every boolean/reified formula up to the bound in every mode of its truth variable against its truth table.")
CLAIMS["C24"] = (REF, "Every symbolic constraint over every small argument pattern against its set-theoretic definition.")
CLAIMS["C25"] = (REF, "Range operations run directly (linked C harness) over all pairs of a range universe against sets of integers, plus every short history of domain restrictions and the observers after it; vector overflow cases with extra_cstr are judged conservatively.")
CLAIMS["C26"] = (REF, "Every labeling option combination on every small domain/problem family, and nested/backtracked optimisations, against brute force; ties the manual leaves open are not judged.")
CLAIMS["C12"] = (REF, "Every term up to a depth over atoms/operators/numbers that stress quoting and bracketing, under nine sets of write options and operator tables: the text, read back by the system and by the reference reader, denotes the same term.")
CLAIMS["C13"] = (REF, "Every token sequence up to a length over ten token alphabets and operator tables: accepted iff the standard's grammar derives it, with the derived term; sequences with several derivations are left open.")
CLAIMS["C14"] = (REF, "Every short string over alphabets of characters for each lexical category, and every escape/number/comment form, against the standard's lexical grammar.")
CLAIMS["C42"] = (REF, "Every token sequence up to a length in several layouts, every pair of clauses, and the read options: variables, names, singletons, start and stop positions; a syntax error must be reported at a token near the first one no derivation continues.")
CLAIMS["C17"] = (REF, "Every operation sequence up to a depth on every short source, kind of stream, end-of-file action and buffering, and sources around the buffer sizes, against an abstract stream.")
CLAIMS["C18"] = (REF, "Every sequence of reading, peeking, ungetting, seeking and restoring operations on short sources: positions, counts and the characters then read against an abstract stream.")
CLAIMS["C19"] = (REF, "Every sequence of opens, closes, aliasing and redirections over a few streams against an abstract table; stale handles whose number was reused are not judged.")
CLAIMS["C44"] = ("bounded exhaustive exploration of the real code: every built-in x every argument tuple of a universe; invariants on outcome, error term, arguments, streams and later reference answers", "1.8 million calls in process; cyclic results are not judged; calls that must not return (halt, abort, stop, repeat, long sleeps) and kill(2) with real targets are left out or replaced by a stand-in.")
CLAIMS["C31"] = (REF, "Every grammar body up to a size x every input x every way of running it, against the rules read as difference-list relations; with a bound rest the time of a pushback's unification is left open.")
CLAIMS["C33"] = (REF, "Every directive sequence up to a length over several alphabets, every directive x parameter form x argument, every printf conversion and every control text up to a length, against an executable version of the manual (C library for printf); malformed printf formats and overflowing parameters are left open.")
CLAIMS["C39"] = (REF, "Every term x writing predicate x representation, every short text x reading predicate, every short sequence with nested uses and errors, and constants around and beyond the internal buffers, against the same operation on a file / an abstract table of streams.")
CLAIMS["C34"] = (REF, "Every call over a universe of arguments from several initial tables and every sequence of updates up to a length, against abstract tables; what the standard leaves open (op(0,_) of a name of another class, which elements of an erroneous list are set) is not judged.")
CLAIMS["C38"] = (REF, "Every text of a universe x every constructor x which one creates the atom; every table size from too small for the predefined atoms to filled to the last slot; a million texts at once; new_atom for every prefix length and set of taken extensions.")
CLAIMS["C41"] = (REF, "Every body of the families up to a depth, every head, argument term, pattern of variables and operator table, and every short history of updates and consulted file x form of listing: the text read back is the clauses stored. Relies on read (C13).")
CLAIMS["C46"] = (REF, "Every red-black tree reachable over nine keys (eleven in thorough) with every observer in each, every sequence of hash-table operations up to a depth on small tables, under sanitizers on the real sources; the system's tables of predicates, operators and aliases at every size around their growths.")
CLAIMS["C29"] = ("exhaustive enumeration of (module, name, arity) over short texts of an alphabet, of short lines and of name lengths through the real mangling code (sanitizers on); exhaustive sets of odd names in native programs", "Encoding and decoding of every (module, name, arity) over an alphabet up to a length, of every short line, of names up to 65535 characters; native programs whose predicates have every such name, called within and across files; names reported for undefined predicates.")
CLAIMS["C35"] = (REF, "Every text over alphabets of path pieces up to a length in five environments against the manual's rules; every property of every entry of a tree of all types, modes, sizes and odd names, and every sequence of file operations up to a depth, against the operating system doing the same in a twin tree.")
CLAIMS["C30"] = ("exhaustive exploration of key sequences on the real line editor under an emulated keyboard and terminal, compared with an abstract editor after every key", "Every sequence of keys of a given length over each alphabet (editing, history, completion, pasted text, other names of keys, brackets), from several starting lines, screen widths and buffer sizes, sanitizers on: line, cursor, every screen cell, beeps and returned lines.")
CLAIMS['C20'] = ('exhaustive fault injection on the real code: every sequence of output operations x buffering mode x every byte at which the system refuses data, observed through an independent reader', 'The fault is a file-size limit set around each operation (short write, then failure), or a device always full; every byte for small data, every byte around the buffer boundaries for large; what is still buffered when the program ends is judged without faults only.')
CLAIMS['C28'] = ('exhaustive exploration of every short program of calls of the C interface (queries, marshalling, terms) interpreted by real foreign code, against an abstract machine', 'Every sequence of query operations (begin, call, next, end in its modes, nested, inside non-deterministic foreign predicates) up to a depth, every type x mode x value of the foreign/2 declaration, every reader/writer/tester of the C interface x every term of a universe. Left open: bindings after a failed or raising query until it is recovered, next of an outer query after an inner KEEP.')
CLAIMS['C40'] = ('exhaustive enumeration of bounded process/pipe/socket scenarios on the real system against the values the scenario determines', "Every exit status and signal x predicate starting a process, every argument list up to a length over awkward atoms, every combination of redirections x sizes around the buffers x order of closing and waiting, every state of up to three pipes under select; descriptors and children left are counted after each. The order of execution of the processes is the system's; statuses 126/127, inherited create_pipe descriptors and exec/4 of a child writing more than a pipe holds are left open.")
CLAIMS['C27'] = ('exhaustive enumeration of overflow points on the real code: every program x stack x size, every word offset at the critical sizes', 'Every size of every stack from one page to beyond what the program needs (each another overflow point) for some ninety programs using everything that grows a stack, every offset by words around the critical sizes, compile-time and run-time sizes. The machine (C) stack is not one of the four and is left out (very deep terms).')
CLAIMS['C45'] = ('explicit enumeration of operation cycles x loop kinds executed on the real engine; resource monitor after N, 2N and 4N rounds', 'cycles of one or two operations; growth is judged by proportionality, a leak smaller than 6 bytes a round is not seen')
CLAIMS['C36'] = ('explicit enumeration of files (item sequences) and of consult histories, executed on the real consult/1 (and natively) and compared with a reference reader and loader', 'removing :- or changing , as operators, and predicates that change between multifile and not, are left open')
CLAIMS['C49'] = ('explicit enumeration of builds (code-option subsets, stage routes, link-option subsets, file partitions x file kinds, output-name patterns, stack-size settings) of a fixed program, each executable run on every query and compared with a reference interpreter', 'some parts (dynamic, DCG, FD, atoms, bit operations) are compared with recorded answers that were read over by hand; assembler of the sandbox only (x86_64)')
CLAIMS['C50'] = ('explicit enumeration of goals x key sequences, query histories and option sequences, driven prompt by prompt on the real top level; printed answers are read back and compared with a reference interpreter', 'the wording of messages is compared up to spaces; which solution is known to be the last (no prompt) is left to the system')
CLAIMS['C37'] = ('explicit enumeration of queries x ports x debugger commands x spy sets, driven prompt by prompt on the real top level; box-history automaton + reference resolution with calls and exits', '97,408 dialogues. Left open: garbage typed at the Print Depth and goto prompts, retry at a Redo port or after an exit, retry with infinite inner alternatives, quoting of the goals shown by w and p, the optional box of fail, end of file on a seekable standard input.')
CLAIMS['C47'] = ('explicit enumeration of the definitions of a bounded FD-language grammar (6,200 constraints) compiled by the real fd2c, x all states of a domain universe x all narrowings; set-interpretation model executed on every state', '1.7M states. Left open: foreach (no code is generated for it), forall over l_fdv, C function calls, range arithmetic on negative values or on sets with values above vector_max, several kinds of events with val on one variable, optimized blocks whose target has a value (both outcomes accepted).')
NA = {}
