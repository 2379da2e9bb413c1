"""The properties: id, title, statement, quantifier kinds, quantifier text, why tests cannot settle it, files, mechanisms."""

I, P, H, F, C, CP, S = "inputs", "programs", "histories", "fault_sequences", "configurations", "crash_points", "schedules"
EX = "The tests compare the bootstrap .wam files, the internals' unit tests and the output of the example programs; "
PROPS = []


def prop(i, title, st, over, text, why, files, mech, observe=None):
    PROPS.append({"id": i, "title": title, "statement": st,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": EX + why,
                  "anchors": {"files": ["src/" + f for f in files],
                              "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                              "observe_at": observe or ["answers, order of solutions, side effects and errors of the program"]}})


prop("C01", "Unification computes a most general unifier",
     "=/2 (compiled inline, meta-called or inside head unification) succeeds exactly when two finite terms not subject to the occurs check have a unifier, and then leaves both sides equal and no more instantiated than a most general unifier makes them; on failure nothing stays bound. unify_with_occurs_check/2 does the same for every pair of terms, including those =/2 is not defined for.",
     [I], "all pairs of terms and all prior aliasings of their variables",
     "they unify a few hundred concrete shapes; which side is a variable, a reference chain, a list, an FD variable or shared is a product they do not enumerate.",
     ["EnginePl/unify.c", "EnginePl/wam_inst.c", "BipsPl/unify.pl"],
     [("Pl_Unify / Pl_Unify_Occurs_Check", "EnginePl/unify.c"), ("Bind_UV, Globalize", "EnginePl/wam_inst.h")])
prop("C02", "Backtracking restores exactly the earlier state",
     "After failure, \\+, an exception that was caught, or the end of findall/if-then-else conditions, every variable binding, setarg/2, backtrackable global variable and finite-domain reduction made since the choice point is undone and the visible state equals the state before; what happens later is what would have happened without the undone work.",
     [H], "all sequences of binding, destructive and constraint operations followed by any undoing construct and later operation",
     "an example program rarely looks at the state after an undo.",
     ["EnginePl/wam_inst.c", "EnginePl/wam_inst.h", "BipsPl/term_inl_c.c", "BipsPl/g_var_inl_c.c", "EngineFD/fd_inst.c"],
     [("Pl_Untrail, Bind_OV, TFC/TMV trail entries", "EnginePl/wam_inst.c"), ("FD stamps and Trail_Range/Trail_Chain", "EngineFD/fd_inst.c")])
prop("C03", "Control constructs follow the ISO execution model",
     "Conjunction, disjunction, if-then-else, *->, \\+, cut, call/N, once/1, repeat, forall/2 and between/3 give the solutions, in the order and multiplicity, that the standard's execution model prescribes, whichever way a clause body is executed: native code, consulted byte code, asserted clause or meta-call. A cut is local to where the standard says it is local.",
     [P], "all clause bodies over the control constructs and any nondeterministic goals, in every execution mode",
     "each construct appears in a handful of nestings only, almost always in native code.",
     ["BipsPl/control.pl", "BipsPl/call.pl", "BipsPl/bc_supp.c", "Pl2Wam/syn_sugar.pl", "Pl2Wam/internal.pl", "Pl2Wam/code_gen.pl"],
     [("body normalisation and cut barriers", "Pl2Wam/syn_sugar.pl"), ("BC_Emulate and call/N dispatch", "BipsPl/bc_supp.c")])
prop("C04", "catch/throw transfers control exactly once and restores state",
     "throw/1 hands a copy of the ball to the innermost active catch/3 whose catcher unifies with it, after undoing the bindings made since that catch was called; catchers that do not unify, have exited deterministically or have failed are not considered, and goals that had completed or been left keep their choice points correct.",
     [P], "all nestings of catch, throw, cuts and nondeterministic goals, in every execution mode",
     "they exercise errors one at a time.",
     ["BipsPl/catch.pl", "BipsPl/throw.pl", "BipsPl/throw_c.c", "EnginePl/engine.c"],
     [("$catch/$throw with the handler choice point", "BipsPl/throw_c.c")])
prop("C05", "Clause indexing is invisible",
     "Whatever the first arguments of a predicate's clauses and of the call are, exactly the clauses whose heads unify are tried, in source order; adding, removing or reordering the index structures never changes the answers.",
     [P, I], "all sequences of clause first-argument kinds crossed with all call argument kinds, native and dynamic",
     "example predicates have few clauses, and mixes of key kinds, colliding keys and large integers do not occur.",
     ["Pl2Wam/indexing.pl", "EnginePl/wam_inst.c", "Wam2Ma/wam2ma.c", "Ma2Asm/ma2asm.c", "BipsPl/dynam_supp.c"],
     [("switch_on_term/atom/integer/structure", "EnginePl/wam_inst.c"), ("dynamic predicate hash chains", "BipsPl/dynam_supp.c")])
prop("C06", "Dynamic updates follow the logical update view",
     "A goal on a dynamic predicate sees exactly the clauses that existed when it was called, whatever asserta, assertz, retract, retractall, abolish do while it is active; each update is seen by every later call, in the right order, and reclaiming erased clauses is invisible.",
     [H], "all histories of updates and (partially consumed) calls up to a depth, with and without clause collection pressure",
     "they rarely update a predicate that is being executed.",
     ["BipsPl/dynam_supp.c", "BipsPl/assert.pl", "BipsPl/assert_c.c", "BipsPl/pred.pl"],
     [("Pl_Add_Dynamic_Clause, Pl_Delete_Dynamic_Clause, scan stamps", "BipsPl/dynam_supp.c"), ("erased clause chain and its collector", "BipsPl/dynam_supp.c")])
prop("C07", "Compiled clauses match heads and build goals as written",
     "For any clause, the code generated under any combination of compiler options unifies the head arguments in any instantiation and calls the body goals with exactly the terms written, whatever the number of variables, their lifetimes and the register pressure; native, consulted and asserted versions agree.",
     [P, C], "all clauses over a bounded term grammar x calling patterns x compiler options",
     "the bootstrap comparison pins one set of programs; a wrong allocation for another clause shape is not seen.",
     ["Pl2Wam/code_gen.pl", "Pl2Wam/reg_alloc.pl", "Pl2Wam/inst_codif.pl", "Pl2Wam/internal.pl", "Wam2Ma/wam2ma.c", "Ma2Asm/x86_64_any.c", "BipsPl/bc_supp.c"],
     [("register allocation", "Pl2Wam/reg_alloc.pl"), ("instruction selection, unsafe variables, last subterm", "Pl2Wam/code_gen.pl"), ("native code emission", "Ma2Asm/x86_64_any.c")])
prop("C08", "Integer arithmetic is exact within 61 bits",
     "Every integer functor and comparison returns the mathematically defined value of the standard (truncating //, flooring div and mod, sign rules of rem, shifts, bit operations, gcd, msb, min/max, sign, abs) whenever operands and result are representable, the same in native (inlined) code, optimised code and is/2 meta-calls; undefined operations raise the standard's evaluation or type error.",
     [I], "all operand pairs from a lattice around 0, powers of two, word and tag boundaries, for every functor and execution mode",
     "they use small positive numbers.",
     ["BipsPl/arith_inl_c.c", "BipsPl/arith_inl.pl", "EnginePl/wam_inst.h", "Pl2Wam/inst_codif.pl"],
     [("Pl_Fct_Fast_* inline functions", "BipsPl/arith_inl_c.c"), ("Pl_Math_Load_Value, evaluation errors", "BipsPl/arith_inl_c.c")])
prop("C09", "Mixed and float arithmetic follow IEEE and the standard",
     "Float functors return the IEEE double the C library defines, mixed operands are converted as the standard says, rounding functors (truncate, round, ceiling, floor, integer) return the exact integer, comparisons between numbers are consistent, and evaluation errors (undefined, zero divisor, type errors on float operands of integer functors) are raised, never silently wrong results.",
     [I], "all functors over a lattice of integers and special floats",
     "floats occur in a few example outputs only.",
     ["BipsPl/arith_inl_c.c", "BipsPl/arith_inl.pl"],
     [("Pl_Fct_* functions", "BipsPl/arith_inl_c.c")])
prop("C10", "Standard order and sorting are total, stable and complete",
     "compare/3 and @</2... form a total order (variables by age, numbers by value with float before integer when equal, atoms alphabetically, compounds by arity, name, arguments); sort/2, sort/1, msort, keysort and the list ordering predicates return exactly the ordered (deduplicated or stable) permutation for any list.",
     [I], "all pairs and triples over a set of terms covering each type; all lists up to a length over keys with ties",
     "they sort a few lists.",
     ["BipsPl/term_supp.c", "BipsPl/sort.pl", "BipsPl/sort_c.c"],
     [("Pl_Term_Compare", "BipsPl/term_supp.c"), ("merge sort", "BipsPl/sort_c.c")])
prop("C11", "Term inspection, construction and copying are faithful",
     "functor/3, arg/3, =../2, copy_term/2, term_variables/2,3, subsumes_term/2, acyclic/ground tests, setarg and the type-checking predicates compute the relation the manual defines for every instantiation pattern of their arguments, give all solutions when nondeterministic, and raise the documented error otherwise; copies share no variables with the original and preserve sharing.",
     [I], "all argument tuples over a term universe, incl. attributed (FD) variables and shared subterms",
     "argument patterns are a product the examples do not enumerate.",
     ["BipsPl/term_inl_c.c", "BipsPl/term_inl.pl", "BipsPl/term_supp.c", "BipsPl/type_inl_c.c"],
     [("Pl_Copy_Term two-stack copy", "BipsPl/term_supp.c"), ("arg/3 alternative", "BipsPl/term_inl_c.c")])
prop("C12", "Quoted output reads back as the same term",
     "writeq/1, write_canonical/1 and write_term/2 with quoted(true) produce text that read/1 in the same operator table reads as a variant of the term, for any atom name, number, operator definition and nesting; options ignore_ops, numbervars, variable_names, max_depth, spacing and space_args only change what they say they change.",
     [I, C], "all terms up to a depth over atoms of each lexical class and operators of every type and relative priority",
     "spacing, bracketing and quoting decisions depend on pairs of adjacent tokens that they do not cross.",
     ["BipsPl/write_supp.c", "EnginePl/atom.c", "BipsPl/write.pl"],
     [("Show_Term and last-writing tracking (Need_Space)", "BipsPl/write_supp.c"), ("atom classification (needs quote)", "EnginePl/atom.c")])
prop("C13", "Operator expressions parse as the ISO grammar says",
     "read_term accepts exactly the token sequences the ISO operator-precedence grammar derives (with the documented relaxations) and returns the term it assigns, for any operator table, and rejects the others with a syntax error after consuming exactly the clause up to its end token.",
     [I, C], "all token sequences up to a length over atoms, operators of all types, brackets, commas, bars and parentheses",
     "they parse programs written in ordinary style.",
     ["BipsPl/parser_supp.c", "BipsPl/read_c.c", "EnginePl/oper.c"],
     [("Parse_Term", "BipsPl/parser_supp.c")])
prop("C14", "Lexical analysis denotes the characters written",
     "Every token form — numbers in all bases, character codes, floats, quoted items with each escape and continuation, back-quotes, layout, comments, end tokens — denotes the value the standard defines and any other character sequence is a syntax error; the position where reading stops is exact.",
     [I], "all character strings up to a length over an alphabet with one character of each lexical class",
     "the lexical corner forms are not in the examples.",
     ["BipsPl/lexer_supp.c", "BipsPl/read_c.c", "EnginePl/atom.c"],
     [("Pl_Read_Token/Scan_*", "BipsPl/lexer_supp.c")])
prop("C15", "Atom and text conversions are exact relations",
     "atom_length, atom_concat, sub_atom, atom_chars, atom_codes, char_code, number_chars/codes/atom, lower_upper, term conversions and their error cases compute exactly the relation the standard defines, in every mode, with all solutions in the documented order and no duplicates.",
     [I], "all argument tuples in all instantiation modes over short texts",
     "a few modes are used.",
     ["BipsPl/atom.pl", "BipsPl/atom_c.c"],
     [("Pl_Sub_Atom_3, Pl_Concat_Atom and their alternatives", "BipsPl/atom_c.c")])
prop("C16", "All-solutions predicates collect exactly the solutions",
     "findall/3,4, bagof/3, setof/3 and forall return precisely the instances the goal produces, grouped by the free variables (respecting ^ and the template) in standard order, with fresh or shared variables as the standard says, also when nested or when the goal raises or leaves choice points.",
     [P, I], "all goals/templates/witness patterns up to a size, with nesting",
     "free-variable sets are few in the examples.",
     ["BipsPl/all_solut.pl", "BipsPl/all_solut_c.c"],
     [("Pl_Free_Variables_4, Pl_Recover_Generator, Pl_Group_Solutions", "BipsPl/all_solut_c.c")])
prop("C17", "Stream input delivers every character once, in order",
     "get/peek/unget/read operations on text and binary streams return the bytes or characters of the source in order, peek never consumes, end-of-file behaves as eof_action says, and at_end_of_stream agrees with what the next read returns; mixing operations of different kinds raises the documented permission errors and loses nothing.",
     [H], "all operation sequences up to a depth over small files in each type, mode, eof action and buffering",
     "operations are used one by one.",
     ["BipsPl/stream_supp.c", "BipsPl/stream_c.c", "BipsPl/char_io_c.c", "BipsPl/stream.pl"],
     [("Pl_Stream_Getc/Peekc/Ungetc with pushback", "BipsPl/stream_supp.c")])
prop("C18", "Stream positions are exact and restorable",
     "line_count, line_position, character_count and stream_position equal what a count of the characters consumed or produced gives, after any mix of reading, peeking, ungetting and writing, and set_stream_position/seek returns the stream to a state indistinguishable from the one recorded.",
     [H], "all sequences of read/peek/unget/seek operations over texts with newlines and tabs",
     "positions are only used in error messages.",
     ["BipsPl/stream_supp.c", "BipsPl/stream_c.c"],
     [("Update_Counters", "BipsPl/stream_supp.c"), ("Pl_Stream_Set_Position", "BipsPl/stream_supp.c")])
prop("C19", "The stream table stays consistent",
     "After any sequence of open, close, alias, set_input/output and redirections: an alias names exactly one open stream, current_stream and stream_property enumerate exactly the open streams with their true properties, the current input/output are open (falling back to user streams on close), standard streams cannot be closed, and any use of a closed stream raises existence_error (until its number is reused by a later open).",
     [H], "all operation sequences up to a depth over three streams and aliases",
     "single opens and closes only.",
     ["BipsPl/stream_supp.c", "BipsPl/stream_c.c", "BipsPl/stream.pl"],
     [("alias table and stream table", "BipsPl/stream_supp.c")])
prop("C20", "Output is delivered completely or an error is reported",
     "Everything written to a stream reaches the file in order once flushed or closed, under every buffering mode, with short writes and interrupted calls; when the operating system refuses data, the program is told by an error instead of continuing as if it had been written.",
     [F, H], "all sequences of output operations x every point at which the system call is short, interrupted or fails",
     "no fault is ever injected.",
     ["BipsPl/stream_supp.c", "BipsPl/stream_c.c"],
     [("Pl_Stream_Putc/Puts/Flush/Close", "BipsPl/stream_supp.c")])
prop("C21", "Global variables behave as a backtrackable store",
     "g_assign, g_assignb, g_link, g_read, g_inc/dec, bit operations, arrays with static, automatic and extendible sizes behave as an abstract store in which g_assign survives backtracking, g_assignb and g_link are undone exactly, values are copies (or links) as documented, and any selector is resolved or rejected as documented.",
     [H], "all operation sequences up to a depth with choice points and failures interleaved",
     "g_vars appear in isolated examples.",
     ["BipsPl/g_var_inl_c.c", "BipsPl/g_var_inl.pl"],
     [("G_Assign_Element, undo chains", "BipsPl/g_var_inl_c.c")])
prop("C22", "FD arithmetic constraints keep every solution",
     "For #=, #\\=, #<, #=<, #>, #>= and their full (domain-consistent) variants over any linear or non-linear expression, posting in any order and labeling yields exactly the assignments that satisfy the constraints; propagation never removes a value that occurs in a solution and never leaves a ground violated constraint.",
     [P, I], "all constraint sets up to a size over small domains (incl. negative coefficients, repeated variables and constants)",
     "the example puzzles have the solutions they have; a lost solution elsewhere is not seen.",
     ["BipsFD/fd_math.pl", "BipsFD/math_supp.c", "BipsFD/fd_math_fd.fd", "EngineFD/fd_inst.c", "EngineFD/fd_unify.fd"],
     [("linear normalisation and Pl_Fd_Math_*", "BipsFD/math_supp.c"), ("propagation queue", "EngineFD/fd_inst.c")])
prop("C23", "Reified and Boolean FD constraints equal their truth value",
     "#<=>, #==>, #\\/, #/\\, ##, #\\ and reified comparisons, and cardinality constraints, are satisfied by exactly the assignments in which the truth values agree, in either direction of propagation and for any nesting.",
     [P, I], "all formulae up to a size over reified comparisons and 0/1 variables",
     "few Boolean examples.",
     ["BipsFD/fd_bool.pl", "BipsFD/fd_bool_c.c", "BipsFD/oper_supp.c", "BipsFD/fd_bool_fd.fd"],
     [("Simplify and Load_Bool_Into_Word", "BipsFD/oper_supp.c")])
prop("C24", "Symbolic FD constraints equal their definition",
     "fd_all_different, fd_element, fd_element_var, fd_atmost/atleast/exactly, fd_relation(c), fd_cardinality, fd_only_one, fd_at_least/most/exactly_one, fd_prime and fd_not_prime hold for exactly the assignments their definition admits, and prune no value that is in a solution.",
     [P, I], "all small instances in every instantiation pattern",
     "each constraint appears in at most one example.",
     ["BipsFD/fd_symbolic.pl", "BipsFD/fd_symbolic_c.c", "BipsFD/fd_symbolic_fd.fd", "BipsFD/fd_prime.pl", "BipsFD/fd_prime_c.c"],
     [("relation tuples and ranges", "BipsFD/fd_symbolic_c.c")])
prop("C25", "FD domains are exact integer sets",
     "fd_domain, fd_domain_bool, fd_set_vector_max and every domain operation (intersection, union, complement, bounds, size, membership, dependency on sparse and interval form, extra-constrained flag) agree with finite-set arithmetic, and the queries fd_min/max/size/dom report the set precisely unless they flag it as approximated.",
     [I, H], "all pairs of subsets of a small universe in both internal representations and all short operation sequences",
     "range arithmetic on sparse sets is only reached through puzzles.",
     ["EngineFD/fd_range.c", "EngineFD/fd_range.h", "BipsFD/fd_values.pl", "BipsFD/fd_infos.pl"],
     [("Pl_Range_Inter/Union/Compl/...", "EngineFD/fd_range.c")])
prop("C26", "FD labeling and optimisation are complete and optimal",
     "fd_labeling with every option enumerates each solution exactly once in the order its variable and value heuristics define; fd_minimize and fd_maximize return the optimum; reorder, backtracks counts and other options do not change the set of solutions.",
     [P, C], "all small constraint problems x all option combinations",
     "the default options dominate.",
     ["BipsFD/fd_values.pl", "BipsFD/fd_values_c.c", "BipsFD/fd_optim.pl"],
     [("fd_labeling loop", "BipsFD/fd_values.pl"), ("branch and bound", "BipsFD/fd_optim.pl")])
prop("C27", "Running out of a stack is reported, never a corruption",
     "When the global, local, trail or constraint stack is exhausted at any point of any computation, the system stops with the message naming that stack and its variable; it never returns a wrong answer, crashes or hangs, and a program that fits gives the same answer for every stack size.",
     [C, CP], "all stack sizes around what a program needs (each is a distinct overflow point), for programs exercising each stack",
     "no test runs near a limit.",
     ["EnginePl/machine.c", "EnginePl/stacks_sigsegv.c", "EnginePl/engine.c", "BipsPl/term_supp.c"],
     [("guard pages and SIGSEGV handler", "EnginePl/stacks_sigsegv.c")])
prop("C28", "The C interface converts and calls faithfully",
     "Foreign C predicates and functions see arguments converted as their declared types say, return values and multiple solutions (with choice buffers) as Prolog answers, and Pl_Query_* lets C enumerate, cut, keep and nest Prolog solutions with no effect on the caller's state beyond what was asked.",
     [I, H], "all declared argument types x modes x values, and all sequences of query operations up to a depth",
     "one example program per feature.",
     ["BipsPl/foreign_supp.c", "BipsPl/foreign.pl", "BipsPl/c_supp.c", "EnginePl/gprolog.h", "EnginePl/engine.c"],
     [("Pl_Rd_/Pl_Wr_/Pl_Un_ functions", "BipsPl/c_supp.c"), ("Pl_Query_Begin/Next/End", "BipsPl/foreign_supp.c")])
prop("C29", "Predicate names map to distinct linker symbols and back",
     "Distinct predicate indicators (name, arity, module) are given distinct symbols that the assembler and linker accept, and decoding a symbol gives back the original, for any atom name; a program calling such predicates calls the right one.",
     [I], "all names up to a length over an alphabet with each character class and the mangling prefixes, all small arities",
     "only ordinary identifiers occur.",
     ["TopComp/mangling.c", "TopComp/mangle_filter.c", "Wam2Ma/wam2ma.c"],
     [("Encode_Pred/Decode_Pred hexa and underscore forms", "TopComp/mangling.c")])
prop("C30", "Line editing shows and returns the line the keys define",
     "For any sequence of editing keys the edited line returned equals that of an abstract editor (insert, delete, move, transpose, kill, yank, case, history, search) and the terminal shows exactly that line and cursor position, without touching memory outside its buffers.",
     [H], "all key sequences up to a depth",
     "line editing is not tested.",
     ["Linedit/linedit.c", "Linedit/terminal.c", "Linedit/completion.c"],
     [("Pl_LE_Gets main loop", "Linedit/linedit.c")])
prop("C31", "DCG translation preserves the grammar's language",
     "A translated grammar rule, called through phrase/2,3, accepts and returns exactly the strings and rests the grammar body defines, including pushback, cut, negation, call//N, {}//1, strings and control constructs, in compiled, consulted and expanded form.",
     [P, I], "all grammar bodies up to a size x all short inputs",
     "one example grammar.",
     ["BipsPl/expand.pl", "BipsPl/expand_c.c", "Pl2Wam/read_file.pl"],
     [("dcg_trans_rule", "BipsPl/expand.pl")])
prop("C32", "List library predicates compute their relations in every mode",
     "append, member, memberchk, reverse, delete, exclude, select, subtract, permutation, prefix, suffix, sublist, last, flatten, length, nth0/nth1, max/min/sum_list, sort, maplist and foldl give the documented answers, all of them and in order, for proper, partial and non-lists.",
     [I], "all argument tuples over short lists with variables",
     "few modes are used.",
     ["BipsPl/list.pl", "BipsPl/list_c.c", "BipsPl/call_args.pl"],
     [("length/2, nth and msort C parts", "BipsPl/list_c.c")])
prop("C33", "format/2,3 outputs what its directives denote",
     "For any directive string and arguments format writes exactly the text the manual defines (columns, fill characters, numeric groups, radix, C-style, repetition) or raises the documented format error, consuming the arguments one for one.",
     [I], "all directive sequences up to a length x argument lists",
     "few directives are used.",
     ["BipsPl/format_c.c", "BipsPl/format.pl"],
     [("Format and pending columns", "BipsPl/format_c.c")])
prop("C34", "Operators, flags and character conversions act as tables",
     "op/3, current_op/3, set_prolog_flag, current_prolog_flag, char_conversion and current_char_conversion behave as lookups and updates of abstract tables with the constraints of the standard: each accepted update is visible to later reads and writes, and each rejected one raises the standard's error and changes nothing.",
     [H], "all sequences of updates up to a depth over a small alphabet of operators and flags, with all argument types",
     "operators are defined once in a program.",
     ["BipsPl/oper.pl", "BipsPl/oper_c.c", "EnginePl/oper.c", "BipsPl/flag.pl", "BipsPl/flag_c.c", "BipsPl/flag_supp.c"],
     [("operator hash table", "EnginePl/oper.c"), ("flag table", "BipsPl/flag_supp.c")])
prop("C35", "File name predicates are consistent with the file system",
     "decompose_file_name, prolog_file_name, absolute_file_name, is_absolute_file_name, is_relative_file_name and the directory and file property predicates are total on any text, recombine to the original, normalise without changing which file is named, and agree with what the operating system reports.",
     [I, H], "all path strings up to a length over separators, dots, tildes, variables and names",
     "a few names only.",
     ["EnginePl/os_path.c", "BipsPl/os_interf_c.c", "BipsPl/file.pl", "BipsPl/file_c.c"],
     [("Pl_M_Absolute_Path_Name", "EnginePl/os_path.c"), ("Pl_M_Decompose_File_Name", "EnginePl/os_path.c")])
prop("C36", "Loading a file gives the program written in it",
     "consult/1, the interactive loader, include, multifile, discontiguous, dynamic, initialization and conditional compilation directives produce the same predicates, operators and directive effects as compiling the same text natively, each clause once and in order; loading again replaces exactly the predicates the file defines (the clauses of that file only, for a multifile predicate), and a file with a syntax error or an invalid clause loads nothing and leaves the program as it was.",
     [P, H], "all arrangements of clauses and directives over a few predicates and files, and load/reload sequences",
     "they compile well-formed programs once.",
     ["BipsPl/consult.pl", "BipsPl/consult_c.c", "Pl2Wam/read_file.pl", "BipsPl/bc_supp.c", "BipsPl/pred.pl"],
     [("consult loop over pl2wam's reader", "BipsPl/consult.pl"), ("directive handling", "Pl2Wam/read_file.pl")])
prop("C37", "The debugger only observes",
     "Running a program with trace, spy points, leash or debug mode on yields the same answers, side effects and errors as running it without, and the ports reported are those of the box model: every call is followed by exactly one of exit, fail or exception, redo only re-enters boxes left by exit.",
     [P, C], "all small programs x debugger settings and command sequences",
     "the debugger is interactive and not tested.",
     ["BipsPl/debugger.pl", "BipsPl/debugger_c.c"],
     [("$debug_call box procedure", "BipsPl/debugger.pl")])
prop("C38", "Atoms are unique by name and survive table growth",
     "Two atoms are identical exactly when their names are equal, current_atom enumerates each once, new_atom and gensym-like predicates return unused atoms, and growth or exhaustion of the table changes no existing atom's name, order or properties.",
     [I, H], "all sequences of creations around table thresholds, and all pairs of names that collide in the hash",
     "thresholds are never crossed under observation.",
     ["EnginePl/atom.c", "Tools/hash_fct.c", "EnginePl/hash_tbl.c", "BipsPl/atom_c.c"],
     [("Pl_Create_Atom, hash probing, table extension", "EnginePl/atom.c")])
prop("C39", "Term I/O on constants equals stream I/O on their text",
     "read_from_atom/chars/codes, read_term_from_*, read_token_from_*, write_to_*, format_to_*, print_to_*, display_to_* and open_input/output_*_stream give exactly what the same operation on a file holding the same text gives, including nested use and errors.",
     [I, H], "all terms/texts of a family x all predicates of the group",
     "isolated uses.",
     ["BipsPl/const_io.pl", "BipsPl/const_io_c.c", "BipsPl/stream_supp.c"],
     [("constant term streams", "BipsPl/const_io_c.c")])
prop("C40", "Processes, pipes and sockets carry all data and status",
     "exec, spawn, popen, create_pipe, fork_prolog, wait, select and the socket predicates deliver every byte in order in both directions, end-of-file and exit or signal status exactly once, and leave no descriptor or child behind.",
     [S, F], "all operation sequences up to a depth over the endpoints, with each chunking of the data",
     "not tested.",
     ["BipsPl/os_interf.pl", "BipsPl/os_interf_c.c", "BipsPl/sockets_c.c", "EnginePl/os_spawn.c"],
     [("Pl_M_Spawn_Redirect", "EnginePl/os_spawn.c"), ("select/5", "BipsPl/os_interf_c.c")])
prop("C41", "Listed clauses read back as the same program",
     "portray_clause/1,2 and listing/0,1 print each clause as text that, when read, is a variant of the clause stored, for any body structure, operators and variables, and list all the clauses of exactly the predicates asked for, in order.",
     [P], "all clause bodies up to a depth over control constructs and operator terms",
     "listing output is hardly compared.",
     ["BipsPl/pretty.pl", "BipsPl/pretty_c.c", "BipsPl/write_supp.c"],
     [("portray_clause layout", "BipsPl/pretty.pl")])
prop("C42", "read_term reports variables and ends truthfully",
     "variables, variable_names and singletons options list exactly the named, anonymous and single-occurrence variables of the text in order; syntax_error and end_of_term options, last_read_start_line_column and syntax_error_info report exactly where and what; after an error the next read starts right after the offending term.",
     [I], "all short texts of variables, atoms and errors x options",
     "error recovery is not tested.",
     ["BipsPl/read_c.c", "BipsPl/parser_supp.c", "BipsPl/read.pl"],
     [("parse dictionary", "BipsPl/parser_supp.c"), ("Recover_After_Error", "BipsPl/parser_supp.c")])
prop("C43", "Interrupts at any point leave the computation resumable",
     "An interrupt (Ctrl-C) arriving at any instant of a computation, followed by continue, leaves its results unchanged; followed by abort it returns to the top level with a consistent system.",
     [S, CP], "every instruction at which the signal can be delivered",
     "no signal is sent.",
     ["EnginePl/engine.c", "BipsPl/top_level.pl", "BipsPl/top_level_c.c", "Linedit/ctrl_c.c"],
     [("ctrl-C handler and Pl_Call_Prolog", "BipsPl/top_level_c.c")])
prop("C44", "No built-in call crashes or corrupts the system",
     "Every built-in predicate called with acyclic arguments of any type and instantiation succeeds, fails or raises an ISO error term whose culprit justifies it and whose context names it; it never ends the process, and afterwards the system answers reference questions unchanged.",
     [I], "all built-in predicates x all argument tuples over a universe with one value per type",
     "argument errors are hardly tested.",
     ["BipsPl/pl_error.pl", "BipsPl/error_supp.c", "BipsPl/c_supp.c", "BipsPl/all_pl_bips.pl", "BipsFD/all_fd_bips.pl"],
     [("Pl_Rd_* checks and Pl_Err_*", "BipsPl/c_supp.c"), ("error contexts", "BipsPl/error_supp.c")])
prop("C45", "Updates reclaim what they replace",
     "Repeating a cycle of operations that ends in the state it began with (assert/retract, global variable updates, stream open/close, findall, catch, last calls, failure-driven loops) uses bounded memory and descriptors, however often it is repeated.",
     [H], "all cycles up to a length of state-restoring operations",
     "tests end before a leak matters.",
     ["BipsPl/dynam_supp.c", "BipsPl/g_var_inl_c.c", "BipsPl/stream_supp.c", "EnginePl/wam_inst.c"],
     [("clause collection", "BipsPl/dynam_supp.c"), ("last call optimisation and environment trimming", "Pl2Wam/code_gen.pl")])
prop("C46", "Internal tables implement their abstract maps",
     "The red-black tree maps and hash tables the system is built on return, after any sequence of insertions, deletions, lookups, growth and enumeration, exactly what an abstract map would, keep their structural invariants, and enumerate every element once.",
     [H], "all operation sequences up to a depth over a small key set",
     "map_test runs pseudo-random long sequences; small-sequence completeness and hash_tbl are not covered.",
     ["Tools/rbtree.c", "Tools/map_rbtree.h", "EnginePl/hash_tbl.c", "Tools/bt_string.c", "Tools/cpt_string.c"],
     [("rb_insert_color/rb_erase", "Tools/rbtree.c"), ("Pl_Hash_*", "EnginePl/hash_tbl.c")],
     ["return values and enumeration of the C functions"])
prop("C47", "User-defined FD constraints compile to their meaning",
     "A constraint written in the FD language and compiled by fd2c is equivalent to the propagators its text denotes: for any indexicals, the reductions applied at any state are those of the range expressions, with local variables, fail/exit tests, every kind of trigger (min, max, dom, val; default, on, also on; always or optimized), several blocks and switches.",
     [P, I], "all small indexical definitions x domains",
     "only the built-in constraint library is compiled by it.",
     ["Fd2C/compile.pl", "Fd2C/parse.pl", "EngineFD/fd_to_c.h"],
     [("code generation for range and term expressions", "Fd2C/compile.pl")])
prop("C48", "The source reader returns every term with its true place",
     "sr_open/sr_read_term and the sr_get_* predicates deliver, for any source file with inclusions, operators, modules and errors, the same terms in the same order as reading the files directly, with the file and line each began at, and restore operators, flags and position as their options say.",
     [P, H], "all arrangements of clauses, includes, op directives and errors over small file sets",
     "the source reader has no test.",
     ["BipsPl/src_rdr.pl", "BipsPl/src_rdr_c.c"],
     [("reader stack and direct/undo lists", "BipsPl/src_rdr_c.c")])
prop("C49", "The same program gives the same result however it is built",
     "Compiling in one step or stage by stage through the intermediate files, splitting into several files, and any combination of optional compiler switches yields executables with the same observable behaviour.",
     [C, P], "all subsets of the compiler options x stop points x file splits for programs exercising the whole pipeline",
     "they build with the default options.",
     ["TopComp/top_comp.c", "Pl2Wam/pl2wam.pl", "Wam2Ma/wam2ma.c", "Ma2Asm/ma2asm.c"],
     [("option and stage handling", "TopComp/top_comp.c")])
prop("C50", "The top level answers what the query means",
     "For any sequence of queries typed at the top level, the answers printed are exactly the goal's solutions in order with the bindings of its named variables (equal variables shown as such, FD variables with their domains), `;`, `a` and return enumerate, exhaust and stop, and errors or aborts leave it ready for the next query.",
     [H, I], "all short queries over a family of goals x all response sequences up to a depth",
     "the top level is not tested.",
     ["BipsPl/top_level.pl", "BipsPl/top_level_c.c"],
     [("top level loop and answer printing", "BipsPl/top_level.pl")])
