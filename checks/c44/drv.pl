% C44 driver.  Arguments: the file to write to, Name, Arity, number of the first call, number of the last call,
% maximum number of universe values.  Calls Name/Arity with every tuple over the universe, in order, and writes one
% line per call:  Number TAB outcome [TAB anomaly ...]

:- initialization(main).

:- dynamic(dyn/1).
:- dynamic(dyn/2).
dyn(1). dyn(2). dyn(3).
dyn(1, a). dyn(2, b).
static(1). static(2).

main :-
	argument_list([File, N, ArA, FrA, ToA, MxA|Show]),
	number_atom(Ar, ArA), number_atom(Fr, FrA), number_atom(To, ToA), number_atom(Mx, MxA),
	( argn(N, N1) -> true ; N1 = N ),
	open(File, append, S, [alias(drv_out)]),
	g_assign(drv, S),
	extra(N1/Ar, Ex),
	findall(V, (universe(V)), Us00),
	( Ar < 3 -> Us0 = [_|Us00] ; Us0 = Us00 ),
	first(Us0, Mx, Us1),
	append(Us1, Ex, Us),
	length(Us, L),
	U =.. [u|Us],
	( To < 0 -> To1 is L ** Ar ; To1 = To ),
	ready,
	( Show = [] -> true ; args(Ar, Fr, L, U, As), G =.. [N1|As], ( write_term(S, G, [quoted(true)]) -> true ; true ), nl(S), close(S), halt ),
	questions(0, Q0),
	drv_loop(Fr, To1, N1, Ar, L, U),
	back(S),
	( questions(1, Q0) -> write(S, 'Q\tsame\n') ; questions(1, Q1), write(S, 'Q\t'), write_canonical(S, Q1), nl(S) ),
	close(S),
	halt.

argn(A, '') :- A == '<empty>'.

% a sort of the tuples in which a variable is the first value
universe(fresh).
universe(a).
universe(3).
universe(f(_)).
universe([]).
universe("ab").
universe(s_in).
universe(1.5).
universe(-1).
universe([a|_]).
universe(0).
universe(s_out).
universe([a,b]).
universe(1152921504606846975).
universe('$stream'(99)).
universe(4294967393).
universe(true).
universe(foo/1).
universe(dyn(_)).
universe(static(_)).
universe([a|b]).
universe('').
universe(X-X).
universe('fd').
universe('$sin').
universe('$sout').
universe(1).
universe(-1152921504606846976).
universe([_,_]).
universe([1,_|_]).
universe((dyn(X):-foo(X),_)).
universe('a file.tmp').
universe(drv_g).
universe(-4294967296).
universe([f(_),[],1.5]).
universe(write_term(_)).
universe(inf).

first([], _, []) :- !.
first(_, 0, []) :- !.
first([X|L], N, [X|M]) :- N1 is N - 1, first(L, N1, M).

% special values made anew for each call
make(T, T) :- var(T), !.
make(fresh, _) :- !.
make(fd, X) :- !, fd_domain(X, 1, 3).
make('$sin', S) :- !, '$strm'(s_in, S).
make('$sout', S) :- !, '$strm'(s_out, S).
make(T, T1) :- copy_term(T, T1).

'$strm'(A, S) :- current_alias(S0, A), !, S = S0.

% the streams of the universe are there before every call, and the current ones are the standard ones
ready :-
	( current_alias(_, s_in) -> true ; drv_file, open(drv_in, read, _, [alias(s_in), reposition(true)]) ),
	( current_alias(_, s_out) -> true ; open(drv_tmp, write, _, [alias(s_out)]) ),
	set_input(user_input), set_output(user_output),
	g_assign(drv_g, 5).

:- dynamic(drv_done/0).
drv_file :- drv_done, !.
drv_file :- assertz(drv_done), open(drv_in, write, S), write(S, 'foo(X, Y). bar "abc" 12 1.5 .\nb:-c.\n'), close(S).

drv_loop(I, To, _, _, _, _) :- I >= To, !.
drv_loop(I, To, N, Ar, L, U) :-
	( drv_one(I, N, Ar, L, U) -> true ; g_read(drv, S), write(S, '\tno driver answer\n') ),
	I1 is I + 1,
	drv_loop(I1, To, N, Ar, L, U).

args(0, _, _, _, []) :- !.
args(Ar, I, L, U, [V|As]) :-
	K is I mod L + 1, arg(K, U, V0), make(V0, V),
	I1 is I // L, Ar1 is Ar - 1,
	args(Ar1, I1, L, U, As).

drv_one(I, N, Ar, L, U) :-
	g_read(drv, S),
	write(S, I), flush_output(S),
	ready,
	args(Ar, I, L, U, As),
	drv_skip(N, Ar, As), !,
	write(S, '\tskip\n').
drv_one(I, N, Ar, L, U) :-
	args(Ar, I, L, U, As),
	G =.. [N|As],
	copy_term(G, G0),
	g_read(drv, S),
	streams(S0),
	\+ \+ drv_call(N/Ar, G, G0, S, S0),
	flush_output(S).

drv_call(P, G, G0, S, S0) :-
	g_assign(drv_n, 0),
	catch(drv_sols(G, G0, R), E, (R = ex)),
	back(S),
	( R == ex -> term_ok(E), write(S, '\t'), err(E, P, G, S), unchanged(P, G, G0, S, S0)
	; write(S, '\t'), write(S, R), ( R == no(0) -> unchanged(P, G, G0, S, S0) ; true ) ),
	nl(S).

back(S) :- ( catch(line_count(S, _), _, fail) -> true ; open(drv_lost, append, S1), write(S1, lost), nl(S1), close(S1), halt(3) ).

drv_sols(G, G0, R) :-
	(   call(G), g_inc(drv_n), ( acyclic_term(G) -> term_ok(G), \+ \+ subsumes(G0, G) ; true ), g_read(drv_n, N), N >= 3, !, R = yes
	;   g_read(drv_n, N), R = no(N)
	).

subsumes(_, G) :- functor(G, F, _), memberchk(F, [setarg, nb_setarg, sort, msort, keysort]), !.
subsumes(G0, G) :- term_variables(G0-G, Vs), no_fd(Vs), !, ( subsumes_term(G0, G) -> true ; g_read(drv, S), write(S, '\tnot an instance') ).
subsumes(_, _).

no_fd([]).
no_fd([V|Vs]) :- \+ fd_var(V), no_fd(Vs).

% the term can be traversed
term_ok(T) :- term_variables(T, _), copy_term(T, _).

streams(N) :- findall(x, current_stream(_), L), length(L, N).

unchanged(P, G, G0, S, S0) :-
	( closes(P) -> true ; streams(S1), ( S0 =:= S1 -> true ; write(S, '\tstreams '), write(S, S0), write(S, ' -> '), write(S, S1) ) ),
	( subsumes_term(G, G0), \+ has_fd(G0) -> true ; has_fd(G0) -> true ; write(S, '\targuments bound') ).

has_fd(G) :- term_variables(G, L), member(V, L), fd_var(V), !.

closes(close/_).
closes(told/_).
closes(seen/_).
closes(N/_) :- sub_atom(N, 0, _, _, close_), !.
closes(N/_) :- sub_atom(N, 0, _, _, call), !.
closes(_).

% the error term
err(error(E, C), P, G, S) :- nonvar(E), P \= throw/_, !,
	( catch(functor(E, F, A), _, fail) -> true ; F = unknown, A = 0 ),
	write(S, F),
	( iso(E, G) -> true ; iso_name(F, A), E =.. [_|As], write(S, '\tnot justified: '), write_term(S, As, [quoted(true),ignore_ops(true)]) ; write(S, '\tnot an ISO error: '), write_term(S, E, [quoted(true),ignore_ops(true)]) ),
	( ctx(C, P) -> true ; write(S, '\tcontext '), write_term(S, C, [quoted(true),ignore_ops(true)]) ).
err(_, throw/_, _, S) :- !, write(S, ball).
err(E, _, _, S) :- write(S, ball), ( ballok(E) -> true ; write(S, '\tball '), write_term(S, E, [quoted(true),ignore_ops(true)]) ).

ballok(_).

iso_name(type_error, 2).
iso_name(domain_error, 2).
iso_name(instantiation_error, 0).
iso_name(existence_error, 2).
iso_name(permission_error, 3).
iso_name(representation_error, 1).
iso_name(evaluation_error, 1).

iso(instantiation_error, G) :- \+ ground(G).
iso(uninstantiation_error(T), _) :- nonvar(T).
iso(type_error(atomic, _), G) :- G =.. [F|_], memberchk(F, [setarg, nb_setarg]), !.	% documented: neither atom nor integer
iso(type_error(T, C), _) :- atom(T), \+ ( is_type(T, C) ), ( nonvar(C) -> true ; fd_var(C) ), type_known(T).
iso(domain_error(D, C), _) :- atom(D), nonvar(C), \+ in_domain(D, C).
iso(existence_error(K, C), _) :- atom(K), nonvar(C), \+ exists(K, C).
iso(permission_error(A, T, C), _) :- perm_action(A), perm_type(T), nonvar(C).
iso(representation_error(W), _) :- memberchk(W, [character, character_code, in_character_code, max_arity, max_integer, min_integer, too_many_variables]).
iso(representation_error(integer_32bits), G) :- big_in(G), !.
iso(evaluation_error(W), _) :- memberchk(W, [float_overflow, int_overflow, undefined, underflow, zero_divisor]).
iso(resource_error(W), _) :- atom(W).
iso(syntax_error(W), _) :- atom(W).
iso(system_error(W), _) :- atom(W).

% an integer which a 32 bit one does not hold
big_in(T) :- integer(T), !, ( T > 2147483647 ; T < -2147483648 ), !.
big_in(T) :- compound(T), T =.. [_|L], member(X, L), nonvar(X), big_in(X), !.

type_known(T) :- memberchk(T, [atom, atomic, byte, callable, character, compound, evaluable, in_byte, in_character, integer, list, number,
	predicate_indicator, variable, float, pair, boolean, in_code, fd_variable, fd_evaluable, fd_bool_evaluable, array, stream_or_alias, in_character_code, character_code]).

is_type(atom, X) :- atom(X).
is_type(atomic, X) :- atomic(X).
is_type(byte, X) :- integer(X), X >= 0, X =< 255.
is_type(callable, X) :- callable(X), \+ ( nonvar(X), X =.. [F,A|As], memberchk(F, [(','), (;), (->), (*->), (\+)]), member(B, [A|As]), nonvar(B), \+ is_type(callable, B) ).
is_type(character, X) :- atom(X), atom_length(X, 1).
is_type(compound, X) :- compound(X).
is_type(in_byte, X) :- integer(X), X >= -1, X =< 255.
is_type(in_character, X) :- atom(X), ( X == end_of_file ; atom_length(X, 1) ).
is_type(integer, X) :- integer(X).
is_type(list, X) :- list(X).
is_type(number, X) :- number(X).
is_type(float, X) :- float(X).
is_type(variable, X) :- var(X), \+ fd_var(X).
is_type(pair, X) :- nonvar(X), X = _-_.
is_type(boolean, X) :- ( X == true ; X == false ).
is_type(predicate_indicator, X) :- nonvar(X), X = N/A, atom(N), integer(A).
is_type(evaluable, X) :- nonvar(X), X = N/A, catch((functor(_, N, A), functor(T, N, A), current_evaluable(N/A), nonvar(T)), _, fail).
is_type(fd_variable, X) :- fd_var(X).

in_domain(not_less_than_zero, X) :- integer(X), X >= 0.
in_domain(not_less_than_zero, X) :- \+ integer(X).
in_domain(non_empty_list, X) :- nonvar(X), X = [_|_].
in_domain(order, X) :- memberchk(X, [(<), (=), (>)]).
in_domain(io_mode, X) :- memberchk(X, [read, write, append]).
in_domain(stream_or_alias, X) :- atom(X), current_alias(_, X).
in_domain(stream_or_alias, '$stream'(N)) :- integer(N).
in_domain(stream, '$stream'(N)) :- integer(N).
in_domain(operator_priority, X) :- integer(X), X >= 0, X =< 1200.
in_domain(operator_specifier, X) :- memberchk(X, [fx, fy, xf, yf, xfx, xfy, yfx]).

exists(stream, X) :- atom(X), current_alias(_, X).
exists(stream, X) :- nonvar(X), X = '$stream'(N), integer(N), current_stream(X).
exists(procedure, X) :- nonvar(X), X = N/A, atom(N), integer(A), current_predicate(N/A).

perm_action(A) :- memberchk(A, [access, create, input, modify, open, output, reposition, add_alias, close, delete, read, write, add_mirror]).
perm_type(T) :- memberchk(T, [binary_stream, flag, operator, past_end_of_stream, private_procedure, static_procedure, source_sink, stream, text_stream, alias, procedure, directory, built_in_procedure]).

ctx(C, P) :- nonvar(C), C = P.
ctx(C, nth/3) :- C = nth1/3.
ctx(C, N/A) :- meta(N, A), nonvar(C), C = F/B, atom(F), integer(B).

% those that run goals of the universe, whose errors name the goal
meta(N, _) :- memberchk(N, [catch, findall, bagof, setof, once, forall, maplist, phrase, call_nth, countall, call_det, (\+), (','), (;), (->), (*->), call, call_with_args, fd_minimize, fd_maximize, consult, load, '.', listing, throw, max_list, min_list, sum_list]).

% reference questions
questions(_, Q) :-
	findall(R, q(R), Q).

q(1-R) :- R is 12345 * 6789 - 7 mod 3.
q(2-R) :- msort([c,a,f(X,X),2,1.0,"x",b,_], R0), length(R0, R).
q(3-R) :- findall(X-Y, (append(X, [Y|_], [1,2,3])), R).
q(4-R) :- catch(throw(f(1)), f(R), true).
q(5-R) :- catch(atom_length(_, _), error(R, _), true).
q(6-R) :- catch(atom_length(1, foo), error(R, _), true).
q(7-R) :- asserta(drv_t(1)), assertz(drv_t(2)), findall(X, retract(drv_t(X)), R).
q(8-R) :- sub_atom(hello, B, 2, 0, S), R = B-S.
q(9-R) :- atom_codes(A, [120, 121]), atom_concat(A, z, R).
q(10-R) :- length(L, 300), R0 =.. [f|[]], length(L, N), R = N-R0, last(L, _).
q(11-R) :- X #> 3, X #< 7, fd_dom(X, D), findall(X, fd_labeling(X), L), R = D-L.
q(12-R) :- g_assign(drv_q, f(Y, Y)), g_read(drv_q, R).
q(13-R) :- setof(X-Y, member(X-Y, [b-1, a-2, a-1]), R).
q(14-R) :- copy_term(f(X, _, X), R).
q(15-R) :- findall(X, clause(dyn(X, _), _), L), findall(X, static(X), M), length(L, LL), R = M, LL >= 0.
q(16-R) :- X = f(Y, _, Y), X =.. L, length(L, R).
q(17-R) :- findall(X, drv_deep(200, X), L), length(L, R).
q(18-R) :- R0 is 2.0 ** 0.5, R1 is truncate(R0 * 1000), R = R1.
q(19-R) :- write_to_chars(L, f(x, 'A b', [1])), length(L, R).

:- dynamic(drv_t/1).
drv_deep(0, 0) :- !.
drv_deep(N, X) :- N1 is N - 1, ( X = N ; drv_deep(N1, X) ).
