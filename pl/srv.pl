% Case server.  Reads terms  c(Id, Max, Template, Goal).  from standard input, enumerates up to
% Max solutions of Goal and writes one line per case:  Id <TAB> item <TAB> item ... <NL>
% with items  =Template (one per solution), then  no | more | !ErrorTerm.
% fl. switches flushing after each case on;  d(Goal). runs Goal once, silently.

:- dynamic(srv_junk/1).
:- initialization(srv_main).

srv_main :-
	g_assign(srv_id, -1),
	set_stream_type(user_input, text),
	srv_loop.

srv_loop :-
	repeat,
	catch(read(user_input, T), _, srv_bad),
	srv_one(T),
	!,
	flush_output(user_output),
	halt.

srv_one(end_of_file) :- !.
srv_one(fl) :- !, g_assign(srv_flush, 1), fail.
srv_one(d(G)) :- !, ( catch(G, _, true) -> true ; true ), fail.
srv_one(p) :-			% from here on, more than 1000 erased clauses are kept alive by a scan,
	srv_fill(0),		% so that every later update and scan runs the clause collector
	srv_junk(_),
	srv_dry,
	srv_loop.
srv_one(c(Id, Max, T, G)) :-
	g_assign(srv_id, Id),
	write(user_output, Id),
	srv_flush,
	srv_run(Max, T, G),
	nl(user_output),
	srv_flush,
	fail.

srv_one(T) :- \+ T = c(_, _, _, _), \+ T = d(_), T \== fl, srv_bad.

srv_bad :-			% the case does not even read: syntax error
	g_read(srv_id, Id0),
	Id is Id0 + 1,
	g_assign(srv_id, Id),
	write(user_output, Id),
	write(user_output, '\t!syntax\n'),
	srv_flush,
	fail.

srv_flush :- g_read(srv_flush, 1), !, flush_output(user_output).
srv_flush.

srv_run(Max, T, G) :-
	g_assign(srv_n, 0),
	catch(srv_run1(Max, T, G), E, srv_ex(E)),
	!.
srv_run(_, _, _) :-
	write(user_output, '\tno').

srv_run1(Max, T, G) :-
	call(G),
	srv_answer(T),
	g_inc(srv_n),
	g_read(srv_n, N),
	N >= Max,
	!,
	write(user_output, '\tmore').

srv_answer(T) :-
	\+ \+ ( write(user_output, '\t='), srv_write(T) ).

srv_ex(error(E, _)) :- !, write(user_output, '\t!'), srv_write(E).
srv_ex(E) :- write(user_output, '\t!!'), srv_write(E).

srv_write(T) :-
	copy_term(T, T1),
	term_variables(T1, Vs),
	srv_name(Vs, 0),
	write_term(user_output, T1, [quoted(true), ignore_ops(true), numbervars(false)]).

srv_name([], _).
srv_name(['_G'(N)|Vs], N) :- N1 is N + 1, srv_name(Vs, N1).

srv_fill(1300) :- !.
srv_fill(N) :- assertz(srv_junk(N)), N1 is N + 1, srv_fill(N1).

srv_dry :- retract(srv_junk(_)), fail.
srv_dry.
