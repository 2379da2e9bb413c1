% Text driver: argument list  Setup In Out.  Setup holds goals (read and run one by one, before In is opened);
% the last one must be  driver(P): then P(S) is called on the stream In until it fails, writing to the current output (Out).
:- initialization(ln_main).

ln_main :-
	argument_list([F,I,O]),
	open(F, read, S),
	g_assign(ln_drv, ln_term),
	repeat,
	read_term(S, T, []),
	( T == end_of_file -> true
	; T = driver(P) -> g_assign(ln_drv, P), fail
	; catch(T, E, (write(user_error, E), nl(user_error))), fail ),
	!,
	close(S),
	open(I, read, In),
	open(O, write, Out),
	set_output(Out),
	g_read(ln_drv, D),
	ln_loop(D, In),
	set_output(user_output),
	close(Out),
	halt.

ln_loop(D, S) :- repeat, \+ call(D, S), !.

% one term per line, canonical text; ! for an error
ln_term(S) :-
	catch(read_term(S, T, []), E, true),
	( nonvar(E) -> ln_err(E)
	; T == end_of_file -> fail
	; ln_put(T) ).

ln_err(error(syntax_error(_),_)) :- !, write('!\n').
ln_err(error(E,_)) :- !, write('!'), ln_put(E).
ln_err(E) :- write('!!'), ln_put(E).

ln_put(T) :- \+ \+ ( ln_nv(T), write_term(T, [quoted(true),ignore_ops(true)]) ), nl.

ln_nv(T) :- term_variables(T, L), ln_nv(L, 0).
ln_nv([], _).
ln_nv(['_G'(N)|L], N) :- N1 is N+1, ln_nv(L, N1).
