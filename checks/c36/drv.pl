% c(Files, Steps): Files = [Name-Text,...] written first; Steps are run one by one, each gives one item of the answer.
% Every case runs in a process of its own.
cs_log(X) :- cs_get(L), g_assign(cs_l, [X|L]).
cs_get(L) :- g_read(cs_l, L0), ( L0 = 0 -> L = [] ; L = L0 ).
cs_sol(G, X) :- catch(findall(X, G, L), Er, true), ( var(Er) -> cs_log(L) ; Er = error(E, _) -> cs_log(E) ; cs_log(Er) ).

cs_case(S) :-
	read_term(S, T, []),
	T \== end_of_file,
	current_output(O), flush_output(O),
	fork_prolog(P),
	( P = 0 ->
	    catch(cs_run(T), Er, cs_put(ball(Er))),
	    flush_output(O), flush_output(user_output), flush_output(user_error),
	    prolog_pid(Me), send_signal(Me, 'SIGKILL'), sleep(5)
	; wait(P, St), ( abs(St) =:= 9 -> true ; write('!died '), write(St), nl ) ).

cs_put(T) :- write_term(T, [quoted(true),ignore_ops(true),numbervars(false),variable_names([])]), nl.

cs_run(c(Files,Steps)) :-
	g_assign(cs_l, []),
	directory_files('.', L0), cs_unlink(L0),
	cs_files(Files),
	cs_steps(Steps, L),
	cs_put(L).

cs_unlink([]).
cs_unlink([F|L]) :- ( ( sub_atom(F, _, 3, 0, '.pl') ; sub_atom(F, _, 4, 0, '.pro') ) -> unlink(F) ; true ), cs_unlink(L).

cs_files([]).
cs_files([F-T|L]) :- cs_file(F, T), cs_files(L).
cs_file(F, T) :- open(F, write, S), atom_codes(T, L), cs_codes(L, S), close(S).
cs_codes([], _).
cs_codes([C|L], S) :- put_code(S, C), cs_codes(L, S).

cs_steps([], []).
cs_steps([s(G)|L], [R|M]) :- !, cs_step(G, R), cs_steps(L, M).
cs_steps([l|L], [R|M]) :- !, cs_get(L0), reverse(L0, R), g_assign(cs_l, []), cs_steps(L, M).
cs_steps([p(A)|L], [R|M]) :- !, cs_preds(A, R), cs_steps(L, M).
cs_steps([o(A)|L], [R|M]) :- !, findall(op(P,T), current_op(P, T, A), R0), msort(R0, R), cs_steps(L, M).
cs_steps([f(A)|L], [R|M]) :- !, current_prolog_flag(A, R), cs_steps(L, M).

cs_step(G, R) :- catch(( call(G) -> R0 = true ; R0 = fail ), Er, true), ( var(Er) -> R = R0 ; Er = error(E,_) -> R = E ; R = Er ).

cs_preds([], []).
cs_preds([P|L], [R|M]) :- cs_pred(P, R), cs_preds(L, M).

cs_pred(P, R) :- cs_pred(P, P, R).
cs_pred(P/N, _, R) :- functor(H, P, N), H =.. [_|As], cs_call(H, As, R0), ( current_predicate(P/N) -> Df = d ; Df = u ),
	( catch(predicate_property(H, dynamic), _, fail) -> D = y ; D = n ),
	( catch(predicate_property(H, multifile), _, fail) -> Mu = y ; Mu = n ),
	catch(( findall(H-B, clause(H, B), L), copy_term(L, R1) ), E1, true), ( var(E1) -> cs_clauses(R1, R2) ; E1 = error(permission_error(_,_,_), _) -> R2 = private ; R2 = E1 ),
	R = r(R0, Df, D, Mu, R2).

cs_call(H, As, R) :- catch(findall(As, H, L), Er, true), ( var(Er) -> cs_flat(L, R) ; Er = error(existence_error(_,P),_) -> R = u(P) ; Er = error(E,_) -> R = E ; R = Er ).
cs_flat([], []).
cs_flat([A|L], [B|M]) :- ( A = [B] -> true ; A = B ), cs_flat(L, M).

cs_clauses([], []).
cs_clauses([H-B|L], [R|M]) :- H =.. [_|As], ( As = [A] -> true ; A = As ), ( B == true, nonvar(A) -> R = A ; B =.. [N|_], R = N ), cs_clauses(L, M).

% used by the native programs
cs_native(Steps) :- cs_steps(Steps, L), set_output(user_output), cs_put(L), flush_output.
