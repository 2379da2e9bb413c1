:- foreign(fl_set(+integer)).
:- foreign(fl_read(+string, -integer, -integer)).
:- foreign(fl_rm(+string)).

% a case is  c(K,Ops): the operations under a file-size limit of K bytes (-1: none), one result each
fl_case(S) :-
	read(S, T), T = c(K, Ops),
	fl_rm(f0), fl_rm(f1), g_assign(fl_k, K),
	fl_ops(Ops, L),
	fl_end(L).
fl_end(L) :-
	( member(A, [s0,s1]), catch(close(A, [force(true)]), _, fail), fail ; true ),
	writeq(L), nl.

fl_ops([], []).
fl_ops([l(K)|L], R) :- !, g_assign(fl_k, K), fl_ops(L, R).
fl_ops([r(F)|L], [N-H|R]) :- !, fl_read(F, N, H), fl_ops(L, R).
fl_ops([O|L], [X|R]) :-
	g_read(fl_k, K), fl_set(K),
	catch((fl_op(O) -> X = ok ; X = no), E, fl_err(E, X)),
	fl_set(-1),
	fl_ops(L, R).
fl_err(error(E,_), e(E)) :- !.
fl_err(E, ball(E)).

fl_op(o(F,M,A,O)) :- open(F, M, _, [alias(A)|O]).
fl_op(p(A,big(N))) :- !, fl_big(N, T), write(A, T).
fl_op(p(A,T)) :- write(A, T).
fl_op(w(A,1,T)) :- atom_chars(T, L), fl_chars(L, A).
fl_op(w(A,2,T)) :- atom_codes(T, L), fl_codes(L, A).
fl_op(w(A,3,T)) :- atom_codes(T, L), fl_bytes(L, A).
fl_op(w(A,4,T)) :- format(A, "~a", [T]).
fl_op(w(A,5,T)) :- atom_codes(T, L), format(A, "~s", [L]).
fl_op(w(A,6,T)) :- format(A, T, []).
fl_op(w(A,7,T)) :- writeq(A, T).
fl_op(w(A,8,T)) :- print(A, T).
fl_op(w(A,9,T)) :- write_term(A, T, []).
fl_op(w(A,10,T)) :- write_canonical(A, T).
fl_op(w(A,11,T)) :- current_output(O), set_output(A), catch(write(T), E, true), set_output(O), ( var(E) -> true ; throw(E) ).
fl_op(w(A,12,T)) :- display(A, T).
fl_op(w(A,13,T)) :- format(A, "~w", [T]).
fl_op(w(A,14,T)) :- portray_clause(A, T).
fl_op(n(A)) :- nl(A).
fl_op(t(A,0)).
fl_op(f(A)) :- flush_output(A).
fl_op(c(A)) :- close(A).
fl_op(cf(A)) :- close(A, [force(true)]).
fl_op(k(A,N)) :- seek(A, bof, N, _).
fl_op(k(A,W,N)) :- seek(A, W, N, _).
fl_op(sv(A)) :- stream_property(S, alias(A)), stream_property(S, position(P)), g_assign(fl_pos, P).
fl_op(rs(A)) :- g_read(fl_pos, P), set_stream_position(A, P).
fl_op(b(A,M)) :- set_stream_buffering(A, M).
fl_op(m(A,B)) :- add_stream_mirror(A, B).
fl_op(um(A,B)) :- remove_stream_mirror(A, B).
fl_op(g(A)) :- \+ stream_property(_, alias(A)).
fl_op(h(A)) :- stream_property(_, alias(A)), !.

fl_big(N, T) :- fl_cyc(N, 0, L), atom_codes(T, L).
fl_cyc(0, _, []) :- !.
fl_cyc(N, I, [C|L]) :- C is 0'a + I, J is (I+1) mod 26, M is N-1, fl_cyc(M, J, L).
fl_chars([], _).
fl_chars([C|L], A) :- put_char(A, C), fl_chars(L, A).
fl_codes([], _).
fl_codes([C|L], A) :- put_code(A, C), fl_codes(L, A).
fl_bytes([], _).
fl_bytes([C|L], A) :- put_byte(A, C), fl_bytes(L, A).
