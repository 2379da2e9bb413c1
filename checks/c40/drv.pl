:- foreign(pc_fds(-integer)).
:- foreign(pc_kids(-integer)).
:- foreign(pc_pipe_sig).
:- foreign(pc_exit(+integer)).

% a case is  c(Goal,Template).
pc_init :- pc_pipe_sig, catch(( exec(true, null, null, null) -> true ; true ), _, true).
pc_case(S) :-
	read_term(S, T, []), T = c(G, R),
	pc_do(G, R).
pc_do(G, R) :-
	pc_fds(N0),
	catch((call(G) -> X = R ; X = no), E, pc_err(E, X)),
	pc_fds(N1), N is N1 - N0, pc_kids(K),
	ln_put(r(X,N,K)), flush_output,
	pc_reset.
pc_err(error(system_error(_),_), e(system)) :- !.
pc_err(error(E,_), e(E)) :- !.
pc_err(E, b(E)).
pc_reset :-
	current_stream(S), \+ pc_keep(S), catch(close(S, [force(true)]), _, true), fail.
pc_reset.
pc_keep(S) :- stream_property(S, alias(A)), memberchk(A, [user_input,user_output,user_error]), !.
pc_keep(S) :- g_read(pc_in, S), !.
pc_keep(S) :- g_read(pc_out, S), !.
pc_keep(S) :- stream_property(S, file_name(F)), ( sub_atom(F, _, _, 0, '/in') ; sub_atom(F, _, _, 0, '/out') ), !.

wr(S, N) :- wr(0, N, S), flush_output(S).
wr(N, N, _) :- !.
wr(I, N, S) :- C is I*7 mod 251 + 1, put_code(S, C), I1 is I+1, wr(I1, N, S).
wb(S, N) :- wb(0, N, S).
wb(N, N, _) :- !.
wb(I, N, S) :- C is I*7 mod 251 + 1, put_code(S, C), I1 is I+1, wb(I1, N, S).
rd(S, N/H) :- get_code(S, C), rd(C, 0, 0, N, H, S).
rd(-1, N, H, N, H, _) :- !.
rd(C, N0, H0, N, H, S) :- N1 is N0+1, H1 is (H0*31+C) /\ 0xfffffff, get_code(S, C1), rd(C1, N1, H1, N, H, S).
rn(S, K, N/H) :- rn(K, 0, 0, N, H, S).
rn(0, N, H, N, H, _) :- !.
rn(K, N0, H0, N, H, S) :- get_code(S, C), ( C = -1 -> N = N0, H = H0 ; K1 is K-1, N1 is N0+1, H1 is (H0*31+C) /\ 0xfffffff, rn(K1, N1, H1, N, H, S) ).
rt(S, T) :- read(S, T).
ro(F, T) :- open(F, read, S), read(S, T), close(S).
rc(F, D) :- open(F, read, S), rd(S, D), close(S).
mk(F, N) :- open(F, write, S), wb(S, N), close(S).
args(F, A) :- open(F, read, S), rl(S, L), close(S), atom_codes(A, L).
rl(S, L) :- get_code(S, C), ( C = -1 -> L = [] ; L = [C|R], rl(S, R) ).
cl([]).
cl([S|L]) :- close(S), cl(L).
child(G) :- catch(( call(G) -> X = 0 ; X = 41 ), _, X = 42), pc_exit(X).
fork(G, P) :- fork_prolog(P), ( P = 0 -> child(G) ; true ).
forkx(G, X, P) :- fork_prolog(P), ( P = 0 -> catch(( call(G) -> Y = X ; Y = 41 ), _, Y = 42), pc_exit(Y) ; true ).
rep(0, _) :- !.
rep(N, G) :- \+ \+ call(G), N1 is N-1, rep(N1, G).
