:- foreign(mm_note(+integer)).
:- foreign(mm_grow(+integer,+integer,+integer,-integer)).
:- dynamic(mm_body/0). :- dynamic(mm_d/1).
mm_n(K) :- mm_gc, mm_note(K).
% the system collects erased clauses when there are many of them: collect now
mm_gc :- g_read(mm_upd, 1), !, \+ \+ ( mm_fill(1001), abolish(mm_d/1) ).
mm_gc.
mm_fill(0) :- !.
mm_fill(N) :- assertz(mm_d(N)), N1 is N-1, mm_fill(N1).
 :- dynamic(q/1). :- dynamic(q/2). :- dynamic(p/1). :- dynamic(r/3). :- dynamic(cnt/1).
cnt(0).
q(1). q(2). q(3).
q(a, 1). q(b, 2). q(a, 3).

% a case is  c(How,N,Goal).
mm_case(S) :-
	read_term(S, T, []), T = c(How, N, U, G), g_assign(mm_upd, U), ( mm_cons(G) -> g_assign(mm_mem, 600), g_assign(mm_atoms, 4) ; g_assign(mm_mem, 6), g_assign(mm_atoms, 1) ),
	catch(mm_run(How, N, G, R), E, R = err(E)), ln_put(R).
mm_run(How, N, G, R) :-
	N1 is N, N2 is 2*N, N4 is 4*N,
	mm_prep(How, G), mm_loop(How, 20, G, 0),
	mm_loop(How, N1, G, 1), mm_loop(How, N2, G, 2), mm_loop(How, N4, G, 3),
	findall(K, mm_leak(How, N, K), R).
mm_prep(dyn, G) :- !, retractall(mm_body), assertz((mm_body :- G)).
mm_prep(_, _).
mm_what(0, memory). mm_what(1, global). mm_what(2, trail). mm_what(3, cstr). mm_what(4, local). mm_what(5, files). mm_what(6, atoms).
% grows by one unit for each round, again and again
mm_unit(0, U) :- g_read(mm_mem, U). mm_unit(1, 8). mm_unit(2, 8). mm_unit(3, 8). mm_unit(4, 8). mm_unit(5, 1). mm_unit(6, U) :- g_read(mm_atoms, U).
mm_leak(How, N, W) :-
	mm_what(K, W), \+ mm_free(How, W), mm_unit(K, U),
	mm_grow(1, 2, K, D2), mm_grow(2, 3, K, D4),
	D2 >= 2*N*U, D4 >= 4*N*U, 2*D4 >= 3*D2.
mm_free(rec, global).
mm_free(rdet, global).
mm_free(rdet, trail).
mm_free(rdet, cstr).
% the records of the undo functions are in memory as long as the trail refers to them
mm_free(rdet, memory) :- mm_grow(1, 2, 2, D), D > 100.
mm_free(lco, global).
mm_free(lco, trail).
mm_loop(fail, N, G, K) :- mm_lf(N, G), mm_n(K).
mm_loop(dyn, N, _, K) :- mm_ld(N), mm_n(K).
mm_loop(rec, N, G, K) :- mm_lr(N, G, K).
mm_loop(rdet, N, G, K) :- mm_lt(N, G, K).
mm_loop(rep, N, G, K) :- g_assign(mm_n, N), mm_lp(G), mm_n(K).
mm_loop(nest, N, G, K) :- mm_ln(N, G), mm_n(K).
% a program of its own: P(N,K) ends by mm_n(K)
mm_loop(lco, N, P, K) :- mm_lc(P, N, K).
mm_lc(P, N, K) :- call(P, N, K), !.
mm_lf(N, G) :- between(1, N, _), mm_do(G), fail.
mm_lf(_, _).
mm_do(G) :- copy_term(G, H), ( catch(H, _, true) -> true ; true ).
mm_ld(N) :- between(1, N, _), ( catch(mm_body, _, true) -> true ; true ), fail.
mm_ld(_).
mm_lr(0, _, K) :- !, mm_n(K).
mm_lr(N, G, K) :- ( \+ \+ catch(G, _, true) -> true ; true ), N1 is N-1, mm_lr(N1, G, K).
% the goal is called without protection: it has to be deterministic
mm_lt(0, _, K) :- !, mm_n(K).
mm_lt(N, G, K) :- copy_term(G, H), call(H), N1 is N-1, mm_lt(N1, G, K).
mm_lp(G) :- \+ mm_lq(G), fail.
mm_lp(_).
mm_lq(G) :- repeat, mm_do(G), g_read(mm_n, N), N1 is N-1, g_assign(mm_n, N1), N1 =< 0, !.
mm_ln(N, G) :- catch(( between(1, N, _), findall(x, mm_do(G), _), fail ; throw(done) ), done, true).
mk_list(0, []) :- !.
mk_list(N, [N|L]) :- N1 is N-1, mk_list(N1, L).
mk_as(0, _) :- !.
mk_as(N, P) :- T =.. [P,N], assertz(T), N1 is N-1, mk_as(N1, P).
mk_as2(0) :- !.
mk_as2(N) :- assertz(r(N, x, f(N))), N1 is N-1, mk_as2(N1).
nrev([], []).
nrev([X|L], R) :- nrev(L, R1), append(R1, [X], R).
det(a, 1). det(b, 2). det(c, 3).
last_c(0) :- !.
last_c(N) :- N > 0, N1 is N-1, last_c(N1).
mut(0). mut(N) :- N > 0, N1 is N-1, mut2(N1).
mut2(0). mut2(N) :- N > 0, N1 is N-1, mut(N1).
ite(N) :- ( N > 100 -> true ; N > 50 -> N1 is N+1, ite(N1) ; N1 is N+1, ite(N1) ).
st([]). st([X|L]) :- atom(X), !, st(L). st([_|L]) :- st(L).
dcg --> []. 
dcg1 --> "a", dcg1. 
dcg1 --> [].
% the files of the cases, in the scratch directory the process runs in
mm_setup :-
	g_assign(mm_mem, 6), g_assign(mm_atoms, 1),
	mm_file('f1', "x. y. z.\n"), mm_file('f2', "\n"), mm_file('f3.pl', "foo(X,Y,X). bar(\"abc\"). baz.\n"), mm_file('bad.pl', "foo(. a b. ok.\n"),
	mm_file('c.pl', ":- dynamic(cc/1). :- op(700,xfx,===>). cc(1). cc(2). cd(X) :- cc(X), X > 1. ce([a|_],f(X),X). a ===> b.\n"),
	prolog_pid(_).
mm_file(F, L) :- atom_codes(A, L), open(F, write, S), write(S, A), close(S).
listing_to(P) :- current_output(O), open('f2', write, S), set_output(S), listing(P), set_output(O), close(S).
% each consult has a temporary file: the atom of its name
mm_cons(G) :- var(G), !, fail.
mm_cons(consult(_)).
mm_cons((A,B)) :- ( mm_cons(A) ; mm_cons(B) ), !.
mm_cons(catch(A,_,_)) :- mm_cons(A).
