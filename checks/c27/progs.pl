
:- dynamic(big/1). :- dynamic(dr/2).
mk(X, X).
sum(_).
dr(0, 0) :- !.
dr(N, S) :- N1 is N-1, dr(N1, S1), S is S1+1.

nl_(I, N, []) :- I > N, !.
nl_(I, N, [I|L]) :- I1 is I+1, nl_(I1, N, L).
sl([], S, S).
sl([X|L], S0, S) :- S1 is S0+X, sl(L, S1, S).
last1([X], X) :- !.
last1([_|L], X) :- last1(L, X).
rec(0, 0) :- !.
rec(N, S) :- N1 is N-1, rec(N1, S1), S is S1+1.
cp0(0).
cp0(N) :- N > 0, N1 is N-1, cpx, cp0(N1).
cpx.
cpx.
cp8(0,_,_,_,_,_,_,_).
cp8(N,A,B,C,D,E,F,G) :- N > 0, N1 is N-1, cp8b(N1,A,B,C,D,E,F,G).
cp8(_,_,_,_,_,_,_,_) :- fail.
cp8b(N,A,B,C,D,E,F,G) :- cp8(N,B,C,D,E,F,G,A).
bindall([]).
bindall([X|L]) :- X = 1, bindall(L).
tr(N, S) :- length(L, N), ( bindall(L), fail ; true ), choice, bindall(L), sl(L, 0, S).
choice.
choice.
fv(0, []) :- !.
fv(N, [X|L]) :- N1 is N-1, fd_domain(X, 0, 9), fv(N1, L).
chain([_]) :- !.
chain([X,Y|L]) :- X #=< Y, chain([Y|L]).
eqs([_]) :- !.
eqs([X,Y|L]) :- X #= Y, eqs([Y|L]).
neqs([_]) :- !.
neqs([X,Y|L]) :- X #\= Y, neqs([Y|L]).
all1([]).
all1([X|L]) :- X = 1, all1(L).
sparse(0, []) :- !.
sparse(N, [X|L]) :- N1 is N-1, fd_domain(X, [1,5,9]), sparse(N1, L).
deepc(0, z) :- !.
deepc(N, S) :- N1 is N-1, catch(deepc(N1, S), x, true), true.
deepn(0) :- !.
deepn(N) :- N1 is N-1, \+ \+ deepn(N1).
deepf(0, 0) :- !.
deepf(N, S) :- N1 is N-1, findall(X, deepf(N1, X), [Y]), S is Y+1.
deepk(0, 0) :- !.
deepk(N, S) :- N1 is N-1, G = deepk(N1, S1), call((G, true)), S is S1+1.
nest(0, z) :- !.
nest(N, f(T)) :- N1 is N-1, nest(N1, T).
unn(z, 0) :- !.
unn(f(T), N) :- unn(T, N1), N is N1+1.
fl(0, X, X) :- !.
fl(N, X, Y) :- X1 is X+1.5, N1 is N-1, fl(N1, X1, Y).
btw(0) :- !.
btw(N) :- between(1, 3, _), N1 is N-1, btw(N1).
selp(N, L) :- nl_(1, N, L0), sel(L0, L).
sel([], []).
sel(L, [X|R]) :- select(X, L, L1), sel(L1, R).
gb(0) :- !.
gb(N) :- g_assignb(v, N), N1 is N-1, gb(N1).
sa(N, T) :- functor(T, f, N), sa1(N, T).
sa1(0, _) :- !.
sa1(N, T) :- setarg(N, T, N), N1 is N-1, sa1(N1, T).
digs(N, A) :- dg(N, L), atom_codes(A, L).
dg(0, []) :- !.
dg(N, [C|L]) :- C is 0'a + N mod 26, N1 is N-1, dg(N1, L).
txt(N, A) :- tx(N, L), append("[", L, L1), atom_codes(A, L1).
tx(0, "0]") :- !.
tx(N, [0'x, 0',|L]) :- N1 is N-1, tx(N1, L).




fd_neq5(X) :- X #\= 5.
fd_neq7(X) :- X #\= 7.
fvec(0, []) :- !.
fvec(N, [X|L]) :- N1 is N-1, fd_domain(X, [1,60000]), fvec(N1, L).

ac(0, 0) :- !.
ac(N, R) :- atom_concat(X, Y, abcdefgh), X \== '', Y \== zz, N1 is N-1, ac(N1, R1), R is R1+1.
as([], S, S, _).
as([C|L], S0, S, T) :- phrase(one(C), [C|T], T1), T1 == T, S1 is S0+1, as(L, S1, S, T).
one(C) --> [C].
c8(0, _, _, _, _, _, _, 0) :- !.
c8(N, A, B, C, D, E, F, R) :- N1 is N-1, call(c8, N1, B, C, D, E, F, A, R1), R is R1+1.
ite(0, 0) :- !.
ite(N, R) :- N1 is N-1, ( choice, N1 < 0 -> R = bad ; ite(N1, R1), R1 < 0 -> R = bad2 ; ite0(N1), R is N ).
ite0(_).
nest2(0, z) :- !.
nest2(N, f(T)) :- N1 is N-1, nest2(N1, T).
nestv(0, z, []) :- !.
nestv(N, f(X,T), [X|L]) :- N1 is N-1, nestv(N1, T, L).
nestw(0, z) :- !.
nestw(N, f(3,T)) :- N1 is N-1, nestw(N1, T).
asl(0) :- !.
asl(N) :- asserta(big(N)), N1 is N-1, asl(N1).
rt(0) :- !.
rt(N) :- clause(dr(_, _), _), N1 is N-1, rt(N1).
cmpl(0, []) :- !.
cmpl(N, [f(K,_)|L]) :- K is N*7 mod 1009, N1 is N-1, cmpl(N1, L).
sm([X], X) :- !.
sm([X|L], X+E) :- sm(L, E).
rf([], []).
rf([X|L], [B|M]) :- B #<=> (X #> 4), rf(L, M).
el([]).
el([X|L]) :- fd_element_var(X, [1,2,3,4,5], Y), Y #> 1, el(L).
exc(0, 0) :- !.
exc(N, R) :- N1 is N-1, catch(exc2(N1, R1), error(E, _), true), ( var(E) -> R is R1+1 ; R = E ).
exc2(N, R) :- exc(N, R), _ is R+1.
%%WIDE%%
p(fdvec, N, R) :- fd_set_vector_max(60000), fvec(N, L), length(L, R).
p(fdvtr, N, R) :- fd_set_vector_max(60000), length(L,N), fd_domain(L,0,60000), maplist(fd_neq5, L), ( choice, maplist(fd_neq7, L), fail ; true ), length(L, R).
p(fdvset, N, R) :- fd_set_vector_max(60000), length(L,N), fd_domain(L,0,60000), ( choice, maplist(fd_neq7, L), fail ; true ), length(L, R).
p(wide2000, N, R) :- wide2000(N, R).
p(nlist, N, R) :- nl_(1, N, L), sl(L, 0, R).
p(length, N, R) :- length(L, N), length(L, R).
p(functor, N, R) :- functor(T, f, N), functor(T, _, R).
p(nest, N, R) :- nest(N, T), unn(T, R).
p(copy, N, R) :- functor(T, f, N), copy_term(T, U), functor(U, _, R), U \== T.
p(copyl, N, R) :- nl_(1, N, L), copy_term(g(L, X, X), g(L2, _, _)), sl(L2, 0, R).
p(findall, N, R) :- findall(I, between(1, N, I), L), sl(L, 0, R).
p(findallf, N, R) :- findall(f(I, _, g(I)), between(1, N, I), L), length(L, R).
p(codes, N, R) :- digs(N, A), atom_codes(A, L), length(L, R).
p(chars, N, R) :- digs(N, A), atom_chars(A, L), length(L, R).
p(univ, N, R) :- length(L, N), T =.. [f|L], functor(T, _, R).
p(univ2, N, R) :- functor(T, f, N), T =.. L, length(L, R).
p(read, N, R) :- txt(N, A), read_term_from_atom(A, T, [end_of_term(eof)]), length(T, R).
p(gvar, N, R) :- nl_(1, N, L), g_assign(w, L), g_read(w, L2), sl(L2, 0, R).
p(assert, N, R) :- nl_(1, N, L), assertz(big(L)), big(L2), sl(L2, 0, R).
p(clause, N, R) :- nl_(1, N, L), assertz((big(L) :- true, true)), clause(big(L2), _), sl(L2, 0, R).
p(retract, N, R) :- nl_(1, N, L), assertz(big(L)), retract(big(L2)), sl(L2, 0, R).
p(sort, N, R) :- nl_(1, N, L), reverse(L, L1), sort(L1, L2), L2 == L, sl(L2, 0, R).
p(keysort, N, R) :- findall(K-a, (between(1, N, I), K is -I), L), keysort(L, L2), length(L2, R).
p(bagof, N, R) :- bagof(X, between(1, N, X), L), sl(L, 0, R).
p(setof, N, R) :- setof(K-Y, X^(between(1, N, X), K is X mod 7, Y = X), L), length(L, R).
p(append, N, R) :- nl_(1, N, L), append(L, [a], L2), last1(L2, a), length(L2, R1), R is R1-1.
p(format, N, R) :- digs(N, A), format_to_codes(L, "~w", [A]), length(L, R).
p(wrt, N, R) :- digs(N, A), write_to_chars(L, A), length(L, R).
p(throw, N, R) :- nl_(1, N, L), catch(throw(L), B, true), sl(B, 0, R).
p(float, N, R) :- fl(N, 0.0, R).
p(vars, N, R) :- length(L, N), T =.. [f|L], term_variables(T, Vs), length(Vs, R).
p(subst, N, R) :- digs(N, A), sub_atom(A, 0, _, 1, B), atom_codes(B, L), length(L, R1), R is R1+1.
p(number, N, R) :- length(L, N), maplist(=(0'1), L), catch((number_codes(X, [0'.|L]), R = X), error(syntax_error(_), _), R = err).
p(setarg, N, R) :- sa(N, T), arg(N, T, R).
p(maplist, N, R) :- length(L, N), maplist(=(2), L), sl(L, 0, R).
p(between, N, R) :- btw(N), R = N.
p(rec, N, R) :- rec(N, R).
p(wide20, N, R) :- wide20(N, R).
p(wide200, N, R) :- wide200(N, R).
p(wide500, N, R) :- wide500(N, R).
p(wide700, N, R) :- wide700(N, R).
p(cp0, N, R) :- cp0(N), !, R = N.
p(cp8, N, R) :- cp8(N,a,b,c,d,e,f,g), !, R = N.
p(dyn, N, R) :- dr(N, R).
p(catch, N, R) :- deepc(N, R).
p(not, N, R) :- deepn(N), R = N.
p(dfindall, N, R) :- deepf(N, R).
p(metacall, N, R) :- deepk(N, R).
p(select, N, R) :- selp(N, L), !, sl(L, 0, R).
p(trail, N, R) :- tr(N, R).
p(gassignb, N, R) :- choice, gb(N), g_read(v, R).
p(fdvars, N, R) :- fv(N, L), length(L, R).
p(fdsparse, N, R) :- sparse(N, L), length(L, R).
p(fdchain, N, R) :- fv(N, L), chain(L), L = [9|_], last1(L, R).
p(fdeq, N, R) :- fv(N, L), eqs(L), L = [7|_], last1(L, R).
p(fdneq, N, R) :- fv(N, L), neqs(L), length(L, R).
p(fdlab, N, R) :- fv(N, L), neqs(L), fd_labeling(L), sl(L, 0, S), R = S.
p(fdback, N, R) :- fv(N, L), chain(L), ( all1(L), fail ; true ), choice, all1(L), sl(L, 0, R).
p(atomcat, N, R) :- ac(N, N1), R = N1.
p(subatom, N, R) :- digs(N, A), findall(B, sub_atom(A, B, 1, _, a), L), length(L, R).
p(phrase, N, R) :- dg(N, L), as(L, 0, R, []).
p(call8, N, R) :- c8(N, a, b, c, d, e, f, R).
p(ite, N, R) :- ite(N, R).
p(print, N, R) :- nl_(1, N, L), write_to_codes(C, L), length(C, R).
p(genv, N, R) :- nl_(1, N, L), g_assign(w, g_array(L)), g_read(w(2), X), R = X.
p(unify, N, R) :- nest(N, T), length(L, 1), nest2(N, U), T = U, L = [z], unn(T, R).
p(unifyb, N, R) :- nestv(N, T, Vs), nestw(N, U), choice, T = U, sl(Vs, 0, R).
p(clauses, N, R) :- asl(N), findall(X, big(X), L), sl(L, 0, R).
p(bigclause, N, R) :- dr(N, R).
p(retry, N, R) :- rt(N), R = N.
p(assoc, N, R) :- cmpl(N, L), sort(L, L2), length(L2, R).
p(fdsum, N, R) :- fv(N, L), sm(L, E), E #= 9*N, L = [R|_].
p(fdreif, N, R) :- fv(N, L), rf(L, Bs), sm(Bs, E), E #= N, L = [X|_], fd_min(X, R).
p(fdelem, N, R) :- fv(N, L), el(L), length(L, R).
p(fddiff, N, R) :- length(L, N), fd_domain(L, 1, N), fd_all_different(L), fd_labeling(L), sl(L, 0, R).
p(exc, N, R) :- exc(N, R).
p(number2, N, R) :- findall(X, (between(1, N, I), number_atom(I, A), atom_codes(A, X)), L), length(L, R).
p(perm, N, R) :- nl_(1, N, L), permutation(L, M), !, sl(M, 0, R).
p(delnth, N, R) :- nl_(1, N, L), nth(N, L, R).
p(keybag, N, R) :- findall(K-V, (between(1, N, V), K is V mod 5), L), findall(Vs, bagof(V, member(_-V, L), Vs), LL), LL = [A|_], length(A, R).

pad(g, N) :- N > 255, !, functor(_, f, 255), N1 is N-256, pad(g, N1).
pad(g, 0) :- !.
pad(g, N) :- functor(_, f, N).
pad(t, N) :- length(L, N), choice, bindall(L).
pad(c, N) :- fv(N, _).
pad(n, _).
pad(l, N) :- N > 254, !, padl(254), N1 is N-254, padl(N1).
pad(l, N) :- padl(N).
padl(N) :- atom_length(a, 1), functor(T, pc, N), call(T).

:- initialization(main).
main :- argument_list([A, B, C, D]), number_atom(N, B), number_atom(M, D),
	write(start), nl, flush_output, pad(C, M), p(A, N, R), write(R), nl, halt(0).
main :- write(failed), nl, halt(3).
