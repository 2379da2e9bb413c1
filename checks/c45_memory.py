"""C45: updates reclaim what they replace.

Every operation which ends in the state it began with, and every sequence of two of a subset, repeated N, 2N and 4N times
in every kind of loop (failure driven, repeat, recursive, under findall and catch, from a dynamic clause): memory, the four
stacks, descriptors and atoms in use after each are measured in the process; what grows with the number of rounds is a leak.
Also: last calls of every shape of clause, native and interpreted, run in constant local stack."""
import itertools
import os
import shutil
import tempfile

from vlib.build import VERIF, WORK
from vlib.lines import exe, run_lines
from vlib.report import Check

D = os.path.join(VERIF, "checks", "c45")

# goals ending in the state they began with (failure and error included); det: deterministic, without error
DET = r"""
true
X = f(Y)
assertz(p(1)), retract(p(1)), \+ p(_)
assertz(p(1)), retractall(p(_))
asserta(p(1)), asserta(p(2)), retractall(p(2)), retractall(p(1))
mk_as(10,p), retractall(p(_))
assertz((p(X) :- q(X), X > 1)), retractall(p(_))
assertz((p(X) :- q(X), ( X > 1 -> true ; fail ), \+ q(a))), retractall(p(_))
assertz(p("a string of codes")), retractall(p(_))
assertz(p(f(1.5,g(X,Y,X),[a,b|Z]))), retractall(p(_))
mk_list(50,L), assertz(p(L)), retractall(p(_))
mk_as2(20), retractall(r(_,_,_))
assertz(zz(1)), abolish(zz/1)
assertz(zy(1)), assertz(zy(2)), retractall(zy(_)), abolish(zy/1)
assertz(zx(1,2,3)), retract(zx(_,_,_)), abolish(zx/3)
g_assign(v, f(1,2,3))
g_assign(v, f(1,2,3)), g_assign(v, 0)
mk_list(100,L), g_assign(v, L)
g_assign(v, g_array(10,x)), g_assign(v(3), f(y,z)), g_assign(v(3), [1,2])
g_assign(v, g_array([a,b,f(c)])), g_assign(v, 0)
g_assign(v, g_array(3,g_array(3,f(x)))), g_assign(v, 1)
g_assign(v, g_array_auto(2,0)), g_assign(v(30), f(a)), g_assign(v, 1)
g_assign(v, g_array_extend(2,0)), g_assign(v, g_array_extend(5,0)), g_assign(v, 1)
g_assign(v, 5), g_inc(v), g_dec(v)
g_assign(v, 0), g_set_bit(v, 3), g_reset_bit(v, 3)
open('f1', write, S), write(S, hello), close(S)
open('f1', write, S, [alias(al)]), write(al, hello), close(al)
open('f1', read, S), get_char(S, _), close(S)
open('f1', read, S, [type(binary)]), get_byte(S, _), close(S)
open('f1', write, S, [buffering(none)]), close(S)
open('f1', write, S), set_stream_alias(S, aa), set_stream_alias(S, bb), close(S)
open('f1', write, S), open('f2', write, T), add_stream_mirror(S, T), write(S, x), close(T), close(S)
open('f1', write, S), open('f2', write, T), add_stream_mirror(S, T), write(S, x), close(S), close(T)
open('f1', write, S), open('f2', write, T), add_stream_mirror(S, T), remove_stream_mirror(S, T), close(S), close(T)
open('f1', write, S), set_stream_buffering(S, none), set_stream_type(S, text), close(S)
open('f1', write, S), current_output(O), set_output(S), write(x), current_output(S), set_output(O), close(S)
open_input_atom_stream('foo(bar).', S), read(S, _), close_input_atom_stream(S)
open_input_codes_stream("foo(bar).", S), read(S, _), close_input_codes_stream(S)
open_input_chars_stream([f,o,o,'.',' '], S), read(S, _), close_input_chars_stream(S)
open_output_atom_stream(S), write(S, f(x)), close_output_atom_stream(S, A)
open_output_codes_stream(S), write(S, f(x)), close_output_codes_stream(S, A)
open_output_chars_stream(S), mk_list(600,L), write(S, L), close_output_chars_stream(S, A)
findall(X, q(X), L)
findall(f(X,Y,[X|Z]), (q(X), q(Y)), L)
findall(X, q(X), L, [end])
findall(X-L, findall(Y, q(Y), L), _)
bagof(X, q(X), L)
setof(X, q(X), L)
setof(X, Y^(q(X), Y = 1), L)
bagof(X, K^q(K, X), L)
forall(q(X), integer(X))
mk_list(100,L), sort(L, M), msort(L, _), length(M, _)
mk_list(50,L), nrev(L, M), reverse(M, _), last(L, _), sum_list(L, _)
findall(K-X, (q(X), K is -X), L), keysort(L, M)
sort([c,b,a,b], L), sort([3-a,1-b], _)
catch(throw(a), a, true)
catch(throw(f(_,X,[1,2,3])), _, true)
catch(catch(throw(a), b, true), a, true)
catch(( q(X), X > 1, throw(got(X)) ), got(_), true)
catch(findall(X, (q(X), X > 1, throw(a)), _), a, true)
catch(bagof(X, (q(X), X > 1, throw(a)), _), a, true)
catch(findall(X, (q(X), findall(Y, (q(Y), Y > 1, throw(a)), _)), _), a, true)
catch(setof(X, Y^(q(X), X > 1, atom_length(Y, _)), _), error(_, _), true)
catch(forall(q(X), throw(a)), a, true)
catch(atom_length(_, _), error(_, _), true)
catch(atom_length(f(x), _), error(_, _), true)
catch(number_codes(X, "3x"), error(_, _), true)
catch(X is foo+1, error(_, _), true)
catch(X is 1/0, error(_, _), true)
catch(undefd_pred(1), error(_, _), true)
catch(open('/nonexistent/x', read, _), error(_, _), true)
catch(open('f1', read, _, [foo]), error(_, _), true)
catch(open('f1', write, _, [alias(al), foo]), error(_, _), true)
catch(read_term_from_atom('foo(', _, []), error(_, _), true)
catch(read_term_from_atom('foo bar.', _, []), error(_, _), true)
catch(read_from_atom('a b.', _), error(_, _), true)
catch(read_from_codes("[a,b", _), error(_, _), true)
catch(number_atom(_, 'x1'), error(_, _), true)
catch(assertz((foo:-1)), error(_, _), true)
catch(assertz((atom(_) :- true)), error(_, _), true)
catch(format("~d", [a]), error(_, _), true)
catch(format_to_codes(_, "~a~d", [a,b]), error(_, _), true)
catch(format_to_atom(_, "~q~z", [a]), error(_, _), true)
catch(write_to_atom(_, _, _), error(_, _), true)
catch(write_term_to_atom(_, f(x), [foo]), error(_, _), true)
catch(write_term_to_codes(_, f(x), [quoted(maybe)]), error(_, _), true)
catch(sort(a, _), error(_, _), true)
catch(keysort([a], _), error(_, _), true)
catch(msort([b,a|_], _), error(_, _), true)
catch(sort([b,a|c], _), error(_, _), true)
catch(atom_codes(_, [0'a|_]), error(_, _), true)
catch(length(_, a), error(_, _), true)
catch(op(1201, xfx, foo), error(_, _), true)
catch(consult('no_such_file'), _, true)
catch(g_assign(v(1), 3), error(_, _), true)
catch(g_read(v(1), _), error(_, _), true)
catch(functor(_, _, _), error(_, _), true)
catch(arg(a, f(x), _), error(_, _), true)
catch(_ =.. _, error(_, _), true)
catch(copy_term(_, _), error(_, _), true)
catch(fd_domain(_, a, b), error(_, _), true)
atom_codes(A, "abc")
atom_chars(A, [a,b,c]), atom_length(A, _), char_code(_, 0'a)
number_codes(N, "123"), number_atom(N, A)
write_to_atom(A, f(x,y))
write_to_codes(A, f(x,"abc",[a|b]))
writeq_to_atom(A, 'A b'), print_to_atom(_, a), write_canonical_to_atom(_, f(x)), display_to_atom(_, 1+2)
format_to_atom(A, "~w ~q ~a ~d ~e~n", [x,'A',b,3,1.5])
read_term_from_atom('foo(X,Y,X). ', T, [variable_names(_)])
read_from_atom('foo(X,"abc",[a|b]).', T)
name(_, "abc"), lower_upper(a, _)
sub_atom(abcde, 1, 2, _, S)
sub_atom(abcde, B, _, 0, cde)
atom_concat(abc, def, X), atom_concat(abc, X2, abcdef)
op(700, xfx, foo), op(0, xfx, foo)
op(200, fy, foo), op(200, xfy, foo), op(0, fy, foo), op(0, xfy, foo)
char_conversion(a, b), char_conversion(a, a)
set_prolog_flag(double_quotes, atom), set_prolog_flag(double_quotes, codes)
functor(T, f, 5), arg(2, T, x), T =.. L, copy_term(T, U), setarg(1, T, y)
length(L, 10), L = [a|_], append(L, [b], M), member(a, M) -> true
term_variables(f(X,Y,[X|Z]), L), numbervars(L, 0, _)
mk_list(20, L), nth(3, L, _), delete(L, 3, _), subtract(L, [1,2], _)
mk_list(10,L), maplist(=(_), [X,X]), once(select(3, L, _))
X is 3*4+7 mod 2, Y is sqrt(2.0), Z is X /\ 7, X > 3
fd_domain(X, 1, 5), fd_max(X, _)
fd_domain([X,Y], 1, 5), X #< Y, X = 2
fd_domain(X, [1,5,9]), fd_dom(X, _)
consult('c.pl')
expand_term((a --> b, "c", {d}), _)
phrase(dcg, [])
current_prolog_flag(bounded, true)
directory_files('.', L), working_directory(_)
file_exists('f1') -> true ; true
absolute_file_name('a/b', _), decompose_file_name('a/b.c', _, _, _)
cpu_time(_), real_time(_), statistics(runtime, _)
date_time(_), host_name(_), os_version(_), architecture(_)
random(1, 10, _), randomize
environ('HOME', _) -> true ; true
spawn(true, [], _)
popen('true', read, S), close(S)
exec(true, null, null, null, P), wait(P, _)
exec(true, I, O, E, P), close(I), close(O), close(E), wait(P, _)
create_pipe(I, O), close(O), close(I)
socket('AF_UNIX', S), socket_close(S)
create_pipe(I, O), write(O, x), flush_output(O), select([I], _, [O], _, 1), close(O), close(I)
make_directory(dd), delete_directory(dd)
open('f1', write, S), put_char(S, a), close(S), open('f1', read, T), peek_char(T, _), get_char(T, _), peek_char(T, _), close(T)
open('f3.pl', read, S, [reposition(true)]), read(S, _), stream_property(S, position(P)), read(S, _), set_stream_position(S, P), close(S)
open('f3.pl', read, S), read_term(S, T, [variables(_), variable_names(_), singletons(_)]), close(S)
open('f3.pl', read, S), catch(( repeat, read(S, T), T == end_of_file, ! ), _, true), close(S)
open('bad.pl', read, S), catch(read(S, _), error(_, _), true), catch(read(S, _), error(_, _), true), close(S)
current_input(I), see('f3.pl'), read(_), seen, set_input(I)
current_output(O), tell('f1'), write(x), told, set_output(O)
current_output(O), append('f1'), write(x), told, set_output(O)
sr_open('f3.pl', D, []), sr_read_term(D, _, [], _), sr_close(D)
sr_open('c.pl', D, []), sr_read_term(D, _, [], _), sr_get_position(D, _, _), sr_close(D)
listing_to(q/1)
ground(f(a)), subsumes_term(f(_), f(a)), term_ref(f(a), R), term_ref(T, R)
compare(O, f(X), g(Y)), X @< Y, acyclic_term(X)
between(1, 3, 3), succ(1, _)
call((q(X), X > 2, !))
\+ \+ ( q(X), X > 1 )
( q(X), X > 1 -> true ; fail )
once(q(_))
call(last_c, 30)
det(b, X)
det(c, _)
ite(0)
st([a,1,b,2])
once(dcg1("aaa", L))
retract(cnt(X)), X1 is X+1, assertz(cnt(X1))
retract(cnt(_)), assertz(cnt(0))
"""

# may leave choice points, fail or raise an error
NON = r"""
assertz((zz :- mk_as(1001,p), retractall(p(_)))), zz, retractall(zz)
assertz((zz :- mk_as(1001,p), retractall(p(_)))), assertz(zz), zz, abolish(zz/0)
assertz((zz :- mk_as(1001,p), abolish(p/1))), zz, retract((zz :- _))
assertz((zz :- mk_as(1001,p), retract((zz :- _)), abolish(p/1))), zz
assertz((zz :- mk_as(1001,p), retractall(p(_)), q(1))), zz, retract((zz :- _))
assertz((zz :- mk_as(1001,p), abolish(p/1), q(1))), zz, retractall(zz)
assertz((zz :- ( mk_as(1001,p), retractall(p(_)) ; true ), q(1))), zz, retract((zz :- _))
assertz((zw(X) :- mk_as(1001,p), retract(p(X)), retractall(p(_)), q(1))), zw(_), abolish(zw/1)
assertz((zw(X,Y) :- q(X), mk_as(1001,p), retractall(p(_)), q(Y))), zw(_,_), retractall(zw(_,_))
mk_as(1001,p), ( p(_), retractall(p(_)), fail ; true )
mk_as(1001,p), ( retract(p(_)), fail ; true )
mk_as(1001,p), clause(p(_), _), abolish(p/1)
q(X)
fail
throw(a)
member(X, [1,2,3])
assertz(p(1)), p(_), assertz(p(2)), retractall(p(_))
assertz(p(1)), assertz(p(2)), p(X), retractall(p(_))
assertz(p(1)), assertz(p(2)), clause(p(X), _), retractall(p(_))
assertz(p(1)), assertz(p(2)), retract(p(X)), retract(p(Y))
assertz(p(1)), assertz(p(2)), ( p(_), retract(p(_)), fail ; true )
assertz(p(1)), assertz(p(2)), assertz(p(3)), ( p(X), retract(p(X)), X > 1, ! ; true ), retractall(p(_))
mk_as(10,p), ( retract(p(_)), fail ; true )
mk_as(10,p), ( p(X), X < 5, retractall(p(_)), fail ; true )
mk_as(5,p), ( p(_), p(_), retract(p(_)), fail ; true )
mk_as(5,p), p(X), p(Y), retractall(p(_))
mk_as2(9), ( r(3, _, _), retractall(r(_,_,_)), fail ; true )
mk_as2(9), r(_, x, f(_)), retractall(r(_,_,_))
assertz(zz(1)), assertz(zz(2)), zz(_), abolish(zz/1)
assertz(zz(1)), assertz(zz(2)), clause(zz(_), _), abolish(zz/1)
assertz((zz :- assertz(p(1)), retract(p(_)), q(_))), zz, abolish(zz/0)
assertz((zz :- retract((zz :- _)), q(_), p(_))), zz
assertz((zz :- abolish(zz/0), q(_))), zz
assertz((zz(N) :- N > 0, N1 is N-1, zz(N1), q(_))), assertz(zz(0)), zz(3), abolish(zz/1)
g_assignb(v, f(1)), g_assignb(v, f(2))
g_assign(v, 0), ( g_assignb(v, f(1)), fail ; true )
g_assign(v, 0), q(_), g_assignb(v, f(1)), q(_), g_assignb(v, [x,y])
g_assign(v, g_array(5,0)), q(_), g_assignb(v(2), f(1)), fail
g_link(v, f(X)), X = 1, fail
g_assign(v, 0), q(_), g_link(v, f(_)), fail
g_assign(v, g_array(3,0)), q(_), g_link(v(1), X), X = f(_), fail
sub_atom(abcdef, B, L, A, S)
sub_atom(abcdef, B, 2, A, S), B > 1
atom_concat(X, Y, abcdef)
atom_concat(X, Y, abcdef), X == ab
current_op(P, T, O)
current_op(P, xfx, is)
current_atom(A)
current_predicate(P)
current_predicate(q/A)
predicate_property(q(_), P)
current_prolog_flag(F, V)
current_stream(S)
stream_property(S, P)
stream_property(S, alias(A))
current_alias(S, A)
current_mirror(S, M)
current_char_conversion(A, B)
current_spy(X)
directory_files('.', L), member(X, L)
environ(N, V)
clause(q(X), B)
nth_clause(q(_), N, B)
retract(cnt(X)), assertz(cnt(X)), fail
between(1, 5, X)
between(1, inf, X)
repeat
select(X, [a,b,c], L)
append(X, Y, [a,b,c])
permutation([a,b,c], X)
length(L, N)
bagof(X, q(K, X), L)
setof(K-X, q(K, X), L)
for(I, 1, 5)
fd_domain([X,Y,Z], 1, 5), X #< Y, Y #< Z, fd_labeling([X,Y,Z])
fd_domain([X,Y], 0, 200), X #\= 100, Y #= X, indomain(X)
fd_set_vector_max(200), fd_domain(X, [1,150]), fd_domain(Y, [1,150]), X #\= Y, fd_labeling([X,Y])
fd_domain(L, 1, 4), fail
length(L, 4), fd_domain(L, 1, 4), fd_all_different(L), fd_labeling(L)
length(L, 4), fd_domain(L, 1, 9), fd_maximize(fd_labeling(L), X)
fd_domain(X, 1, 9), fd_minimize(indomain(X), X)
fd_domain(X, 1, 9), catch(fd_minimize((indomain(X), X < 5, throw(a)), X), a, true)
length(L, 3), fd_domain(L, 0, 1), B #<=> (L = L), fd_labeling(L)
L = [X,Y], fd_domain(L, 0, 9), B #<=> (X #< Y), fd_labeling(L)
catch(q(X), _, true), q(Y)
catch((q(X), throw(a)), a, q(Y))
catch(member(X, [1,2,3]), _, true), X > 1, throw(b)
findall(X, q(X), L), member(Y, L)
call((q(X) ; q(Y)))
( q(X) ; q(Y) ), fail
call(q, X)
\+ q(_)
( q(X) *-> true ; true )
findall(X, (q(X), throw(a)), _)
findall(X, (q(X), atom_length(X, _)), _)
bagof(X, (q(X), throw(a)), _)
setof(X, (q(X), throw(a)), _)
forall(q(X), throw(a))
phrase(dcg1, "aaa", _)
open('f1', write, S), q(_), close(S), fail
open('f1', write, S), catch(throw(a), a, true), close(S), throw(b)
read_term_from_atom('f(', _, [])
assertz((foo:-1))
atom_length(_, _)
atom_codes(_, _)
number_codes(_, "x")
sort([a|_], _)
nth(N, [a,b,c], X)
last([a,b], X), reverse([X], _)
sr_open('c.pl', D, []), ( repeat, sr_read_term(D, T, [], _), T == end_of_file -> true ; true ), sr_close(D)
sr_open('c.pl', D, []), sr_get_stream(D, S), sr_close(D), fail
"""


def lines(t):
    return [l for l in t.strip().split("\n") if l.strip()]


# clauses of lc(N,K): the last call is a last call
LCO = {
    "plain": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- N1 is N-1, lc(N1,K).",
    "guard": "lc(N,K) :- N > 0, !, N1 is N-1, lc(N1,K).\nlc(_,K) :- mm_n(K).",
    "ite": "lc(N,K) :- ( N > 0 -> N1 is N-1, lc(N1,K) ; mm_n(K) ).",
    "ite2": "lc(N,K) :- ( N =< 0 -> mm_n(K) ; N mod 2 =:= 0 -> N1 is N-1, lc(N1,K) ; N1 is N-1, lc(N1,K) ).",
    "ite3": "lc(N,K) :- ( ( N > 0, a(N) -> N1 is N-1, lc(N1,K) ; mm_n(K) ) ).\na(_).",
    "soft": "lc(N,K) :- ( z(N) *-> mm_n(K) ; N1 is N-1, lc(N1,K) ).\nz(0).",
    "not": "lc(N,K) :- \\+ N > 0, !, mm_n(K).\nlc(N,K) :- N1 is N-1, lc(N1,K).",
    "cut": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- b(_), !, N1 is N-1, lc(N1,K).\nb(1).\nb(2).",
    "midcut": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- b(_), c(X), !, X = x(_), N1 is N-1, lc(N1,K).\nb(1).\nb(2).\nc(x(_)).\nc(y).",
    "perm": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- a(X), a(Y), a(N), N1 is N-1, a(X), a(Y), lc(N1,K).\na(_).",
    "unsafe": "lc(N,K) :- lc(N,K,_).\nlc(0,K,_) :- !, mm_n(K).\nlc(N,K,_) :- a(X), N1 is N-1, a(Y), a(X), lc(N1,K,f(X,Y)).\na(_).",
    "unsafe2": "lc(N,K) :- lc(N,K,_).\nlc(0,K,_) :- !, mm_n(K).\nlc(N,K,_) :- a(N), N1 is N-1, a(N1), lc(N1,K,X), true.\na(_)." if False else
               "lc(N,K) :- lc(N,K,_).\nlc(0,K,_) :- !, mm_n(K).\nlc(N,K,_) :- a(N), N1 is N-1, a(N1), lc(N1,K,_).\na(_).",
    "mutual": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- N1 is N-1, lc2(N1,K).\nlc2(0,K) :- !, mm_n(K).\nlc2(N,K) :- N1 is N-1, lc(N1,K).",
    "list": "lc(N,K) :- length(L,N), lcl(L,K).\nlcl([],K) :- mm_n(K).\nlcl([_|L],K) :- lcl(L,K).",
    "listend": "lc(N,K) :- length(L,N), lcl(L,K).\nlcl([_|L],K) :- lcl(L,K).\nlcl([],K) :- mm_n(K).",
    "struct": "lc(N,K) :- lcs(s(N),K).\nlcs(s(0),K) :- !, mm_n(K).\nlcs(s(N),K) :- N1 is N-1, lcs(s(N1),K).",
    "acc": "lc(N,K) :- lca(N,[],K).\nlca(0,_,K) :- !, mm_n(K).\nlca(N,L,K) :- N1 is N-1, lca(N1,[N|L],K).",
    "build": "lc(N,K) :- lcb(N,_,K).\nlcb(0,[],K) :- !, mm_n(K).\nlcb(N,[N|L],K) :- N1 is N-1, lcb(N1,L,K).",
    "call": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- N1 is N-1, G = lc(N1,K), call(G).",
    "calln": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- N1 is N-1, call(lc(N1),K).",
    "var": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- N1 is N-1, G = lc(N1,K), G.",
    "arg8": "lc(N,K) :- lc8(N,a,b,c,d,e,f,K).\nlc8(0,_,_,_,_,_,_,K) :- !, mm_n(K).\nlc8(N,A,B,C,D,E,F,K) :- N1 is N-1, lc8(N1,B,C,D,E,F,A,K).",
    "disj": "lc(N,K) :- ( N = 0, !, mm_n(K) ; N1 is N-1, lc(N1,K) ).",
    "disj2": "lc(N,K) :- ( N > 0, N1 is N-1, !, lc(N1,K) ; mm_n(K) ).",
    "switch": "lc(N,K) :- X is N mod 3, lc(X,N,K).\nlc(_,N,K) :- N =< 0, !, mm_n(K).\nlc(0,N,K) :- N1 is N-1, lc(N1,K).\nlc(1,N,K) :- N1 is N-1, lc(N1,K).\nlc(2,N,K) :- N1 is N-1, lc(N1,K).",
    "index": "lc(N,K) :- t(N,T), lct(T,N,K).\nlct(a,_,K) :- mm_n(K).\nlct(f(_),N,K) :- N1 is N-1, lc(N1,K).\nlct([_],N,K) :- N1 is N-1, lc(N1,K).\nt(0,a) :- !.\nt(N,f(x)) :- N mod 2 =:= 0, !.\nt(_,[x]).",
    "gvar": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- g_assign(v,N), N1 is N-1, g_read(v,_), lc(N1,K).",
    "findall": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- findall(x,a(_),_), N1 is N-1, lc(N1,K).\na(_).\na(_).",
    "catch": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- catch(a(N),_,true), N1 is N-1, lc(N1,K).\na(N) :- N > 0.",
    "throw": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- catch(throw(x),_,true), N1 is N-1, lc(N1,K).",
    "once": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- once(b(_)), N1 is N-1, lc(N1,K).\nb(1).\nb(2).",
    "neg": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- \\+ b(3), N1 is N-1, lc(N1,K).\nb(1).\nb(2).",
    "neg2": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- \\+ \\+ b(_), N1 is N-1, lc(N1,K).\nb(1).\nb(2).",
    "float": "lc(N,K) :- X is float(N), lcf(X,K).\nlcf(X,K) :- X =< 0.0, !, mm_n(K).\nlcf(X,K) :- Y is X-1.0, lcf(Y,K).",
    "cmp": "lc(N,K) :- compare(O,N,0), lco(O,N,K).\nlco(=,_,K) :- mm_n(K).\nlco(>,N,K) :- N1 is N-1, lc(N1,K).",
    "dcg": "lc(N,K) :- length(L,N), d(K,L,[]).\nd(K) --> [_], !, d(K).\nd(K) --> { mm_n(K) }.",
    "setarg": "lc(N,K) :- lcs(c(N),K).\nlcs(C,K) :- arg(1,C,N), ( N =:= 0 -> mm_n(K) ; N1 is N-1, setarg(1,C,N1,false), lcs(C,K) ).",
    "assert": "lc(0,K) :- !, mm_n(K).\nlc(N,K) :- assertz(lcd(N)), retract(lcd(_)), N1 is N-1, lc(N1,K).\n:- dynamic(lcd/1).",
    "faildriven": "lc(N,K) :- lcr(N), mm_n(K).\nlcr(N) :- between(1,N,X), a(X,Y), Y < 0.\nlcr(_).\na(X,X).",
}


def fam_ops(tier):
    det, non = lines(DET), lines(NON)
    n = 60 if tier == "quick" else 300
    slow = lambda g: any(w in g for w in ("consult(", "load(", "spawn", "popen", "exec(", "current_atom", "current_pred", "fd_set_vector", "fd_maximize"))
    for how in ("fail", "dyn", "rec", "rep", "nest"):
        for g in det + non:
            if how == "nest" and "g_assign(mm" in g:
                continue
            yield "ops " + how, how, 4 if "1001" in g else 15 if slow(g) else n, g
    for g in det:
        yield "det", "rdet", 4 if "1001" in g else 15 if slow(g) else n, g


def fam_pairs(tier):
    """two operations one after the other"""
    heavy = ("1001", "consult(", "load(", "spawn", "popen", "exec(", "current_atom", "current_pred", "fd_set_vector", "fd_maximize", "socket", "sr_open", "make_dir", "listing")
    ok = [g for g in lines(DET) + lines(NON) if not any(h in g for h in heavy)]
    if tier == "quick":
        a = [g for g in ok if any(w in g for w in ("assert", "p(", "g_assign", "throw", "findall", "open(", "catch", "current_", "clause", "fd_", "g_link", "retract"))]
        b = ["mk_as(10,p), ( retract(p(_)), fail ; true )", "assertz(p(1)), assertz(p(2)), p(X), retractall(p(_))", "throw(a)", "g_assign(v, 0), q(_), g_assignb(v, f(1)), q(_), g_assignb(v, [x,y])",
             "fd_domain([X,Y,Z], 1, 5), X #< Y, Y #< Z, fd_labeling([X,Y,Z])", "findall(X, q(X), L)", "open('f1', read, S), get_char(S, _), close(S)"]
    else:
        a = b = ok
    n = 25
    for x, y in itertools.product(a, b):
        # their variables are not shared
        yield "pair", "fail", n, "(\\+ \\+ (%s) ; true), !, (%s)" % (x, y) if False else "((catch((%s),_,true) -> true ; true), call((%s)))" % (x, ren(y))


def upd(g):
    return any(w in g for w in ("assert", "retract", "mk_as", "consult", "abolish", "tell(", "append('f"))


def ren(g):
    """rename the variables"""
    import re
    return re.sub(r"(?<![A-Za-z0-9_'\"~])([A-Z][A-Za-z0-9]*)(?![A-Za-z0-9_'])", r"Zz\1", g)


SETUP = "mm_setup.\ndriver(mm_case)."


def gen(i, n, tier):
    j = 0
    for f in (fam_ops, fam_pairs):
        cur, key0 = [], None
        for key, how, k, g in itertools.chain(f(tier), [(None, None, None, None)]):
            if cur and (key != key0 or len(cur) >= 30):
                if j % n == i:
                    yield key0, SETUP, cur
                j += 1
                cur = []
            key0 = key
            if key:
                cur.append(("c(%s,%d,%d,(%s))." % (how, k, upd(g), g), "[]"))


def lco_programs():
    s = ""
    import re
    for name, t in LCO.items():
        for mode in ("n", "d"):
            # each has names of its own
            preds = sorted(set(re.findall(r"(?m)^:- dynamic\(([a-z0-9]+)/", t)) | set(re.findall(r"(?m)^([a-z][a-z0-9]*)\(", t)), key=len, reverse=True)
            u = t
            for p in preds:
                u = re.sub(r"(?<![A-Za-z0-9_])%s(?=[(/])" % p, "%s_%s_%s" % (p, name, mode), u)
            if mode == "d":
                ds = sorted({(m.group(1)) for m in re.finditer(r"(?m)^([a-z][a-z0-9_]*)\(", u)})
                heads = set()
                for l in u.split("\n"):
                    m = re.match(r"([a-z][a-z0-9_]*)\(((?:[^()]|\([^()]*\)|\[[^\]]*\])*)\)(\s*-->)?", l)
                    if m and not l.startswith(":-"):
                        ar = 0
                        d = 0
                        ar = 1
                        for c in m.group(2):
                            d += c in "([" 
                            d -= c in ")]"
                            ar += c == "," and d == 0
                        heads.add((m.group(1), ar + (2 if m.group(3) else 0)))
                u = "".join(":- dynamic(%s/%d).\n" % h for h in sorted(heads)) + "\n".join(l for l in u.split("\n"))
            # clauses of one predicate together
            cl = u.split("\n")
            s += "\n".join(sorted(cl, key=lambda l: (not l.startswith(":-"), 0))) + "\n"
    return s


def gen_lco(i, n, tier):
    cs = []
    for name in LCO:
        for mode in ("n", "d"):
            for k in (200, 1000):
                cs.append(("c(lco,%d,%d,lc_%s_%s)." % (k, name == "assert", name, mode), "[]"))
    for j in range(0, len(cs), 10):
        if (j // 10) % n == i:
            yield "lco", "driver(mm_case).", cs[j:j + 10]


def main():
    ck = Check("C45")
    x = exe(open(os.path.join(D, "drv.pl")).read() + lco_programs(), files=(os.path.join(D, "mm.c"),), opts=("--no-susp-warn",))
    run_lines(ck, "cycles", x, gen, shards=16, timeout=60, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
    run_lines(ck, "lco", x, gen_lco, shards=8, timeout=60, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
    return ck.finish(rule="every operation restoring the state x kind of loop, every pair of a subset, every shape of last call: memory, stacks, descriptors and atoms after N, 2N and 4N rounds")
