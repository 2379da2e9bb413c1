"""C02: failure, exceptions and \\+ undo every binding, setarg, backtrackable global variable and FD domain change."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe

PL = """
dump(St, D) :- g_read(k, K), g_read(arr, A), findall(G, gnd0(s(St,K,A), G), [D]).
gnd0(T, G) :- gl(T, [], G, _).
gl(T, S0, G, S) :- generic_var(T), !, idx(S0, T, 0, N, S0, S), ( fd_var(T) -> fd_dom(T, D), fd_size(T, Z), G = fd(N,D,Z) ; G = v(N) ).
gl(T, S, T, S) :- atomic(T), !.
gl(T, S0, f(F,As), S) :- T =.. [F|L], gls(L, S0, As, S).
gls([], S, [], S).
gls([X|L], S0, [Y|M], S) :- gl(X, S0, Y, S1), gls(L, S1, M, S).
idx([], T, N, N, All, New) :- append(All, [T], New).
idx([V|_], T, N, N, All, All) :- V == T, !.
idx([_|L], T, N0, N, All, New) :- N1 is N0 + 1, idx(L, T, N1, N, All, New).
init(s(X,Y,Z,T,P,Q,R)) :- T = f(1,Y,3), g_assign(k, 0), g_assign(arr, g_array([0,0])), fd_domain([P,Q], 0, 6), fd_domain(R, [0,2,3,5,6]), X = X, Z = Z.
t(G) :- call(G), !.
t(_).
before(S, Op1, D) :- t(Op1), dump(S, D).
run(S, Op1, U, C, r(E,D)) :- t(Op1), dump(S, D1), u(U), dump(S, D2), ( D1 == D2 -> E = same ; E = changed(D1,D2) ), t(C), dump(S, D).
ref(S, Op1, C, r(same,D)) :- t(Op1), t(C), dump(S, D).
cmp(S, Op1, U, C, V) :-
	findall(R, (init(S), run(S, Op1, U, C, R)), L1), findall(R, (init(S), ref(S, Op1, C, R)), L2),
	( L1 == L2 -> V = ok ; V = bad(L1,L2) ).
u(fail(A,B)) :- A, B, fail.
u(fail(_,_)).
u(naf(A,B)) :- ( \\+ (A, B, fail) -> true ; true ).
u(naf2(A,B)) :- ( \\+ \\+ (A, B) -> true ; true ).
u(thr(A,B)) :- catch((A, B, throw(x)), _, true), !.
u(thr(_,_)).
u(ite(A,B)) :- ( A, B, fail -> true ; true ).
u(fa(A,B)) :- findall(., (A, B), _).
u(nest(A,B)) :- A, ( B, fail ; B ), fail.
u(nest(_,_)).
u(cut(A,B)) :- A, once((B ; true)), ( B ; true ), fail.
u(cut(_,_)).
""".replace("findall(., ", "findall(x, ")

OPS = ["X=1", "X=Y", "Y=Z", "X=g(Z,a)", "setarg(1,T,X)", "setarg(2,T,b)", "setarg(1,T,h(Y,P))", "g_assignb(k,X)", "g_assignb(k,7)", "g_assignb(k,0)",
       "g_assignb(arr(1),Y)", "P#<3", "P#\\=2", "P=Q", "P#>Q", "P#=Q+1", "R=5", "fd_domain(R,[2,5,6])", "P+Q#=R", "fd_labeling([P,R])", "X=P",
       "g_link(k,Y)", "Q#=<3", "P#\\=Q", "true"]
UNDO = ["fail", "naf2", "thr", "ite", "fa", "nest", "cut", "naf"]


def fam(outer, inner, undos, last):
    def fn(i, n, tier):
        k = 0
        for o in outer:
            for a in inner:
                for b in inner:
                    k += 1
                    if k % n != i:
                        continue
                    for u in undos:
                        for c in last:
                            g = "(S=s(X,Y,Z,T,P,Q,R),cmp(S,(%s),%s((%s),(%s)),(%s),W))" % (o, u, a, b, c)
                            yield ("%s / %s(%s,%s) / %s" % (o, u, a, b, c), 1, "W", g, "=ok\tmore")
    return fn


def main():
    ck = Check("C02")
    exe = server_exe(PL)
    # the undone operations are not g_link-ed or non-backtrackable ones: those are documented to survive
    inner = [o for o in OPS if not o.startswith("g_link")]
    q = not ck.thorough
    run_cases(ck, "pairs", exe, fam(OPS, inner, UNDO, ["true"] if q else ["true", "P#\\=2", "X=Y", "Q#=<3"]), 32)
    run_cases(ck, "then", exe, fam(["true", "P+Q#=R", "P#\\=2", "setarg(1,T,X)"], inner, ["fail", "nest"],
                                   ["P#<3", "R=5", "X=1", "P=Q", "g_assignb(k,0)"] if q else OPS), 32)
    ck.assumptions = ["state observed: the variables and their identities, the term arguments, two global variables, the domains and "
                      "sizes of three FD variables"]
    return ck.finish(rule="every outer operation x every pair of undone operations x every undoing construct x every later operation: the "
                          "state after the construct equals the state before it, and later behaviour equals that of a run without it")
