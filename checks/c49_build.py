"""C49: the same program gives the same result however it is built.

One program of ten parts that exercises the whole compilation pipeline, built in every combination of the code options,
with every way of stopping and going on at an intermediate file, every split into files with every mix of file kinds,
every subset of the link options; each executable answers all queries as the reference interpreter does.  Names of the
output files and stack sizes: every combination against the documented rule."""
import collections
import itertools
import os
import re
import shutil
import subprocess
import tempfile

from vlib.build import WORK, VERIF, get_build
from vlib.cases import SRV, BASE_OPTS, short

from vlib.goals import Ref, match
from vlib.report import Check
from vlib.runner import Server, parmap, die_with_parent

QUIET = ("--no-susp-warn", "--no-singl-warn")
LONG = "a" * 300
PARTS = {
    "lists": r"""
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).
rev([], []).
rev([H|T], R) :- rev(T, R1), app(R1, [H], R).
mem(X, [X|_]).
mem(X, [_|T]) :- mem(X, T).
sel(X, [X|T], T).
sel(X, [H|T], [H|R]) :- sel(X, T, R).
perm([], []).
perm(L, [H|T]) :- sel(H, L, R), perm(R, T).
len([], 0).
len([_|T], N) :- len(T, M), N is M + 1.
msum([], S, S).
msum([X|L], A, S) :- B is A + X, msum(L, B, S).
part([], _, [], []).
part([X|L], P, [X|A], B) :- X =< P, !, part(L, P, A, B).
part([X|L], P, A, [X|B]) :- part(L, P, A, B).
qs([], []).
qs([P|L], S) :- part(L, P, A, B), qs(A, SA), qs(B, SB), app(SA, [P|SB], S).
""",
    "arith": r"""
fact(0, 1) :- !.
fact(N, F) :- N > 0, M is N - 1, fact(M, G), F is N * G.
fib(N, N) :- N < 2, !.
fib(N, F) :- A is N - 1, B is N - 2, fib(A, X), fib(B, Y), F is X + Y.
ar(A, B, [P,M,T,I,R,O,X,L,G,E,C,D]) :- P is A + B, M is A - B, T is A * B, I is A // B, R is A rem B, O is A mod B,
	X is xor(A, B), L is A /\ B, G is A \/ B, E is A << 2, C is B >> 1, D is \ A.
cmp(A, B, L) :- c1(A, B, X), c2(A, B, Y), c3(A, B, Z), L = [X,Y,Z].
c1(A, B, lt) :- A < B, !.
c1(A, B, eq) :- A =:= B, !.
c1(_, _, gt).
c2(A, B, ge) :- A >= B, !.
c2(_, _, l).
c3(A, B, ne) :- A =\= B -> true ; fail.
c3(A, B, le) :- A =< B.
un(A, [X,Y,Z,S]) :- X is -A, Y is abs(A), Z is sign(A), S is A * A.
mn(A, B, X, Y) :- X is min(A, B), Y is max(A, B).
inc3(X, Y) :- Y is X + 1 + 1 + 1 - 0 * X.
gc(A, 0, A) :- !.
gc(A, B, G) :- C is A mod B, gc(B, C, G).
big(1152921504606846975).
big(-1152921504606846976).
big(0).
big(4294967296).
big(-4294967297).
big(2147483647).
big(-2147483648).
big(65536).
""",
    "index": r"""
ix(a, 1).
ix(b, 2).
ix(1, 3).
ix(2, 4).
ix(-1, 5).
ix([], 6).
ix([_|_], 7).
ix(f(_), 8).
ix(g(_, _), 9).
ix(f(_, _), 10).
ix(X, 11) :- var(X).
ix(a, 12).
ix(1.5, 13).
ix("s", 14).
ix(f(a), 15).
ix(_, 16).
ix([a], 17).
""" + "".join("k%s(%s, %d).\n" % ("", t, i) for i, t in enumerate(["c%d" % j for j in range(40)] + ["%d" % j for j in range(-20, 20)] + ["s%d(_)" % j for j in range(20)] + ["c3", "7", "s3(q)"])) + r"""
l1([], a).
l1([_], b).
l1([_,_|_], c).
at(f, 0).
at(f(_), 1).
at('F', 2).
at('', 3).
at([], 4).
at('[]', 5).
at({}, 6).
""",
    "control": r"""
ite(X, Y) :- ( X = 1 -> Y = one ; X = 2 -> Y = two ; Y = other ).
ite2(X, Y) :- ( mem2(X, [1,2,3]) -> Y = X ; Y = none ).
mem2(X, [X|_]).
mem2(X, [_|T]) :- mem2(X, T).
neg(X, Y) :- ( \+ X = 1 -> Y = no ; Y = yes ).
cut1(X) :- mem2(X, [1,2,3]), X > 1, !.
cut1(9).
cut2(X, Y) :- mem2(X, [1,2]), ( mem2(Y, [a,b]), ! ; Y = c ).
cut3(X) :- ( X = 1 ; X = 2, ! ; X = 3 ).
cut3(4).
ca(X, Y) :- catch(th(X), E, ( Y = caught(E) )), ( var(Y) -> Y = ok ; true ).
th(1) :- throw(one).
th(2) :- atom_length(_, _).
th(3) :- call(undefd_pred, 1).
th(4).
th(5) :- catch(throw(a), b, true).
cl(G, X) :- call(G, X).
cl2(G, X, Y) :- call(G, X, Y).
fa(L) :- findall(X-Y, ( mem2(X, [1,2]), mem2(Y, [a,b]) ), L).
fo(X) :- ( forall(mem2(Z, X), Z > 0) -> true ; fail ).
on(X) :- once(mem2(X, [5,6])).
rp(N) :- g_assign(cnt, 0), repeat, g_read(cnt, C), C1 is C + 1, g_assign(cnt, C1), C1 >= N, !.
deep(0, []) :- !.
deep(N, [N|T]) :- ( N > 100 -> fail ; true ), M is N - 1, deep(M, T).
dj(X, Y) :- ( X = 1, ( Y = a ; Y = b ) ; X = 2 ; fail ; X = 3, Y = c ).
nest(X) :- \+ \+ ( X = 1 ), ( ( true ; fail ), ( X = 2 -> true ; X = 3 ) ; X = 4 ).
""",
    "terms": r"""
st(f(X, g(Y, h(Z, [X,Y|Z])), k(X, X, Y)), X, Y, Z).
hd(f(A, g(B, h(C))), f(g(C, D), D), [A,B,C,D]).
sw(A, B, C, D, r(D, C, B, A)) :- sw2(D, C, B, A).
sw2(A, B, C, D) :- sw3(B, A, D, C).
sw3(A, B, C, D) :- sw4(C, D, A, B, x(A), y(B)).
sw4(A, A, _, _, _, _) :- !.
sw4(_, _, C, C, x(C), y(C)) :- !.
sw4(_, _, _, _, _, _).
bld(X, T) :- T = a(b(c(d(e(f(g(h(X)))))), i(X, j(X, k(X, l(X)))), [X,[X,[X|X]]|m])).
bl2(X, Y, Z) :- bl3(f(X, Y), g(Z, f(X, Y)), [X,Y,Z], h(W, W, X), W).
bl3(A, B, C, D, E) :- A = f(1, _), B = g(2, A), C = [_,_,_], D = h(E, z, _).
env(A, B, C, D, E, F) :- e1(A, X), e1(B, Y), e1(C, Z), e1(X, D), e1(Y, E), e1(Z, F).
e1(X, s(X)).
void(_, _, f(_, g(_), _), _, X, X).
lst(a(_, _, b(_, _, c(_, _, d(X)))), X).
same(X, X, X).
uns(X, Y) :- Y = f(A, B, A, X), uns2(B, A).
uns2(X, f(X)).
perm6(A, B, C, D, E, F) :- chk(F, E, D, C, B, A).
chk(6, 5, 4, 3, 2, 1).
chk(A, B, C, D, E, F) :- integer(A), A > 10, G is A - 1, perm6(B, C, D, E, F, G).
many(A1,A2,A3,A4,A5,A6,A7,A8,A9,A10,A11,A12,A13,A14,A15,A16,A17,A18,A19,A20, r(A20,A10,A1)) :- A5 = A6, m1(A1,A2), m1(A19,A20), A7 = f(A8,A9).
m1(X, X).
ue(X) :- Y = Z, m1(Z, A), ( X = 1 -> A = Y ; A = b(Y) ), m1(A, _).
""",
    "atoms": "".join("atm(%d, %s).\n" % (i, t) for i, t in enumerate([
        "a", "'A b'", "''", "'it''s'", "'new\\nline'", "'back\\\\slash'", "'\"dq\"'", "'%'", "'/*'", "'tab\\tx'", "'\\x41\\'", "'\\200\\'", "'\\377\\'", "'\\1\\'",
        "[]", "{}", "'[]'", "(;)", "(!)", "(',')", "('|')", "(:-)", "+", "\\+", "'.'", "'$x'", "'_X'", "'0'", "'X_'", "a_1", LONG, "'%s %d %n'", "'a\\\\nb'", "'é'", "'#define'", "'$HOME'", "'`ls`'", "'a/1'", "'a:b'"])) + r"""
num(0, 0.1).
num(1, -0.5).
num(2, 1.0e308).
num(3, 5.0e-324).
num(4, 1.5e100).
num(5, -0.0).
num(6, 123456789.125).
num(7, 0.1e-6).
num(8, 3.141592653589793).
num(9, 100000.0).
str("", 0).
str("abc", 1).
str("a\nb\"c\\", 2).
'odd name'(1).
'quo''te'(2).
'new\nline'(3).
''(4).
[](5).
{}(6).
'%'(7).
'+'(8, 9).
'é'(10).
f_long_""" + LONG + r"""(11).
odd(X) :- 'odd name'(X).
odd(X) :- 'quo''te'(X).
odd(X) :- 'new\nline'(X).
odd(X) :- ''(X).
odd(X) :- [](X).
odd(X) :- {}(X).
odd(X) :- '%'(X).
odd(X) :- '+'(8, X).
odd(X) :- 'é'(X).
odd(X) :- f_long_""" + LONG + r"""(X).
""",
    "dyn": r"""
:- dynamic([dd/1, de/2, d0/0]).
dd(1).
dd(X) :- X = 2.
dd(3).
de(X, Y) :- dd(X), ( X > 1 -> Y = big ; Y = small ).
up(L) :- findall(X, dd(X), L0), assertz(dd(4)), asserta(dd(0)), findall(X, dd(X), L1), retract(dd(4)), retract(dd(0)), L = [L0,L1].
:- discontiguous([dx/1, dy/1]).
dx(1).
dy(1).
dx(2).
dy(2).
dx(X) :- dy(Y), X is Y + 2.
:- public(pb/2).
pb(X, Y) :- Y = f(X), !.
pb(_, z).
cla(L) :- findall(H-B, clause(pb(H, _), B), L0), length(L0, L).
:- initialization(g_assign(in1, done)).
inn(X) :- g_read(in1, X).
""",
    "dcg": r"""
:- op(700, xfx, ===>).
:- op(200, xfy, **>).
:- op(9, fx, #@).
ex(X) --> tm(X0), ex1(X0, X).
ex1(A, X) --> "+", !, tm(B), { C is A + B }, ex1(C, X).
ex1(A, X) --> "-", !, tm(B), { C is A - B }, ex1(C, X).
ex1(X, X) --> [].
tm(X) --> dg(D), tm1(D, X).
tm1(A, X) --> dg(D), !, { B is A * 10 + D }, tm1(B, X).
tm1(X, X) --> [].
dg(D) --> [C], { C >= 0'0, C =< 0'9, D is C - 0'0 }.
any([]) --> [].
any([H|T]) --> [H], any(T).
pb2, [b] --> [a].
rw(a ===> b, 1).
rw(X **> Y **> Z, p(X, Y, Z)).
rw(#@ X, X).
calc(A, V) :- atom_codes(A, L), ex(V, L, []).
""",
    "multi": r"""
:- multifile(mu/1).
mu(1).
mu(2) :- true.
mu(X) :- fail, X = 3.
""",
    "fd": r"""
fdq(X, Y) :- fd_domain([X,Y], 1, 4), X #> Y, X + Y #= 5, fd_labeling([X,Y]).
fdd(L) :- fd_domain(X, 0, 10), X #\= 5, X #< 8, fd_dom(X, L).
fds([S,E,N,D,M,O,R,Y]) :- LD = [S,E,N,D,M,O,R,Y], fd_all_different(LD), fd_domain(LD, 0, 9), fd_domain([S,M], 1, 9),
	1000*S+100*E+10*N+D + 1000*M+100*O+10*R+E #= 10000*M+1000*O+100*N+10*E+Y, fd_labelingff(LD).
fdr(B) :- X #= 3 #<=> B, fd_domain(X, 3, 3).
""",
}
MULTI2 = ":- multifile(mu/1).\nmu(11).\nmu(X) :- X = 12.\n"
# (template, goal)
Q = {
    "lists": ["X:app(X,[3],[1,2,3])", "X-Y:app(X,Y,[1,2,3])", "X:rev([1,2,3,4],X)", "X:perm([1,2,3],X)", "X:len([a,b,c],X)", "X:msum([1,2,3],0,X)", "X:qs([3,1,2,5,4,1],X)", "X-Y:sel(X,[a,b,c],Y)", "X:mem(X,[1,2])", "X:mem(b,[a|X])"],
    "arith": ["X:fact(15,X)", "X:fib(15,X)", "X:ar(37,5,X)", "X:ar(-37,5,X)", "X:cmp(1,2,X)", "X:cmp(2,2,X)", "X:cmp(3,2,X)", "X:un(7,X)", "X:un(-7,X)", "X-Y:mn(3,4,X,Y)", "X:inc3(4,X)", "X:gc(84,36,X)", "X:big(X)", "yes:big(4294967296)", "yes:big(4294967297)"],
    "index": ["X:ix(a,X)", "X:ix(b,X)", "X:ix(1,X)", "X:ix(-1,X)", "X:ix([],X)", "X:ix([a],X)", "X:ix([b,c],X)", "X:ix(f(a),X)", "X:ix(f(b),X)", "X:ix(f(a,b),X)", "X:ix(g(a,b),X)", "X:ix(1.5,X)", "X:ix(2.5,X)", "X:ix(zz,X)", "X-Y:ix(X,Y)", "X:ix(h(a),X)", "X:ix(3,X)"]
    + ["X:k(%s,X)" % t for t in ["c0", "c3", "c39", "c40", "0", "7", "-20", "19", "20", "s0(1)", "s3(q)", "s3(r)", "s19(_)", "s20(_)", "1.0"]] + ["X:l1([],X)", "X:l1([a],X)", "X:l1([a,b],X)", "X:l1([a|_],X)", "X:at(f,X)", "X:at(f(a),X)", "X:at('F',X)", "X:at('',X)", "X:at([],X)", "X:at('[]',X)", "X:at({},X)", "X:at(g,X)"],
    "control": ["X-Y:ite(X,Y)", "X:ite(2,X)", "X:ite(3,X)", "X:ite2(2,X)", "X:ite2(5,X)", "X:neg(1,X)", "X:neg(2,X)", "X:cut1(X)", "X-Y:cut2(X,Y)", "X:cut3(X)", "X:cut3(3)", "X:ca(1,X)", "X:ca(2,X)", "X:ca(3,X)", "X:ca(4,X)", "X:ca(5,X)", "X:cl(cut1,X)", "X-Y:cl2(ite,X,Y)", "X:fa(X)", "yes:fo([1,2])", "yes:fo([1,-2])", "X:on(X)", "yes:rp(5)", "X:deep(5,X)", "X-Y:dj(X,Y)", "X:nest(X)"],
    "terms": ["X-Y-Z-T:st(T,X,Y,Z)", "X:st(X,1,2,[3])", "L:hd(f(1,g(2,h(3))),f(X,Y),L)", "L:hd(f(1,X),f(X,Y),L)", "X:sw(1,2,3,4,X)", "X:sw(1,1,3,4,X)", "X:bld(q,X)", "X:bld(_,X)", "X-Y-Z:bl2(X,Y,Z)", "D-E-F:env(1,2,3,D,E,F)", "X:void(1,2,f(3,g(4),5),6,X,7)", "X:lst(a(1,2,b(3,4,c(5,6,d(7)))),X)", "X:lst(Y,X)", "X:same(f(X,b),f(a,Y),f(Z,Z))", "X:same(f(X,b),f(Y,Y),f(Z,Z))", "Y:uns(1,Y)", "yes:perm6(1,2,3,4,5,6)", "yes:perm6(6,5,4,3,2,11)", "X:many(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,X)", "X:many(A,1,3,4,5,5,X7,8,9,10,11,12,13,14,15,16,17,18,A,1,X)", "X:ue(X)"],
    "atoms": ["X-Y:atm(X,Y)", "X-L:(atm(X,Y),atom_codes(Y,L))", "X:atm(X,[])", "X:atm(X,'[]')", "X:atm(X,'it''s')", "X-Y:num(X,Y)", "X:num(X,0.1)", "X-Y:str(X,Y)", "X:odd(X)"],
    "dyn": ["X:dd(X)", "X-Y:de(X,Y)", "X:up(X)", "X:dx(X)", "X:dy(X)", "X:pb(1,X)", "X:d0", "X:dd(2)", "X:cla(X)", "X:inn(X)"],
    "dcg": ["X:calc('1+22-3',X)", "X:calc('1+',X)", "X:calc('100',X)", "X-Y:any(X,[1,2],Y)", "X:pb2([a],X)", "X-Y:rw(X,Y)"],
    "multi": ["X:mu(X)"],
    "fd": ["X-Y:fdq(X,Y)", "X:fds(X)", "X:fdd(X)", "X:fdr(X)"],
}
def program(parts):
    return "".join(PARTS[p] for p in parts)


def tmpl(t):
    return {"X-Y": "-(X,Y)", "X-Y-Z": "-(-(X,Y),Z)", "X-L": "-(X,L)", "D-E-F": "-(-(D,E),F)", "X-Y-Z-T": "-(-(-(X,Y),Z),T)"}.get(t, t)


GOLD = os.path.join(VERIF, "checks", "c49", "golden.txt")  # the answers of the parts the reference does not cover (read over by hand)
_exp = None


def reftext(t):
    """what the reference interpreter's reader knows: no bit operators, no strings"""
    t = re.sub(r"^ar\(A, B(.|\n)*?\.\n", "", t, flags=re.M)
    return t.replace('ix("s", 14)', "ix([115], 14)").replace("c3(A, B, ne) :- A =\\= B -> true ; fail.", "c3(A, B, ne) :- \\+ A =:= B.").replace("**", "^")


def queries():
    """part -> [(max, template, goal, expected)]"""
    global _exp
    if _exp is None:
        gold = dict(l.rstrip("\n").split(" => ", 1) for l in open(GOLD)) if os.path.exists(GOLD) else {}
        _exp = {}
        for p, qs in Q.items():
            ref = Ref(reftext(PARTS[p])) if p in ("lists", "arith", "index", "control", "terms") else None
            for q in qs:
                t, g = q.split(":", 1)
                t = tmpl(t)
                e = ref and not g.startswith("ar(") and ref(t, g, 60)
                _exp.setdefault(p, []).append((60, t, g, gold.get(g) or e))
    return _exp


# ---- building
def text(parts, ops=True):
    t = "".join(PARTS[p] for p in parts)
    return t


def file_texts(blocks):
    """one text per block of parts; the multifile predicate goes in two files when there are several"""
    out = []
    for i, b in enumerate(blocks):
        t = text(b)
        out.append(t)
    if len(out) > 1:
        j = next(i for i, b in enumerate(blocks) if "multi" in b)
        out[(j + 1) % len(out)] += MULTI2
    return out


def asks(parts, split=False):
    r = []
    for p in parts:
        for m, t, g, e in queries()[p]:
            if p == "multi" and split:
                g, e = "findall(X,mu(X),L0),msort(L0,X)", "='.'(1,'.'(2,'.'(11,'.'(12,[]))))\tno"
            r.append((m, t, g, e))
    return r


STAGES = ["pl", "wam", "ma", "s", "o"]


def route(b, d, name, stages, opts=(), tool=False):
    """compile d/name.pl through the given intermediate stages, return the last file or an error text"""
    cur = "pl"
    for st in stages:
        if st == cur:
            continue
        src, dst = "%s.%s" % (name, cur), "%s.%s" % (name, st)
        flag = {"wam": "-W", "ma": "-M", "s": "-S", "o": "-c"}[st]
        if tool and STAGES.index(st) == STAGES.index(cur) + 1:
            if cur == "pl":
                cmd = ["pl2wam", "--wam-for-native", *QUIET, *opts, "-o", dst, src]
            elif cur == "wam":
                cmd = ["wam2ma", "-o", dst, src]
            elif cur == "ma":
                cmd = ["ma2asm", "-o", dst, src]
            else:
                cmd = ["as", "-o", dst, src]
            r = b.run(cmd, cwd=d, timeout=120)
        else:
            r = b.run(["gplc", flag, *(QUIET if cur == "pl" else ()), *(opts if cur == "pl" else ()), "-o", dst, src], cwd=d, timeout=120)
        if r.returncode or not os.path.exists(os.path.join(d, dst)):
            return None, "%s -> %s failed: %s" % (src, dst, r.stdout[-500:])
        cur = st
    return "%s.%s" % (name, cur), ""


SRVO = None


def job(arg):
    """(key, [(text, route)], compile options, link options, tools?, parts, split?)"""
    jobs = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    n = tr = 0
    bad = []
    cache = {}
    hist = collections.Counter()
    try:
        for key, files, copts, lopts, tool, parts, split in jobs:
            if len(bad) > 12:
                break
            n += 1
            names = []
            err = ""
            for i, (t, rt) in enumerate(files):
                if "--fast-math" in copts:
                    t = re.sub(r"^mn\(.*\n", "mn(A, B, A, B).\n", t, flags=re.M)  # min/2 and max/2 are refused
                k = (t, rt, copts, tool)
                if k in cache:
                    names.append(cache[k])
                    continue
                nm = "f%d" % len(cache)
                open(os.path.join(d, nm + ".pl"), "w").write(t)
                f, err = route(b, d, nm, rt, copts, tool)
                if f is None:
                    break
                cache[k] = f
                names.append(f)
            x = os.path.join(d, "x")
            if os.path.exists(x):
                os.remove(x)
            if not err:
                cx = tuple(copts) if any(f.endswith(".pl") for f in names) else ()
                r = b.run(["gplc", "--no-top-level" if "+top" not in lopts else "--no-susp-warn", *QUIET, *cx, *(o for o in lopts if o != "+top"), "-o", x, SRVO, *names], cwd=d, timeout=120)
                if r.returncode or not os.path.exists(x):
                    err = "gplc: exit %s: %s" % (r.returncode, r.stdout[-800:])
            if err:
                bad.append((key, err))
                continue
            qs = asks(parts, split)
            srv = Server(x, b.env(), "", cwd=d)
            got = srv.run([(m, t, g) for m, t, g, e in qs])
            tr += len(qs)
            for (m, t, g, e), o in zip(qs, got):
                hist[(o or "")[:50]] += 1
                if e is None or not match(e, o):
                    bad.append((key, "goal: %s\nexpected: %s\ngot:      %s" % (g, short(str(e)), short(str(o)))))
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, tr, bad, hist


COPTS = [("--no-inline",), ("--no-reorder",), ("--no-opt-last-subterm",), ("--keep-void-inst",), ("--no-call-c",), ("--compile-msg", "--statistics")]
REG = [(), ("--min-reg-opt",), ("--no-reg-opt",)]


def subsets(l):
    for m in range(1 << len(l)):
        yield tuple(x for i, o in enumerate(l) if m >> i & 1 for x in o)


ALLP = tuple(PARTS)


def fam_options(tier):
    parts = tuple(p for p in ALLP if p != "fd")
    for r in REG:
        for s in subsets(COPTS[:4] if tier == "quick" else COPTS):
            o = r + s
            pp = ALLP if "--no-call-c" not in o else parts
            yield ("options " + " ".join(o), [(text(pp), ("pl", "o"))], o, (), False, pp, False)
    for o in [("--no-call-c",), ("--compile-msg", "--statistics"), ("--wam-comment", "x"), ("--no-redef-error",), ("--no-susp-warn",)]:
        pp = ALLP if "--no-call-c" not in o else parts
        yield ("options " + " ".join(o), [(text(pp), ("pl", "o"))], o, (), False, pp, False)
    # integer arithmetic only
    pp = tuple(p for p in ALLP if p not in ("fd",))
    for r in REG:
        for s in subsets(COPTS[:4]):
            o = ("--fast-math",) + r + s
            yield ("options " + " ".join(o), [(text(pp), ("pl", "o"))], o, (), False, pp, False)


def fam_routes(tier):
    for tool in (False, True):
        for k in range(0, 5):
            for mid in itertools.combinations(("wam", "ma", "s", "o"), k):
                for o in ((), ("--no-inline", "--no-reorder", "--no-reg-opt", "--no-opt-last-subterm", "--keep-void-inst"), ("--fast-math",)):
                    if o == ("--fast-math",) and tier == "quick" and len(mid) % 2:
                        continue
                    yield ("route %s %s %s" % (tool, mid, " ".join(o)), [(text(ALLP), ("pl",) + mid)], o, (), tool, ALLP, False)


NOMETA = ("lists", "arith", "index", "terms")  # no control construct is called through call/N: built-ins nothing refers to are not linked


def fam_link(tier):
    lo = [("+top",), ("--no-debugger",), ("--min-pl-bips",), ("--min-fd-bips",), ("--strip",), ("--fixed-sizes",), ("--new-top-level",), ("--no-fd-lib-warn",)]
    if tier == "quick":
        lo = lo[:6]
    for s in subsets(lo):
        pp = NOMETA if "--min-pl-bips" in s else ALLP
        yield ("link " + " ".join(s), [(text(pp), ("pl", "o"))], (), s, False, pp, False)
    for s in [("--min-bips",), ("--min-size",), ("--min-bips", "--local-size", "3000", "--fixed-sizes")]:
        yield ("link " + " ".join(s), [(text(NOMETA), ("pl",))], (), s, False, NOMETA, False)
    for s in [("--local-size", "100000", "--trail-size", "1000"), ("--local-size", "3000", "--global-size", "4000", "--trail-size", "2000", "--cstr-size", "500", "--max-atom", "20000"), ("--no-top-level", "--no-demangling"), ("-v",), ("--temp-dir", "."), ("--no-del-temp-files", "--temp-dir", "."), ("--comment",),
              ("-C", "-O2"), ("-L", "-lm"), ("-Wl,-lm",), ("-A", "--64"), ("-Wa,--64",), ("-Wc,-g",), ("--linker", "gcc"), ("--c-compiler", "gcc")]:
        yield ("link " + " ".join(s), [(text(ALLP), ("pl",))], (), s, False, ALLP, False)


def partitions(l):
    if not l:
        yield []
        return
    for p in partitions(l[1:]):
        yield [[l[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[l[0]] + p[i]] + p[i + 1:]


def fam_split(tier):
    units = [("lists", "arith", "dcg"), ("index", "terms"), ("control", "dyn"), ("atoms", "multi"), ("fd",)]
    if tier == "quick":
        units = units[:3] + [("atoms", "multi", "fd")]
    for p in partitions(units):
        blocks = [tuple(x for u in b for x in u) for b in p]
        for order in itertools.permutations(range(len(blocks))) if len(blocks) < 4 else [tuple(range(len(blocks))), tuple(range(len(blocks)))[::-1]]:
            ts = file_texts([blocks[i] for i in order])
            yield ("split %s %s" % (p, order), [(t, ("pl",)) for t in ts], (), (), False, ALLP, len(blocks) > 1)
    # every mix of file kinds
    blocks = [("lists", "arith", "index", "fd"), ("terms", "control", "dcg"), ("atoms", "multi", "dyn")]
    ts = file_texts(blocks)
    for rt in itertools.product(STAGES, repeat=3):
        yield ("mix %s" % (rt,), [(t, ("pl", r) if r != "pl" else ("pl",)) for t, r in zip(ts, rt)], (), (), False, ALLP, True)


def names_job(arg):
    """the names of the files made"""
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, n = [], 0
    try:
        for flag, pat, inputs in arg:
            for x in os.listdir(d):
                q = os.path.join(d, x)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            os.makedirs(os.path.join(d, "d1"))
            os.makedirs(os.path.join(d, "out"))
            ext = {"-W": ".wam", "-w": ".wbc", "-M": ".ma", "-S": ".s", "-c": ".o", "": ""}[flag]
            for f in inputs:
                open(os.path.join(d, f), "w").write("p_%s(1).\n" % "".join(c for c in f if c.isalnum()))
            before = set(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
            r = b.run(["gplc", "--no-top-level", *([flag] if flag else []), *(["-o", pat] if pat else []), *inputs], cwd=d, timeout=60)
            n += 1
            made = sorted(os.path.relpath(p, d) for p in set(os.path.join(r_, f) for r_, _, fs in os.walk(d) for f in fs) - before)
            exp = []
            if flag == "":
                f0 = inputs[0]
                subs = [f0]
            else:
                subs = inputs
            cnt = itertools.count(1)
            for f in subs:
                dr, base = os.path.split(f)
                dr = dr + "/" if dr else ""
                pre, dot, suf = base.rpartition(".")
                sub = {"f": f, "F": base, "p": dr + pre, "P": pre, "s": "." + suf, "d": dr}
                if pat is None:
                    e = dr + pre + ext
                else:
                    e = re.sub("%(.)", lambda m: str(next(cnt)) if m.group(1) == "c" else sub[m.group(1)], pat)
                exp.append(os.path.normpath(e))
            if flag == "" and pat is None and [os.path.basename(e) for e in exp] == made:
                continue  # in the current directory or in that of the file
            if r.returncode or sorted(set(exp)) != made:
                bad.append(("%s -o %s %s" % (flag, pat, inputs), "exit %s\nfiles made: %s\nexpected:   %s\n%s" % (r.returncode, made, sorted(set(exp)), r.stdout[-300:])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, n, bad, collections.Counter()


def names_cases():
    for flag in ("-W", "-w", "-M", "-S", "-c", ""):
        for inputs in (["a.pl"], ["d1/b.pl"], ["c.x.pl"], ["a.pl", "d1/b.pl"], ["a.pl", "d1/b.pl", "c.x.pl"]):
            for pat in (None, "z", "out/z", "%P.q", "%p.q", "out/%F.q", "%f.q", "%d%P_1.q", "out/%P%s.q", "n%c.q", "out/%c%c_%P.q", "%P"):
                if flag == "" and pat and "%" in pat:
                    continue
                if len(inputs) > 1 and pat and "%" not in pat and flag:
                    continue
                if pat == "%P" and not flag:
                    continue
                yield flag, pat, inputs


SZ = ["local", "global", "trail", "cstr"]


def sizes_job(arg):
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, n = [], 0
    try:
        open(os.path.join(d, "a.pl"), "w").write(":- initialization((statistics(local_stack,[A,B]),L is (A+B)//1024,statistics(global_stack,[C,D]),G is (C+D)//1024,statistics(trail_stack,[E,F]),T is (E+F)//1024,statistics(cstr_stack,[H,I]),K is (H+I)//1024,current_prolog_flag(max_atom,M),write([L,G,T,K,M]),nl,halt)).\n")
        b.run(["gplc", "-c", "a.pl"], cwd=d)
        for opts, env, fixed in arg:
            x = os.path.join(d, "x")
            cmd = ["gplc", "--no-top-level", "-o", x] + (["--fixed-sizes"] if fixed else [])
            for k, v in opts:
                cmd += ["--max-atom" if k == "atom" else "--%s-size" % k, str(v)]
            if os.path.exists(x):
                os.remove(x)
            r = b.run(cmd + ["a.o"], cwd=d, timeout=60)
            n += 1
            if r.returncode:
                bad.append((str((opts, env, fixed)), r.stdout[-400:]))
                continue
            e = b.env(MAX_ATOM=None, LOCALSZ=None, GLOBALSZ=None, TRAILSZ=None, CSTRSZ=None)
            e.update({"MAX_ATOM" if k == "atom" else {"local": "LOCALSZ", "global": "GLOBALSZ", "trail": "TRAILSZ", "cstr": "CSTRSZ"}[k]: str(v) for k, v in env})
            p = subprocess.run([x], env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, preexec_fn=die_with_parent)
            o = p.stdout.decode("latin-1").strip()
            exp = dict(DEFS)
            exp.update(opts)
            if not fixed:
                exp.update(env)
            try:
                got = [int(v) for v in o.strip("[]").split(",")]
            except ValueError:
                got = []
            good = len(got) == 5 and all(exp[k] - (1 if k != "atom" else 0) <= got[i] <= exp[k] + 9 * (k != "atom") for i, k in enumerate(SZ + ["atom"]))
            if not good:
                bad.append(("sizes %s env %s fixed %s" % (opts, env, fixed), "expected (about) %s\ngot %s" % (exp, o[-300:])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, n, bad, collections.Counter()


DEFS = {"local": 50000, "global": 100000, "trail": 50000, "cstr": 50000, "atom": 100000}


def sizes_cases(tier):
    ks = SZ + ["atom"]
    val = {"local": 3000, "global": 5000, "trail": 2000, "cstr": 1000, "atom": 20000}
    env = {"local": 4000, "global": 6000, "trail": 2500, "cstr": 1500, "atom": 30000}
    for m in range(32):
        o = tuple((k, val[k]) for i, k in enumerate(ks) if m >> i & 1)
        for e in range(32) if tier != "quick" else (0, m, 31 ^ m, 31):
            ev = tuple((k, env[k]) for i, k in enumerate(ks) if e >> i & 1)
            for fx in (False, True):
                yield o, ev, fx


def run(ck, name, fn, cases, key=None, n=32):
    cases = list(cases)
    sh = [cases[i::n] for i in range(n)]
    tot = 0
    for c, tr, bad, hist in parmap(fn, [s for s in sh if s]):
        tot += c
        ck.add(states=c, transitions=tr, traces_validated_against_impl=tr)
        for k, v in hist.items():
            ck.outcome(k, v)
        for k, t in bad:
            ck.violate("%s: %s" % (name, k), t)
    ck.cov.setdefault("builds_by_family", {})[name] = tot
    ck.sample("%s: %s" % (name, short(str(cases[len(cases) // 2][0]), 200)))


def main():
    global SRVO
    ck = Check("C49")
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    try:
        SRVO = os.path.join(d, "srv.o")
        shutil.copy(SRV, d)
        b.gplc(SRVO, os.path.join(d, "srv.pl"), opts=("-c",) + QUIET, cwd=d)
        queries()
        for name, f in (("options", fam_options), ("routes", fam_routes), ("link", fam_link), ("split", fam_split)):
            run(ck, name, job, f(ck.tier))
        run(ck, "names", names_job, names_cases())
        run(ck, "sizes", sizes_job, sizes_cases(ck.tier))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ck.finish(rule="the executables are built in every listed way; each one answers every query as the reference interpreter (or the recorded answers) say")
