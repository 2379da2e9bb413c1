"""C32: the list library computes its relations in every mode."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.progs import run_units
from vlib.goals import Ref
from vlib.refpl import Machine, parse, run_goal, StepLimit, VarOrder
import vlib.refterm

# the definitions of the manual (and of the Prolog prologue), nothing of the C code
DEFS = r"""
append([], L, L).
append([H|T], L, [H|R]) :- append(T, L, R).
member(X, [X|_]).
member(X, [_|T]) :- member(X, T).
memberchk(X, L) :- member(X, L), !.
delete([], _, []).
delete([H|T], X, L) :- H == X, !, delete(T, X, L).
delete([H|T], X, [H|L]) :- delete(T, X, L).
select(X, [X|T], T).
select(X, [H|T], [H|R]) :- select(X, T, R).
subtract([], _, []).
subtract([X|T], L, R) :- memberchk(X, L), !, subtract(T, L, R).
subtract([X|T], L, [X|R]) :- subtract(T, L, R).
permutation([], []).
permutation(L, [H|T]) :- select(H, L, R), permutation(R, T).
prefix([], _).
prefix([X|T], [X|R]) :- prefix(T, R).
suffix(L, L).
suffix(X, [_|T]) :- suffix(X, T).
sublist(L, L).
sublist(S, [H|T]) :- sublist1(T, H, S).
sublist1(S, _, S).
sublist1([H|T], _, S) :- sublist1(T, H, S).
sublist1([H|T], X, [X|S]) :- sublist1(T, H, S).
last([X], X).
last([_,H|T], X) :- last([H|T], X).
nth(N, L, X) :- nth1(N, L, X).
nth0(N, L, X) :- integer(N), !, nthi(N, L, X).
nth0(N, L, X) :- var(N), nthv(L, X, 0, N).
nth1(N, L, X) :- integer(N), !, M is N-1, nthi(M, L, X).
nth1(N, L, X) :- var(N), nthv(L, X, 1, N).
nthi(0, L, X) :- !, L = [X|_].
nthi(N, L, X) :- N > 0, M is N-1, L = [_|T], nthi(M, T, X).
nthv([X|_], X, N, N).
nthv([_|T], X, M, N) :- M1 is M+1, nthv(T, X, M1, N).
max_list([H|T], M) :- maxl(T, H, M).
maxl([], M, M).
maxl([H|T], X, M) :- H =< X, !, maxl(T, X, M).
maxl([H|T], _, M) :- maxl(T, H, M).
min_list([H|T], M) :- minl(T, H, M).
minl([], M, M).
minl([H|T], X, M) :- H >= X, !, minl(T, X, M).
minl([H|T], _, M) :- minl(T, H, M).
sum_list(L, S) :- suml(L, 0, S).
suml([], S, S).
suml([H|T], A, S) :- B is H+A, suml(T, B, S).
flatten(L, F) :- flat(L, [], G), !, F = G.
flat(V, T, [V|T]) :- var(V), !.
flat([], T, T) :- !.
flat([H|R], T, L) :- !, flat(H, S, L), flat(R, T, S).
flat(A, T, [A|T]).
length(L, N) :- nonvar(N), \+ integer(N), !, throw(error(type_error(integer,N),length/2)).
length(L, N) :- integer(N), N < 0, !, throw(error(domain_error(not_less_than_zero,N),length/2)).
length(L, N) :- islist(L), !, listlen(L, 0, M), N = M.
length(L, N) :- ptail(L, V, 0, M), !, plength(V, N, M).
plength(V, N, M) :- V == N, !, throw(error(resource_error(finite_memory),length/2)).
plength(V, N, M) :- integer(N), !, D is N-M, D >= 0, mklist(D, V).
plength([], M, M).
plength([_|T], N, M) :- M1 is M+1, plengthx(T, N, M1).
plengthx([], M, M).
plengthx([_|T], N, M) :- M1 is M+1, plengthx(T, N, M1).
mklist(0, []) :- !.
mklist(N, [_|T]) :- M is N-1, mklist(M, T).
islist(L) :- var(L), !, fail.
islist([]).
islist([_|T]) :- islist(T).
listlen([], N, N).
listlen([_|T], M, N) :- M1 is M+1, listlen(T, M1, N).
ptail(V, V, M, M) :- var(V), !.
ptail([_|T], V, M, N) :- M1 is M+1, ptail(T, V, M1, N).
reverse(L, R) :- islist(L), !, rev(L, [], R).
reverse(L, R) :- islist(R), !, ptail(L, V, 0, M), listlen(R, 0, N), D is N-M, D >= 0, mklist(D, V), rev(L, [], R).
reverse(L, R) :- ptail(L, V, 0, _), genl(V), rev(L, [], R).
genl([]).
genl([_|T]) :- genl(T).
rev([], R, R).
rev([H|T], A, R) :- rev(T, [H|A], R).
"""


def mapdefs(n):
    vs = ["X%d" % i for i in range(n)]
    ls = ["L%d" % i for i in range(n)]
    return "maplist(G,%s) :- mpl(%s,G).\nmpl(%s,_).\nmpl(%s,G) :- call(G,%s), mpl(%s,G).\n" % (
        ",".join(ls), ",".join(ls), ",".join(["[]"] * n), ",".join("[%s|%s]" % p for p in zip(vs, ls)), ",".join(vs), ",".join(ls))


DEFS += "".join(mapdefs(n) for n in range(1, 8))
TEST = r"""
p1(a). p1(b).
p2(a, 1). p2(a, 2). p2(b, 1).
p2(X, X) :- integer(X), !.
q3(a, X, X).
q3(b, X, Y) :- Y = f(X).
qn(A, B, C, D) :- A = D, B = C.
qn(A, B, C, D, E) :- A = D, B = C, E = A.
qn(A, B, C, D, E, F) :- A = D, B = C, E = F.
qn(A, B, C, D, E, F, G) :- A = D, B = C, E = F, G = A.
"""
TM = "t(L,X,Y,Z)"
LS = ["L", "[]", "[a]", "[a,b]", "[X,b]", "[a|L]", "[X|L]", "[a,b,a]", "[X,Y]", "[a,X,b]", "[a|b]", "x", "1", "[X,Y,X]", "[f(X),f(a)]", "[b,a|L]", "[1,2]", "[L]", "[a,b,c]"]
ES = ["X", "a", "b", "f(Y)", "L", "1"]
NS = ["X", "0", "1", "2", "3", "4", "-1", "a", "1.0", "Y", "1+1"]


class RefL(Ref):
    """the reference, cut short before the point where the definition runs away"""

    def __call__(self, tmpl, goal, mx=8):
        m = Machine(self.steps)
        m.acyclic = True
        for c in self.clauses:
            m.add(c, dynamic=False)
        t = parse("c(%s,%s)" % (tmpl, goal))[0]
        try:
            return run_goal(m, t.args[0], t.args[1], mx)
        except (VarOrder, RecursionError):
            return None
        except StepLimit:
            k = sum(x.startswith("\t=") for x in m.out)
            return (k, "".join(m.out)[1:] + "\tmore") if k else None


def fam(gen, ref, mx):
    def fn(i, n, tier):
        for k, (key, tmpl, goal) in enumerate(gen(tier)):
            if k % n != i:
                continue
            goal = "(%s)" % goal
            e = ref(tmpl, goal, mx)
            if e is None:
                continue
            m = mx
            if type(e) is tuple:
                m, e = e
            yield key, m, tmpl, goal, e
    return fn


def three(tier):
    pre = ["true", "L=Z", "X=a", "L=[Z]"] if tier == "quick" else ["true", "L=Z", "X=a", "L=[Z]", "X=Y", "L=[X|Z]", "Y=b", "Z=[X]", "L=X"]
    for p in pre:
        for a in LS:
            for b in LS + ["Z", "[b|Z]"]:
                for c in LS + ["Z"]:
                    yield "append", TM, "%s,append(%s,%s,%s)" % (p, a, b, c)
    for a in LS:
        for e in ES:
            for c in LS + ["Z"]:
                for p in pre[:3]:
                    yield "delete", TM, "%s,delete(%s,%s,%s)" % (p, a, e, c)
                    yield "select", TM, "%s,select(%s,%s,%s)" % (p, e, a, c)
        for b in LS:
            for c in ["Z", "[]", "[a]", "[X]", "[a|Z]", "b"]:
                yield "subtract", TM, "subtract(%s,%s,%s)" % (a, b, c)


def two(tier):
    pre = ["true", "L=Z", "X=a", "L=[Z]", "L=[X|Y]", "L=X", "X=Y", "L=[Y,Z|X]", "Y=b,X=Y"]
    for p in pre:
        for a in LS:
            for e in ES + ["Z", "[X]", "[]"]:
                yield "member", TM, "%s,member(%s,%s)" % (p, e, a)
                yield "memberchk", TM, "%s,memberchk(%s,%s)" % (p, e, a)
                yield "last", TM, "%s,last(%s,%s)" % (p, a, e)
            for b in LS + ["Z", "[Z|L]", "[Y,X]", "[b,X|Z]"]:
                for op in ("reverse", "permutation", "prefix", "suffix", "sublist"):
                    yield op, TM, "%s,%s(%s,%s)" % (p, op, a, b)
            for n in NS + ["L", "Z", "1152921504606846975"]:
                if n[:3] != "115" or a in ("[]", "[a]", "[a|b]", "x", "[X,Y]"):
                    yield "length", TM, "%s,length(%s,%s)" % (p, a, n)
                if n[:3] != "115" or a[-1:] == "]" and "|" not in a:
                    for e in ES:
                        for op in ("nth", "nth0", "nth1"):
                            yield op, TM, "%s,%s(%s,%s,%s)" % (p, op, n, a, e)
            yield "lists", TM, "%s,(length(%s,X),reverse(%s,Z))" % (p, a, a)


def nums(tier):
    vs = ["1", "2", "-3", "2.5", "1+1", "1152921504606846975", "-1152921504606846976", "2.0", "a", "X"]
    ls = ["[]", "L", "[1|L]", "[1|a]", "x"] + ["[%s]" % ",".join(c) for k in (1, 2, 3) for c in itertools.product(vs, repeat=k)]
    for l in ls:
        for op in ("max_list", "min_list", "sum_list"):
            for r in ("Z",) if l.count(",") > 1 else ("Z", "2", "2.0", "a"):
                yield op, TM, "%s(%s,%s)" % (op, l, r)
    at = ["[]", "a", "X", "[b]", "[X|c]", "[[a],b]", "f([a])", "[[]]", "[[],[X]]"]
    for k in (1, 2, 3):
        for c in itertools.product(at, repeat=k):
            yield "flatten", TM, "flatten([%s],Z)" % ",".join(c)
            if k < 3:
                yield "flatten", TM, "flatten([%s],[a|Z])" % ",".join(c)
                yield "flatten", TM, "flatten([%s|X],Z)" % ",".join(c)
                yield "flatten", TM, "flatten([%s|[b]],[X,Y])" % ",".join(c)
    for a in at + LS:
        yield "flatten", TM, "flatten(%s,Z)" % a


def maps(tier):
    for a in LS:
        for g in ("p1", "=(X)", "atom", "p2(a)", "q3(a,b)", "Z", "1", "call(p1)", "(p1,p1)", "und", "call(=,Y)", "(!)", "==(X)"):
            yield "maplist/2", TM, "maplist(%s,%s)" % (g, a)
        for b in LS[:14] + ["Z", "[1|Z]"]:
            for g in ("p2", "=", "q3(a)", "@<", "und", "q3(Y)"):
                yield "maplist/3", TM, "maplist(%s,%s,%s)" % (g, a, b)
    few = ["L", "[]", "[a]", "[a,b]", "[X|L]", "[b,X]"]
    for n in (3, 4, 5, 6, 7) if tier == "quick" else (3, 4, 5, 6, 7):
        for c in itertools.product(few if n < 5 else ["L", "[]", "[a,b]"] if n < 6 else ["[a]", "[X,b]"], repeat=n):
            yield "maplist/%d" % (n + 1), TM, "maplist(%s,%s)" % ("q3" if n == 3 else "qn", ",".join(c))


ENV = ["memberchk(X,L)", "memberchk(f(X),L),memberchk(Y,L)", "memberchk(X,[Y|L])", "append([X],Y,L)", "append([],X,L)", "append(L,[X],[a,Y])", "reverse([X,Y],L)", "reverse(L,[X,Y])", "select(X,L,[]),!",
       "nth1(1,L,X)", "nth0(1,L,X)", "length(L,2),L=[X|Y]", "length([X|L],2)", "last(L,X),!", "permutation([X,Y],L)", "flatten([X,[Y]],L)", "flatten(X,L)", "delete([X,Y],X,L)", "subtract([X],[],L)", "subtract([X,a],[a],L)",
       "maplist(=(X),[L,Z])", "maplist(=,[X,Y],L)", "prefix(L,[X,Y])", "suffix(L,[X,Y])", "sublist(L,[X,Y])", "member(X,L),!", "member(X,[Y|L]),!", "append(X,L,[Y]),!", "reverse([X|Y],L),!"]


def env(i, n, tier):
    """arguments that are variables of the clause's environment, used after its frame is gone and overwritten"""
    k = 0
    for o in ENV:
        for w in ("true", "@@n(X)", "@@n(Y),@@n(X)", "X=Y"):
            for z in ("true", "X=1", "Y=X"):
                k += 1
                if k % n != i:
                    continue
                cl = ["@@(R):- @@a(L),@@d(11,12,13,14,15,16,17,18,D),@@n(D),R=L", "@@a(L):- @@n(W),%s,%s,%s,@@n(W,L),@@n(X,Y)" % (w, o, z),
                      "@@b(L):- %s" % o, "@@c(R):- @@b(L),@@d(11,12,13,14,15,16,17,18,D),@@n(D),R=L",
                      "@@e(L):- @@n(X),%s,%s,@@n(L)" % (w, o), "@@f(R):- @@e(L),@@d(11,12,13,14,15,16,17,18,D),R=L-D",
                      "@@n(_)", "@@n(_,_)", "@@d(A,B,C,D,E,G,H,I,F):- @@n(A),@@n(B),@@n(C),@@n(D),@@n(E),@@n(G),@@n(H),@@n(I),@@n(F),F=[A,B,C,D,E,G,H,I]"]
                ref = RefL(DEFS + "".join(c.replace("@@", "p_") + ".\n" for c in cl))
                out = []
                for g in ("@@(R)", "@@c(R)", "@@f(R)"):
                    e = ref("R", g.replace("@@", "p_"), 6)
                    if type(e) is str:
                        out.append((6, "R", g, e))
                yield "%s / %s / %s" % (o, w, z), cl, out


def long_lists(i, n, tier):
    """every length up to the bound, where counters and generated code change regime"""
    top = 70 if tier == "quick" else 600
    k = 0
    for m in range(0, top):
        k += 1
        if k % n != i:
            continue
        ls = "length(L,%d),findall(E,(nth1(E,L,E)),_)" % m
        mk = "findall(E,between_(1,%d,E),L)" % m
        el = list(range(1, m + 1))
        sh = lambda x: "'.'(%s" % ",'.'(".join(map(str, x)) + ",[]" + ")" * len(x) if x else "[]"
        yield "length", 3, "N", "%s,length(L,N)" % mk, "=%d\tno" % m
        yield "reverse", 3, "R", "%s,reverse(L,R)" % mk, "=%s\tno" % sh(el[::-1])
        yield "append", 3, "R", "%s,append(L,[x],R0),append(R,[x],R0)" % mk, "=%s\tno" % sh(el)
        yield "append split", m + 5, "N", "%s,append(A,B,L),length(A,N)" % mk, "".join("=%d\t" % j for j in range(m + 1)) + "no"
        yield "member", m + 5, "N", "%s,member(N,L)" % mk, "".join("=%d\t" % j for j in el) + "no"
        yield "sum", 3, "S-M-N", "%s,sum_list([0|L],S),max_list([0|L],M),min_list([0|L],N)" % mk, "=-(-(%d,%d),0)\tno" % (sum(el), m)
        yield "nth1", m + 5, "N-E", "%s,nth1(N,L,E),nth1(N,L,E)" % mk, "".join("=-(%d,%d)\t" % (j, j) for j in el) + "no"
        if m:
            yield "last", 3, "E", "%s,last(L,E)" % mk, "=%d\tno" % m
            yield "nth", 3, "A-B", "%s,nth0(%d,L,A),nth1(%d,L,B)" % (mk, m - 1, m), "=-(%d,%d)\tno" % (m, m)
            yield "nth out", 3, "A", "%s,(nth0(%d,L,A);nth1(%d,L,A);nth1(0,L,A);nth0(-1,L,A))" % (mk, m, m + 1), "no"
            yield "partial", 3, "A", "length(P,%d),append(P,_,A),length(A,%d)" % (m, m), None
        yield "memberchk", 3, "x", "%s,memberchk(%d,L),\\+memberchk(0,L)" % (mk, m or 1), "=x\tno" if m else "no"


def lenient(i, n, tier):
    """length/2 with strict_iso off: a type error for what is neither a list nor a partial list"""
    k = 0
    for a, e in [("[a|b]", 1), ("x", 1), ("1", 1), ("[a,b|1]", 1), ("f(x)", 1), ("[]", 0), ("[a]", 0), ("[a|L]", 0), ("[a,b|L]", 0)]:
        for v in ("N", "0", "1", "2", "3"):
            k += 1
            if k % n == i:
                d = a.count(",") + 1 if a[0] == "[" and a != "[]" else 0
                if e:
                    x = {"[a|b]": "'.'(a,b)", "[a,b|1]": "'.'(a,'.'(b,1))"}.get(a, a)
                    ex = "!type_error(list,%s)" % x
                elif v == "N":
                    ex = "=%d\tmore" % d
                elif a[-2:] == "L]":
                    ex = "=%s\tmore" % v if int(v) >= d else "no"
                else:
                    ex = "=%s\tmore" % v if int(v) == d else "no"
                yield "length", 1, v, "set_prolog_flag(strict_iso,off),catch(length(%s,%s),E,true),set_prolog_flag(strict_iso,on),(var(E)->true;throw(E))" % (a, v), ex


def long_fn(i, n, tier):
    for c in long_lists(i, n, tier):
        if c[4] is not None:
            yield c


def main():
    ck = Check("C32")
    exe = server_exe(TEST + "between_(L,H,L) :- L =< H.\nbetween_(L,H,X) :- L < H, M is L+1, between_(M,H,X).\n")
    ref = RefL(DEFS + TEST, steps=700)
    for nm, g in (("append, select, subtract", three), ("member, length, nth, ...", two), ("numbers, flatten", nums), ("maplist", maps)):
        run_cases(ck, nm, exe, fam(g, ref, 7), 32)
    run_cases(ck, "lengths", exe, long_fn, 8)
    run_cases(ck, "strict_iso off", exe, lenient, 2)
    run_units(ck, "environment variables", env, [("native", ()), ("consult", ())], 8)
    ck.assumptions = ["lists of at most 3 given elements (lengths up to 70 for the ground cases)", "at most 7 answers per call", "calls whose definition builds cyclic terms or runs away are left out"]
    return ck.finish(rule="every argument tuple of the universe for every predicate, against its definition in the manual run by the reference interpreter")


if __name__ == "__main__":
    main()
