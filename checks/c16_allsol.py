"""C16: findall, bagof, setof, forall collect exactly the solutions, grouped by the free variables."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe
from vlib.goals import Ref, run_goals
from vlib.progs import run_units

DB = """
p(1,a). p(2,b). p(1,c). p(3,a).
q(X,X). q(a,_). q(_,b). q(f(Y),Y).
r(1). r(2). r(1).
e(_) :- fail.
t(1). t(2) :- throw(x).
len([],N,N).
len([_|L],M,N) :- K is M+1, len(L,K,N).
s(X,Y,Z) :- r(X), p(X,Y), q(Y,Z).
"""


def fam_basic(tier):
    goals = ["p(X,Y)", "p(X,a)", "q(X,Y)", "q(Y,Y)", "s(X,Y,Z)", "p(Y,X),p(Z,X)", "(r(X);p(_,X))", "r(X),\\+p(X,b)", "e(X)", "member(X,[b,Y,a])", "member(X-Y,[1-A,2-B,3-A,4-c,5-B])",
             "(Y=1;Y=2),r(X)", "(X=f(Y,Z);X=f(Z,Y);X=f(Y,Y))", "fail", "true", "X=1", "Y=1", "once(p(X,Y))", "call(p,X,Y)", "p(X,Y),!", "r(X),X>1", "between(1,3,X)", "findall(Y,p(X,Y),Z)", "findall(X,p(X,Y),Z)",
             "bagof(Y,p(X,Y),Z)", "setof(X,Y^p(X,Y),Z)", "setof(X-Y,p(X,Y),Z)", "bagof(X,s(X,Y,Z),W)", "forall(p(X,Y),r(X))"]
    tm = ["X", "Y", "X-Y", "f(X,Z)", "c", "X-W", "[X|Y]", "f(Y)"]
    ex = ["%s", "X^%s", "Y^%s", "Z^%s", "Y^Z^%s", "(X-Y)^%s", "f(Z,W)^%s", "W^%s", "1^%s"]
    pre = ["", "X=1,", "Y=a,", "X=Y,", "Y=Z,"]
    for pr in ("findall", "bagof", "setof"):
        for g in goals:
            for t in tm:
                for e in ex if pr != "findall" else ex[:1]:
                    for p in pre:
                        yield "%s" % pr, "f(L,X,Y,Z,W)", "%s%s(%s,%s,L)" % (p, pr, t, e % ("(%s)" % g))


INST = ["L", "[]", "[_|_]", "[A,B]", "[A,B|C]", "[A,A|C]", "[1,2,1]", "[1,2]", "[X|C]", "[c,c,c]", "a", "f(a)", "1", "[1|a]", "[_,_,_,_]"]


def fam_args(tier):
    for i in INST:
        for t in ("X", "c", "Y-X", "A"):
            for g in ("r(X)", "p(X,Y)", "e(X)", "Y^p(X,Y)", "undefd(X)", "1", "G", "(r(X),1)", "Y^1", "Y^G", "(r(X),G)", "X^undefd(X)", "t(X)"):
                for pr in ("findall", "bagof", "setof"):
                    if pr == "findall" and "^" in g:
                        continue
                    yield pr, "f(A,B,C,X,Y)", "%s(%s,%s,%s)" % (pr, t, g, i)
            for tail in ["T", "[]", "[z]", "[z|T]", "a", "[z|b]", "L", "A", "C", "X"]:
                for g in ("r(X)", "e(X)", "t(X)", "G"):
                    yield "findall/4", "f(A,B,C,X,T,L)", "findall(%s,%s,%s,%s)" % (t, g, i, tail)
    for g1 in ("r(X)", "e(X)", "p(X,Y)", "t(X)", "G", "undefd(X)", "1"):
        for g2 in ("X>0", "r(X)", "X=1", "p(X,a)", "fail", "true", "throw(z)", "H", "2", "!", "undefd(X)"):
            for p in ("", "X=1,", "Y=a,"):
                yield "forall", "f(X,Y)", "%sforall(%s,%s)" % (p, g1, g2)


def fam_keys(tier):
    """bagof and setof of every sequence of (value, key) pairs over a small universe with variables"""
    keys = ["1", "a", "K", "f(K)", "f(J)", "_", "f(_)", "f(_,_)", "2.0"]
    vals = ["a", "b", "V", "K"]
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for ks in itertools.product(keys[:7 if k == 3 else 9 if k < 3 else 5], repeat=k):
            for vs in (itertools.product(vals, repeat=k) if k < 3 else [("b", "a", "b", "a")[:k], ("a", "V", "a", "V")[:k], ("K", "b", "a", "K")[:k]]):
                l = ",".join("%s-%s" % x for x in zip(vs, ks))
                yield "bagof keys", "f(Y,L,K,J,V)", "bagof(X,member(X-Y,[%s]),L)" % l
                yield "setof keys", "f(Y,L)", "setof(X,K^J^V^member(X-Y,[%s]),L)" % l
                yield "bagof struct key", "f(Y,Z,L)", "bagof(X,K^J^V^member(X-Y,[%s]),L)" % l


def fam_nested(tier):
    """collectors inside collectors, left normally, by failure, with choice points or by an exception at every level"""
    leaf = ["r(Y)", "p(X,Y)", "t(Y)", "(Y=1;throw(x))", "(Y=1;Y=2;throw(x))", "e(Y)", "throw(x)", "(r(Y),Y>1)"]
    coll = ["findall(Y,%s,L)", "findall(Y-X,%s,L,[z])", "bagof(Y,%s,L)", "setof(Y,X^%s,L)", "forall(%s,Y>0)", "\\+ %s", "once(%s)"]
    wrap = ["%s", "catch(%s,_,true)", "(%s;true)", "\\+ %s", "catch((%s,throw(y)),_,r(L))", "(%s->true;L=n)"]
    outer = ["findall(X-L,(r(X),%s),M)", "bagof(X-L,Y^(member(X,[1,3]),%s),M)", "setof(X-L,Y^(r(X),%s),M)", "findall(X-L,(r(X),%s,r(_)),M)", "catch(findall(X-L,((r(X),%s);throw(z)),M),_,findall(X,r(X),M))",
             "findall(N,(member(X,[1,2]),findall(L,%s,N)),M)", "r(X),%s,findall(X,r(X),M)", "findall(X,r(X),N),%s,findall(X,r(X),M)"]
    for o in outer:
        for w in wrap:
            for c in coll:
                for l in leaf:
                    yield "nested", "f(X,Y,L,M,N)", o % (w % (c % ("(%s)" % l)))
    if tier != "quick":
        for o in outer:
            for w in wrap:
                for c in coll:
                    for w2 in wrap:
                        for c2 in coll[:4]:
                            for l in leaf:
                                yield "nested 3", "f(X,Y,L,M,N)", o % (w % (c % ("(%s)" % (w2 % c2.replace("L", "K") % ("(%s)" % l)).replace("r(L)", "r(K)"))))


def fam_terms(tier):
    """instances are faithful fresh copies"""
    terms = ["X", "f(X,X)", "f(X,Y,X)", "[X,Y|Z]", "g(f(X),f(X),h(Y,[Z,Z]))", "1.5", "a", "[]", "[a|X]", "(-(1))", "f(A)", "f(A,X,A)", "152921504606846976-X", "[[[X]],Y,[X|Y]]", "{X,Y}"]
    for t in terms:
        for u in terms[:6]:
            for pr in ("findall(T,(T=%s;T=%s;A=1,T=%s),L)", "bagof(T,X^Y^Z^(T=%s;T=%s;T=%s),L)", "setof(T-N,X^Y^Z^A^(N=1,T=%s;N=2,T=%s;N=1,T=%s),L)", "bagof(T,(T=%s;T=%s;T=%s),L)"):
                for after in ("", ",L=[E|_],E=f(k,k)", ",X=z"):
                    yield "instances", "f(L,X,Y,Z,A)", pr % (t, u, t) + after
    for n in (0, 1, 2, 255, 256, 257, 1000):
        yield "many", "f(N,S)", "findall(X,between(1,%d,X),L),len(L,0,N),findall(X,(member(X,L),X> %d),S)" % (n, n - 2)
        yield "many", "f(K,N)", "bagof(X,(between(1,%d,X),K is X mod 3),L),len(L,0,N)" % n
    big = "f(%s)" % ",".join("X%d" % k for k in range(60))
    yield "vars", "L", "bagof(Y,member(Y-%s,[1-%s,2-%s]),L)" % (big, big, big.replace("X", "Z"))
    yield "vars", "L", "setof(%s,%s=Q,L)" % (big, big)


def native(i, n, tier):
    """the same predicates in compiled clauses, on environment variables"""
    ref = Ref(DB)
    k = 0
    from vlib.refpl import parse_program
    for pr in ("findall", "bagof", "setof"):
        for t in ("X", "Y", "X-Y", "V", "V-X"):
            for g in ("p(X,Y)", "q(X,Y)", "p(X,V)", "Y^p(X,Y)", "Y^q(V,Y)", "(r(X),p(X,Y))", "(p(X,Y);q(X,Y))", "findall(Y,p(X,Y),V)", "X^V^(V=1,p(X,Y))", "G", "Y^G", "call(p(X,Y))", "e(X)"):
                for pos in ("r(V),%s,r(V)", "%s,r(V)", "r(V),%s", "%s"):
                    if pr == "findall" and "^" in g:
                        continue
                    k += 1
                    if k % n != i:
                        continue
                    body = pos % ("%s(%s,%s,L)" % (pr, t, g))
                    cl = "@@(G,X,V,L) :- " + body
                    calls = []
                    for goal in ("@@(p(X,Y),X,V,L)", "@@(p(X,Y),2,V,L)", "@@(q(X,Z),Y,V,[A|B])", "r(Z),@@(p(Z,Y),Z,V,L)"):
                        nm = "p0_"
                        rf = Ref(DB + cl.replace("@@", nm) + ".\n")
                        e = rf("f(X,Y,Z,V,L,A,B)", "(%s)" % goal.replace("@@", nm), 20)
                        if e is not None:
                            calls.append((20, "f(X,Y,Z,V,L,A,B)", goal, e))
                    if calls:
                        yield "native", [cl], calls


def main():
    ck = Check("C16")
    ref = Ref(DB, steps=60000)
    exe = server_exe(DB)
    for nm, g in (("free variables", fam_basic), ("arguments and errors", fam_args), ("keys", fam_keys), ("nested", fam_nested), ("instances", fam_terms)):
        run_goals(ck, nm, exe, g, ref, 20)
    run_units(ck, "compiled", native, [("native", ()), ("consult", ())] + ([("native", ("--no-inline",)), ("assert", ())] if ck.thorough else []), shared=DB)
    ck.assumptions = ["the order of two distinct variables inside instances is not judged; groups whose keys are variants are ordered by first occurrence of their variables, as documented in the source"]
    return ck.finish(rule="every goal of the families against the reference interpreter, all solutions")


if __name__ == "__main__":
    main()
