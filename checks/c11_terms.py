"""C11: term inspection, construction, copying and type checking."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.progs import run_units
from vlib.goals import Ref, run_goals
import vlib.refterm

TM = "t(X,Y,Z)"
T = ["X", "Y", "a", "1", "-1", "1.5", "[]", "f(X)", "f(X,Y)", "f(Y,X,Y)", "[X|Y]", "[a]", "[X,b]", "f(g(X),[Y,X])", "{X}", "-(1)", "\"ab\"", "f(a,b,c)", "[a|b]", "[X,Y|X]",
     "g(f(X,Y),f(X,Y))"]
F = ["X", "Z", "f", "a", "'.'", "[]", "{}", "1", "1.5", "g(Z)", "[a]", "-"]
N = ["Y", "Z", "0", "1", "2", "3", "-1", "a", "1.0", "255", "256", "257", "f(1)", "4"]
L = ["Z", "[]", "[f]", "[f,Z]", "[f,a,Y]", "[Z]", "[Z|Y]", "[f|Z]", "[1]", "[1,2]", "[1.5]", "[f(a)]", "[f(a),b]", "[f|a]", "a", "['.',a,b]", "[Y,a]", "[X,Y]", "[[]]", "[[],a]",
     "f(a)", "[f,X,Y]", "[{},Z]", "[-,1]", "\"f\"", "[a|X]"]
TYPES = ["var", "nonvar", "atom", "integer", "float", "number", "atomic", "compound", "callable", "ground", "is_list", "list", "partial_list",
         "list_or_partial_list", "fd_var", "non_fd_var", "generic_var", "non_generic_var", "acyclic_term"]


def gen_functor(tier):
    for t in T:
        for f in F:
            for n in N:
                yield "functor", TM, "functor(%s,%s,%s)" % (t, f, n)
    for n in (1, 2, 5, 255):
        yield "functor big", "N-A-F", "functor(T,f,%d),arg(%d,T,x),functor(T,F,N),arg(%d,T,A)" % (n, n, n)


def gen_arg(tier):
    for n in N:
        for t in T:
            for a in ["Z", "X", "a", "1", "f(Z)", "[Z|X]"]:
                yield "arg", TM, "arg(%s,%s,%s)" % (n, t, a)


def gen_univ(tier):
    for t in T + ["Z", "f(a,b)"]:
        for l in L:
            yield "univ", TM, "%s =.. %s" % (t, l)
            yield "univ2", TM, "A = %s, B = %s, A =.. B" % (t, l)


def gen_copy(tier):
    cs = ["C", "X", "f(C)", "f(A,B)", "f(X,B)", "[A|B]", "a", "f(A,A)", "1", "g(A,A)", "f(A,B,A)", "f(g(A),[B,A])", "[A,B|A]"]
    for p in ["true", "X=Y", "Y=X", "X=f(Y)", "Y=[a|X]", "X=g(Y,Y)", "X=1.5", "Y=a"]:
        for t in T:
            for c in cs:
                yield "copy", "t(X,Y,A,B,C)", "%s,copy_term(%s,%s)" % (p, t, c)
            yield "copy2", "t(X,Y,C,D)", "%s,copy_term(%s,C),copy_term(C,D),X=z" % (p, t)
            yield "vars", "t(X,Y,C,D)", "%s,term_variables(%s,C)" % (p, t)
            yield "vars3", "t(X,Y,C,D)", "%s,term_variables(%s,C,D)" % (p, t)
            for l in ["[C]", "[C,D]", "[]", "[C|D]", "a", "[a|C]", "[Y|C]", "[C|a]"]:
                yield "vars", "t(X,Y,C,D)", "%s,term_variables(%s,%s)" % (p, t, l)
                yield "vars3", "t(X,Y,C,D)", "%s,term_variables(%s,%s,D)" % (p, t, l)
                yield "vars3", "t(X,Y,C,D)", "%s,term_variables(%s,%s,[q])" % (p, t, l)
            yield "shared", "t(X,Y,Z,C)", "%s,Z=h(%s),copy_term(k(Z,Z,X,Z),C)" % (p, t)


def gen_subsumes(tier):
    vs = ["X", "Y", "Z", "a", "f(X)", "f(Y)", "f(X,Y)", "f(X,X)", "f(Y,Z)", "f(a,Z)", "f(Z,Z)", "[X|Y]", "[a|Z]", "f(X,f(Y))", "f(Z,f(Z))", "1", "f(f(X),f(Y))", "f(Y,X)", "[X,Y]"]
    for p in ["true", "X=Y", "X=a", "Y=f(Z)", "X=f(Y)"]:
        for a in vs:
            for b in vs:
                yield "subsumes", TM, "%s,subsumes_term(%s,%s)" % (p, a, b)


def gen_setarg(tier):
    ts = ["f(a)", "f(a,b)", "f(X,Y)", "[a,b]", "X", "a", "g(f(a),Y)"]
    ns = ["1", "2", "3", "0", "-1", "X", "a", "1.0"]
    vs = ["c", "Z", "X", "g(Z,X)", "[Z]", "1", "1.5"]
    for t in ts:
        for n in ns:
            for v in vs:
                for op in ("setarg(%s,A,%s)", "setarg(%s,A,%s,true)", "nb_setarg(%s,A,%s)", "setarg(%s,A,%s,false)"):
                    yield "setarg", "t(X,Y,Z,A)", "A=%s,(%s;true)" % (t, op % (n, v))
            for u in ("X", "a", "1", "f"):
                yield "setarg4", "t(X,Y,Z,A)", "A=%s,setarg(%s,A,c,%s)" % (t, n, u)
    ops = ["setarg(1,A,b)", "setarg(1,A,Z)", "setarg(2,A,g(Y))", "setarg(2,A,A0)", "nb_setarg(1,A,c)", "Y=b", "Z=d", "setarg(1,A,[Y|Z])", "arg(1,A,Y)", "(setarg(1,A,e);true)",
           "(nb_setarg(2,A,1);true)"]
    for a, b, c in itertools.product(ops, repeat=3):
        # destructive assignments that survive backtracking into a part created after a choice point are unspecified
        yield "setargs", "t(Y,Z,A)", "A=f(a,Y),(%s,%s,%s;true)" % (a, b, c)


def gen_types(tier):
    for p in ["true", "X=a", "X=[Y]", "X=Y", "X=[a|Y]", "X=1", "X=1.5", "X=[]", "X=f(Y)", "Y=[],X=[Y|Y]", "X=[a|b]", "X='[]'", "X=\"\"", "X=[a,b|c]", "X={}", "X=(:-)", "X=(a:-b)",
              "X= -1", "X=[[Y]|[]]"]:
        for t in TYPES:
            for x in ["X", "f(X)", "[X]", "[X|Y]", "[a|X]"]:
                if t.find("fd_") >= 0 or t.find("generic") >= 0 or t == "acyclic_term":
                    continue
                yield "type", "t(X,Y)", "%s,%s(%s)" % (p, t, x)


def fdtypes(i, n, tier):
    """an FD variable counts as a variable for the generic tests and the term inspectors"""
    if i:
        return
    S = "fd_domain(Q,[1,3,5]),"
    for g, e in [("fd_var(Q)", 1), ("var(Q)", 0), ("generic_var(Q)", 1), ("non_generic_var(Q)", 0), ("non_fd_var(Q)", 0), ("integer(Q)", 0),
                 ("ground(f(Q))", 0), ("ground(Q)", 0), ("Q=3,integer(Q)", 1), ("Q=3,fd_var(Q)", 0), ("Q=2", 0), ("fd_var(_)", 0), ("fd_var(1)", 0), ("fd_var(f(Q))", 0),
                 ("generic_var(_)", 1), ("non_generic_var(_)", 0), ("non_fd_var(_)", 1), ("non_fd_var(1)", 1), ("non_generic_var(1)", 1), ("term_variables(f(Q,X,Q),[A,B]),A==Q,B==X", 1),
                 ("copy_term(f(Q,X),f(A,B)),A==Q", 0), ("copy_term(f(Q,Q),f(A,B)),A==B,fd_var(A),fd_dom(A,[1,3,5]),fd_dom(Q,[1,3,5])", 1),
                 ("copy_term(f(Q,Q),f(A,B)),A=3,B==3,fd_var(Q),fd_dom(Q,[1,3,5])", 1), ("copy_term(Q,2)", 0), ("copy_term(Q,3),fd_dom(Q,[1,3,5])", 1),
                 ("copy_term(f(Q),f(A)),A#>1,fd_dom(Q,[1,3,5])", 1), ("T=f(Q,a),copy_term(T,U),U=f(A,_),fd_dom(A,[1,3,5]),Q=5,fd_var(A)", 1),
                 ("setarg(1,f(a),Q)", 1), ("T=f(a),setarg(1,T,Q),arg(1,T,A),A==Q,Q=3,T==f(3)", 1), ("functor(Q,F,N)", None)]:
        if e is not None:
            yield "fd " + g, 1, "x", S + g, "=x\tmore" if e else "no"


OPS1 = ["setarg(1,T,X)", "setarg(1,T,X,true)", "setarg(2,T,X)", "setarg(1,T,f(X))", "setarg(1,T,[X|Y])", "arg(1,T,X)", "X=..[Y|T]", "T=..[Y|X]",
        "copy_term(X,Z),setarg(1,T,Z)", "functor(X,f,1),setarg(1,T,X)", "term_variables(X-Y,[Z|_]),setarg(1,T,Z)", "term_variables(X-Y,Z),setarg(1,T,Z)", "term_variables(X,Z),setarg(1,T,Z)",
        "term_variables(X,Z,Y),setarg(1,T,Z)", "term_variables(Y,Z,X),setarg(1,T,Z)", "setarg(1,T,X),setarg(2,T,X)"]


def native(i, n, tier):
    """the built-ins called with variables that live in the environment of the clause, whose frame is then reused"""
    k = 0
    for o in OPS1:
        for w in ("true", "@@n(Y)", "@@n(X)", "@@n(X,Y)"):
            for use in ("X=1", "@@set(X,1)", "true", "Y=2,X=Y"):
                k += 1
                if k % n != i:
                    continue
                cl = ["@@(T,R):- @@n(W),%s,%s,@@n(W,X),%s,@@d(1,2,3,4,5,6,7,8,D),@@n(D,W),R=r(T,X,Y)" % (w, o, use),
                      "@@a(T):- @@n(W),%s,%s,@@n(W)" % (w, o), "@@b(T,R):- @@a(T),@@d(1,2,3,4,5,6,7,8,D),@@n(D),R=T",
                      "@@c(T):- %s,%s" % (w, o), "@@e(T,R):- @@c(T),@@d(1,2,3,4,5,6,7,8,D),@@n(D),R=T",
                      "@@n(_)", "@@n(_,_)", "@@set(X,X)", "@@d(A,B,C,D,E,G,H,I,F):- @@n(A),@@n(B),@@n(C),@@n(D),@@n(E),@@n(G),@@n(H),@@n(I),@@n(F),F=[A,B,C,D,E,G,H,I]"]
                ref = Ref("".join(c.replace("@@", "p_") + ".\n" for c in cl))
                out = []
                for g in ("@@(f(a,b),R)", "@@(f(A,B),R)", "@@b(f(a,b),R)", "@@b(f(A,B),R)", "@@e(f(a,b),R)", "@@e(f(A,A),R)"):
                    e = ref("t(A,B,R)", g.replace("@@", "p_"))
                    if e is not None:
                        out.append((8, "t(A,B,R)", g, e))
                yield "%s / %s / %s" % (o, w, use), cl, out


def nativefd(i, n, tier):
    """an FD variable stored by setarg is the variable itself, not a copy of its cell"""
    cl = ["@@(R):- T=f(a,b),fd_domain(X,1,5),setarg(1,T,X),@@n(X),X=3,R=T", "@@a(R):- T=f(a,b),fd_domain(X,1,5),setarg(1,T,X),arg(1,T,Y),Y#>3,fd_dom(X,R)",
          "@@b(R):- T=f(a,b),fd_domain(X,1,5),setarg(1,T,X),arg(1,T,Y),(Y==X->R=same;R=different)", "@@n(_)"]
    if not i:
        yield "fd", cl, [(1, "R", "@@(R)", "=f(3,b)\tmore"), (1, "R", "@@a(R)", "='.'(4,'.'(5,[]))\tmore"), (1, "R", "@@b(R)", "=same\tmore")]


def main():
    ck = Check("C11")
    exe = server_exe("")
    ref = Ref()
    for nm, g in (("functor", gen_functor), ("arg", gen_arg), ("univ", gen_univ), ("copy_term, term_variables", gen_copy), ("subsumes_term", gen_subsumes),
                  ("setarg", gen_setarg), ("types", gen_types)):
        run_goals(ck, nm, exe, g, ref, 3, 8)
    run_cases(ck, "fd variables", exe, fdtypes, 1)
    modes = [("native", ()), ("native", ("--no-inline",)), ("consult", ()), ("assert", ())]
    run_units(ck, "environment variables", native, modes, 4)
    run_units(ck, "environment FD variables", nativefd, modes, 1)
    return ck.finish(rule="every argument tuple over the term universe, for every predicate of the group")


if __name__ == "__main__":
    main()
