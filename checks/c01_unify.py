"""C01: unification yields a most general unifier or fails without a trace."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe
from vlib.goals import Ref, run_goals
from vlib.progs import run_units
import vlib.refterm

T0 = ["X", "Y", "Z", "a", "b", "1", "-1", "1.5", "0.0", "-0.0", "[]", "'[]'", "f", "1152921504606846975"]
T1 = ["f(X)", "f(Y)", "f(a)", "g(X)", "f(X,Y)", "f(Y,X)", "f(X,X)", "f(a,Z)", "f(Z,b)", "[X]", "[X|Y]", "[Y|X]", "[a|Z]", "[a,b]", "[X,Y]",
      "f(f(X),Y)", "f(Y,f(Z))", "f(X,g(X))", "[f(X)|X]", "'.'(X,Z)", "f(1.5,X)", "f(X,Y,Z)", "f(Z,X,Y)", "f(g(Y),g(Z),g(X))",
      "[X,Y|Z]", "[[]|X]", "f([X],Y)", "'\\b'(X)", "-(X)", "-(1)", "- 1", "{X}", "f(f(f(Z)))", "\"\"", "\"ab\"", "f(X,f(Y,f(Z,a)))", "f(f(f(a,X),Y),Z)"]
PRE = ["true", "X=Y", "Y=X", "X=Y,Y=Z", "Z=Y,Y=X", "X=Z,Y=Z", "X=a", "X=f(Y)", "Y=f(Z),X=Y", "X=[Y|Z]", "Z=1", "X=Y,Y=b", "X=f(Y,Z)", "Y=1.5",
       "functor(X,f,2)", "X=f(A,A),Y=g(A)"]
TM = "t(X,Y,Z)"


def eqs(terms, pre, ops):
    def gen(tier):
        for p in pre:
            for a in terms:
                for b in terms:
                    for o in ops:
                        yield "%s, %s %s %s" % (p, a, o, b), TM, ("%s,%s" % (p, o)) % (a, b)
    return gen


def two(tier):
    """two equations in a row, and what is left after a failed one"""
    t = ["X", "Y", "Z", "a", "f(X)", "f(Y)", "f(X,Y)", "f(Z,X)", "[X|Y]", "[Z]", "f(a,Z)"]
    prs = list(itertools.product(t, repeat=2))
    for a, b in prs:
        for c, d in prs:
            yield "two", TM, "%s=%s,(%s=%s;true)" % (a, b, c, d)
    if tier != "quick":
        for a, b in prs:
            for c, d in prs:
                for e, f in prs[::7]:
                    yield "three", TM, "%s=%s,%s=%s,(%s=%s;true)" % (a, b, c, d, e, f)


def native(i, n, tier):
    """the same equations compiled: each variable first seen, seen before, permanent, argument"""
    ts = T0[:5] + ["1.5", "[]"] + T1[:17] if tier == "quick" else T0 + T1
    k = 0
    for a in ts:
        for b in ts:
            k += 1
            if k % n != i:
                continue
            cl = ["@@(X,t(X,Y,Z)):- %s = %s" % (a, b), "@@a(X,t(X,Y,Z)):- Y=Z,@@n(Z),%s = %s,@@n(Y)" % (a, b), "@@n(_)",
                  "@@b(X,Y,Z,no):- \\+ %s = %s,!" % (a, b), "@@b(X,Y,Z,t(X,Y,Z)):- %s = %s,!" % (a, b), "@@b(X,Y,Z,differs)"]
            r2 = Ref("".join(c.replace("@@", "p_") + ".\n" for c in cl))
            out = []
            for g in ("@@(X,R)", "@@(a,R)", "@@(f(V),R)", "@@([V|W],R)", "@@(f(V,V),R)", "@@a(X,R)", "@@a(f(X,W),R)", "@@b(X,Y,Z,R)",
                      "@@b(a,Y,Y,R)", "@@b(f(Y),Y,Z,R)", "@@b(X,f(X),b,R)"):
                e = r2("R", g.replace("@@", "p_"))
                if e is not None:
                    out.append((8, "R", g, e))
            yield "%s = %s" % (a, b), cl, out


FDSETS = [(0, 1, 2, 3), (2, 3, 4), (5, 6), (0, 2, 4), (1, 3, 5), (3, 4)]


BIGI = sorted(h + v for h in (2**32, -2**32, 2**33, 2**40, -2**60) for v in range(0, 6))
# native code: head, structure in head, body, clause choice
NAT = "".join("nh(%d,%d).\nns(%d,X):-nss%d(f(X)).\nnss%d(f(%d)).\nnt(%d,X):-ntt%d([X|x]).\nntt%d([%d|x]).\nnb(%d,X):-X= %d.\nnc(%d,X):-f(X,Y)=f(%d,_),atom_length(a,_),Y=b.\n"
              % (v, v, v, k, k, v, v, k, k, v, v, v, v, v) for k, v in enumerate(list(range(-1, 7)) + BIGI))
NAT = "\n".join(sorted(NAT.splitlines())) + "\nnd(V,X):-ne(X),V==X.\n" + "".join("ne(%d).\n" % v for v in list(range(-1, 7)) + BIGI)


def fdcases(i, n, tier):
    k = 0

    def show(s):
        s = sorted(s)
        return "'.'(%s" % ",'.'(".join(map(str, s)) + ",[]" + ")" * len(s)
    for a in FDSETS:
        for b in FDSETS:
            inter = sorted(set(a) & set(b))
            for form, goal in (("=", "P=Q"), ("rev", "Q=P"), ("f", "f(P,x)=f(Q,x)"), ("f2", "f(P,Q)=f(Q,P)"), ("l", "[P|T]=[Q|T]"), ("uoc", "unify_with_occurs_check(P,Q)"),
                               ("via", "V=P,V=Q"), ("via2", "f(V,V)=f(P,Q)"), ("neq", "\\+ P\\=Q,P=Q")):
                k += 1
                if k % n != i:
                    continue
                g = "fd_domain(P,[%s]),fd_domain(Q,[%s]),%s,(integer(P)->D=[P],E=[Q];fd_dom(P,D),fd_dom(Q,E))" % (
                    ",".join(map(str, a)), ",".join(map(str, b)), goal)
                yield "fd %s %s %s" % (a, b, form), 3, "D-E", g, \
                    ("=-(%s,%s)\tno" % (show(inter), show(inter)) if inter else "no")
        for v in range(-1, 7):
            for goal in ("P= %d", "%d=P", "f(P)=f(%d)", "[%d|x]=[P|x]", "V=P,V= %d", "V= %d,V=P"):
                k += 1
                if k % n == i:
                    yield "fd %s %d" % (a, v), 3, "P", "fd_domain(P,[%s])," % ",".join(map(str, a)) + goal % v, ("=%d\tno" % v if v in a else "no")
        for w in BIGI:
            # no domain holds them
            for goal in ("P= %d", "%d=P", "f(P,x)=f(%d,x)", "[%d|x]=[P|x]", "unify_with_occurs_check(P,%d)", "call(=,%d,P)") + tuple(
                    h + "(%d,P)" for h in ("nh", "ns", "nt", "nb", "nc", "nd")):
                k += 1
                if k % n == i:
                    yield "fd %s %d" % (a, w), 3, "x", "fd_domain(P,[%s])," % ",".join(map(str, a)) + goal % w, "no"
        for v in range(-1, 7):
            for h in ("nh", "ns", "nt", "nb", "nc", "nd"):
                k += 1
                if k % n == i:
                    yield "fd %s %s %d" % (a, h, v), 3, "P", "fd_domain(P,[%s])," % ",".join(map(str, a)) + "%s(%d,P)" % (h, v), ("=%d\tno" % v if v in a else "no")
        for v in ("a", "[]", "f(x)", "[1]", "1.0", "f(P)"):
            k += 1
            if k % n == i:
                # an FD variable unifies with integers only
                yield "fd %s %s" % (a, v), 3, "x", "fd_domain(P,[%s]),(P=%s;%s=P)" % (",".join(map(str, a)), v, v), "no"


def main():
    ck = Check("C01")
    exe = server_exe("")
    # The goals: =, \\=, meta-called, through call/3 and unify_with_occurs_check
    allt = T0 + T1
    ops = ["%s = %s", "\\+ %s = %s", "unify_with_occurs_check(%s,%s)", "call(=,%s,%s)", "(%s \\= %s;true)"]
    ref = Ref()
    if ck.thorough:
        run_goals(ck, "pairs", exe, eqs(allt, PRE, ops), ref, 3, 32)
    else:
        run_goals(ck, "pairs", exe, eqs(allt, PRE[:1], ops), ref, 3)
        run_goals(ck, "aliased", exe, eqs(allt[:10:2] + T1, PRE[1:], ops[:1] + ops[2:3]), ref, 3, 32)
    run_goals(ck, "sequences", exe, two, ref, 3)
    run_cases_fd(ck, exe)
    run_units(ck, "compiled", native, [("native", ()), ("native", ("--no-inline",)), ("consult", ())] + ([("assert", ())] if ck.thorough else []), 8)
    ck.assumptions = ["pairs subject to the occurs check are compared for unify_with_occurs_check only"]
    return ck.finish(rule="every pair of the term universe x every prior aliasing x every way to unify")


def run_cases_fd(ck, exe):
    from vlib.cases import run_cases
    exe = server_exe(NAT, tag="fd")
    run_cases(ck, "fd", exe, fdcases, 8)


if __name__ == "__main__":
    main()
