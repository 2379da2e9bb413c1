"""C10: standard order of terms and the sorting predicates."""
import itertools
from functools import cmp_to_key
from vlib.report import Check
from vlib.cases import run_cases, server_exe
from vlib.progs import run_units
from vlib.goals import Ref
from vlib.refpl import parse, compare, fmt, lst, VarOrder
import vlib.refterm

G = ["1", "2", "-1", "0", "1.0", "1.5", "-1.0", "0.0", "-0.0", "2.0", "268435456", "1152921504606846975", "-1152921504606846976", "1.0e19", "-1.0e19", "9007199254740993", "9007199254740992.0",
     "1152921504606846975.0", "a", "b", "'A'", "ab", "''", "'a b'", "[]", "'[]'", "{}", "'{}'", "'\\xe9\\'", "aa", "z", "'~'", "0'a",
     "f(a)", "f(b)", "g(a)", "f(1)", "f(1.0)", "f(a,a)", "f(a,b)", "f(b,a)", "g(a,a)", "'.'(a,b)", "[a]", "[b]", "[a,b]", "[[]]", "f([a])", "a-b", "b-a", "1-a", "f(f(a))", "f(f(b),a)", "{a}",
     "f(a,b,c)", "e(a,b,c)", "f(-1)", "- a", "\"a\"", "f(g(1),h(2))", "f(g(1),h(1.5))", "ff(a)", "'F'(a)", "f([])", "f('')", "'.'(a,b,c)"]
OPS = ["==", "\\==", "@<", "@=<", "@>", "@>="]


def order(a, b):
    return compare(a, b)


def holds(op, c):
    return {"==": c == 0, "\\==": c != 0, "@<": c < 0, "@=<": c <= 0, "@>": c > 0, "@>=": c >= 0}[op]


def pairs(i, n, tier):
    ts = [(g, parse(g)[0]) for g in G]
    for k, ((ga, a), (gb, b)) in enumerate(itertools.product(ts, repeat=2)):
        if k % n != i:
            continue
        c = order(a, b)
        exp = "=r(%s)\tmore" % ",".join(["<=>"[c + 1] if "<=>"[c + 1] != "<" else "<"] + [str(int(holds(o, c))) for o in OPS])
        g = "compare(O,%s,%s),%s" % (ga, gb, ",".join("((%s) %s (%s)->R%d=1;R%d=0)" % (ga, o, gb, j, j) for j, o in enumerate(OPS)))
        yield "%s ? %s" % (ga, gb), 1, "r(O,%s)" % ",".join("R%d" % j for j in range(6)), g, exp
        if k % 3 == 0:
            for o in ("<", "=", ">", "a", "1", "f(x)"):
                e = ("=x\tmore" if o == "<=>"[c + 1] else "no") if o in "<=>" else "!domain_error(order,a)" if o == "a" else "!type_error(atom,%s)" % o
                yield "compare(%s,%s,%s)" % (o, ga, gb), 1, "x", "compare(%s,%s,%s)" % (o, ga, gb), e


def variables(i, n, tier):
    """variables: before everything else, equal to themselves only, and ordered consistently"""
    if i:
        return
    for g in G:
        yield "var @< %s" % g, 1, "x", "X @< %s, %s @> X, compare(<,X,%s), X \\== %s, msort([%s,X],[A|_]), A==X" % (g, g, g, g, g), "=x\tmore"
        yield "fdvar @< %s" % g, 1, "x", "fd_domain(X,1,5), X @< %s, %s @> X, compare(<,X,%s), X \\== %s, msort([%s,X],[A|_]), A==X" % (g, g, g, g, g), "=x\tmore"
    yield "same var", 1, "x", "compare(=,X,X), X==X, \\+ X @< X, Y=X, compare(=,X,Y), f(X,Y)==f(Y,X)", "=x\tmore"
    for w in ("X", "f(X)", "[a|X]", "g(a,X)"):
        y, z = w.replace("X", "Y"), w.replace("X", "Z")
        yield "var order " + w, 1, "x", ("compare(A,%s,%s),compare(B,%s,%s),member(A-B,[(<)-(>),(>)-(<)]),msort([%s,%s],L1),msort([%s,%s],L2),L1==L2,sort([%s,%s,%s,%s],L3),L3==L1"
                                        % (w, y, y, w, w, y, y, w, w, y, w, y)), "=x\tmore"
        yield "var order 3 " + w, 1, "x", ("findall(x,(permutation([X,Y,Z],[P,Q,R]),\\+ (%s@<%s,%s@<%s,\\+ %s@<%s)),L),length(L,6)"
                                          % tuple(w.replace("X", v) for v in "PQQRPR")), "=x\tmore"
    yield "float vs var", 1, "x", "msort([1.0,X,a,f(Y),1,Y,\"s\"],L),nth(1,L,A),nth(2,L,B),var(A),var(B),A\\==B", "=x\tmore"


KEYS = ["b", "a", "c", "1", "f(a)", "1.0"]


def show(items):
    return fmt(lst(items))


def slists(lists):
    def fn(i, n, tier):
        for k, l in enumerate(lists(tier)):
            if k % n != i:
                continue
            ts = [parse(x)[0] for x in l]
            m = sorted(ts, key=cmp_to_key(order))
            s = []
            for x in m:
                if not s or order(s[-1], x):
                    s.append(x)
            src = "[%s]" % ",".join(l)
            yield src, 1, "r(S,M,S1,M1)", "sort(%s,S),msort(%s,M),S1=%s,sort(S1),M1=%s,msort(M1)" % (src, src, src, src), \
                "=r(%s,%s,%s,%s)\tmore" % (show(s), show(m), show(s), show(m))
            pr = "[%s]" % ",".join("%s-%d" % (x, j) for j, x in enumerate(l))
            kv = [parse("%s-%d" % (x, j))[0] for j, x in enumerate(l)]
            kv.sort(key=cmp_to_key(lambda a, b: order(a.args[0], b.args[0])))
            yield "key " + src, 1, "r(S,S1)", "keysort(%s,S),S1=%s,keysort(S1)" % (pr, pr), "=r(%s,%s)\tmore" % (show(kv), show(kv))
    return fn


def lists(tier):
    q = tier == "quick"
    for n in range(0, 5 if q else 6):
        yield from itertools.product(KEYS, repeat=n)
    for n in range(5, 9 if q else 11):
        yield from itertools.product(KEYS[:2], repeat=n)
    for n in range(5, 8 if q else 9):
        yield from itertools.product(KEYS[:3], repeat=n)
    for n in (5, 6, 7) if q else (5, 6, 7, 8):
        yield from itertools.permutations(["1", "2", "3", "a", "b", "f(a)", "f(b)", "2.5"][:n])


# (goal, expected): checks of the arguments, in the order the manual gives
ERRS = [("%s(X,Y)", "!instantiation_error"), ("%s([a-1|X],Y)", "!instantiation_error"), ("%s(a,Y)", "!type_error(list,a)"), ("%s([a-1|b],Y)", "!type_error(list,'.'(-(a,1),b))"),
        ("%s([a-1],b)", "!type_error(list,b)"), ("%s([a-1],[X|b])", "!type_error(list,'.'('_G'(0),b))"), ("%s([],X)", "=x\tmore"), ("%s([],[])", "=x\tmore"), ("%s([],[X])", "no"),
        ("%s([b-1,a-2],[a-2|X])", "=x\tmore"), ("%s([b-1,a-2],[X,Y])", "=x\tmore"), ("%s([b-1,a-2],[b-1|X])", "no"), ("%s([b-1,a-2],[X])", "no"), ("%s([b-1,a-2],[X,Y,Z])", "no"),
        ("%s([a-1],[a-X])", "=x\tmore"), ("X=[b-1|Y],Y=[a-2],%s(X,[A-2,b-1]),A==a", "=x\tmore"), ("X=z,%s([X-1,a-X],L),L==[a-z,z-1]", "=x\tmore")]


def errors(i, n, tier):
    if i:
        return
    for p in ("sort", "msort", "keysort"):
        for g, e in ERRS:
            yield "%s %s" % (p, g), 1, "x", g % p, e
        for g, e in [("X", "!instantiation_error"), ("[a-1|X]", "!instantiation_error"), ("a", "!type_error(list,a)"), ("[a-1|b]", "!type_error(list,'.'(-(a,1),b))"), ("[]", "=x\tmore")]:
            yield "%s/1 %s" % (p, g), 1, "x", "%s(%s)" % (p, g), e
    for g, e in [("keysort([X],Y)", "!instantiation_error"), ("keysort([a],Y)", "!type_error(pair,a)"), ("keysort([a-1],[b])", "!type_error(pair,b)"), ("keysort([a-1,f(x)],Y)", "!type_error(pair,f(x))"),
                 ("keysort([a-1],[X])", "=x\tmore"), ("keysort([a-1,X],Y)", "!instantiation_error"), ("keysort([a-1],[b|X])", "!type_error(pair,b)"),
                 ("keysort([a-1,b])", "!type_error(pair,b)"), ("keysort([a-1,X])", "!instantiation_error"),
                 # values and variables in the list are kept as they are
                 ("keysort([b-X,a-Y,b-Z,a-X],L),L==[a-Y,a-X,b-X,b-Z]", "=x\tmore"), ("sort([f(X),f(X),X],L),L==[X,f(X)]", "=x\tmore"),
                 ("msort([g(X),a,g(X)],L),L==[a,g(X),g(X)]", "=x\tmore"), ("(sort([b,a],L),fail;var(L))", "=x\tmore"), ("sort([c,X,b],[X|L]),L==[b,c],var(X)", "=x\tmore")]:
        yield g, 1, "x", g, e


# in-place sorts of lists whose cells hold variables: the variable itself must not change
NATIVE = ["@@(R):- L=[b,X,a],%s(L),R=L-X"]


def native(i, n, tier):
    if i:
        return
    for p in ("sort", "msort"):
        for c in NATIVE:
            yield "%s/1 %s" % (p, c), [c % p], [(1, "R", "@@(R)", "=-('.'('_G'(0),'.'(a,'.'(b,[]))),'_G'(0))\tmore")]


def main():
    ck = Check("C10")
    exe = server_exe("")
    run_cases(ck, "pairs", exe, pairs, 8)
    run_cases(ck, "variables", exe, variables, 1)
    run_cases(ck, "lists", exe, slists(lists), 32)
    run_cases(ck, "arguments", exe, errors, 1)
    run_units(ck, "in place", native, [("native", ())], 1)
    ck.assumptions = ["the order between two distinct variables is only required to be a fixed strict order"]
    return ck.finish(rule="all ordered pairs of the universe; all lists over the key alphabets up to the bounds, for the six sorting predicates")


if __name__ == "__main__":
    main()
