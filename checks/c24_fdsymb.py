"""C24: symbolic constraints have exactly the solutions of their definition."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe
from vlib.fd import HELP, case, match
from checks.c23_fdbool import sat


def val(a, t, names):
    return t[names.index(a)] if type(a) is str else a


def build(i, n, tier, cases_, names, doms, acts, exact=False):
    """cases_ yields (key, goal text, predicate on the assignment)"""
    k = 0
    for key, g, f in cases_:
        for d in doms:
            base = None
            for a in acts:
                for pos in (0, 1):
                    if a == "true" and pos:
                        continue
                    k += 1
                    if k % n != i:
                        continue
                    if base is None:
                        base = {t for t in itertools.product(*d) if f(t)}
                    ps = [sat(x, names) for x in ([a] if a.startswith("fd_") else a.split(","))]
                    s = {t for t in base if all(p(t) for p in ps)}
                    parts = [g]
                    parts.insert(pos, a)
                    yield case("%s with %s" % (key, a), names, d, parts, s, s, exact)
            # posted before any domain is known
            k += 1
            if k % n == i:
                s = {t for t in itertools.product(*d) if f(t)}
                yield case("%s late" % key, names, d, [g], s, s, late=True)


NX = ("X", "Y", "Z")
ACT3 = ["true", "X=1", "X=2", "Y=1", "Y=3", "X=Y", "Y=Z", "X=2,Y=1", "Z=1,X=3", "X #\\= 2", "fd_domain(Y,[1,3])"]
D3 = [((0, 1, 2, 3), (1, 2, 3), (0, 1, 2, 3)), ((1, 3, 4), (2, 3), (1, 2, 5))]


def alldiff(i, n, tier):
    def gen():
        for m in range(0, 5):
            for l in itertools.product(["X", "Y", "Z", 1, 4], repeat=m):
                yield "fd_all_different", "fd_all_different([%s])" % ",".join(map(str, l)), lambda t, l=l: len(set(val(a, t, NX) for a in l)) == len(l)
    yield from build(i, n, tier, gen(), NX, D3 if tier == "quick" else D3 + [((1, 2), (1, 2), (1, 2)), ((0, 63), (63, 64), (0, 64))], ACT3)


def four(i, n, tier):
    """all_different over four variables, every assignment order of the first two"""
    names = ("X", "Y", "Z", "W")
    doms = [((0, 1, 2, 3),) * 4, ((1, 2), (1, 2), (1, 2, 3), (1, 2, 3, 4)), ((0, 1, 2),) * 4, ((63, 64, 127), (63, 64), (0, 127), (0, 63, 64, 127))]
    acts = ["true"] + ["%s=%d" % (v, c) for v in names for c in (0, 1, 2, 63, 64)] + ["%s=%d,%s=%d" % (a, x, b, y) for a, b in itertools.permutations(names, 2) for x in (1, 2) for y in (1, 3)] + ["X=Y", "Z=W"]
    yield from build(i, n, tier, [("fd_all_different/4", "fd_all_different([X,Y,Z,W])", lambda t: len(set(t)) == 4), ("fd_all_different/4+2", "fd_all_different([X,Y]),fd_all_different([Z,Y,W])", lambda t: t[0] != t[1] and len(set(t[1:])) == 3)], names, doms, acts)


def element(i, n, tier):
    names = ("X", "Y")
    acts = ["true", "X=1", "X=2", "X=4", "Y=1", "Y=2", "Y=0", "X=Y", "X #\\= 2", "Y #\\= 1", "fd_domain(X,[1,3])", "X=2,Y=3", "Y=3,X=1"]
    doms = [((0, 1, 2, 3, 4, 5), (0, 1, 2, 3)), ((1, 3), (1, 2)), ((0, 2, 4), (0, 3, 64))]
    for e in (True, False):
        def gen():
            for m in range(0, 5):
                for l in itertools.product([0, 1, 3, 64] if m < 4 else [1, 2, 3], repeat=m):
                    yield "fd_element", "fd_element(X,[%s],Y)" % ",".join(map(str, l)), lambda t, l=l: 1 <= t[0] <= len(l) and l[t[0] - 1] == t[1]
            for l in ([1, 2], [3, 1, 2], [2, 2], [1]):
                for x in (0, 1, 2, 3):
                    yield "fd_element", "fd_element(%d,%s,Y)" % (x, l), lambda t, l=l, x=x: 1 <= x <= len(l) and l[x - 1] == t[1]
                    yield "fd_element", "fd_element(X,%s,%d)" % (l, x), lambda t, l=l, x=x: 1 <= t[0] <= len(l) and l[t[0] - 1] == x
                yield "fd_element", "fd_element(X,%s,X)" % l, lambda t, l=l: 1 <= t[0] <= len(l) and l[t[0] - 1] == t[0]
        if e:
            yield from build(i, n, tier, gen(), names, doms, acts)


def element_var(i, n, tier):
    names = ("X", "Y", "Z")
    acts = ["true", "X=1", "X=2", "Y=1", "Z=2", "Z=0", "X=Y", "Y=Z", "X=Z", "X=2,Z=1", "Z=1,Y=2", "X #\\= 2", "fd_domain(Z,[1,3])"]
    doms = [((0, 1, 2, 3), (0, 1, 2), (0, 1, 2, 3)), ((1, 2), (2, 3), (1, 3)), ((2, 3), (0, 64), (0, 3, 64))]

    def gen():
        for m in range(0, 4):
            for l in itertools.product(["Y", "Z", "X", 1, 3], repeat=m):
                for r in ("Z", 2, "X"):
                    yield "fd_element_var", "fd_element_var(X,[%s],%s)" % (",".join(map(str, l)), r), lambda t, l=l, r=r: 1 <= t[0] <= len(l) and val(l[t[0] - 1], t, names) == val(r, t, names)
                yield "fd_element_var", "fd_element_var(2,[%s],Z)" % ",".join(map(str, l)), lambda t, l=l: len(l) >= 2 and val(l[1], t, names) == t[2]
    yield from build(i, n, tier, gen(), names, doms, acts)


def counts(i, n, tier):
    acts = ACT3 + ["X=1,Y=1", "X=1,Y=1,Z=1", "X=2,Z=2", "X #\\= 1", "Y #\\= 1"]

    def gen():
        for m in range(0, 5):
            ls = itertools.product(["X", "Y", "Z", 1, 2], repeat=m) if m < 3 else [("X", "Y", "Z"), ("X", "X", "Y"), ("X", 1, "Z"), ("Y", "Z", "X", 1), ("X", "Y", "X", "Y"), ("X", "Y", "Z", "X"), (1, 1, "X", 2)]
            for l in ls:
                if len(l) != m:
                    continue
                for c in (0, 1, 2, 3):
                    for v in (0, 1, 2):
                        for p, f in (("fd_atmost", lambda a, b: a <= b), ("fd_atleast", lambda a, b: a >= b), ("fd_exactly", lambda a, b: a == b)):
                            yield p, "%s(%d,[%s],%d)" % (p, c, ",".join(map(str, l)), v), lambda t, l=l, c=c, v=v, f=f: f(sum(val(a, t, NX) == v for a in l), c)
    yield from build(i, n, tier, gen(), NX, D3, acts)


def relations(i, n, tier):
    acts = ["true", "X=1", "Y=2", "Z=0", "X=Y", "Y=Z", "X=1,Y=0", "Z=1,X=0", "X #\\= 1", "Y #\\= 2", "fd_domain(Z,[0,2])"]
    doms = [((0, 1, 2),) * 3, ((0, 1), (1, 2), (0, 2))]
    tup = [(0, 0, 1), (1, 2, 0), (1, 0, 2), (2, 2, 2), (0, 1, 1)]

    def gen():
        for m in range(1, 5):
            for rel in itertools.product(tup, repeat=m) if m < 3 else itertools.permutations(tup, m):
                yield "fd_relation", "fd_relation([%s],[X,Y,Z])" % ",".join(str(list(r)) for r in rel), lambda t, rel=rel: t in rel
                if m < 4:
                    yield "fd_relationc", "fd_relationc([%s],[X,Y,Z])" % ",".join(str([r[c] for r in rel]) for c in range(3)), lambda t, rel=rel: t in rel
        for m in (1, 2, 3):
            for rel in itertools.product([(0, 1), (1, 1), (2, 0), (1, 2)], repeat=m):
                for vs in (("X", "Y"), ("X", "X"), ("Z", 1), (1, "Y")):
                    yield "fd_relation", "fd_relation([%s],[%s,%s])" % (",".join(str(list(r)) for r in rel), vs[0], vs[1]), lambda t, rel=rel, vs=vs: tuple(val(v, t, NX) for v in vs) in rel
        yield "fd_relation", "fd_relation([],[X,Y])", lambda t: False
        yield "fd_relationc", "fd_relationc([[],[]],[X,Y])", lambda t: False
        yield "fd_relation", "fd_relation([[]],[])", lambda t: True
    yield from build(i, n, tier, gen(), NX, doms, acts)


def errors(i, n, tier):
    """argument errors of the manual"""
    k = 0
    ok = {"fd_element": ("X", "[1,2]", "Y"), "fd_element_var": ("X", "[Y,2]", "Z"), "fd_atmost": ("1", "[X,Y]", "1"), "fd_atleast": ("1", "[X,Y]", "1"), "fd_exactly": ("1", "[X,Y]", "1")}
    bad = {"v": [("a", "type_error(fd_variable,a)"), ("f(b)", "type_error(fd_variable,f(b))"), ("1.5", "type_error(fd_variable,1.5)"), ("[]", "type_error(fd_variable,[])")],
           "i": [("_", "instantiation_error"), ("a", "type_error(integer,a)"), ("1.5", "type_error(integer,1.5)")],
           "li": [("_", "instantiation_error"), ("[1|_]", "instantiation_error"), ("[1,_]", "instantiation_error"), ("a", "type_error(list,a)"), ("[1|a]", "type_error(list,'.'(1,a))"), ("[1,a]", "type_error(integer,a)"), ("[1.5]", "type_error(integer,1.5)")],
           "lv": [("_", "instantiation_error"), ("[1|_]", "instantiation_error"), ("a", "type_error(list,a)"), ("[1|a]", "type_error(list,'.'(1,a))"), ("[1,a]", "type_error(fd_variable,a)"), ("[X,1.5]", "type_error(fd_variable,1.5)"), ("[[]]", "type_error(fd_variable,[])")]}
    sig = {"fd_element": ("v", "li", "v"), "fd_element_var": ("v", "lv", "v"), "fd_atmost": ("i", "lv", "i"), "fd_atleast": ("i", "lv", "i"), "fd_exactly": ("i", "lv", "i"), "fd_all_different": ("lv",)}
    ok["fd_all_different"] = ("[X]",)
    for p in sorted(sig):
        for j, ty in enumerate(sig[p]):
            for b, e in bad[ty]:
                k += 1
                if k % n == i:
                    a = list(ok[p])
                    a[j] = b
                    yield "errors " + p, 1, "x", "%s(%s)" % (p, ",".join(a)), "!" + e


def main():
    ck = Check("C24")
    exe = server_exe(HELP)
    for nm, f, sh in (("all_different", alldiff, 16), ("all_different of four", four, 8), ("element", element, 8), ("element_var", element_var, 16), ("atmost, atleast, exactly", counts, 16), ("relations", relations, 16), ("errors", errors, 1)):
        run_cases(ck, nm, exe, f, sh, match=match)
    ck.assumptions = ["lists of at most four elements, domains of at most six values"]
    return ck.finish(rule="every constraint of the families x every additional binding before or after it: solutions by labeling equal the definition's, domains include every value of a solution")


if __name__ == "__main__":
    main()
