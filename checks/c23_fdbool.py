"""C23: reified and Boolean constraints have exactly the solutions of their truth tables."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe
from vlib.fd import REL, BOOL2, HELP, VMAX, text, sols, case, match

RELS = list(REL) + [r + "#" for r in REL]
B01 = (0, 1)
OPS2 = list(BOOL2)


def props(tier):
    """formulas over three Boolean variables"""
    lit = ["X", "Y", "Z", 0, 1, ("#\\", "X"), ("#\\", "Y")]
    l1 = [(o, a, b) for o in OPS2 for a in lit for b in lit]
    for f in lit + l1:
        yield f
        if type(f) is tuple:
            yield ("#\\", f)
    few = ["X", "Z", 1, 0] if tier == "quick" else lit
    for o in OPS2:
        for f in l1:
            for a in few:
                yield (o, f, a)
                yield (o, a, f)
    sub = [(o, a, b) for o in OPS2 for a, b in (("X", "Y"), ("Y", "Z"), ("Z", "X"))]
    for o in OPS2:
        for f in sub:
            for g in sub:
                yield (o, f, g)


ACTS = ["true", "X=0", "X=1", "Y=1", "Y=0", "Z=1", "X=Y", "Y=Z", "X #\\= Y"]


def sat(a, names):
    if a == "true":
        return lambda t: True
    if " #\\= " in a:
        l, r = a.split(" #\\= ")
        return lambda t: t[names.index(l)] != (int(r) if r.isdigit() else t[names.index(r)])
    if a.startswith("fd_domain("):
        v, d = a[10:-1].split(",[")
        d = set(map(int, d[:-1].split(",")))
        return lambda t: t[names.index(v)] in d
    l, r = a.split("=")
    return lambda t: t[names.index(l)] == (int(r) if r.isdigit() else t[names.index(r)])


def formulas(i, n, tier):
    k = 0
    names = ("X", "Y", "Z")
    for f in props(tier):
        key = "formula " + (f[0] if type(f) is tuple else str(f))
        for a in ACTS:
            for pos in (0, 1):
                if a == "true" and pos:
                    continue
                k += 1
                if k % n != i:
                    continue
                if type(f) is not tuple:
                    continue                # a lone variable or integer is not a constraint
                must, may = sols(f, names, (B01,) * 3)
                p = sat(a, names)
                parts = [text(f)]
                parts.insert(pos, a)
                yield case(key + " with " + a, names, (B01,) * 3, parts, {t for t in must if p(t)}, {t for t in may if p(t)})


def undeclared(i, n, tier):
    """variables without a domain become Boolean by the constraint itself"""
    k = 0
    names = ("X", "Y", "Z")
    for f in itertools.islice(props("quick"), 0, None, 3):
        k += 1
        if k % n != i or type(f) is not tuple:
            continue
        must, may = sols(f, names, (B01,) * 3)
        yield case("late " + f[0], names, (B01,) * 3, [text(f)], must, may, late=True)
        must, may = sols(f, names, ((0, 1, 2), (1, 2), (0, 1, 3)))
        used = {v for v in names if v in text(f)}
        ok = lambda t: all(v not in used or t[j] < 2 for j, v in enumerate(names))
        must = {t for t in itertools.product((0, 1, 2), (1, 2), (0, 1, 3)) if ok(t) and hold(f, dict(zip(names, t)))}
        yield case("wide " + f[0], names, ((0, 1, 2), (1, 2), (0, 1, 3)), [text(f)], must, must)


def hold(f, env):
    from vlib.fd import holds
    try:
        return holds(f, env, True)
    except Exception:
        return False


SHAPES = [("X", "Y"), ("X", 2), (2, "X"), ("X", ("+", "Y", 1)), (("+", "X", 2), "Y"), (("-", "X", "Y"), 1), (("-", "X", "Y"), -1), (("*", 2, "X"), "Y"), (("*", 2, "X"), ("*", 3, "Y")), (("+", "X", "Y"), 3), (("+", "X", ("*", 2, "Y")), 5),
          ("X", "X"), ("X", 0), ("X", 7), (("*", "X", "Y"), 4), (("min", "X", "Y"), 2), (("dist", "X", "Y"), 1), (1, 1), (1, 2), (("+", ("+", "X", "Y"), "X"), 4), (("rem", "X", 2), 1), (("//", "X", 2), "Y")]


def reified(i, n, tier):
    """comparison #<=> B (and the other connectives), values and domains given before or after"""
    k = 0
    names = ("X", "Y", "B")
    D = [((0, 1, 2, 3), (0, 1, 2, 3), B01), ((1, 2, 5), (0, 2, 4), B01), ((0, 1, 2, 3, 4, 5), (2, 3), B01)]
    acts = ["true", "B=0", "B=1", "X=0", "X=2", "Y=2", "Y=3", "X=Y", "fd_domain(X,[0,2,5])", "fd_domain(Y,[2,3])", "X #\\= 2", "B=0,X=2", "B=1,X=2", "X=2,B=0", "X=2,Y=2", "Y=3,X=2"]
    for (a, b) in SHAPES:
        for r in RELS:
            for con in ("#<=>", "#\\<=>", "#==>", "#\\/") if tier == "quick" else OPS2:
                for d in D:
                    for act in acts:
                        for pos in (0, 1):
                            if act == "true" and pos:
                                continue
                            k += 1
                            if k % n != i:
                                continue
                            f = (con, (r, a, b), "B") if k % 3 else (con, "B", (r, a, b))
                            must, may = sols(f, names, d)
                            ps = [sat(x, names) for x in ([act] if act.startswith("fd_") else act.split(","))]
                            ok = lambda t: all(p(t) for p in ps)
                            parts = [text(f)]
                            parts.insert(pos, act)
                            yield case("reified %s in %s" % (r, con), names, d, parts, {t for t in must if ok(t)}, {t for t in may if ok(t)})


def nested(i, n, tier):
    """connectives over two comparisons, negated comparisons, and three variables"""
    k = 0
    names = ("X", "Y", "Z")
    cs = [(r, a, b) for r in RELS for a, b in (("X", "Y"), ("Y", 1), ("X", ("+", "Z", 1)))]
    D = [((0, 1, 2), (0, 1, 2), (0, 1, 2)), ((0, 2), (1, 2, 3), (0, 1))]
    for c in cs:
        for d in D:
            for f in (("#\\", c), ("#\\", ("#\\", c)), ("#<=>", c, 0), ("#<=>", c, 1), ("#==>", 1, c), ("##", c, c)):
                k += 1
                if k % n == i:
                    must, may = sols(f, names, d)
                    yield case("nested %s %s" % (f[0], c[0]), names, d, [text(f)], must, may)
        for e in cs:
            for o in OPS2:
                k += 1
                if k % n == i:
                    d = D[k // n % 2]
                    f = (o, c, e)
                    must, may = sols(f, names, d)
                    yield case("nested %s" % o, names, d, [text(f)], must, may)
                    if k % 2:
                        f = ("#\\", f)
                        yield case("nested not %s" % o, names, d, [text(f)], *sols(f, names, d))


def rin(i, n, tier):
    k = 0
    names = ("X", "B")
    doms = [(0, 1, 2, 3, 4, 5), (2, 3), (0, 5), (1, 3, 5), (4,)]
    for dx in doms:
        for lo in range(-1, 7):
            for hi in range(-1, 7):
                for act in ("true", "B=0", "B=1", "X=3", "X=5", "fd_domain(X,[1,3])"):
                    for pos in (0, 1):
                        k += 1
                        if k % n != i or act == "true" and pos:
                            continue
                        p = sat(act, names)
                        s = {(x, b) for x in dx for b in B01 if b == (lo <= x <= hi) and p((x, b))}
                        may = s
                        if lo > hi or lo < 0:
                            may = s | {(x, b) for x in dx for b in B01 if p((x, b))}
                            s = s if lo <= hi else set()
                        parts = ["fd_reified_in(X,%d,%d,B)" % (lo, hi)]
                        parts.insert(pos, act)
                        yield case("fd_reified_in", names, (dx, B01), parts, s, may)


def card(i, n, tier):
    """cardinality constraints over lists of formulas"""
    k = 0
    names = ("X", "Y", "N")
    fs = ["X", ("#\\=", "X", "Y"), ("#<", "Y", 2), ("#=#", "X", 1), 1, 0, ("#\\", ("#=", "Y", 1)), ("#/\\", ("#>", "X", 0), ("#>", "Y", 0)), ("#=<#", "X", "Y")]
    dX, dY, dN = (0, 1), (0, 1, 2), (0, 1, 2, 3)
    acts = ["true", "N=0", "N=1", "N=2", "X=1", "Y=1", "X=0", "N #\\= 1"]
    for m in range(0, 4):
        for l in itertools.product(fs, repeat=m) if m < 3 else itertools.combinations(fs, 3):
            def cnt(t, l=l):
                e = dict(zip(names, t))
                return sum(hold(f, e) for f in l)
            tx = "[%s]" % ",".join(text(f) for f in l)
            gs = [("fd_cardinality(%s,N)" % tx, lambda c, v: c == v), ("fd_at_least_one(%s)" % tx, lambda c, v: c >= 1), ("fd_at_most_one(%s)" % tx, lambda c, v: c <= 1), ("fd_only_one(%s)" % tx, lambda c, v: c == 1)]
            gs += [("fd_cardinality(%d,%s,%d)" % (a, tx, b), lambda c, v, a=a, b=b: a <= c <= b) for a in (0, 1, 2) for b in (0, 1, 2, 4)]
            for g, f in gs:
                for a in acts:
                    for pos in (0, 1):
                        k += 1
                        if k % n != i or a == "true" and pos:
                            continue
                        p = sat(a, names)
                        s = {t for t in itertools.product(dX, dY, dN) if f(cnt(t), t[2]) and p(t)}
                        parts = [g]
                        parts.insert(pos, a)
                        yield case(g.split("(")[0], names, (dX, dY, dN), parts, s, s)


def main():
    ck = Check("C23")
    exe = server_exe(HELP)
    for nm, f, sh in (("formulas", formulas, 32), ("undeclared variables", undeclared, 8), ("reified comparisons", reified, 32), ("nested", nested, 16), ("fd_reified_in", rin, 8), ("cardinality", card, 16)):
        run_cases(ck, nm, exe, f, sh, match=match, env={"VECTORMAX": str(VMAX)})
    ck.assumptions = ["Boolean formulas of at most three connectives, domains below 8", "assignments that make a reified non linear sub-expression undefined are not judged", "fd_reified_in with an empty or negative interval: only that no wrong solution appears"]
    return ck.finish(rule="every formula of the grammar: solutions by labeling equal those of its truth table, domains after posting include every value of a solution")


if __name__ == "__main__":
    main()
