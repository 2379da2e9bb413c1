"""C22: arithmetic constraints over finite domains keep every solution and admit no other."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe
from vlib.fd import OPS, REL, HELP, text, sols, case, match, VMAX

RELS = list(REL) + [r + "#" for r in REL]
D03 = (0, 1, 2, 3)
DOMS2 = [((0, 1, 2, 3), (0, 1, 2, 3)), ((1, 2, 3, 4, 5), (0, 2, 5)), ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9), (2, 3, 4))]


def l1(leaves):
    for o in OPS:
        for a in leaves:
            for b in leaves:
                if o == "**" and type(a) is str and type(b) is str:
                    continue
                if o == "quot_rem":
                    for c in leaves:
                        yield (o, a, b, c)
                else:
                    yield (o, a, b)
    for a in leaves:
        yield ("-", a)


def shape(e):
    return "/".join(sorted(set(x for x in text(e).replace("(", " ").replace(")", " ").replace(",", " ").split() if not x.lstrip("-").isdigit() and x not in "XYZ")))


def emit(c, names, doms, exact=False, late=False, key=None):
    must, may = sols(c, names, doms)
    return case(key or c[0] + " " + shape(c[1]) + " " + shape(c[2]), names, doms, [text(c)], must, may, exact, late)


def one(i, n, tier):
    """every relation between every one-operator expression and a leaf, both ways round"""
    k = 0
    leaves = ["X", "Y", 0, 1, 2, 3, -1]
    rhs = ["X", "Y", 0, 1, 3, -2]
    doms = DOMS2[:1] + DOMS2[1:3]
    for e in l1(leaves):
        for b in rhs:
            for r in RELS:
                for d in doms:
                    k += 1
                    if k % n != i:
                        continue
                    yield emit((r, e, b), ("X", "Y"), d)
                    if d is doms[0]:
                        yield emit((r, b, e), ("X", "Y"), d)


def two(i, n, tier):
    """every relation between two-operator expressions and a leaf or a one-operator expression"""
    k = 0
    lv = ["X", "Y", 2] if tier == "quick" else ["X", "Y", "Z", 2, 3]
    inner = [e for e in l1(lv) if e[0] != "quot_rem"]
    rels = ["#=", "#\\=", "#=<", "#>", "#=#", "#\\=#", "#>=#", "#<#"] if tier == "quick" else RELS
    for o in OPS[:-1]:
        for a in inner:
            for b in ("X", "Z", 2):
                for e in ((o, a, b), (o, b, a)):
                    if o == "**" and type(e[1]) is not int and (type(e[2]) is not int):
                        continue
                    for q, r in itertools.product(("Z", 3), rels):
                        k += 1
                        if k % n == i:
                            yield emit((r, e, q), ("X", "Y", "Z"), (D03, D03, D03) if k % 2 else ((1, 2, 4), (0, 1, 2, 3), (1, 3)))
    for a in inner:
        for b in inner:
            for r in (rels if tier != "quick" else ["#=", "#\\=#", "#<"]):
                k += 1
                if k % n == i:
                    yield emit((r, a, b), ("X", "Y", "Z"), (D03, D03, (0, 2)))


COEF = [-3, -1, 0, 1, 2]


def linear(i, n, tier):
    """a X + b Y + c Z + d  relation  0 or with terms on both sides, and four variables"""
    k = 0
    cf = COEF if tier == "quick" else [-101, -3, -2, -1, 0, 1, 2, 5, 101]
    for a, b, c in itertools.product(cf, repeat=3):
        for d in (-4, 0, 1, 5):
            for r in RELS:
                for sh in range(3):
                    k += 1
                    if k % n != i:
                        continue
                    m = lambda q, v: v if q == 1 else ("*", q, v)
                    if sh == 0:
                        e = (r, ("+", ("+", m(a, "X"), m(b, "Y")), ("+", m(c, "Z"), d)), 0)
                    elif sh == 1:
                        e = (r, ("+", m(a, "X"), d), ("-", m(-b, "Y"), m(c, "Z")))
                    else:
                        e = (r, ("-", m(a, "X"), ("-", m(b, "X"), d)), ("*", m(c, "Y"), 2))
                    doms = ((0, 1, 2, 3), (1, 2, 3, 4), (0, 2, 5)) if k % 2 else ((2, 3), (0, 1, 2, 3, 4, 5), (1, 4))
                    yield emit(e, ("X", "Y", "Z"), doms, key="linear %s shape %d" % (r, sh), late=sh == 1 and k % 3 == 0)
    names = ("X", "Y", "Z", "W", "V")
    for cs in itertools.product((-2, 1, 3), repeat=5):
        for r in RELS:
            for d in (-3, 0, 4):
                k += 1
                if k % n != i:
                    continue
                e = d
                for c, v in zip(cs, names):
                    e = ("+", e, ("*", c, v))
                yield emit((r, e, 0), names, ((0, 1, 2),) * 2 + ((0, 3), (1, 2), (0, 1)), key="linear5 %s" % r)


def exact(i, n, tier):
    """full arc consistency: one full constraint between two variables leaves exactly the values with a support"""
    k = 0
    subs = [d for m in range(1, 16) for d in [tuple(v for v in range(4) if m >> v & 1)]]
    subs += [(0, 2, 5), (1, 4, 7), (0, 1, 2, 3, 4, 5), (2, 4, 6), (3,), (5, 6)]
    es = [("X", "Y"), ("X", ("+", "Y", 1)), (("+", "X", 2), "Y"), (("*", 2, "X"), "Y"), ("X", ("*", 3, "Y")), (("+", "X", "Y"), 4), (("+", "X", "Y"), 3), (("-", "X", "Y"), 1), (("-", "X", "Y"), -2), ("X", 2), (3, "X")]
    for a, b in es:
        for r in ("#=", "#\\=", "#<", "#=<", "#>", "#>="):
            for dx in subs:
                for dy in subs:
                    k += 1
                    if k % n == i:
                        yield emit((r + "#", a, b), ("X", "Y"), (dx, dy), exact=True, key="full %s" % r)


POOL = [("#=", "X", "Y"), ("#=#", "X", ("+", "Y", 1)), ("#\\=", "X", "Y"), ("#\\=#", "Y", "Z"), ("#<", "X", "Y"), ("#=<#", "Y", "Z"), ("#>", "Z", "X"), ("#>=#", "X", 1), ("#\\=", "Z", 2), ("#=", ("+", "X", "Y"), "Z"), ("#=#", ("+", "X", "Y"), "Z"),
        ("#=", ("*", "X", "Y"), "Z"), ("#=<", ("*", 2, "X"), ("+", "Y", "Z")), ("#=#", ("dist", "X", "Y"), 1), ("#=", ("dist", "X", "Y"), "Z"), ("#=", ("min", "X", "Y"), "Z"), ("#=", ("max", "X", "Z"), "Y"), ("#=", ("rem", "X", "Y"), "Z"),
        ("#=", ("//", "Y", 2), "X"), ("#=#", ("**", "X", 2), "Z"), ("#=", ("/", "Z", "X"), "Y"), ("#\\=", ("-", "X", "Y"), ("-", "Y", "Z")), ("#=", ("*", "X", "X"), ("+", "Y", 1)), ("#=", ("+", ("+", "X", "Y"), "Z"), 6), ("#\\=#", ("+", "X", "Y"), "Z")]


def combos(i, n, tier):
    """every pair (thorough: triple) of constraints, in every posting order, with values given before, between or after"""
    k = 0
    names = ("X", "Y", "Z")
    doms = (D03, (0, 1, 2, 3, 4), (0, 1, 2, 3, 4, 5))
    acts = ["true"] + ["%s=%d" % (v, c) for v in names for c in (0, 2, 3)] + ["X=Y", "Y=Z", "X=Z", "X #\\= 1", "fd_domain(Y,[0,2,4])", "fd_use_vector(X)"]

    def sat(a):
        if a == "true" or a.startswith("fd_use"):
            return lambda t: True
        if a.startswith("fd_dom"):
            return lambda t: t[1] in (0, 2, 4)
        if a.startswith("X #"):
            return lambda t: t[0] != 1
        l, r = a.split("=")
        p = names.index(l)
        if r.isdigit():
            return lambda t: t[p] == int(r)
        return lambda t: t[p] == t[names.index(r)]
    for a in POOL:
        for b in POOL:
            for act in acts:
                for pos in (0, 1, 2):
                    if act == "true" and pos:
                        continue
                    k += 1
                    if k % n != i:
                        continue
                    (m1, y1), (m2, y2) = sols(a, names, doms), sols(b, names, doms)
                    f = sat(act)
                    must, may = {t for t in m1 & m2 if f(t)}, {t for t in y1 & y2 if f(t)}
                    parts = [text(a), text(b)]
                    parts.insert(pos, act)
                    yield case("%s , %s with %s" % (text(a), text(b), act), names, doms, parts, must, may)
    few = POOL if tier != "quick" else POOL[::2]
    for t3 in itertools.combinations(few, 3):
        for p in itertools.permutations(t3):
            k += 1
            if k % n != i:
                continue
            ss = [sols(c, names, doms) for c in p]
            yield case("triple", names, doms, [text(c) for c in p], ss[0][0] & ss[1][0] & ss[2][0], ss[0][1] & ss[1][1] & ss[2][1])


def undo(i, n, tier):
    """the propagation made by a failed or left branch leaves no trace"""
    k = 0
    names = ("X", "Y", "Z")
    doms = (D03, (0, 1, 2, 3, 4), (0, 1, 2, 3, 4, 5))
    for a in POOL:
        for b in POOL:
            for w in ("\\+ (%s,fail)", "\\+ \\+ %s", "(%s,fail;true)", "catch((%s,throw(x)),_,true)", "(findall(x,(%s,fd_labeling(X)),_))"):
                k += 1
                if k % n != i:
                    continue
                must, may = sols(a, names, doms)
                m2, y2 = sols(b, names, doms)
                if w.startswith("\\+ \\+"):
                    w = "(\\+ \\+ %s;true),!"
                if w.startswith("\\+ ("):
                    w = "\\+ (%s,fail)"
                if w.startswith("catch"):
                    w = "(catch((%s,throw(x)),_,true);true),!"
                yield case("undo %s" % w, names, doms, [text(a), w % text(b)], must, may)


def prime(i, n, tier):
    k = 0
    ps = [p for p in range(2, 128) if all(p % q for q in range(2, p))]
    for lo in range(0, 128):
        for hi in {lo, lo + 1, lo + 2, lo + 7, 64, 127}:
            if hi < lo or hi > 127:
                continue
            k += 1
            if k % n != i:
                continue
            d = tuple(range(lo, hi + 1))
            for pr, f in (("fd_prime", lambda v: v in ps), ("fd_not_prime", lambda v: v not in ps)):
                s = {(v,) for v in d if f(v)}
                yield case(pr, ("X",), (d,), ["%s(X)" % pr], s, s, exact=True)
                yield case(pr, ("X",), (d,), ["%s(X)" % pr], s, s, exact=True, late=True)


def big(i, n, tier):
    """bounds of linear constraints over large intervals against exact interval projections"""
    k = 0
    M = 268435455
    vals = [0, 1, 2, 63, 64, 127, 128, 1000, M - 1, M]
    ivs = [(a, b) for a in vals for b in vals if a <= b]
    for (a, b) in ivs:
        for (c, d) in ivs:
            for r, off in itertools.product(("#=", "#<", "#=<", "#>", "#>="), (0, 1, -1, 64, -128)):
                k += 1
                if k % n != i or max(b, d) + abs(off) + (len(r) == 2) > M:
                    continue                # beyond fd_max_integer nothing is promised
                for full in ("", "#"):
                    # X r Y + off
                    lo1, hi1, lo2, hi2 = a, b, c, d
                    if r == "#=":
                        lo1, hi1 = max(a, c + off), min(b, d + off)
                        lo2, hi2 = max(c, a - off), min(d, b - off)
                    elif r in ("#<", "#=<"):
                        e = 1 if r == "#<" else 0
                        hi1 = min(b, d + off - e)
                        lo2 = max(c, a - off + e)
                    else:
                        e = 1 if r == "#>" else 0
                        lo1 = max(a, c + off + e)
                        hi2 = min(d, b - off - e)
                    exp = "no" if lo1 > hi1 or lo2 > hi2 else "=f(%d,%d,%d,%d)\tmore" % (lo1, hi1, lo2, hi2)
                    o = "" if not off else "+%d" % off if off > 0 else "-%d" % -off
                    yield "big %s%s" % (r, full), 1, "f(A,B,C,D)", "fd_domain(X,%d,%d),fd_domain(Y,%d,%d),X%s%s Y%s,fd_min(X,A),fd_max(X,B),fd_min(Y,C),fd_max(Y,D)" % (a, b, c, d, r, full, o), exp


def main():
    ck = Check("C22")
    exe = server_exe(HELP)
    for nm, f, sh in (("one operator", one, 32), ("linear", linear, 32), ("two operators", two, 48), ("full consistency", exact, 16), ("combinations", combos, 32), ("undone branches", undo, 8), ("primes", prime, 8), ("large intervals", big, 16)):
        run_cases(ck, nm, exe, f, sh, match=match, **({} if f in (prime, big) else {"env": {"VECTORMAX": str(VMAX)}}))
    ck.assumptions = ["domains of at most 10 values below 64 (large intervals: bounds only, one linear constraint)", "assignments that give a non linear operation a negative operand or result are not judged",
                      "expressions of at most two operators, or linear in at most five variables"]
    return ck.finish(rule="every constraint of the grammar over the given domains: solutions by labeling equal those of brute force, domains after posting include every value of a solution")


if __name__ == "__main__":
    main()
