"""C08: integer arithmetic, every functor over a lattice of operand pairs, in every way of executing it."""
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.refarith import ev, Ev, INT2, INT1, MIX1, MIX2, CMPS, LO, HI

F2 = list(INT2) + list(MIX2) + ["min", "max", "^"]
F1 = list(INT1) + list(MIX1)
KC = [0, 1, -1, 2, -2, 3, -3, 5, 7, -8, 16, 59, 60, 61, 63, 64, -64, 1 << 31, 1 << 32, -(1 << 31) - 1, (1 << 32) - 1, 1 << 52, (1 << 59) - 1, -(1 << 59), HI, LO, HI - 1, LO + 1]


def lattice(tier):
    s = {0, 1, 2, 3, 5, 7, 10, 59, 60, 61, 62, 64, 65, 1000003, HI, HI - 1, -LO - 2}
    ks = (4, 16, 31, 32, 33, 53, 58, 59) if tier == "quick" else range(3, 60)
    for k in ks:
        s |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    s |= {-x for x in s} | {LO, LO + 1, 0x5555555555555 * 3, -0x123456789abcde, 3 * 5 * 7 * 11 * 13 * 17, 6 ** 20}
    if tier != "quick":
        s |= set(range(-70, 71))
    return sorted(x for x in s if LO <= x <= HI)


def n(x):
    return "%d" % x if x >= 0 else "(%d)" % x


def val(f, *a):
    try:
        return "=%d\tmore" % ev(f, *a)
    except Ev as e:
        return "!" + e.args[0]


def app(f, *a):
    q = f if f[0].isalpha() else "'%s'" % f.replace("\\", "\\\\")
    return "%s(%s)" % (q, ",".join(map(str, a)))


def source(fast):
    """one native predicate per functor and operand form"""
    out = []
    for i, f in enumerate(F2):
        if fast and f in ("min", "max"):
            continue
        out.append("a%d(X,Y,Z):- Z is %s." % (i, app(f, "X", "Y")))
        out.append("b%d(X,Y,Z):- Z is %s." % (i, app("+", app(f, "X", app("*", "1", "Y")), "0")))
        out.append("s%d(X,Y,Z):- Z is %s." % (i, app(f, "Y", "X")))
        out.append("u%d(X,Y,Z):- fz(Z), Z is %s, nop(Z)." % (i, app(f, "X", "Y")))
        for j, c in enumerate(KC):
            out.append("k%d_%d(X,Z):- Z is %s." % (i, j, app(f, "X", n(c))))
            out.append("l%d_%d(X,Z):- Z is %s." % (i, j, app(f, n(c), "X")))
    for i, f in enumerate(F1):
        out.append("c%d(X,Z):- Z is %s." % (i, app(f, "X")))
        out.append("e%d(X,Y,Z):- Z is %s-Y." % (i, app(f, "X")))
        for j, c in enumerate(KC):
            out.append("m%d_%d(Z):- Z is %s." % (i, j, app(f, n(c))))
    for i, f in enumerate(CMPS):
        out.append("d%d(X,Y):- X %s Y." % (i, f))
        out.append("h%d(X,Y,Z):- ( X %s Y -> Z = yes ; Z = no )." % (i, f))
        out.append("i%d(X,Y):- X+0 %s Y*1." % (i, f))
        for j, c in enumerate(KC):
            out.append("g%d_%d(X):- X %s %s." % (i, j, f, n(c)))
    out.append("fz(_).\nnop(_).\n")
    return "\n".join(out)


def cmpv(f, x, y):
    return "=x\tmore" if CMPS[f](x, y) else "no"


def interpreted(i, m, tier):
    L = lattice(tier)
    k = 0
    for f in F2:
        for x in L:
            k += 1
            if k % m != i:
                continue
            for y in L:
                yield f, 1, "Z", "Z is " + app(f, x, y), val(f, x, y)
                if y in KC:
                    yield f, 1, "Z", "X=%s,Y=0+X,Z is %s" % (n(x), app(f, "Y", "[%d]" % y)), val(f, x, y)
    for f in F1:
        for x in L:
            k += 1
            if k % m == i:
                yield f, 1, "Z", "Z is " + app(f, x), val(f, x)
    for f in CMPS:
        for x in L:
            k += 1
            if k % m == i:
                for y in L:
                    yield f, 1, "x", "%s %s %s" % (n(x), f, n(y)), cmpv(f, x, y)
    # the value compared with what is already on the left of is/2
    for x in L:
        k += 1
        if k % m == i:
            for y in (x, x - 1, 0):
                if LO <= y <= HI:
                    yield "is", 1, "x", "%s is %s" % (n(y), n(x)), "=x\tmore" if x == y else "no"
            yield "is", 1, "x", "%.1f is %s" % (x if abs(x) < 1 << 50 else 1.0, n(x)), "no"


def succ(i, m, tier):
    L = lattice("quick") if i == 0 else []
    for x in L:
        if x >= 0:
            yield "succ", 1, "Z", "succ(%d,Z)" % x, "=%d\tmore" % (x + 1) if x < HI else "!evaluation_error(int_overflow)"
            yield "succ", 1, "Z", "succ(Z,%d)" % x, "=%d\tmore" % (x - 1) if x else "no"
            for y in L:
                if y >= 0:
                    for t in ("succ(%d,%d)" % (x, y), "Y=%d,X=%d,succ(X,Y)" % (y, x)):
                        yield "succ", 1, "x", t, "=x\tmore" if y == x + 1 else "no"
                else:
                    yield "succ", 1, "x", "Y= %d,X=%d,succ(X,Y)" % (y, x), "!domain_error(not_less_than_zero,%d)" % y
                    yield "succ", 1, "x", "succ(%d,%d)" % (x, y), "!domain_error(not_less_than_zero,%d)" % y


def native(fast):
    def fn(i, m, tier):
        L = lattice(tier)
        k = 0
        for j, f in enumerate(F2):
            if fast and f in ("min", "max"):
                continue
            for x in L:
                k += 1
                if k % m != i:
                    continue
                for y in L:
                    e = val(f, x, y)
                    yield f, 1, "Z", "a%d(%d,%d,Z)" % (j, x, y), e
                    if y in KC:
                        yield f, 1, "Z", "b%d(%d,%d,Z)" % (j, x, y), e
                        yield f, 1, "Z", "s%d(%d,%d,Z)" % (j, y, x), e
                        yield f, 1, "Z", "u%d(%d,%d,Z)" % (j, x, y), e
                        if not fast:
                            yield f, 1, "Z", "a%d(%d+0,[%d],Z)" % (j, x, y), e
                for c, y in enumerate(KC):
                    yield f + " constant", 1, "Z", "k%d_%d(%d,Z)" % (j, c, x), val(f, x, y)
                    yield f + " constant", 1, "Z", "l%d_%d(%d,Z)" % (j, c, x), val(f, y, x)
        for j, f in enumerate(F1):
            for x in L:
                k += 1
                if k % m != i:
                    continue
                yield f, 1, "Z", "c%d(%d,Z)" % (j, x), val(f, x)
                yield f, 1, "Z", "e%d(%d,0,Z)" % (j, x), val(f, x)
            if i == 0:
                for c, y in enumerate(KC):
                    yield f + " constant", 1, "Z", "m%d_%d(Z)" % (j, c), val(f, y)
        for j, f in enumerate(CMPS):
            for x in L:
                k += 1
                if k % m != i:
                    continue
                for y in L:
                    e = cmpv(f, x, y)
                    yield f, 1, "x", "d%d(%d,%d)" % (j, x, y), e
                    if y in KC:
                        yield f, 1, "x", "i%d(%d,%d)" % (j, x, y), e
                        yield f, 1, "Z", "h%d(%d,%d,Z)" % (j, x, y), "=yes\tmore" if e != "no" else "=no\tmore"
                for c, y in enumerate(KC):
                    yield f + " constant", 1, "x", "g%d_%d(%d)" % (j, c, x), cmpv(f, x, y)
    return fn


def main():
    ck = Check("C08")
    exe = server_exe(source(False))
    exef = server_exe(source(True), opts=("--fast-math",))
    run_cases(ck, "interpreted", exe, interpreted, 8)
    run_cases(ck, "succ", exe, succ, 1)
    run_cases(ck, "native", exe, native(False), 8)
    run_cases(ck, "native --fast-math", exef, native(True), 8)
    return ck.finish(rule="every functor and comparison x every operand pair of the lattice x every execution mode and operand form")


if __name__ == "__main__":
    main()
