"""C09: float and mixed arithmetic, rounding and evaluation errors."""
import itertools
import math
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.refpl import ffloat, qatom
from vlib.refarith import ev, Ev, INT2, INT1, FUN1, FUN2, CMPS, LO, HI, CONST

FL = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 2.5, -2.5, 3.5, 0.1, -0.3, 0.49999999999999994, -0.49999999999999994, 0.9999999999999999, 1.0000000000000002, 10.0, 100.0, 64.0,
      2.0 ** 31, 2.0 ** 52 - 0.5, 2.0 ** 52 + 1, -(2.0 ** 52) - 1, 2.0 ** 53 - 1, 2.0 ** 53, 2.0 ** 53 + 2, -2.0 ** 53, 2.0 ** 59, 2.0 ** 60, -(2.0 ** 60), 2.0 ** 60 - 128, -(2.0 ** 60) - 256, 2.0 ** 61,
      2.0 ** 63, -(2.0 ** 63), 2.0 ** 64, 1e22, 1e100, -1e100, 1e308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, math.pi, -math.pi / 2, math.e, 709.0, 710.0, 1e-17]
IN = [0, 1, -1, 2, -2, 3, -3, 7, 10, 64, 100, 1000, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 59, HI, HI - 1, LO, LO + 1]


def lat(tier):
    if tier == "quick":
        return FL + IN
    x = FL + IN
    for k in range(-1074, 1024, 61):
        x.append(2.0 ** k)
        x.append(-(2.0 ** k) * 1.9)
    for k in range(48, 64):
        for d in (-1.5, -1, -0.5, 0.5, 1, 1.5):
            x.append(2.0 ** k + d)
    return x


def n(x):
    s = repr(x) if type(x) is int else flit(x)
    return s


def flit(x):
    s = "%.17g" % x
    if "." not in s:
        s = s.replace("e", ".0e") if "e" in s else s + ".0"
    return s


def show(x):
    return ffloat(x) if type(x) is float else str(x)


def val(f, *a):
    try:
        return "=%s\tmore" % show(ev(f, *a))
    except Ev as e:
        e = e.args[0]
        return "!" + (e if type(e) is str else e[0] + show(e[1]) + ")")


def app(f, *a):
    q = f if f[0].isalpha() else "'%s'" % f.replace("\\", "\\\\")
    return "%s(%s)" % (q, ",".join(map(str, a)))


F2 = FUN2 + ["log"]


def source():
    out = []
    for i, f in enumerate(F2):
        out.append("a%d(X,Y,Z):- Z is %s." % (i, app(f, "X", "Y")))
        for j, c in enumerate(FL):
            if j % 4 == 0 or c in (0.0, 1.0, 0.5):
                out.append("k%d_%d(X,Z):- Z is %s." % (i, j, app(f, "X", flit(c))))
                out.append("l%d_%d(X,Z):- Z is %s." % (i, j, app(f, flit(c), "X")))
    for i, f in enumerate(FUN1):
        out.append("c%d(X,Z):- Z is %s." % (i, app(f, "X")))
        out.append("e%d(X,Z):- Y is %s, Z is min(Y,Y)." % (i, app(f, "X")))
    for i, f in enumerate(CMPS):
        out.append("d%d(X,Y):- X %s Y." % (i, f))
        out.append("h%d(X,Y,Z):- ( X*1 %s Y -> Z = yes ; Z = no )." % (i, f))
    for f in CONST:
        out.append("z_%s(X):- X is %s." % (f, f))
    return "\n".join(out) + "\n"


def same(f, x, y):
    return f in ("min", "max") and type(x) != type(y) and x == y


def cmpv(f, x, y):
    """mixed comparisons: by conversion to float, or exactly; when the two disagree the standard leaves it open"""
    a = CMPS[f](x, y)
    b = CMPS[f](float(x), float(y)) if type(x) != type(y) else a
    return "any" if a != b else "=x\tmore" if a else "no"


def match(e, g):
    if type(e) is tuple:        # the sign of a zero is not specified for these functions
        return e[0].replace("-0.0", "0.0") == g.replace("-0.0", "0.0")
    return e == g or e == "any" and g in ("=x\tmore", "no")


def family(i, m, tier):
    L = lat(tier)
    k = 0
    for j, f in enumerate(F2):
        for x in L:
            k += 1
            if k % m != i:
                continue
            for y in L:
                if type(x) is int and type(y) is int and (f in INT2 or f in ("+", "-", "*", "^", "min", "max")) or same(f, x, y):
                    continue
                e = val(f, x, y)
                yield f, 1, "Z", "Z is " + app(f, n(x), n(y)), e
                yield f + " native", 1, "Z", "a%d(%s,%s,Z)" % (j, n(x), n(y)), e
            for c, y in enumerate(FL):
                if (c % 4 == 0 or y in (0.0, 1.0, 0.5)) and not same(f, x, y):
                    yield f + " constant", 1, "Z", "k%d_%d(%s,Z)" % (j, c, n(x)), val(f, x, y)
                    yield f + " constant", 1, "Z", "l%d_%d(%s,Z)" % (j, c, n(x)), val(f, y, x)
    for j, f in enumerate(FUN1):
        for x in L:
            k += 1
            if k % m != i:
                continue
            z = (lambda e, g=f: (e,) if "float_" in f + g else e)
            e = z(val(f, x))
            yield f, 1, "Z", "Z is " + app(f, n(x)), e
            yield f + " native", 1, "Z", "c%d(%s,Z)" % (j, n(x)), e
            yield f + " native", 1, "Z", "e%d(%s,Z)" % (j, n(x)), e
            for h, g in enumerate(FUN1):
                try:
                    y = ev(f, x)
                    if type(y) is float and abs(y) > 1e300:
                        continue
                    yield g + "(" + f, 1, "Z", "Z is " + app(g, app(f, n(x))), z(val(g, y), g)
                except Ev:
                    yield g + "(" + f, 1, "Z", "Z is " + app(g, app(f, n(x))), e
    for j, f in enumerate(CMPS):
        for x in L:
            k += 1
            if k % m != i:
                continue
            for y in L:
                if type(x) is int and type(y) is int:
                    continue
                e = cmpv(f, x, y)
                yield f, 1, "x", "(%s) %s (%s)" % (n(x), f, n(y)), e
                yield f + " native", 1, "x", "d%d(%s,%s)" % (j, n(x), n(y)), e
    # consistency of the six comparisons, also where the standard leaves the value open
    for x in L:
        k += 1
        if k % m != i:
            continue
        for y in L:
            if type(x) != type(y):
                for v in ("X= %s,Y= %s" % (n(x), n(y)), "X= %s,Y= %s" % (n(y), n(x))):
                    yield "consistent", 1, "x", v + ",(X<Y->A=1;A=0),(X=:=Y->B=1;B=0),(X>Y->C=1;C=0),1 is A+B+C,(X=<Y->D=1;D=0),D is A+B,(X>=Y->E=1;E=0),E is B+C,(X=\\=Y->F=1;F=0),F is A+C,"\
                        "(Y>X->G=1;G=0),G=A,(Y=:=X->H=1;H=0),H=B", "=x\tmore"
    if i == 0:
        for f, v in CONST.items():
            yield f, 1, "X", "X is " + f, "=%s\tmore" % show(v)
            yield f, 1, "X", "z_" + f + "(X)", "=%s\tmore" % show(v)


def relaxed(i, m, tier):
    for x in IN if i == 0 else ():
        for f in ("round", "ceiling", "floor", "truncate"):
            yield f, 1, "Z", "set_prolog_flag(strict_iso,off),Z is %s(%d),set_prolog_flag(strict_iso,on)" % (f, x), "=%d\tmore" % x


BAD = [("_", "instantiation_error"), ("foo", "type_error(evaluable,/(foo,0))"), ("foo(1)", "type_error(evaluable,/(foo,1))"), ("foo(1,2)", "type_error(evaluable,/(foo,2))"), ("[]", "type_error(evaluable,/([],0))"),
       ("[1,2]", "type_error(evaluable,/('.',2))"), ("1+_", "instantiation_error"),
       ("'+'", "type_error(evaluable,/(+,0))"), ("foo(1,2,3)", "type_error(evaluable,/(foo,3))"), ("sqrt(1,2)", "type_error(evaluable,/(sqrt,2))"), ("1//0", "evaluation_error(zero_divisor)"),
       ("1/0", "evaluation_error(zero_divisor)"), ("1/0.0", "evaluation_error(zero_divisor)"), ("msb(a)", "type_error(evaluable,/(a,0))"), ("\"ab\"", "type_error(evaluable,/('.',2))")]


def badsource():
    out = []
    for i, f in enumerate(F2):
        out.append("a%d(X,Y,Z):- Z is %s." % (i, app(f, "X", "Y")))
    for i, f in enumerate(FUN1):
        out.append("c%d(X,Z):- Z is %s." % (i, app(f, "X")))
    for i, f in enumerate(CMPS):
        out.append("d%d(X,Y):- X %s Y." % (i, f))
    return "\n".join(out) + "\n"


def bad(i, m, tier):
    """operands that are not numbers, in each position; the error is that of (one of) the bad operands"""
    if i:
        return
    good = ["3", "2.5", "0"]
    for b, e in BAD:
        e = "!" + e
        yield "is", 1, "Z", "Z is (%s)" % b, e
        for j, f in enumerate(F2):
            for g in good:
                for x, y in ((b, g), (g, b)):
                    yield f, 1, "Z", "Z is (%s)" % app(f, x, y), e
                    yield f + " native", 1, "Z", "a%d(%s,%s,Z)" % (j, x, y), e
        for j, f in enumerate(FUN1):
            yield f, 1, "Z", "Z is (%s)" % app(f, b), e
            yield f + " native", 1, "Z", "c%d(%s,Z)" % (j, b), e
        for j, f in enumerate(CMPS):
            for g in good:
                for x, y in ((b, g), (g, b)):
                    yield f, 1, "x", "(%s) %s (%s)" % (x, f, y), e
                    yield f + " native", 1, "x", "d%d(%s,%s)" % (j, x, y), e
    for b1, e1 in BAD:
        for b2, e2 in BAD:
            for f in ("+", "//", "min"):
                yield f, 1, "Z", "Z is (%s)" % app(f, b1, b2), (e1, e2)


def match2(e, g):
    return e == g or type(e) is tuple and g[1:] in e


def main():
    ck = Check("C09")
    exe = server_exe(source())
    exe2 = server_exe(badsource())
    run_cases(ck, "values", exe, family, 8, match=match)
    run_cases(ck, "strict_iso off", exe, relaxed, 1)
    run_cases(ck, "errors", exe2, bad, 1, match=match2)
    return ck.finish(rule="every functor and comparison x every operand tuple of the lattice, interpreted and native")


if __name__ == "__main__":
    main()
