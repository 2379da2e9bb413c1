"""C28: the C interface converts and calls faithfully.

Foreign functions of every argument type x mode called with every term of a universe; the term API (read, unify, make)
on the same; terms rebuilt and wrapped from arguments that are variables of the calling clause; non-deterministic
functions in every combination of number of solutions and end; every sequence of query operations up to a length,
against an abstract machine of solutions and choice points."""
import itertools
import os

from vlib.build import VERIF
from vlib.lines import exe, run_lines
from vlib.refpl import A, S, V, NIL, copy, fmt, lst, st
from vlib.report import Check

D = os.path.join(VERIF, "checks", "c28")
TYPES = "integer positive float number atom boolean char code byte in_char in_code in_byte string chars codes".split()
MAXI, MINI = (1 << 60) - 1, -(1 << 60)


def at(s):
    return A(s)


def chars(s, tail=NIL):
    return lst([A(c) for c in s], tail)


def codes(s, tail=NIL):
    return lst([ord(c) for c in s], tail)


def universe(tier):
    X, Y = V(), V()
    u = [X, 0, 1, -1, -2, 65, 127, 128, 233, 255, 256, 2147483647, 2147483648, -2147483648, -2147483649, MAXI, MINI,
         0.0, 1.0, -2.5, 1e300, 65.0, 3.0e9,
         A("a"), A(""), NIL, A("[]x"), A("true"), A("false"), A("\xe9"), A("\xff"), A("end_of_file"), A("hello world"), A("x" * 300), A("5"), A("'"),
         st("f", 1), st("-", 1, 2), st("f", X, Y), lst([1, 2]), lst([X, Y]), lst([1], X), lst([A("a")], A("b")),
         chars("a"), chars("ab"), chars("\xe9\xff"), chars("ab", X), chars("ab", A("t")), chars("x" * 300), lst([A("a"), 1]), lst([A("a"), X]), lst([A("ab")]), lst([A("")]),
         codes("a"), codes("ab"), codes("\xe9\xff"), codes("ab", X), codes("ab", 5), codes("y" * 300), lst([97, A("a")]), lst([97, X]), lst([97, -1]), lst([256]), lst([97, 1.5]), lst([lst([97])])]
    if tier != "quick":
        u += [chars("z" * 70000), codes("w" * 70000), A("q" * 65535)]
    return u


def isatom(t):
    return type(t) is type(NIL)


def unl(t):
    """items, tail"""
    r = []
    while type(t) is S and t.name == "." and len(t.args) == 2:
        r.append(t.args[0])
        t = t.args[1]
    return r, t


def err(*a):
    return st("err", st(*a) if len(a) > 1 else A(a[0]))


INST = "inst"


def faults(T, t, out=False):
    """the error terms that apply (empty: right type)"""
    te = lambda k, c=t: st("type_error", A(k), c)
    if type(t) is V:
        return [] if out else [A("instantiation_error")]
    isint = type(t) is int
    if T in ("integer", "positive"):
        if not isint:
            return [te("integer")]
        if T == "positive" and t < 0:
            return [st("domain_error", A("not_less_than_zero"), t)]
    elif T == "float":
        if type(t) is not float:
            return [te("float")]
    elif T == "number":
        if type(t) is not float and not isint:
            return [te("number")]
    elif T in ("atom", "string"):
        if not isatom(t):
            return [te("atom")]
    elif T == "boolean":
        if not isatom(t) or t.name not in ("true", "false"):
            return [te("boolean")]
    elif T in ("char", "in_char"):
        if not isatom(t) or len(t.name) != 1 and not (T == "in_char" and t.name == "end_of_file"):
            return [te("character" if T == "char" else "in_character")]
    elif T in ("code", "in_code"):
        if not isint:
            return [te("integer")]
        if not 1 <= t <= 255 and not (T == "in_code" and t == -1):
            return [st("representation_error", A("character_code" if T == "code" else "in_character_code"))]
    elif T in ("byte", "in_byte"):
        if not isint or not 0 <= t <= 255 and not (T == "in_byte" and t == -1):
            return [te(T)]
    elif T in ("chars", "codes"):
        l, tl = unl(t)
        r = []
        for x in l:
            r += faults(T[:-1], x, out)
        if type(tl) is V:
            r += [] if out else [A("instantiation_error")]
        elif tl is not NIL:
            r.append(te("list"))
        return r
    else:
        raise KeyError(T)
    return []


def cg(x):
    r = "%.17g" % x
    return r


def text(T, t):
    """what the C function sees"""
    if T in ("integer", "positive", "code", "byte", "in_code", "in_byte"):
        return str(t)
    if T in ("float", "number"):
        return cg(float(t))
    if T in ("atom", "string"):
        return t.name
    if T == "boolean":
        return "1" if t.name == "true" else "0"
    if T in ("char", "in_char"):
        return "-1" if t.name == "end_of_file" else str(ord(t.name))
    l, _ = unl(t)
    return "".join(x.name if T == "chars" else chr(x) for x in l)


VALUES = {
    "integer": ["0", "-7", str(MAXI), str(MINI), "65"], "positive": ["0", "7", str(MAXI)], "float": ["0", "1", "-2.5", "1e300"], "number": ["0", "1", "-2.5", "65", "3e9"],
    "atom": ["a", "hello world", "", "\xe9"], "boolean": ["0", "1"], "char": ["97", "233", "255"], "code": ["97", "233", "255"], "byte": ["0", "65", "255"],
    "in_char": ["-1", "97", "233", "255"], "in_code": ["-1", "65", "255"], "in_byte": ["-1", "0", "255"], "string": ["a", "", "hello world", "\xe9", "x" * 300],
    "chars": ["", "ab", "\xe9\xff", "x" * 300], "codes": ["", "ab", "\xe9\xff", "y" * 300]}


def cons(T, v):
    """the term for a C value"""
    if T in ("integer", "positive", "code", "byte", "in_code", "in_byte"):
        return int(v)
    if T == "float":
        return float(v)
    if T == "number":
        f = float(v)
        return int(f) if f == int(f) and abs(f) < 1e18 else f
    if T in ("atom", "string"):
        return A(v)
    if T == "boolean":
        return A("true" if v == "1" else "false")
    if T in ("char", "in_char"):
        return A("end_of_file") if v == "-1" else A(chr(int(v)))
    return chars(v) if T == "chars" else codes(v)


def unify(a, b, m):
    a, b = walk(a, m), walk(b, m)
    if a is b:
        return True
    if type(a) is V:
        m[a] = b
        return True
    if type(b) is V:
        m[b] = a
        return True
    if type(a) is S and type(b) is S:
        return a.name == b.name and len(a.args) == len(b.args) and all(unify(x, y, m) for x, y in zip(a.args, b.args))
    return type(a) is type(b) and not isatom(a) and type(a) is not S and a == b or isatom(a) and isatom(b) and a.name == b.name


def walk(t, m):
    while type(t) is V and t in m:
        t = m[t]
    return t


def subst(t, m):
    t = walk(t, m)
    if type(t) is S:
        return S(t.name, tuple(subst(x, m) for x in t.args))
    return t


def result(res, log, args, m=()):
    return fmt(st("r", res, A(log), subst(lst(args), dict(m))))


def errs(fs, name, n, log, args):
    return {result(copy(st("error", f, st("/", A(name), n))), log, args) for f in fs}


def src(*ts):
    nm = {}
    return [fmt(t, nm) for t in ts]


def q(s):
    return fmt(A(s))


def one(v, pred, args, exp):
    return "c(%s,%s,%s)." % (q(v), pred, src(lst(args))[0]), exp


def case_arg(T, kind, v, args):
    pred = "%s_%s" % (kind, T)
    n = len(args)
    hv = v != "#"
    if kind in ("i", "ii"):
        fs = [f for a in args for f in faults(T, a)]
        if fs:
            return one(v, pred, args, errs(fs, pred, n, "", args))
        return one(v, pred, args, result(A("yes"), "/".join(text(T, a) for a in args), args))
    if kind in ("o", "of", "oo"):
        fs = [f for a in args for f in faults(T, a, True)]
        if fs:
            return one(v, pred, args, errs(fs, pred, n, "", args))
        if kind == "of":
            return one(v, pred, args, result(A("no"), "", args))
        m = {}
        for a in args:
            if not unify(a, cons(T, v), m):
                return one(v, pred, args, result(A("no"), "called", args))
        return one(v, pred, args, result(A("yes"), "called", args, m))
    fs = [f for a in args if type(a) is not V for f in faults(T, a)]
    if fs:
        return one(v, pred, args, errs(fs, pred, n, "", args))
    if kind == "io":
        log = ("V1" if type(args[0]) is V else "N0" + text(T, args[0]))
    else:
        log = "/".join("V" if type(a) is V else text(T, a) for a in args)
    if not hv:
        return None if any(type(a) is V for a in args) else one(v, pred, args, result(A("yes"), log, args))
    m = {}
    for k, a in enumerate(args):
        if kind == "ioio" and k == 0 and type(a) is not V:
            continue
        if not unify(a, cons(T, v), m):
            return one(v, pred, args, result(A("no"), log, args))
    return one(v, pred, args, result(A("yes"), log, args, m))


def fam_args(i, n, tier):
    u = universe(tier)
    j = 0
    for T in TYPES:
        for kind in ("i", "o", "of", "io", "ii", "oo", "ioio"):
            j += 1
            if j % n != i:
                continue
            vs = ["#"] if kind in ("i", "ii") else VALUES[T] + (["#"] if kind in ("io", "ioio") else [])
            cs = []
            if len(kind) < 2 or kind in ("of", "io"):
                ts = [[x] for x in u] + [[cons(T, v)] for v in VALUES[T]]
            else:
                good = [x for x in u if not faults(T, x)] + [cons(T, v) for v in VALUES[T]]
                bad = [x for x in u if faults(T, x)][::4]
                us = good + bad
                ts = [[x, y] for x in us for y in good] + [[x, y] for x in good for y in us]
                y = V()
                ts += [[y, y]] + [[x, y] for x in us]
                if tier == "quick":
                    ts = [t for t in ts if sum(len(src(x)[0]) for x in t) < 900]
            for v in vs:
                for t in ts:
                    c = case_arg(T, kind, v, t)
                    if c:
                        cs.append(c)
            yield "%s %s" % (kind, T), "driver(fc_case).", cs


RDT = TYPES[:4] + ["atom", "boolean", "char", "code", "byte", "in_char", "in_code", "in_byte", "string", "chars", "codes"]


def wc(t):
    return None


def rd(k, t):
    """expected log or list of error terms, None: not judged"""
    te = lambda kk: [st("type_error", A(kk), t)]
    l, tl = unl(t)
    if k < 15:
        fs = faults(RDT[k], t)
        return fs or text(RDT[k], t)
    if k in (15, 16):
        fs = faults("integer" if k == 15 else "positive", t)
        if fs:
            return fs
        return str(t) if -(1 << 31) <= t < 1 << 31 else [st("representation_error", A("integer_32bits"))]
    if k in (17, 18, 21):
        if k == 18 and isatom(t) and t is not NIL:
            return t.name
        T = "chars" if l and isatom(l[0]) else "codes"
        fs = faults(T, t)
        r = fs or text(T, t)
        if fs and l and not isatom(l[0]):
            fs += faults("chars", t)
        return fs or (r if k != 21 else "%d:%s" % (len(l), r))
    if k in (19, 20):
        T = "chars" if k == 19 else "codes"
        return faults(T, t) or "%d:%s" % (len(l), text(T, t))
    if k == 22:
        if type(t) is V:
            return [A("instantiation_error")]
        if t is NIL:
            return "nil"
        if not l:
            return te("list")
        return None
    if k == 23:
        if tl is NIL:
            return None
        return [A("instantiation_error")] if type(tl) is V else te("list")
    if k in (24, 25):
        if type(t) is V:
            return [A("instantiation_error")]
        if type(t) is S:
            return None
        if k == 25 and isatom(t):
            return t.name + "/0"
        return te("compound" if k == 24 else "callable")
    b = lambda *x: "".join(str(int(y)) for y in x)
    v, a, ii, f, c = type(t) is V, isatom(t), type(t) is int, type(t) is float, type(t) is S
    if k == 26:
        return b(v, not v, a, ii, f, ii or f, a or ii or f, c, a or c, tl is NIL, type(tl) is V, tl is NIL or type(tl) is V)
    if k == 27:
        return str(0 if v else 1 if ii else 2 if f else 3 if a else 4 if l else 5)
    return str(len(l) if tl is NIL else -1 if type(tl) is V else -2)


def fam_rd(i, n, tier):
    u = universe(tier)
    for k in range(29):
        if k % n != i:
            continue
        cs = []
        for t in u:
            if len(src(t)[0]) > 100000:
                continue
            e = rd(k, t)
            if e is None:
                continue
            if isinstance(e, list):
                cs.append(one("#", "rd(%d)" % k, [t], errs(e, "rd", 2, "", [t])))
                if k in (17, 18, 21):
                    cs[-1] = (cs[-1][0], cs[-1][1])
            else:
                cs.append(one("#", "rd(%d)" % k, [t], result(A("yes"), e, [t])))
        yield "rd %d" % k, "driver(fc_case).", cs
    for k in range(15):
        if k % n != i:
            continue
        T = RDT[k]
        cs = []
        for v in VALUES[T]:
            for t in u + [cons(T, w) for w in VALUES[T]]:
                fs = faults(T, t, True)
                pn = "un(%d,%s)" % (k, q(v))
                if fs:
                    cs.append(one("#", pn, [t], errs(fs, "un", 3, "", [t])))
                else:
                    m = {}
                    ok = unify(t, cons(T, v), m)
                    cs.append(one("#", pn, [t], result(A("yes" if ok else "no"), "", [t], m if ok else ())))
            x = V()
            for y in [x] + [cons(T, w) for w in VALUES[T]]:
                m = {}
                ok = unify(y, cons(T, v), m)
                cs.append(one("#", "mk(%d,%s)" % (k, q(v)), [y], result(A("yes" if ok else "no"), "", [y], m if ok else ())))
        yield "un/mk %s" % T, "driver(fc_case).", cs
    if i == 0:
        cs = []
        for v in ("", "a", "hello world", "\xe9", "x" * 300):
            y = V()
            cs.append(one("#", "mk(15,%s)" % q(v), [y], result(A("yes"), "", [lst([A(v), A("zz"), A(v)])])))
        for s, t in (("a", A("a")), ("f(x,[1,2|T])", st("f", A("x"), lst([1, 2], V()))), ("1+2*3", st("+", 1, st("*", 2, 3))), ("'q q'", A("q q")), ("\"s\"", codes("s")), ("f(X,Y,X)", None), ("2.5", 2.5), ("- a", st("-", A("a")))):
            if t is None:
                x = V()
                t = st("f", x, V(), x)
            cs.append(one("#", "mk(16,%s)" % q(s), [V()], result(A("yes"), "", [t])))
        yield "mk", "driver(fc_case).", cs


def terms(depth):
    x, y = V(), V()
    base = [x, y, 1, -3, 2.5, A("a"), NIL]
    r = list(base)
    prev = base
    for d in range(depth):
        small = prev[:40] if d else base
        nxt = []
        for a, b in itertools.product(small, repeat=2):
            nxt += [st("g", a, b), S(".", (a, b))]
        nxt += [st("h", a) for a in small] + [lst([a, b, a]) for a, b in itertools.product(small[:9], repeat=2)]
        r += nxt
        prev = nxt
    return r


def fam_build(i, n, tier):
    ts = terms(2)
    cs = []
    j = 0
    for t in ts:
        for k in range(3):
            j += 1
            if j % n != i:
                continue
            y = V()
            t2 = t
            cs.append(one("#", "rbo(%d)" % k, [t, y], result(A("yes"), "", [t2, t2])))
            cs.append(one("#", "rbu(%d)" % k, [t, y], result(A("yes"), "", [t, t])))
            cs.append(one("#", "rbl(%d)" % k, [t, y], result(A("yes"), "", [t, t])))
            cs.append(one("#", "rbo(%d)" % k, [t, t], result(A("yes"), "", [t, t])))
            w = (st("f", t, t), S(".", (t, t)), lst([t, t]))[k]
            cs.append(one("#", "w(%d)" % k, [t, y], result(A("yes"), "", [t, w])))
            cs.append(one("#", "uw(%d)" % k, [t, y], result(A("yes"), "", [t, w])))
            if k == 0:
                cs.append(one("#", "uw(3)", [t, y], result(A("yes"), "", [t, w])))
    yield "terms", "driver(fc_case).", cs
    cs = []
    for k in range(3):
        for z in (5, A("a"), V(), st("p", 1), lst([1])):
            W = lambda a: (st("f", a, a), S(".", (a, a)), lst([a, a]))[k]
            r = V()
            cs.append(one("#", "l1", [k, z, r], result(A("yes"), "", [k, z, W(z)])))
            cs.append(one("#", "l2", [k, z, r], result(A("yes"), "", [k, z, W(V())])))
            cs.append(one("#", "l3", [k, z, r], result(A("yes"), "", [k, z, W(V())])))
            x = V()
            cs.append(one("#", "l4", [k, z, r], result(A("yes"), "", [k, z, st("r", W(x), W(x))])))
            cs.append(one("#", "l5", [k, z, r], result(A("yes"), "", [k, z, W(z)])))
            cs.append(one("#", "l6", [k, z, r], result(A("yes"), "", [k, z, W(z)])))
            cs.append(one("#", "l7", [k, z, r], result(A("yes"), "", [k, z, st("f", z, z)])))
            x = V()
            cs.append(one("#", "l8", [k, z, r], result(A("yes"), "", [k, z, st("f", x, x)])))
            cs.append(one("#", "l9", [0, z, r], result(A("yes"), "", [0, z, 5])))
            cs.append(one("#", "l10", [k, z, r], result(A("yes"), "", [k, z, W(V())])))
            x = V()
            cs.append(one("#", "l11", [k, z, r], lambda g, k=k: True))
    yield "locals", "driver(fc_case).", [c for c in cs if isinstance(c[1], str)] if i == 0 else []


def fam_many(i, n, tier):
    cs = []
    j = 0
    for w in itertools.product((1, -2), (0.5, -1.0), ("a", "bc"), (3,), (2.5, -0.5), (MAXI, 0), (4, 1.5), ("z",), (0, 9), (1e10,)):
        j += 1
        if j % n != i:
            continue
        a, b, c, d, e, f, g, h, k, l = w
        log = "%d %g %s %d %g %d %g %s %d %g" % w
        args = [a, b, A(c), d, e, f, g, A(h), k, l]
        cs.append(one("#", "many", args, result(A("yes"), log, args)))
        outs = [2.0 * a + e, a + 2, a + 7, A("txt"), e * 3, e + 1, a + 1, A("abc")]
        for mask in range(256) if j < 6 or tier != "quick" else (0, 255, 85, 170):
            vs = [V() if mask >> x & 1 else outs[x] for x in range(8)]
            ar = [a, vs[0], vs[1], vs[2], e] + [vs[3], vs[4], vs[5], vs[6], vs[7]]
            full = [a, outs[0], outs[1], outs[2], e] + outs[3:]
            cs.append(one("#", "mix", ar, result(A("yes"), "%d %g" % (a, e), full)))
            for x in (0, 2, 3, 5, 6):
                if not mask >> x & 1:
                    bad = list(vs)
                    bad[x] = A("no") if x == 3 else vs[x] + 1
                    ar = [a, bad[0], bad[1], bad[2], e] + bad[3:]
                    cs.append(one("#", "mix", ar, result(A("no"), "%d %g" % (a, e), ar)))
    yield "many", "driver(fc_case).", cs


def fam_nd(i, n, tier):
    """findall over conjunctions of non-deterministic foreign calls"""
    cs = []
    j = 0

    def sols(k, d, log):
        for c in range(k + (not d or k == 0)):
            log[0] += "<%d>" % c
            if c < k:
                yield c + 1
    ks = range(0, 4 if tier == "quick" else 5)
    one_ = [(N, k, d) for N in (1, 2, 3, 7) for k in ks for d in (0, 1)]
    for a in one_:
        j += 1
        if j % n == i:
            log = [""]
            r = [st("-", x, A(log[0])) for x in sols(a[1], a[2], log)]
            cs.append(("nd(nd%d(%d,%d,X),X)." % a, fmt(st("-", lst(r), A(log[0])))))
        for b in one_:
            j += 1
            if j % n != i:
                continue
            for ctx in range(6):
                log = [""]
                r = []
                ga, gb = "nd%d(%d,%d,X)" % a, "nd%d(%d,%d,Y)" % b
                if ctx == 0:
                    g = "(%s,%s)" % (ga, gb)
                    for x in sols(a[1], a[2], log):
                        for y in sols(b[1], b[2], log):
                            r.append(st("-", st("-", x, y), A(log[0])))
                elif ctx == 1:
                    g = "(%s,!,%s)" % (ga, gb)
                    for x in sols(a[1], a[2], log):
                        for y in sols(b[1], b[2], log):
                            r.append(st("-", st("-", x, y), A(log[0])))
                        break
                elif ctx == 2:
                    g = "(%s,\\+ (%s,Y =:= 2),Y = 0)" % (ga, gb)
                    for x in sols(a[1], a[2], log):
                        for y in sols(b[1], b[2], log):
                            if y == 2:
                                break
                        else:
                            r.append(st("-", st("-", x, 0), A(log[0])))
                elif ctx == 3:
                    g = "(%s,Y = 1;%s,X = 2)" % (ga, gb)
                    for x in sols(a[1], a[2], log):
                        r.append(st("-", st("-", x, 1), A(log[0])))
                    for y in sols(b[1], b[2], log):
                        r.append(st("-", st("-", 2, y), A(log[0])))
                elif ctx == 4:
                    g = "(%s,findall(Z,nd%d(%d,%d,Z),Y))" % ((ga,) + b)
                    for x in sols(a[1], a[2], log):
                        y = lst(list(sols(b[1], b[2], log)))
                        r.append(st("-", st("-", x, y), A(log[0])))
                else:
                    g = "(X = 2,%s,%s)" % (ga, gb)
                    for x in sols(a[1], a[2], log):
                        if x != 2:
                            continue
                        for y in sols(b[1], b[2], log):
                            r.append(st("-", st("-", x, y), A(log[0])))
                cs.append(("nd(%s,X-Y)." % g, fmt(st("-", lst(r), A(log[0])))))
    if i == 0:
        for k in range(0, 5):
            for xb in (None, 2):
                for tb in (None, 10):
                    log, r = "", []
                    for c in range(max(k, 1)):
                        log += "<%d%s>" % (c, "N" if xb else "V")
                        if k and tb in (None, c * 10):
                            r.append(st("-", st("m", xb or c + 1, c + 0.5, c * 10), A(log)))
                    cs.append(("nd((%s%sndm(%d,X,F,T)),m(X,F,T))." % ("X = 2," if xb else "", "T = 10," if tb else "", k), fmt(st("-", lst(r), A(log)))))
    yield "nd", "driver(fc_case).", cs


# ---- scripts of query operations
GOALS = {"0": [], "1": [1], "2": [1, 2], "3": [1, 2, 3], "x": [1, "T"], "t": ["T"], "d": [1, 2], "y": [1, 2], "n": [1, 2], "r": [2, 3]}
ALIAS = {"a": (None, None), "b": (None, None), "c": (None, None), "d": (None, 1), "e": (None, None), "f": (None, None)}


class Mach:
    def __init__(self, ctx):
        self.v = list(ALIAS[ctx])
        self.alias = ctx == "c"
        self.st = []            # choice points: [kind, bindings, var, remaining items]
        self.qs = []            # [base, recoverable, bindings at begin, state, goal called]
        self.dirty = False
        self.log = ""

    def bind(self, k, x):
        if self.alias:
            self.v = [x, x]
        else:
            self.v[k] = x

    def items(self, g, k, g2=None):
        r = []
        cur = self.v[k]
        if g == "r" and cur in (1, 2, 3):
            return [cur]        # its first and only solution
        for x in GOALS[g]:
            if x == "T":
                r.append("T")
            elif cur in (None, x):
                if g2 is None:
                    r.append(x)
                else:
                    for y in GOALS[g2]:
                        if y == "T" or y == x:
                            r.append(y)
        return r

    def clone(self):
        m = Mach.__new__(Mach)
        m.v, m.alias, m.dirty, m.log = list(self.v), self.alias, self.dirty, self.log
        m.st = [list(x) for x in self.st]
        m.qs = [list(x) for x in self.qs]
        return m

    def take(self, k, items):
        if not items:
            return None
        x = items[0]
        if len(items) > 1:
            self.st.append(["alt", list(self.v), k, items[1:]])
        return x

    def out(self, r):
        self.qs[-1][3] = r if r != "." else self.qs[-1][3]
        self.log += r + ("ball" if r == "X" else "") + "".join("?" if self.dirty else "_" if x is None else str(x) for x in self.v) + " "

    def solve(self, k, x):
        """the query has produced item x (None: failure)"""
        q = self.qs[-1]
        if x is None or x == "T":
            del self.st[q[0]:]
            self.dirty = True
            self.out("F" if x is None else "X")
        else:
            self.dirty = False
            self.bind(k, x)
            self.out("S")

    def begin(self, rec):
        if rec:
            self.st.append(["rec", list(self.v), 0, []])
        self.qs.append([len(self.st), rec, list(self.v), None])

    def call(self, g, k, g2=None):
        self.solve(k, self.take(k, self.items(g, k, g2)))

    def next(self):
        q = self.qs[-1]
        x, k = None, 0
        if len(self.st) > q[0]:
            e = self.st.pop()
            self.v = list(e[1])
            k = e[2]
            x = self.take(k, e[3])
        self.solve(k, x)

    def end(self, op):
        q = self.qs.pop()
        if op == "R":
            del self.st[q[0] - 1:]
            self.v = list(q[2])
            self.dirty = False
        elif op == "C":
            del self.st[q[0] - (1 if q[1] else 0):]
        elif q[1]:
            del self.st[q[0] - 1]
        self.log += "." + "".join("?" if self.dirty else "_" if x is None else str(x) for x in self.v) + " "

    def sols(self):
        """bindings of the solutions of the foreign predicate"""
        r = []
        if not self.dirty:
            r.append(list(self.v))
        while self.st:
            e = self.st.pop()
            self.v = list(e[1])
            x = self.take(e[2], e[3])
            if x == "T":
                return r, True
            self.bind(e[2], x)
            r.append(list(self.v))
        return r, False


def scripts(depth, goals, vars_, ctx, extra):
    """(script, machine) for every complete script of at most depth operations"""
    def rec(s, m, d, keep):
        if not m.qs:
            yield s + ("-" if m.dirty else ""), m
            if m.dirty:
                return
        need = sum(1 if q[3] else 2 for q in m.qs)
        if d - need < 0:
            return
        q = m.qs[-1] if m.qs else None
        if q and q[3] is None:
            for g in goals:
                for k in vars_:
                    if d - need - 0 < 0:
                        continue
                    n = m.clone()
                    n.call(g, k)
                    yield from rec(s + "c%s%d" % (g, k), n, d - 1, keep)
            if extra:
                for g, g2 in (("2", "2"), ("3", "1"), ("2", "x"), ("0", "1"), ("3", "d")):
                    n = m.clone()
                    n.call(g, 0, g2)
                    yield from rec(s + "k%s%s0" % (g, g2), n, d - 1, keep)
                if not m.dirty:
                    n = m.clone()
                    if n.v[1] is None:
                        n.bind(1, 9)
                        n.log += "1"
                        yield from rec(s + "ma19", n, d - 1, keep)
            return
        if q:
            if q[3] == "S" and not keep and d - need >= 1:
                n = m.clone()
                n.next()
                yield from rec(s + "n", n, d - 1, keep)
            for op in "RCK":
                if op == "R" and not q[1]:
                    continue
                n = m.clone()
                n.end(op)
                yield from rec(s + "e" + op, n, d - 1, bool(n.qs) and (keep or op == "K"))
        if not m.dirty and d - need >= 3 and len(m.qs) < 3 and not keep:
            for r in "RN":
                n = m.clone()
                n.begin(r == "R")
                yield from rec(s + "b" + r, n, d - 1, keep)
    yield from rec("", Mach(ctx), depth, False)


def mask(log, pattern):
    if len(log) != len(pattern):
        return False
    return all(b == "?" or a == b for a, b in zip(log, pattern))


def rterm(v, log, ctx, extra=()):
    x, y = V(), V()
    a = [x if v[0] is None else v[0], (x if ctx == "c" else y) if v[1] is None else v[1]]
    return st("r", *a, A(log), *extra)


def script_case(ctx, s, m):
    # every prefix of the log where the values are not judged is left open: the log is compared by pattern
    log = m.log
    sols, thrown = m.clone().sols()
    if "?" not in log:
        if thrown:
            e = "ball"
        elif ctx == "e":
            e = fmt(lst([rterm(v, log, ctx, (A(z),)) for z in "ab" for v in sols]))
        elif ctx == "f":
            e = fmt(lst([rterm(v, log, ctx) for v in sols[:1]]))
        else:
            e = fmt(lst([rterm(v, log, ctx) for v in sols]))
        if ctx == "f" and sols:
            e = fmt(lst([rterm(sols[0], log, ctx)]))
        return "s(%s,%s)." % (ctx, q(s)), e
    if thrown and not (ctx == "f" and sols):
        return "s(%s,%s)." % (ctx, q(s)), "ball"
    mark = "@" * len(log)
    if ctx == "e":
        w = fmt(lst([rterm(v, mark, ctx, (A(z),)) for z in "ab" for v in sols]))
    elif ctx == "f":
        w = fmt(lst([rterm(v, mark, ctx) for v in sols[:1]]))
    else:
        w = fmt(lst([rterm(v, mark, ctx) for v in sols]))
    qm, ql = fmt(A(mark)), log

    def pred(g):
        parts = w.split(qm)
        # the logs have no quotes but are quoted themselves: walk the template
        p = 0
        for k, t in enumerate(parts):
            if not g.startswith(t, p):
                return False
            p += len(t)
            if k < len(parts) - 1:
                if g[p:p + 1] != "'":
                    return False
                e = g.find("'", p + 1)
                if e < 0 or not mask(g[p + 1:e], ql):
                    return False
                p = e + 1
        return p == len(g)
    pred.__doc__ = w.replace(qm, "'" + log + "'")
    return "s(%s,%s)." % (ctx, q(s)), pred


def fam_script(i, n, tier):
    j = 0
    sets = [("all", 5 if tier == "quick" else 6, list(GOALS), (0,), False, "abcdef"), ("two", 6 if tier == "quick" else 8, ["2", "x"], (0, 1), False, "abcdef"), ("deep", 9 if tier == "quick" else 10, ["2"], (0, 1), False, "b"),
            ("nat", 6 if tier == "quick" else 7, ["0", "3", "y", "n", "r"], (0,), False, "bef"), ("conj", 5 if tier == "quick" else 7, ["2", "y"], (0, 1), True, "abcf")]
    for name, depth, goals, vars_, extra, ctxs in sets:
        for ctx in ctxs:
            cs = []
            for s, m in scripts(depth, goals, vars_, ctx, extra):
                j += 1
                if j % n == i:
                    cs.append(script_case(ctx, s, m))
            yield "%s %s" % (name, ctx), "driver(fc_case).", cs


def fam_cont(i, n, tier):
    j = 0
    for how in range(4):
        cs = []
        for s, m in scripts(5 if tier == "quick" else 6, ["2", "x", "0", "y"], (0, 1), "b", False):
            j += 1
            if j % n != i or m.dirty or "?" in m.log:
                continue
            m = m.clone()
            log = m.log
            r = []
            if how == 1:
                e = "!!7"
                cs.append(("s(x(1),%s)." % q(s), "7"))
                continue
            if how in (0, 2):
                x = m.take(1, m.items("1" if how == 0 else "2", 1))
                if x is None:
                    m.dirty = True
                else:
                    m.bind(1, x)
            else:
                pass
            sols, thrown = m.sols()
            cs.append(("s(x(%d),%s)." % (how, q(s)), "ball" if thrown else fmt(lst([rterm(v, log, "b") for v in sols]))))
        yield "cont %d" % how, "driver(fc_case).", cs


def main():
    ck = Check("C28")
    x = exe(open(os.path.join(D, "drv.pl")).read(), files=(os.path.join(D, "fc.c"),))
    for name, f in (("args", fam_args), ("api", fam_rd), ("build", fam_build), ("many", fam_many), ("nd", fam_nd), ("script", fam_script), ("cont", fam_cont)):
        run_lines(ck, name, x, f)
    return ck.finish(rule="every argument type x mode x term of the universe; every sequence of query operations up to the depth against an abstract machine")
