"""C47: a constraint written in the FD language means what its text says.

Every constraint definition of a bounded grammar (terms, ranges, local variables, tests, triggers, switches, two blocks)
is generated as an abstract tree, written as text, compiled by the real fd2c + C compiler, linked and posted on every
state of X, Y and C; then Y is narrowed in every listed way.  The domains after posting and after the narrowing are
compared with a set interpretation of the tree."""
import itertools
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import lines
from vlib.build import get_build, CompileError
from vlib.lines import run_lines
from vlib.report import Check

VM = 127


class Skip(Exception):
    pass


class Delay(Exception):
    """val(V) of a variable that has no value yet"""


class Leave(Exception):
    """exit if"""


class Fail(Exception):
    pass


# ---- terms -------------------------------------------------------------------------------------
TP = {"&&": 1, "||": 1, "==": 2, "!=": 2, "<": 2, "<=": 2, ">": 2, ">=": 2, "=": 2, "+": 3, "-": 3, "*": 4, "/<": 4, "/>": 4, "mod": 4}


def tx(t, p=0):
    o = t[0]
    if o == "k":
        return str(t[1])
    if o in ("min", "max", "val"):
        return "%s(%s)" % (o, t[1])
    if o == "v":
        return t[1]
    if o == "neg":
        return "- " + tx(t[1], 5)
    l = TP[o]
    # the order of && and || without parentheses is not documented: parentheses always
    def logic(x):
        return o in ("&&", "||") and x[0] in ("&&", "||")
    a = tx(t[1], 9 if logic(t[1]) and t[1][0] != o else l + (l == 2))
    b = tx(t[2], l + 1)
    s = "%s %s %s" % (a, o, b)
    return "(%s)" % s if l < p else s


def tv(t, st):
    o = t[0]
    if o == "k":
        return t[1]
    if o == "v":
        return st["loc"][t[1]]
    if o == "min":
        return min(st[t[1]])
    if o == "max":
        return max(st[t[1]])
    if o == "val":
        if len(st[t[1]]) > 1:
            raise Delay
        return min(st[t[1]])
    if o == "neg":
        return -tv(t[1], st)
    a = tv(t[1], st)
    if o == "&&":
        return int(bool(a) and bool(tv(t[2], st)))
    if o == "||":
        return int(bool(a) or bool(tv(t[2], st)))
    b = tv(t[2], st)
    if o in ("/<", "/>", "mod"):
        if a < 0 or b <= 0:
            raise Skip
        return a // b if o == "/<" else -(-a // b) if o == "/>" else a % b
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: int(a == b), "=": lambda: int(a == b), "!=": lambda: int(a != b),
            "<": lambda: int(a < b), "<=": lambda: int(a <= b), ">": lambda: int(a > b), ">=": lambda: int(a >= b)}[o]()


# ---- ranges ------------------------------------------------------------------------------------
RP = {":": 1, "&": 2, "++": 3, "--": 3, "**": 4, "//": 4, "%%": 4}
POST = ("+", "-", "*", "/", "%")


def rx(r, p=0):
    o = r[0]
    if o == "..":
        s = "%s .. %s" % (tx(r[1], 1), tx(r[2], 1))
        return "(%s)" % s if p > 5 else s
    if o == "{}":
        return "{%s}" % ", ".join(tx(t) for t in r[1])
    if o == "dom":
        return "dom(%s)" % r[1]
    if o == "v":
        return r[1]
    if o == "~":
        return "~" + rx(r[1], 7)
    if o[0] == "t":                                  # range op term: the term extends as far as it can
        s = "%s %s %s" % (rx(r[1], 6), o[1:], tx(r[2]))
        return "(%s)" % s if p > 4 else s
    l = RP[o]
    s = "%s %s %s" % (rx(r[1], l), o, rx(r[2], l + 1))
    return "(%s)" % s if l < p else s


def chk(s, lossy=False, top=False):
    s = frozenset(s)
    if any(x < 0 for x in s):
        raise Skip
    return s, lossy


def rv(r, st, top=False):
    """(set, lossy): lossy = values above VM may be missing or present (only combined with other sets, never moved)"""
    o = r[0]
    if o == "..":
        a, b = tv(r[1], st), tv(r[2], st)
        if a > b:
            return frozenset(), False
        if a < 0 and not top:
            raise Skip
        return frozenset(range(max(a, 0), min(b, VM) + 1)), b > VM
    if o == "{}":
        l = [tv(t, st) for t in r[1]]
        if any(x > VM or (x < 0 and not top) for x in l):
            raise Skip
        return frozenset(x for x in l if x >= 0), False
    if o == "dom":
        return frozenset(st[r[1]]), False
    if o == "v":
        return st["loc"][r[1]]
    if o == "~":
        s, _ = rv(r[1], st)
        return frozenset(range(VM + 1)) - s, True
    a, la = rv(r[1], st)
    if o[0] == "t":
        n = tv(r[2], st)
        if la or any(x > VM for x in a):
            raise Skip
        op = o[1:]
        if op == "+":
            return chk(x + n for x in a)
        if op == "-":
            return chk(x - n for x in a)
        if n < 0 or (n == 0 and op != "*") or not a:
            raise Skip
        return chk([x * n for x in a] if op == "*" else [x // n for x in a if x % n == 0] if op == "/" else [x % n for x in a])
    b, lb = rv(r[2], st)
    if o == ":":
        return a | b, la or lb
    if o == "&":
        return a & b, la or lb
    if la or lb or not a or not b or max(a) > VM or max(b) > VM:
        raise Skip
    if o == "++":
        return chk(x + y for x in a for y in b)
    if o == "--":
        return chk(x - y for x in a for y in b)
    if o == "**":
        return chk(x * y for x in a for y in b)
    if o == "//":
        return chk([0 if x == 0 else x // y for x in a for y in b if x == 0 or (y and x % y == 0)])
    return chk(x % y for x in a for y in b if y)


# ---- blocks ------------------------------------------------------------------------------------
# block = (elems, target, range, trig, always); elem = ("int", v, t) | ("range", v, r) | ("set", v, t or r) | ("fail", t) | ("exit", t)
def uses(x, acc):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] in ("min", "max", "val", "dom") and isinstance(x[1], str):
            acc.setdefault(x[1], set()).add(x[0])
        else:
            for y in x:
                uses(y, acc)
    return acc


def bx(b):
    el, tg, r, trig, alw = b
    s = "start "
    for e in el:
        s += {"int": lambda: "int %s = %s " % (e[1], tx(e[2])), "range": lambda: "range %s = %s " % (e[1], rx(e[2])),
              "decl": lambda: "%s %s " % (e[1], e[2]), "set": lambda: "%s = %s " % (e[1], tx(e[2])), "setr": lambda: "%s = %s " % (e[1], rx(e[2])),
              "fail": lambda: "fail if %s " % tx(e[1]), "exit": lambda: "exit if %s " % tx(e[1])}[e[0]]() + "\n  "
    s += "%s in %s" % (tg, rx(r))
    if trig:
        s += "\n  trigger %son %s" % ("also " if trig[0] == "also" else "", ", ".join("%s(%s)" % w for w in trig[1]))
    return s + (" always" if alw else "")


def run_block(b, st):
    """new domain of the target, or None if the block does nothing; Fail"""
    el, tg, r, trig, alw = b
    for v, m in uses((el, r), {}).items():
        if "val" in m and len(st[v]) > 1:
            return None
    st = dict(st, loc=dict(st["loc"]))
    for e in el:
        if e[0] in ("int", "set"):
            st["loc"][e[1] if e[0] == "set" else e[1]] = tv(e[2], st)
        elif e[0] in ("range", "setr"):
            st["loc"][e[1]] = rv(e[2], st)
        elif e[0] == "fail":
            if tv(e[1], st):
                raise Fail
        elif e[0] == "exit":
            if tv(e[1], st):
                return None
    s, _ = rv(r, st, top=True)
    n = frozenset(st[tg]) & s
    if not n:
        raise Fail
    return n


def marks(b):
    el, tg, r, trig, alw = b
    u = {} if trig and trig[0] == "on" else {v: set(m) for v, m in uses((el, r), {}).items()}
    for w, v in (trig[1] if trig else ()):
        u.setdefault(v, set()).add(w)
    return u


def fired(b, v, old, new):
    m = marks(b).get(v)
    if not m or old == new:
        return False
    if "val" in m:
        return len(new) == 1 < len(old)
    if "dom" in m:
        return True
    return ("min" in m and min(new) != min(old)) or ("max" in m and max(new) != max(old))


class Cstr:
    """blocks, then an optional switch [(condition, blocks)]"""

    def __init__(self, blocks, switch=None):
        self.blocks, self.switch = list(blocks), switch

    def text(self, name):
        s = "\n".join(" " + bx(b) for b in self.blocks)
        if self.switch:
            s += "\n wait_switch"
            for c, bl in self.switch:
                s += "\n  case %s\n" % tx(c) + "\n".join("   " + bx(b) for b in bl)
        return "%s(fdv X, fdv Y, int C, range P)\n{\n%s\n}\n" % (name, s)

    def start(self, st):
        """the live blocks after posting; st is updated"""
        self_live = []
        pend = list(self.blocks)
        for b in pend:
            old = {v: st[v] for v in "XY"}
            n = run_block(b, st)
            self_live.append(b)
            if n is not None:
                st[b[1]] = n
            fix(self_live, st, old)
        if self.switch:
            self.sw = True
            self.do_switch(self_live, st)
        return self_live

    def do_switch(self, live, st):
        for v, m in uses([c for c, _ in self.switch], {}).items():
            if "val" in m and len(st[v]) > 1:
                return
        for c, bl in self.switch:
            if tv(c, st):
                self.sw = False
                for b in bl:
                    old = {v: st[v] for v in "XY"}
                    n = run_block(b, st)
                    live.append(b)
                    if n is not None:
                        st[b[1]] = n
                    fix(live, st, old)
                return


def fix(live, st, old, soft=None):
    """run the triggered blocks to a fixpoint; old = state before the change"""
    for _ in range(60):
        cur = {v: st[v] for v in "XY"}
        todo = [b for b in live if any(fired(b, v, old[v], cur[v]) for v in "XY")]
        if not todo:
            return
        old = cur
        for b in todo:
            if not b[4] and len(st[b[1]]) == 1:      # the target has a value: an optimized constraint may have gone
                if soft is not None:
                    soft.append(b)
            n = run_block(b, st)
            if n is not None:
                st[b[1]] = n
    raise Skip


def outcome(c, X, Y, C, P, Y2):
    st = {"X": X, "Y": Y, "loc": {"C": C, "P": (P, False)}}
    try:
        live = c.start(st)
    except Fail:
        return "fail"
    one = show(st)
    new = st["Y"] & Y2
    if not new:
        return one + " fail"
    old = {v: st[v] for v in "XY"}
    before = dict(st)
    st["Y"] = new
    soft = []
    try:
        fix(live, st, old, soft)
        if c.switch and c.sw and any(sw_fired(c, v, old[v], st[v]) for v in "XY"):
            c.do_switch(live, st)
        two = show(st)
    except Fail:
        two = "fail"
    exp = one + " " + two
    if soft and two == "fail":
        before["Y"] = new
        return {exp, one + " " + show(before)}
    return exp


def sw_fired(c, v, old, new):
    m = uses([x for x, _ in c.switch], {}).get(v)
    if not m or old == new:
        return False
    if "val" in m:
        return len(new) == 1
    return "dom" in m or ("min" in m and min(new) != min(old)) or ("max" in m and max(new) != max(old))


def show(st):
    return "/".join("[%s]" % ",".join(map(str, sorted(st[v]))) for v in "XY")


# ---- families ----------------------------------------------------------------------------------
K = lambda n: ("k", n)
CC = ("v", "C")
MINY, MAXY, VALY = ("min", "Y"), ("max", "Y"), ("val", "Y")
DOMY = ("dom", "Y")
PP = ("v", "P")


def X(r, el=(), trig=None, alw=True):
    return Cstr([(tuple(el), "X", r, trig, alw)])


def fam_terms(deep):
    at = [K(0), K(1), K(3), CC, MINY, MAXY, VALY]
    lo = [(o, a, b) for o in ("+", "-", "*", "/<", "/>", "mod") for a in at[1:] for b in at[1:6] if (a[0] != "k" or b[0] != "k")]
    lo += [("neg", a) for a in at[1:]] + [("neg", ("neg", CC)), ("neg", ("neg", MINY)), ("-", MINY, ("neg", CC)), ("*", ("neg", CC), ("neg", MAXY))]
    cm = [(o, MINY, b) for o in ("==", "=", "!=", "<", "<=", ">", ">=") for b in (K(1), CC, MAXY)]
    lg = [(o, a, b) for o in ("&&", "||") for a in (("==", CC, K(1)), ("<", MINY, K(2))) for b in ((">=", MAXY, K(3)), ("!=", CC, K(2)))]
    c3 = ((">", CC, K(0)), ("<", MINY, K(2)), ("==", MAXY, K(5)))
    lg += [(o, (p, c3[0], c3[1]), c3[2]) for o in ("&&", "||") for p in ("&&", "||")]
    lg += [(o, c3[0], (p, c3[1], c3[2])) for o in ("&&", "||") for p in ("&&", "||")]
    n3 = [(o, (p, MAXY, CC), K(2)) for o in ("+", "-", "*", "/<", "/>", "mod") for p in ("+", "-", "*", "/<", "/>", "mod")]
    n3 += [(o, MAXY, (p, K(7), CC)) for o in ("+", "-", "*", "/<", "/>", "mod") for p in ("+", "-", "*", "/<", "/>", "mod")]
    for t in at + lo + n3:
        yield X(("..", t, K(12)))
        yield X(("..", K(0), t))
        yield X(("{}", [t]))
        yield X(("~", ("{}", [t])))
    for t in cm + lg:
        yield X(("..", t, ("+", t, K(3))))
        yield X(("{}", [t, K(4)]))
        yield X(("..", ("*", t, K(4)), ("-", K(15), t)))
    for a, b in itertools.product(at, at):
        yield X(("..", a, b))
        yield X(("..", a, ("+", b, K(2))))
        yield X(("..", ("-", a, K(1)), b))
        yield X(("{}", [a, b]))
        yield X(("~", ("{}", [a, b])))
        yield X(("~", ("..", a, b)))
    for a, b, c in itertools.product(at[1:], at[1:], at[1:]):
        if len({a, b, c}) == 3 or deep:
            yield X(("{}", [a, b, c]))
    yield X(("{}", []))
    yield X(("~", ("{}", [])))
    yield X(("..", MINY, ("v", "max_integer")) if False else ("..", MINY, K(100000000)))


def rprims():
    return [("..", K(0), K(3)), ("..", MINY, MAXY), ("..", CC, K(5)), ("{}", [K(2)]), ("{}", [K(1), K(4)]), ("{}", [CC, MAXY]), DOMY, PP, ("{}", [VALY]), ("..", K(2), K(1))]


def fam_ranges(deep):
    pr = rprims()
    ops = (":", "&", "++", "--", "**", "//", "%%")
    for o in ops:
        for a, b in itertools.product(pr, pr):
            yield X((o, a, b))
            if o in (":", "&"):
                yield X(("~", (o, a, b)))
                yield X((o, ("~", a), b))
                yield X((o, a, ("~", b)))
                yield X((o, ("~", a), ("~", b)))
    ts = [K(0), K(1), K(2), CC, MINY, MAXY, VALY, ("+", CC, K(1)), ("*", CC, K(2)), ("-", MAXY, MINY)]
    for o in POST:
        for a in pr:
            for t in ts:
                yield X(("t" + o, a, t))
    for a in pr:
        yield X(("~", ("~", a)))
        yield X(("~", ("~", ("~", a))))
        yield X(a)
    tri = [PP, ("{}", [K(1), K(4)]), DOMY]
    for o1, o2 in itertools.product(ops, ops):
        for a, b, c in itertools.permutations(tri):
            yield X((o2, (o1, a, b), c))
            yield X((o1, a, (o2, b, c)))
    for o1 in ops:
        for o2 in POST:
            for a, b in ((PP, DOMY), (DOMY, ("{}", [K(1), K(4)])), (("..", K(0), K(3)), PP)):
                for t in (K(2), CC):
                    yield X((o1, ("t" + o2, a, t), b))
                    yield X((o1, a, ("t" + o2, b, t)))
                    yield X(("t" + o2, (o1, a, b), t))
    for o1, o2 in itertools.product(POST, POST):
        for a in (PP, DOMY, ("..", MINY, MAXY)):
            for s, t in ((K(2), K(1)), (K(1), CC), (CC, K(2)), (CC, MINY)):
                yield X(("t" + o2, ("t" + o1, a, s), t))
    # the same range several times
    for a in (DOMY, PP):
        yield X((":", a, ("t+", a, K(1))))
        yield X((":", ("t+", a, K(1)), a))
        yield X(("&", ("++", a, a), ("~", a)))
        yield X((":", ("t+", a, CC), ("t+", ("t+", a, CC), CC)))
        yield X(("++", ("t*", a, K(2)), a))
        yield X((":", (":", ("t+", a, K(5)), a), ("t*", a, K(2))))
        yield X(("&", (":", a, ("..", ("min", "Y"), ("+", ("max", "Y"), K(2)))), ("~", a)))


def fam_locals(deep):
    L, M, Q, S = ("v", "L"), ("v", "M"), ("v", "Q"), ("v", "S")
    ts = [K(2), CC, MINY, MAXY, VALY, ("+", MINY, CC), ("-", MAXY, MINY), ("mod", MAXY, K(3))]
    conds = [(o, a, b) for o in ("==", "!=", "<", "<=", ">", ">=") for a in (CC, MINY, VALY, MAXY) for b in (K(1), K(3))]
    conds += [("&&", (">", CC, K(0)), ("<", MINY, K(2))), ("||", ("==", CC, K(0)), (">", MAXY, K(4))), ("+", CC, MINY), ("-", CC, K(1)), CC, ("&&", ("||", ("==", CC, K(0)), ("<", MINY, K(2))), ("==", MAXY, K(5)))]
    for t in ts:
        yield X(("..", L, ("+", L, K(2))), [("int", "L", t)])
        yield X(("..", L, K(9)), [("int", "L", t), ("set", "L", ("+", L, K(1)))])
        yield X(("{}", [L, M]), [("int", "L", t), ("int", "M", ("*", L, K(2)))])
        yield X(("..", M, L), [("decl", "int", "L"), ("int", "M", CC), ("set", "L", ("+", t, M))])
        yield X(("..", CC, K(9)), [("set", "C", ("+", CC, t))])
    for r in rprims()[:9]:
        yield X(Q, [("range", "Q", r)])
        yield X((":", Q, ("t+", Q, K(1))), [("range", "Q", r)])
        yield X((":", Q, S), [("range", "Q", r), ("range", "S", ("t+", Q, K(2)))])
        yield X(("&", Q, S), [("range", "Q", r), ("range", "S", ("t*", Q, K(2)))])
        yield X((":", S, Q), [("range", "Q", r), ("range", "S", Q), ("setr", "Q", ("t+", Q, K(3)))])
        yield X(("~", Q), [("decl", "range", "Q"), ("setr", "Q", r)])
        yield X((":", S, ("&", Q, PP)), [("range", "Q", r), ("range", "S", ("~", Q))])
        yield X((":", PP, Q), [("range", "Q", (":", PP, r)), ("setr", "P", ("t+", PP, K(1)))])
    for k in ("fail", "exit"):
        for c in conds:
            yield X(("..", MINY, K(6)), [(k, c)])
            yield X(("..", CC, K(6)), [(k, c)])
        for c, d in itertools.product(conds[::5], conds[1::7]):
            yield X(("..", L, K(6)), [("int", "L", CC), (k, c), ("set", "L", ("+", L, K(1))), ("exit", d)])
            yield X(("..", L, K(6)), [("exit", c), ("int", "L", MINY), (k, d)])
    return


def fam_trig(deep):
    ws = [((w, "Y"),) for w in ("min", "max", "dom", "val")] + [(("min", "Y"), ("max", "Y")), (("max", "Y"), ("min", "Y")), (("dom", "Y"), ("min", "Y")), (("min", "X"),), (("dom", "X"), ("max", "Y")), (("val", "X"), ("min", "Y"))]
    rs = [("..", MINY, K(15)), ("..", K(0), MAXY), ("..", MINY, MAXY), DOMY, ("~", DOMY), ("{}", [CC, MAXY]), ("..", CC, K(9)), ("t*", DOMY, K(2)), ("..", VALY, K(20)), ("{}", [VALY]), ("&", DOMY, ("..", MINY, ("-", MAXY, K(1)))), ("..", K(1), ("+", VALY, MINY))]
    for r in rs:
        for alw in (True, False):
            yield X(r, alw=alw)
            for w in ws:
                yield X(r, trig=("on", w), alw=alw)
                m = uses(r, {}).get("Y", set())
                new = {x for x, v in w if v == "Y"}
                if ("val" in new or "val" in m) and m != new:
                    continue                     # several kinds of events with val on one variable: left open
                if "val" in new and len(new) > 1:
                    continue
                yield X(r, trig=("also", w), alw=alw)


def fam_two(deep):
    """two monotone blocks"""
    MX, XX = ("min", "X"), ("max", "X")
    pairs = [
        (("..", ("+", MINY, CC), ("+", MAXY, CC)), ("..", ("-", MX, CC), ("-", XX, CC))),
        (("t+", DOMY, CC), ("..", K(0), XX)),
        (("t*", DOMY, K(2)), ("t/", ("dom", "X"), K(2))),
        (("..", MINY, K(20)), ("..", K(0), XX)),
        (("..", ("+", MINY, K(1)), K(20)), ("..", K(0), ("-", XX, K(1)))),
        (("~", ("{}", [VALY])), ("~", ("{}", [("val", "X")]))),
        (("{}", [VALY]), ("{}", [("val", "X")])),
        (DOMY, ("dom", "X")),
        (("t+", DOMY, K(1)), ("..", ("-", MX, K(1)), ("-", XX, K(1)))),
        (("..", ("/>", MINY, K(2)), ("/<", MAXY, K(2))), ("..", ("*", MX, K(2)), ("+", ("*", XX, K(2)), K(1)))),
    ]
    for p, q in itertools.product(pairs, pairs):
        r, s = p[0], q[1]
        for alw in (True, False):
            if not alw and p is not q:
                continue                             # without always a ground target ends the block: only for equivalent pairs
            yield Cstr([((), "X", r, None, alw), ((), "Y", s, None, alw)])
            if alw:
                yield Cstr([((), "Y", s, None, alw), ((), "X", r, None, alw)])
    for r, s in itertools.product([("..", MINY, K(9)), DOMY, ("~", ("{}", [VALY])), ("..", CC, K(12)), ("t+", DOMY, CC)], repeat=2):
        yield Cstr([((), "X", r, None, True), ((), "X", s, None, True)])


def fam_switch(deep):
    cs = [("==", MINY, MAXY), (">=", MINY, K(3)), ("<", MAXY, K(3)), ("==", CC, K(1)), ("&&", (">", MINY, K(0)), ("==", CC, K(2))), ("==", VALY, K(3)), ("||", ("==", MINY, K(3)), ("<", MAXY, CC))]
    bl = [[((), "X", ("..", MINY, K(9)), None, True)], [((), "X", DOMY, None, True)], [((), "X", ("..", CC, K(7)), None, True)], [((), "X", ("~", ("{}", [VALY])), None, True), ((), "X", ("..", K(1), ("+", MAXY, K(2))), None, True)], []]
    for c in cs:
        for b in bl:
            yield Cstr([], [(c, b)])
            yield Cstr([((), "X", ("..", MINY, K(15)), None, True)], [(c, b)])
    for c, d in itertools.permutations(cs, 2):
        for b, e in ((bl[0], bl[2]), (bl[3], bl[1]), (bl[4], bl[0]), (bl[1], bl[4])):
            yield Cstr([], [(c, b), (d, e)])
    if deep:
        for c, d, e in itertools.permutations(cs, 3):
            yield Cstr([], [(c, bl[0]), (d, bl[2]), (e, bl[1])])


FAMS = (("terms", fam_terms), ("ranges", fam_ranges), ("locals", fam_locals), ("triggers", fam_trig), ("two", fam_two), ("switch", fam_switch))

S20 = frozenset(range(21))
XS = (S20, frozenset((1, 4, 9, 16)), frozenset((5,)))
YS = (frozenset(range(6)), frozenset((2,)), frozenset((1, 3, 8)), frozenset((0, 7)), frozenset(range(3, 7)))
PS = (frozenset((1, 2, 3)), frozenset((0, 2, 6)))


def narrow(Y):
    s = sorted(Y)
    if len(s) == 1:
        return [Y]
    r = [frozenset(s[1:]), frozenset(s[:-1]), frozenset(s[:1]), frozenset(s[-1:])]
    if len(s) > 2:
        r += [frozenset([s[0]] + s[2:]), frozenset(s[1:-1])]
    out = []
    for x in r:
        if x not in out:
            out.append(x)
    return out


EXTRA = """
ks(S) :- read(S, T), T \\== end_of_file, ks1(T).
ks1(c(K,DX,DY,C,P,L)) :- ( ks2(K,DX,DY,C,P,L) -> true ; write(fail) ), nl.
ks2(K, DX, DY, C, P, L) :- fd_domain(X, DX), fd_domain(Y, DY), k(K, X, Y, C, P), fd_dom(X, A), fd_dom(Y, B), write(A/B), write(' '),
	( fd_domain(Y, L) -> fd_dom(X, A2), fd_dom(Y, B2), write(A2/B2) ; write(fail) ).
"""


def rng(P):
    return "[%s]" % ",".join(map(str, sorted(P)))


def main():
    ck = Check("C47")
    deep = ck.tier == "thorough"
    b = get_build()
    seen, cstrs = set(), []
    for fam, g in FAMS:
        n = 0
        for c in g(deep):
            t = c.text("k")
            if t in seen:
                continue
            seen.add(t)
            cstrs.append((fam, n, c))
            n += 1
    d = os.path.join(b.root, "fdl-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    PER = 60
    chunks = [range(i, min(i + PER, len(cstrs))) for i in range(0, len(cstrs), PER)]

    def comp(j):
        f = os.path.join(d, "f%d.fd" % j)
        o = os.path.join(d, "f%d.o" % j)
        open(f, "w").write("".join(cstrs[i][2].text("k%d" % i) + "\n" for i in chunks[j]))
        b.gplc(o, f, opts=("-c", "-C", "-O0 -w"))
        return o
    try:
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, range(len(chunks))))
        pl = EXTRA + "".join("k(%d, X, Y, C, P) :- fd_tell(k%d(X, Y, C, P)).\n" % (i, i) for i in range(len(cstrs)))
        f = os.path.join(d, "extra.pl")
        open(f, "w").write(pl)
        exe = os.path.join(d, "exe")
        b.gplc(exe, lines.DRV, f, *objs, opts=lines.BASE_OPTS)
    except CompileError as e:
        ck.violate("compile", "the FD compiler rejects or miscompiles a constraint of the language: " + str(e)[-3000:])
        return ck.finish(rule="every constraint of a bounded grammar of the FD language")
    lists = {}
    for S in XS + YS:
        lists[S] = str(sorted(S))

    def gen(i, n, tier):
        for j in range(i, len(cstrs), n):
            fam, no, c = cstrs[j]
            cs = []
            usesp = "P" in bx_all(c)
            for Xd, Yd, C, P in itertools.product(XS, YS, (0, 1, 2, 3), PS):
                if P is not PS[0] and not usesp:
                    continue
                for Y2 in narrow(Yd):
                    try:
                        e = outcome(c, Xd, Yd, C, P, Y2)
                    except Skip:
                        continue
                    cs.append(("c(%d,%s,%s,%d,%s,%s)." % (j, lists[Xd], lists[Yd], C, rng(P), sorted(Y2)), e))
            if cs:
                yield "%s %d: %s" % (fam, no, " ".join(c.text("k").split("\n", 1)[1].split())), "driver(ks).", cs
    run_lines(ck, "fdlang", exe, gen, shards=32, timeout=120)
    ck.note("constraints", len(cstrs)) if hasattr(ck, "note") else None
    for j in range(len(chunks)):
        for e in (".fd", ".o"):
            try:
                os.remove(os.path.join(d, "f%d%s" % (j, e)))
            except OSError:
                pass
    return ck.finish(rule="every definition of a bounded grammar of the FD language (terms, ranges, locals, tests, triggers, two blocks, switches) "
                          "x every listed state of X, Y, C and a range parameter x every narrowing of Y")


def bx_all(c):
    return " ".join(bx(x) for x in c.blocks) + " ".join(bx(y) for _, l in (c.switch or ()) for y in l)
