"""Finite domain problems: Python's own evaluation of every assignment is the oracle.

Expressions are nested tuples ('+', a, b), ints and variable names.  must = the assignments every
reading of the manual makes solutions; may = those some reading allows.  They differ only where a
sub-expression is outside what the manual defines: an operand or result of a non linear operation
that is negative (an FD variable holds naturals only), or undefined under reification."""
import itertools
import re

OPS = ("+", "-", "*", "/", "//", "rem", "**", "min", "max", "dist", "quot_rem")
REL = {"#=": "==", "#\\=": "!=", "#<": "<", "#=<": "<=", "#>": ">", "#>=": ">="}
BOOL2 = {"#<=>": lambda a, b: a == b, "#\\<=>": lambda a, b: a != b, "##": lambda a, b: a != b, "#==>": lambda a, b: not a or b, "#\\==>": lambda a, b: a and not b,
         "#/\\": lambda a, b: a and b, "#\\/\\": lambda a, b: not (a and b), "#\\/": lambda a, b: a or b, "#\\\\/": lambda a, b: not (a or b)}


class Undef(Exception):
    pass


def text(e):
    if type(e) is int:
        return str(e) if e >= 0 else "(%d)" % e
    if type(e) is str:
        return e
    o = e[0]
    if o in ("min", "max", "dist", "quot_rem"):
        return "%s(%s)" % (o, ",".join(text(a) for a in e[1:]))
    if len(e) == 2:
        return "(%s(%s))" % (o, text(e[1]))
    return "(%s %s %s)" % (text(e[1]), o, text(e[2]))


def const(e):
    """no variable in it"""
    return type(e) is int or type(e) is tuple and all(const(a) for a in e[1:])


VMAX = 1023                     # run with VECTORMAX set to this: a larger intermediate value may lose solutions


def small(v, strict):
    if strict and abs(v) > VMAX - 100:
        raise Undef
    return v


def ev(e, env, strict):
    if type(e) is int:
        return e
    if type(e) is str:
        return env[e]
    o = e[0]
    if len(e) == 2:
        a = ev(e[1], env, strict)
        return -a if o == "-" else a
    a, b = ev(e[1], env, strict), ev(e[2], env, strict)
    if o == "+":
        return a + b
    if o == "-":
        return a - b
    if o == "*":
        return small(a * b, strict)
    if strict and (a < 0 or b < 0):
        raise Undef
    if o == "min":
        return min(a, b)
    if o == "max":
        return max(a, b)
    if o == "dist":
        return abs(a - b)
    if o == "**":
        if b < 0:
            if a == 1:
                return 1
            raise Undef
        return small(a ** b, strict)
    if b == 0:
        raise Undef
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    r = a - q * b
    if o == "/":
        if r:
            raise Undef
        return q
    if o == "//":
        return q
    if o == "rem":
        return r
    if o == "quot_rem":
        if ev(e[3], env, strict) != r:
            raise Undef
        return q
    raise ValueError(o)


def holds(c, env, strict):
    """truth value of a constraint; Undef where the manual gives none"""
    if type(c) is int:
        if c not in (0, 1):
            raise Undef
        return bool(c)
    if type(c) is str:
        if env[c] > 1:
            raise Undef
        return bool(env[c])
    o = c[0]
    if o == "#\\":
        return not holds(c[1], env, strict)
    if o in BOOL2:
        a, b = holds(c[1], env, strict), holds(c[2], env, strict)
        return bool(BOOL2[o](a, b))
    a, b = ev(c[1], env, strict), ev(c[2], env, strict)
    o = o.rstrip("#") if o[-1] == "#" else o
    return {"#=": a == b, "#\\=": a != b, "#<": a < b, "#=<": a <= b, "#>": a > b, "#>=": a >= b}[o]


def is_bool(c):
    return type(c) is not tuple or c[0] == "#\\" or c[0] in BOOL2


_cache = {}


def sols(c, names, doms):
    """(must, may) as sets of tuples over the product of doms"""
    k = (c, names, doms)
    if k in _cache:
        return _cache[k]
    must, may = set(), set()
    reif = is_bool(c)
    for t in itertools.product(*doms):
        env = dict(zip(names, t))
        try:
            if holds(c, env, True):
                must.add(t)
                may.add(t)
                continue
            r = False
        except Undef:
            r = None
        if r is None:
            try:
                if holds(c, env, False):
                    may.add(t)
            except Undef:
                if reif:
                    may.add(t)
    if len(_cache) > 20000:
        _cache.clear()
    _cache[k] = must, may
    return must, may


class Exp:
    """what a posting followed by a full labeling may show"""
    __slots__ = ("n", "must", "may", "proj", "exact", "doms")

    def __init__(self, n, must, may, doms=None, exact=False):
        self.n, self.must, self.may, self.exact, self.doms = n, sorted(must), may, exact, doms
        self.proj = [set(t[i] for t in must) for i in range(n)]

    def __str__(self):
        return "domains including %s, solutions %s%s" % (" x ".join(str(sorted(p)) for p in self.proj), self.must, "" if len(self.must) == len(self.may) else " (allowed: %s)" % sorted(self.may - set(self.must)))


INTS = re.compile(r"-?\d+")


def match(e, g):
    if type(e) is str:
        return e == g
    if g == "no":
        return not e.must
    if g[:1] != "=" or not g.endswith("\tmore"):
        return False
    parts = g.split("[]", e.n)
    if len(parts) != e.n + 1:
        return False
    for i in range(e.n):
        d = [int(x) for x in INTS.findall(parts[i])]
        s = set(d)
        if len(s) != len(d) or d != sorted(d) or not e.proj[i] <= s:
            return False
        if e.doms and not s <= set(e.doms[i]):
            return False
        if e.exact and s != e.proj[i]:
            return False
    f = [int(x) for x in INTS.findall(parts[e.n])]
    n = e.n
    if len(f) % n:
        return False
    l = [tuple(f[k:k + n]) for k in range(0, len(f), n)]
    if any(not a < b for a, b in zip(l, l[1:])):
        return False
    s = set(l)
    if not s <= e.may:
        return False
    return len(s) == len(e.must) and s >= set(e.must) or s >= set(e.must)


HELP = """
fd_see(V, [V]) :- integer(V), !.
fd_see(V, D) :- fd_dom(V, D).
fd_sees([], []).
fd_sees([V|Vs], [D|Ds]) :- fd_see(V, D), fd_sees(Vs, Ds).
fdr(Vs, D, L) :- fd_sees(Vs, D), findall(Vs, fd_labeling(Vs), L).
"""


def dtext(v, d):
    d = list(d)
    if d == list(range(d[0], d[-1] + 1)):
        return "fd_domain(%s,%d,%d)" % (v, d[0], d[-1])
    return "fd_domain(%s,[%s])" % (v, ",".join(map(str, d)))


def case(key, names, doms, parts, must, may, exact=False, late=False):
    """parts: texts of the goals to post; domains first unless late"""
    n = len(names)
    dm = [dtext(v, d) for v, d in zip(names, doms)]
    gs = list(parts) + dm if late else dm + list(parts)
    ds = ["D%d" % i for i in range(n)]
    goal = "%s,fdr([%s],[%s],L)" % (",".join(gs), ",".join(names), ",".join(ds))
    return key, 1, "t(%s,L)" % ",".join(ds), goal, Exp(n, must, may, doms, exact)
