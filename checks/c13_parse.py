"""C13: operator expressions parse as the ISO grammar says.

The reference is the grammar itself: for an operator table, every token sequence that has a derivation, with every term
a derivation assigns to it, is generated bottom-up by length.  Every token sequence up to the bound (derivable or not)
is then read by the real reader.  Sequences with several derivations (operators of equal priority meeting) may give any
of them."""
import itertools
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import Atom, S, V, fmt, NIL
from vlib.report import Check

A = Atom


class Grammar:
    """derivations of every token string up to length n.  tokens: names, integers, variables, punctuation;
    '(' = open, '((' = open_ct (glued to the token before it)"""

    def __init__(self, ops, tokens, n, barprec=0):
        self.pre = {a: (p, p - (t == "fx")) for p, t, a in ops if t in ("fx", "fy")}
        self.inf = {a: (p, p - (t[0] == "x"), p - (t[2] == "x")) for p, t, a in ops if len(t) == 3}
        self.post = {a: (p, p - (t[0] == "x")) for p, t, a in ops if t in ("xf", "yf")}
        self.opatoms = set(self.pre) | set(self.inf) | set(self.post)
        self.tok = tokens
        self.n = n
        self.D = [{} for _ in range(n + 1)]     # length -> {tokens: {(prec, term text, opatom)}}
        self.args = [{} for _ in range(n + 1)]  # argument lists: tokens -> set of tuples of texts
        self.items = [{} for _ in range(n + 1)]
        for l in range(1, n + 1):
            self.level(l)

    def put(self, d, toks, v):
        d.setdefault(toks, set()).add(v)

    def atom(self, toks, name):
        self.put(self.D[len(toks)], toks, (1201, A(name), True) if name in self.opatoms else (0, A(name), False))

    def below(self, l, p):
        for toks, vs in self.D[l].items():
            for v in vs:
                if v[0] <= p:
                    yield toks, v

    def arg(self, l):
        for toks, vs in self.D[l].items():
            for v in vs:
                if v[0] <= 999 or v[2]:
                    yield toks, v[1]

    def level(self, l):
        D = self.D[l]
        names = [t for t in self.tok if isinstance(t, str) and t not in PUNCT]
        if l == 1:
            for t in self.tok:
                if isinstance(t, int):
                    self.put(D, (t,), (0, t, False))
                elif t in PUNCT:
                    pass
                elif t[0].isupper() or t[0] == '_':
                    self.put(D, (t,), (0, Var(t), False))
                else:
                    self.atom((t,), t)
        if l == 2:
            if "[" in self.tok:
                self.atom(("[", "]"), "[]")
            if "{" in self.tok:
                self.atom(("{", "}"), "{}")
            if "-" in self.tok:
                for t in self.tok:
                    if isinstance(t, int):
                        self.put(D, ("-", t), (0, -t, False))
        # compound
        heads = [((f,), f) for f in names if not (f[0].isupper() or f[0] == '_')]
        if "[" in self.tok:
            heads.append((("[", "]"), "[]"))
        if "{" in self.tok:
            heads.append((("{", "}"), "{}"))
        for h, f in heads:
            m = l - len(h) - 2
            if m >= 1 and "((" in self.tok:
                for toks, ts in self.args[m].items():
                    for x in ts:
                        self.put(D, h + ("((",) + toks + (")",), (0, (f, x) , False))
        if l >= 3:
            for toks, vs in self.D[l - 2].items():
                for v in vs:
                    for o in ("(", "(("):
                        if o in self.tok:
                            self.put(D, (o,) + toks + (")",), (0, v[1], False))
                    if "{" in self.tok:
                        self.put(D, ("{",) + toks + ("}",), (0, ("{}", (v[1],)), False))
            if "[" in self.tok:
                for toks, ts in self.args[l - 2].items():
                    for x in ts:
                        self.put(D, ("[",) + toks + ("]",), (0, mklist(x, NIL), False))
                if "|" in self.tok:
                    for k in range(1, l - 3):
                        for toks, ts in self.args[k].items():
                            for toks2, t2 in self.arg(l - 3 - k):
                                for x in ts:
                                    self.put(D, ("[",) + toks + ("|",) + toks2 + ("]",), (0, mklist(x, t2), False))
        # operators
        for f, (p, r) in self.pre.items():
            if f not in self.tok or l < 2:
                continue
            for toks, v in list(self.below(l - 1, r)):
                if toks[0] == "((" or (f == "-" and isinstance(toks[0], int)):
                    continue
                self.put(D, (f,) + toks, (p, (f, (v[1],)), False))
        for f, (p, a) in self.post.items():
            if f in self.tok and l >= 2:
                for toks, v in list(self.below(l - 1, a)):
                    self.put(D, toks + (f,), (p, (f, (v[1],)), False))
        for f, (p, a, r) in self.inf.items():
            if f not in self.tok or (f == "|" and p <= 1000):
                continue
            for k in range(1, l - 1):
                right = list(self.below(l - k - 1, r))
                for toks, v in list(self.below(k, a)):
                    for toks2, w in right:
                        self.put(D, toks + (f,) + toks2, (p, (f, (v[1], w[1])), False))
        # arguments and list items
        for toks, t in self.arg(l):
            self.put(self.args[l], toks, (t,))
        for k in range(1, l - 1):
            if "," in self.tok:
                for (toks, t) in self.arg(k):
                    for toks2, ts in self.args[l - k - 1].items():
                        for x in ts:
                            self.put(self.args[l], toks + (",",) + toks2, (t,) + x)

    def expected(self, toks):
        vs = self.D[len(toks)].get(toks)
        if not vs:
            return "!"
        e = set()
        for v in vs:
            e.add(out(v[1]))
        return e.pop() if len(e) == 1 else e


class Var:
    """a variable by name (terms of the grammar are immutable and shared)"""
    _c = {}

    def __new__(cls, n):
        if n not in cls._c:
            cls._c[n] = object.__new__(cls)
            cls._c[n].name = n
        return cls._c[n]


def out(t):
    names = {}

    def cv(t):
        if isinstance(t, Var):
            return names.setdefault(t, V())
        if type(t) is tuple:
            return S(t[0], [cv(x) for x in t[1]])
        return t
    return fmt(cv(t))


def mklist(x, tail):
    t = tail
    for y in reversed(x):
        t = (".", (y, t))
    return t


PUNCT = {"(", "((", ")", "[", "]", "{", "}", ",", "|"}


def render(toks):
    s = ""
    for t in toks:
        if t == "((":
            s += "("
        else:
            s += (" " if s or t == "(" else "") + str(t)
    return s + " ."


def optext(ops, clear=()):
    r = ["op(0,%s,%s)." % (t, qa(a)) for t, a in clear]
    return "\n".join(r + ["op(%d,%s,%s)." % (p, t, qa(a)) for p, t, a in ops] + [""])


def qa(a):
    return "'" + a.replace("\\", "\\\\") + "'"


def tables(tier):
    """every table of three operators p (one class) q (one class) and a dual one, priorities from two/three levels"""
    types = ("fx", "fy", "xf", "yf", "xfx", "xfy", "yfx")
    pr = (3, 5)
    one = [[(p, t, "p")] for p in pr for t in types]
    dual = [[(a, t1, "p"), (b, t2, "p")] for t1 in ("fx", "fy") for t2 in ("xf", "yf", "xfx", "xfy", "yfx") for a in pr for b in pr]
    two = [[(p, t, "q")] for p in pr for t in types]
    for x in one:
        yield x
    for x in one + dual:
        for y in two:
            yield x + y


def fam_tables(i, n, tier):
    nl = 6 if tier == "quick" else 7
    for k, ops in enumerate(tables(tier)):
        if k % n != i:
            continue
        toks = ["a"] + sorted(set(o[2] for o in ops)) + ["((", ")"]
        g = Grammar(ops, toks, nl)
        cs = []
        for l in range(1, nl + 1):
            for s in itertools.product(toks, repeat=l):
                if s.count("((") == s.count(")") or l < 5:      # unbalanced ones: all of the short ones
                    cs.append((render(s), g.expected(s)))
        yield " ".join("%d%s%s" % o for o in ops), optext(ops), cs


DEF = [(1200, "xfx", ":-"), (1200, "xfx", "-->"), (1200, "fx", ":-"), (1200, "fx", "?-"), (1105, "xfy", "|"), (1100, "xfy", ";"), (1050, "xfy", "->"), (1000, "xfy", ","), (900, "fy", "\\+"), (700, "xfx", "="),
       (500, "yfx", "-"), (500, "yfx", "+"), (400, "yfx", "*"), (200, "xfx", "**"), (200, "xfy", "^"), (200, "fy", "-"), (200, "fy", "\\"), (200, "fy", "+"), (600, "xfy", ":"), (700, "xfx", "is")]
WIDE = (("a", 1, "X", "-", ":-", "=", ",", "|", "(", "((", ")", "[", "]"), ("a", 1, "-", "\\+", ",", "((", ")", "{", "}", "[", "]", "|"), ("a", 1, "-", "+", "^", "*", "**", ":"), ("a", "X", ":-", ",", "->", ";", "|", "\\+", "=", "is", "-->"),
        ("[", "]", "{", "}", "((", ")", "-", "a", ","), (1, 2, "-", "\\", "-", "((", "(", ")", "^"))


def fam_wide(i, n, tier):
    for w in WIDE:
        w = tuple(dict.fromkeys(w))
        lim = 8e5 if tier == "quick" else 6e6
        nl = max(l for l in range(1, 9) if len(w) ** l <= lim)
        g = Grammar([o for o in DEF], w, nl)
        cs = []
        k = 0
        for l in range(1, nl + 1):
            for s in itertools.product(w, repeat=l):
                k += 1
                if k % n == i:
                    cs.append((render(s), g.expected(s)))
        yield "default table: " + " ".join(map(str, w)), "true.\n", cs


SPECIAL = [  # tables that touch the brackets, comma-like and sign tokens
    ([(700, "xfx", "[]"), (200, "fy", "{}")], [], ("a", 1, "[", "]", "{", "}", "((", ")")),
    ([(700, "yfx", "{}"), (200, "xf", "[]")], [], ("a", 1, "[", "]", "{", "}", "((", ")")),
    ([(1001, "xfy", "|")], [], ("a", "|", "[", "]", "((", ")", ",")),
    ([(0, "xfy", "|")], [], ("a", "|", "[", "]", "((", ")", ",")),
    ([(700, "fy", "-"), (500, "yfx", "-")], [], ("a", 1, "-", "((", ")", "(")),
    ([(500, "xf", "-")], [("yfx", "-")], ("a", 1, "-", "((", ")", "(")),
    ([(0, "fy", "-")], [], ("a", 1, "-", "((", ")", "(")),
    ([(0, "yfx", "-"), (0, "fy", "-")], [], ("a", 1, "-", "((", ")", "(")),
    ([(200, "xfy", "-"), (200, "fx", "-")], [], ("a", 1, "-", "((", ")", "(")),
    ([(1200, "fx", "p"), (1200, "xfx", "p"), (999, "fy", "q"), (1000, "yf", "r")], [], ("a", "p", "q", "r", ",", "((", ")")),
    ([(999, "xfx", "p"), (1000, "fx", "q"), (999, "xf", "r")], [], ("a", "p", "q", "r", ",", "[", "]", "|")),
]


def fam_special(i, n, tier):
    for k, (ops, clear, w) in enumerate(SPECIAL):
        chg = {(len(t), "f" == t[0], a) for _, t, a in ops} | {(len(t), "f" == t[0], a) for t, a in clear}
        base = [o for o in DEF if (len(o[1]), o[1][0] == "f", o[2]) not in chg]
        full = base + [o for o in ops if o[0]]
        lim = 4e5 if tier == "quick" else 3e6
        nl = max(l for l in range(1, 9) if len(w) ** l <= lim)
        g = Grammar(full, w, nl)
        cs = []
        j = 0
        for l in range(1, nl + 1):
            for s in itertools.product(w, repeat=l):
                j += 1
                if j % n == i:
                    cs.append((render(s), g.expected(s)))
        yield "special table %d" % k, optext(ops, clear), cs


def main():
    ck = Check("C13")
    x = lines.exe()
    run_lines(ck, "op tables", x, fam_tables, shards=32)
    run_lines(ck, "default table", x, fam_wide, shards=16)
    run_lines(ck, "special tables", x, fam_special, shards=16)
    return ck.finish(rule="every token sequence up to the bound for every operator table: read accepts exactly the derivable ones, with a term of a derivation, and stops at the end token")
