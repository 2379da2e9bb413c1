"""A deliberately plain reference interpreter for the Prolog core (ISO control, exceptions,
dynamic database with the logical update view, all-solution predicates).

It shares no code and no technique with the implementation under test: terms are Python
objects, the machine is a success-continuation list plus an explicit choice-point stack."""
import functools
import math
import re


class Atom:
    __slots__ = ("name",)
    table = {}

    def __new__(cls, name):
        a = cls.table.get(name)
        if a is None:
            a = object.__new__(cls)
            a.name = name
            cls.table[name] = a
        return a

    def __repr__(self):
        return "A(%s)" % self.name

    def __reduce__(self):
        return (Atom, (self.name,))


A = Atom


class S:
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return fmt(self)


class V:
    __slots__ = ("ref", "name", "n", "fd")
    count = 0

    def __init__(self, name=None):
        self.ref = None
        self.name = name
        V.count += 1
        self.n = V.count

    def __repr__(self):
        return fmt(self)


NIL = A("[]")
TRUE = A("true")
CURLY = A("{}")


def st(name, *args):
    return S(name, args)


def lst(items, tail=NIL):
    r = tail
    for x in reversed(list(items)):
        r = S(".", (x, r))
    return r


def deref(t):
    while type(t) is V:
        if t.ref is None:
            return t
        t = t.ref
    return t


def unlist(t):
    """python list of a proper list, else None"""
    out = []
    t = deref(t)
    while type(t) is S and t.name == "." and len(t.args) == 2:
        out.append(t.args[0])
        t = deref(t.args[1])
    return out if t is NIL else None


# ---------------------------------------------------------------- writing

SYMCH = set("+-*/\\^<>=~:.?@#&$")
ALNUM = re.compile(r"[a-z][A-Za-z0-9_]*\Z")


def qatom(s):
    if s in ("[]", "{}", "!", ";"):
        return s
    if ALNUM.match(s):
        return s
    if s and all(c in SYMCH for c in s) and not s.startswith("/*") and s != ".":
        return s
    out = []
    for c in s:
        if c == "'":
            out.append("''")
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\a":
            out.append("\\a")
        elif c == "\b":
            out.append("\\b")
        elif c == "\f":
            out.append("\\f")
        elif c == "\v":
            out.append("\\v")
        elif c == "\r":
            out.append("\\r")
        elif ord(c) < 32 or ord(c) >= 127:
            out.append("\\x%x\\" % ord(c))
        else:
            out.append(c)
    return "'" + "".join(out) + "'"


def ffloat(x):
    s = "%.17g" % x
    if "." not in s and "inf" not in s and "nan" not in s:
        if "e" in s:
            m, e = s.split("e")
            s = m + ".0e" + e
        else:
            s += ".0"
    return s


def fmt(t, names=None):
    """canonical text, as the case server prints it (quoted, ignore_ops); a variable gets
    '_G'(N) by order of first occurrence, or names[v] when names is a dict of texts"""
    seen = {}
    out = []
    stack = [t]
    while stack:
        t = stack.pop()
        if type(t) is str:
            out.append(t)
            continue
        t = deref(t)
        if type(t) is V:
            if names is not None:
                if t not in names:
                    names[t] = "X%d" % len(names)
                out.append(names[t])
            else:
                out.append("'_G'(%d)" % seen.setdefault(t, len(seen)))
        elif type(t) is Atom:
            out.append(qatom(t.name))
        elif type(t) is S:
            out.append(qatom(t.name))
            stack.append(")")
            for i, a in enumerate(reversed(t.args)):
                if i:
                    stack.append(",")
                stack.append(a)
            stack.append("(")
        elif type(t) is float:
            out.append(ffloat(t))
        else:
            out.append(str(t))
    return "".join(out)


def fmt_src(t, names):
    """text to be read by Prolog; variables named X0, X1, ... through `names`"""
    return fmt(t, names)


# ---------------------------------------------------------------- errors

class PlError(Exception):
    def __init__(self, term):
        self.term = term


class StepLimit(Exception):
    pass


def err(e, ctx=None):
    return PlError(S("error", (e, V())))


def type_error(what, culprit):
    return err(st("type_error", A(what), culprit))


def inst_error():
    return err(A("instantiation_error"))


def dom_error(what, culprit):
    return err(st("domain_error", A(what), culprit))


# ---------------------------------------------------------------- term order

def ord_class(t):
    if type(t) is V:
        return 0
    if type(t) is float:
        return 1
    if type(t) is int:
        return 2
    if type(t) is Atom:
        return 3
    return 4


class VarOrder(Exception):
    """the order of two distinct variables was asked for (implementation dependent)"""


def compare(a, b):
    """standard order; the order of distinct variables is not defined here"""
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        a, b = deref(a), deref(b)
        if a is b:
            continue
        ca, cb = ord_class(a), ord_class(b)
        if ca != cb:
            return -1 if ca < cb else 1
        if ca == 0:
            raise VarOrder()
        if ca in (1, 2):
            if a != b:
                return -1 if a < b else 1
            continue
        if ca == 3:
            x, y = a.name.encode(), b.name.encode()
            if x != y:
                return -1 if x < y else 1
            continue
        if len(a.args) != len(b.args):
            return -1 if len(a.args) < len(b.args) else 1
        if a.name != b.name:
            return -1 if a.name.encode() < b.name.encode() else 1
        stack.extend(reversed(list(zip(a.args, b.args))))
    return 0


def compare_eq(a, b):
    try:
        return compare(a, b)
    except VarOrder:
        return 1


def term_vars(t):
    out, seen, stack = [], set(), [t]
    while stack:
        t = deref(stack.pop())
        if type(t) is V:
            if t not in seen:
                seen.add(t)
                out.append(t)
        elif type(t) is S:
            stack.extend(reversed(t.args))
    return out


def copy(t, m=None):
    if m is None:
        m = {}
    t = deref(t)
    if type(t) is V:
        if t not in m:
            m[t] = V()
        return m[t]
    if type(t) is S:
        return S(t.name, [copy(x, m) for x in t.args])
    return t


def resolve(t):
    """fully dereferenced copy keeping the variables"""
    t = deref(t)
    if type(t) is S:
        return S(t.name, [resolve(x) for x in t.args])
    return t


# ---------------------------------------------------------------- machine

class Clause:
    __slots__ = ("head", "body", "erased")

    def __init__(self, head, body):
        self.head, self.body, self.erased = head, body, False


class Pred:
    __slots__ = ("clauses", "dynamic")

    def __init__(self, dynamic):
        self.clauses, self.dynamic = [], dynamic


class Frame:
    """continuation: goal, cut barrier, next frame"""
    __slots__ = ("goal", "cutb", "next")

    def __init__(self, goal, cutb, next):
        self.goal, self.cutb, self.next = goal, cutb, next


class Special:
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


class CP:
    """choice point: kind 'alt' (frame), 'iter' (iterator + next frame), 'catch', 'stop'"""
    __slots__ = ("kind", "a", "b", "trail", "c")

    def __init__(self, kind, a, b, trail, c=None):
        self.kind, self.a, self.b, self.trail, self.c = kind, a, b, trail, c


def occurs(v, t):
    stack = [t]
    while stack:
        t = deref(stack.pop())
        if t is v:
            return True
        if type(t) is S:
            stack.extend(t.args)
    return False


class Machine:
    def __init__(self, max_steps=20000, unknown="error"):
        self.db = {}
        self.trail = []
        self.cps = []
        self.steps = 0
        self.max_steps = max_steps
        self.unknown = unknown
        self.out = []
        self.acyclic = False        # a unification that makes a cyclic term leaves the model
        self.gvars = {}
        self.unordered = False      # answers may come in another order
        self.depth = 0              # nested runs
        self.det = dict(DET)
        self.nondet = dict(NONDET)

    # --- bindings
    def bind(self, v, t):
        if self.acyclic and type(t) is S and occurs(v, t):
            raise StepLimit("cyclic term")
        v.ref = t
        self.trail.append(v)

    def undo(self, top):
        tr = self.trail
        while len(tr) > top:
            v = tr.pop()
            if type(v) is V:
                v.ref = None
            else:
                v()

    def unify(self, a, b):
        stack = [(a, b)]
        ok = True
        while stack:
            a, b = stack.pop()
            a, b = deref(a), deref(b)
            if a is b:
                continue
            if type(a) is V:
                self.bind(a, b)
            elif type(b) is V:
                self.bind(b, a)
            elif type(a) is S:
                if type(b) is not S or a.name != b.name or len(a.args) != len(b.args):
                    ok = False
                else:
                    stack.extend(zip(a.args, b.args))
                    continue
            elif type(a) is Atom or type(b) is Atom or type(b) is S:
                ok = False
            elif type(a) is not type(b) or a != b:
                ok = False
            # with acyclic, the equations after a clash still have to be free of cycles (NSTO)
            if not ok and not self.acyclic:
                return False
        return ok

    # --- database
    def add(self, clause, last=True, dynamic=True):
        if type(clause) is S and clause.name == ":-" and len(clause.args) == 2:
            h, b = clause.args
        else:
            h, b = clause, TRUE
        h = deref(h)
        b = deref(b)
        b = check_body(b) if type(b) is not V else S("call", (b,))
        key = (h.name, len(h.args) if type(h) is S else 0)
        p = self.db.get(key)
        if p is None:
            p = self.db[key] = Pred(dynamic)
        c = Clause(h, b)
        if last:
            p.clauses.append(c)
        else:
            p.clauses.insert(0, c)

    # --- running
    def solve(self, goal):
        """generator over the solutions; on exhaustion everything is undone"""
        base = len(self.cps)
        self.depth += 1
        self.cps.append(CP("stop", None, None, len(self.trail)))
        # goal is called opaquely
        frame = Frame(st("call", goal), base + 1, Frame(Special("solution"), 0, None))
        ok = True
        try:
            while True:
                if not ok:
                    frame = self.backtrack(base)
                    if frame is None:
                        return
                    ok = True
                g = frame.goal
                if type(g) is Special and g.kind == "solution":
                    self.depth -= 1
                    try:
                        yield True
                    finally:
                        self.depth += 1
                    ok = False
                    continue
                try:
                    frame = self.step(frame)
                except PlError as e:
                    frame = self.handle(e, base)
                if frame is None:
                    ok = False
        finally:
            self.depth -= 1
            if len(self.cps) > base:
                self.undo(self.cps[base].trail)
                del self.cps[base:]

    def backtrack(self, base):
        while True:
            cp = self.cps[-1]
            self.undo(cp.trail)
            k = cp.kind
            if k == "stop":
                if len(self.cps) - 1 != base:
                    raise RuntimeError("nested stop")
                return None
            if k == "alt":
                self.cps.pop()
                return cp.a
            if k == "catch" or k == "barrier":
                self.cps.pop()
                continue
            if k == "iter":
                try:
                    r = next(cp.a)
                except StopIteration:
                    self.cps.pop()
                    continue
                except PlError as e:
                    f = self.handle(e, base)
                    return f
                if r is None:
                    continue
                if r is False:
                    self.undo(cp.trail)
                    continue
                if type(r) is Frame:
                    return r
                return cp.b
            raise RuntimeError(k)

    def handle(self, e, base):
        ball = copy(e.term)
        active = set(id(cp) for cp in self.cps if cp.kind == "catch" and cp.c[0])
        while len(self.cps) > base + 1:
            cp = self.cps.pop()
            self.undo(cp.trail)
            if cp.kind == "catch":
                catcher, recovery = cp.a
                top = len(self.trail)
                if id(cp) in active and self.unify(catcher, ball):
                    f = cp.b
                    return Frame(st("call", recovery), f.cutb, f.next)
                self.undo(top)
        self.undo(self.cps[base].trail)
        raise PlError(ball)

    def cut(self, n):
        del self.cps[n:]

    def step(self, frame):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        g, nxt = frame.goal, frame.next
        if type(g) is Special:
            if g.kind == "cut":
                self.cut(g.data)
                return nxt
            if g.kind == "softcut":
                # disable the alternative branch, keep the choice points above it
                cp = self.cps[g.data]
                cp.kind = "barrier"
                return nxt
            if g.kind == "popcatch":
                g.data[0] = False
                self.trail.append(lambda d=g.data: d.__setitem__(0, True))
                return nxt
            if g.kind == "py":
                r = g.data(self)
                return nxt if r else None
            raise RuntimeError(g.kind)
        g = deref(g)
        if type(g) is V:
            raise inst_error()
        if type(g) is Atom:
            name, args = g.name, ()
        elif type(g) is S:
            name, args = g.name, g.args
        else:
            raise type_error("callable", g)
        n = len(args)
        cutb = frame.cutb
        if n == 0:
            if name == "true":
                return nxt
            if name in ("fail", "false"):
                return None
            if name == "!":
                self.cut(cutb)
                return nxt
        elif n == 2:
            if name == ",":
                return Frame(args[0], cutb, Frame(args[1], cutb, nxt))
            if name == ";":
                l = deref(args[0])
                if type(l) is S and len(l.args) == 2 and l.name in ("->", "*->"):
                    b = len(self.cps)
                    self.cps.append(CP("alt", Frame(args[1], cutb, nxt), None, len(self.trail)))
                    if l.name == "->":
                        return Frame(l.args[0], b + 1, Frame(Special("cut", b), 0, Frame(l.args[1], cutb, nxt)))
                    return Frame(l.args[0], b + 1, Frame(Special("softcut", b), 0, Frame(l.args[1], cutb, nxt)))
                self.cps.append(CP("alt", Frame(args[1], cutb, nxt), None, len(self.trail)))
                return Frame(args[0], cutb, nxt)
            if name == "->":
                b = len(self.cps)
                self.cps.append(CP("barrier", None, None, len(self.trail)))
                return Frame(args[0], b + 1, Frame(Special("cut", b), 0, Frame(args[1], cutb, nxt)))
            if name == "*->":
                b = len(self.cps)
                self.cps.append(CP("barrier", None, None, len(self.trail)))
                return Frame(args[0], b + 1, Frame(args[1], cutb, nxt))
        if name == "call" and n >= 1:
            goal = args[0]
            if n > 1:
                goal = add_args(goal, args[1:])
            goal = check_body(goal)
            # a cut inside is local to the call
            return Frame(goal, len(self.cps), nxt)
        if n == 1:
            if name == "\\+":
                b = len(self.cps)
                self.cps.append(CP("alt", nxt, None, len(self.trail)))
                return Frame(st("call", args[0]), b + 1, Frame(Special("cut", b), 0, Frame(A("fail"), 0, None)))
            if name == "once":
                b = len(self.cps)
                self.cps.append(CP("barrier", None, None, len(self.trail)))
                return Frame(st("call", args[0]), b + 1, Frame(Special("cut", b), 0, nxt))
            if name == "ignore":
                b = len(self.cps)
                self.cps.append(CP("alt", nxt, None, len(self.trail)))
                return Frame(st("call", args[0]), b + 1, Frame(Special("cut", b), 0, nxt))
        if name == "forall" and n == 2:
            return Frame(st("\\+", st(",", st("call", args[0]), st("\\+", args[1]))), cutb, nxt)
        if name == "catch" and n == 3:
            active = [True]
            self.cps.append(CP("catch", (args[1], args[2]), Frame(None, cutb, nxt), len(self.trail), active))
            return Frame(st("call", args[0]), cutb, Frame(Special("popcatch", active), 0, nxt))
        if name == "findall" and n == 3:
            list_arg(args[2])
            res = [copy(args[0]) for _ in self.sub(args[1])]
            if not self.unify(args[2], lst(res)):
                return None
            return nxt
        if name == "findall" and n == 4:
            list_arg(args[2])
            list_arg(args[3])
            res = [copy(args[0]) for _ in self.sub(args[1])]
            if not self.unify(args[2], lst(res, args[3])):
                return None
            return nxt
        p = self.db.get((name, n))
        f = self.det.get((name, n)) if p is None else None
        if f is not None:
            return nxt if f(self, *args) else None
        f = self.nondet.get((name, n)) if p is None else None
        if f is not None:
            it = f(self, *args)
            self.cps.append(CP("iter", it, nxt, len(self.trail)))
            return None     # backtrack into it
        if p is None:
            if self.unknown == "fail":
                return None
            raise err(st("existence_error", A("procedure"), st("/", A(name), n)))
        it = self.clauses(p, g, nxt, len(self.cps))
        self.cps.append(CP("iter", it, None, len(self.trail)))
        return None

    def clauses(self, p, g, nxt, b):
        snapshot = list(p.clauses)      # logical update view
        for i, c in enumerate(snapshot):
            m = {}
            h, body = copy(c.head, m), copy(c.body, m)
            if self.unify(h, g):
                yield Frame(body, b, nxt)
            else:
                yield False

    def sub(self, goal):
        """solutions of goal in a nested run"""
        return self.solve(goal)

    def once_solve(self, goal):
        it = self.solve(goal)
        for _ in it:
            return True
        return False


def add_args(g, extra):
    g = deref(g)
    if type(g) is V:
        raise inst_error()
    if type(g) is Atom:
        return S(g.name, extra)
    if type(g) is S:
        return S(g.name, tuple(g.args) + tuple(extra))
    raise type_error("callable", g)


CTRL = (",", ";", "->", "*->")


def check_body(g):
    """term to body: variables become calls; a number inside makes the whole thing not callable"""
    top = g
    g = deref(g)
    if type(g) is V:
        raise inst_error()

    def rec(t):
        t = deref(t)
        if type(t) is V:
            return S("call", (t,))
        if type(t) in (int, float):
            raise type_error("callable", resolve(top))
        if type(t) is S and len(t.args) == 2 and t.name in CTRL:
            return S(t.name, (rec(t.args[0]), rec(t.args[1])))
        return t
    return rec(g)


# ---------------------------------------------------------------- builtins

DET = {}
NONDET = {}


def det(name, n):
    def d(f):
        DET[(name, n)] = f
        return f
    return d


def nondet(name, n):
    def d(f):
        NONDET[(name, n)] = f
        return f
    return d


@det("=", 2)
def _(m, a, b):
    return m.unify(a, b)


@det("\\=", 2)
def _(m, a, b):
    top = len(m.trail)
    r = m.unify(a, b)
    m.undo(top)
    return not r


for _n, _f in (("==", lambda c: c == 0), ("\\==", lambda c: c != 0), ("@<", lambda c: c < 0),
               ("@>", lambda c: c > 0), ("@=<", lambda c: c <= 0), ("@>=", lambda c: c >= 0)):
    DET[(_n, 2)] = lambda m, a, b, f=_f: f(compare_eq(a, b) if f(1) == f(-1) else compare(a, b))


@det("var", 1)
def _(m, a):
    return type(deref(a)) is V


@det("nonvar", 1)
def _(m, a):
    return type(deref(a)) is not V


@det("atom", 1)
def _(m, a):
    return type(deref(a)) is Atom


@det("integer", 1)
def _(m, a):
    return type(deref(a)) is int


@det("atomic", 1)
def _(m, a):
    return type(deref(a)) in (int, float, Atom)


@det("compound", 1)
def _(m, a):
    return type(deref(a)) is S


@det("callable", 1)
def _(m, a):
    return type(deref(a)) in (S, Atom)


@det("throw", 1)
def _(m, a):
    a = deref(a)
    if type(a) is V:
        raise inst_error()
    raise PlError(copy(a))


@det("out", 1)
def _(m, a):
    m.out.append(fmt(a))
    return True


@det("atom_length", 2)
def _(m, a, b):
    a, b = deref(a), deref(b)
    if type(a) is V:
        raise inst_error()
    if type(a) is S:
        raise type_error("atom", resolve(a))
    if type(b) is not V and type(b) is not int:
        raise type_error("integer", resolve(b))
    return m.unify(b, len(a.name) if type(a) is Atom else len(str(a)))


@det("copy_term", 2)
def _(m, a, b):
    return m.unify(copy(a), b)


INT_MIN, INT_MAX = -(1 << 60), (1 << 60) - 1


def evaluate(t):
    t = deref(t)
    if type(t) is V:
        raise inst_error()
    if type(t) in (int, float):
        return t
    if type(t) is S and len(t.args) == 2 and t.name in ("+", "-", "*"):
        x, y = evaluate(t.args[0]), evaluate(t.args[1])
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[t.name]()
        if type(r) is int and not INT_MIN <= r <= INT_MAX:
            raise err(st("evaluation_error", A("int_overflow")))
        return r
    if type(t) is S and len(t.args) == 2 and t.name in ("//", "mod"):
        x, y = evaluate(t.args[0]), evaluate(t.args[1])
        if y == 0:
            raise err(st("evaluation_error", A("zero_divisor")))
        if t.name == "mod":
            return x % y
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    if type(t) is S and len(t.args) == 1 and t.name == "-":
        r = -evaluate(t.args[0])
        if type(r) is int and r > INT_MAX:
            raise err(st("evaluation_error", A("int_overflow")))
        return r
    if type(t) is Atom:
        raise type_error("evaluable", st("/", t, 0))
    raise type_error("evaluable", st("/", A(t.name), len(t.args)))


@det("is", 2)
def _(m, a, b):
    return m.unify(a, evaluate(b))


for _n, _f in (("=:=", lambda x, y: x == y), ("=\\=", lambda x, y: x != y), ("<", lambda x, y: x < y),
               (">", lambda x, y: x > y), ("=<", lambda x, y: x <= y), (">=", lambda x, y: x >= y)):
    DET[(_n, 2)] = lambda m, a, b, f=_f: f(evaluate(a), evaluate(b))


@nondet("between", 3)
def _(m, l, h, x):
    l, h = deref(l), deref(h)
    for i in range(l, h + 1):
        yield m.unify(x, i)


@nondet("member", 2)
def _(m, x, l):
    for e in unlist(l):
        yield m.unify(x, e)


@nondet("repeat", 0)
def _(m):
    while True:
        yield True


# --- bagof, setof

def key_compare(a, b, na, nb, m=None):
    """standard order of two keys whose variables are numbered by first occurrence"""
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        a, b = deref(a), deref(b)
        ca, cb = ord_class(a), ord_class(b)
        if ca or cb:
            if ca == cb == 4:
                x = (len(a.args), a.name.encode())
                y = (len(b.args), b.name.encode())
                if x != y:
                    return -1 if x < y else 1
                stack.extend(reversed(list(zip(a.args, b.args))))
                continue
            if ca != cb:
                return -1 if ca < cb else 1
            c = compare(a, b)
            if c:
                return c
            continue
        x, y = na[a], nb[b]
        if x != y:
            if m is not None:
                m.unordered = True      # implementation dependent
                if m.depth > 1:
                    raise VarOrder()
            return -1 if x < y else 1
    return 0


def list_arg(l):
    t = deref(l)
    while type(t) is S and t.name == "." and len(t.args) == 2:
        t = deref(t.args[1])
    if type(t) is not V and t is not NIL:
        raise type_error("list", resolve(l))


def sorted_set(l):
    out = []
    for x in sorted(l, key=functools.cmp_to_key(compare)):
        if not out or compare(out[-1], x) != 0:
            out.append(x)
    return out


def _bagof(m, t, g, l, is_set):
    list_arg(l)
    bound = term_vars(t)
    g = deref(g)
    while type(g) is S and g.name == "^" and len(g.args) == 2:
        bound += term_vars(g.args[0])
        g = deref(g.args[1])
    w = [v for v in term_vars(g) if v not in bound]
    if not w:
        res = [copy(t) for _ in m.sub(g)]
        if res:
            yield m.unify(l, lst(sorted_set(res) if is_set else res))
        return
    wt = S("w", w)
    res = [copy(S("-", (wt, t))) for _ in m.sub(g)]
    res = [(r.args[0], r.args[1], term_vars(r.args[0])) for r in res]

    def cmp(x, y):
        return key_compare(x[0], y[0], {v: i for i, v in enumerate(x[2])}, {v: i for i, v in enumerate(y[2])}, m)
    res.sort(key=functools.cmp_to_key(cmp))     # stable
    i = 0
    while i < len(res):
        j = i + 1
        while j < len(res) and cmp(res[i], res[j]) == 0:
            for a, b in zip(res[j][2], res[i][2]):
                a.ref = b           # fresh variables: never undone
            j += 1
        ts = [r[1] for r in res[i:j]]
        if is_set:
            ts = sorted_set(ts)
        yield m.unify(res[i][0], wt) and m.unify(l, lst(ts))
        i = j


@nondet("bagof", 3)
def _(m, t, g, l):
    return _bagof(m, t, g, l, False)


@nondet("setof", 3)
def _(m, t, g, l):
    return _bagof(m, t, g, l, True)


# --- dynamic database

def split_clause(t):
    t = deref(t)
    if type(t) is V:
        raise inst_error()
    if type(t) is S and t.name == ":-" and len(t.args) == 2:
        return deref(t.args[0]), deref(t.args[1])
    return t, TRUE


def _assert(m, t, last):
    h, b = split_clause(t)
    if type(h) is V:
        raise inst_error()
    if type(h) in (int, float):
        raise type_error("callable", h)
    if type(b) is V:
        b = st("call", b)
    b = check_body(b)
    key = (h.name, len(h.args) if type(h) is S else 0)
    c = copy(S(":-", (h, b)))
    p = m.db.get(key)
    if p is not None and not p.dynamic:
        raise err(st("permission_error", A("modify"), A("static_procedure"), st("/", A(key[0]), key[1])))
    m.add(c, last)
    return True


@det("asserta", 1)
def _(m, t):
    return _assert(m, t, False)


@det("assertz", 1)
def _(m, t):
    return _assert(m, t, True)


def _scan(m, h, b):
    key = (h.name, len(h.args) if type(h) is S else 0)
    p = m.db.get(key)
    if p is None:
        return
    for c in list(p.clauses):
        mm = {}
        ch, cb = copy(c.head, mm), copy(c.body, mm)
        top = len(m.trail)
        if m.unify(ch, h) and m.unify(cb, b):
            yield p, c
        else:
            m.undo(top)


@nondet("retract", 1)
def _(m, t):
    h, b = split_clause(t)
    for p, c in _scan(m, h, b):
        if c in p.clauses:
            p.clauses.remove(c)
            c.erased = True
        yield True


@nondet("clause", 2)
def _(m, h, b):
    for p, c in _scan(m, deref(h), b):
        yield True


@det("retractall", 1)
def _(m, h):
    h = deref(h)
    key = (h.name, len(h.args) if type(h) is S else 0)
    p = m.db.get(key)
    if p is None:
        m.db[key] = Pred(True)
        return True
    for c in list(p.clauses):
        top = len(m.trail)
        if m.unify(copy(c.head), h):
            c.erased = True
            p.clauses.remove(c)
        m.undo(top)
    return True


@det("abolish", 1)
def _(m, pi):
    pi = deref(pi)
    key = (deref(pi.args[0]).name, deref(pi.args[1]))
    p = m.db.pop(key, None)
    if p is not None:
        for c in p.clauses:
            c.erased = True
    return True


def run_goal(m, tmpl, goal, mx):
    """what the case server prints for c(_, mx, tmpl, goal) (after the id); tr/1 writes into it"""
    m.out = out = []
    try:
        n = 0
        for _ in m.solve(goal):
            out.append("\t=" + fmt(tmpl))
            n += 1
            if n >= mx:
                out.append("\tmore")
                return "".join(out)[1:]
        out.append("\tno")
    except PlError as e:
        t = deref(e.term)
        if type(t) is S and t.name == "error" and len(t.args) == 2:
            out.append("\t!" + fmt(t.args[0]))
        else:
            out.append("\t!!" + fmt(t))
    return "".join(out)[1:]


@det("tr", 1)
def _(m, a):
    # the driver's tr/1 writes a TAB, a caret and the term
    m.out.append("\t^" + fmt(a))
    return True


# ---------------------------------------------------------------- a small reader for model programs

TOK = re.compile(r"\s*(?:(%[^\n]*)|([a-z][A-Za-z0-9_]*)|([A-Z_][A-Za-z0-9_]*)|(\d+\.\d+(?:e[+-]?\d+)?|0'.|\d+)|('(?:[^'\\]|\\x[0-9a-fA-F]+\\|\\[0-7]+\\|\\.|'')*')"
                 r"|([\[\](){}|,!;])|([+\-*/\\^<>=~:.?@#&$]+)|(\"[^\"]*\"))")
INFIX = {":-": (1200, 1199, 1199), "-->": (1200, 1199, 1199), ";": (1100, 1099, 1100),
         "->": (1050, 1049, 1050), "*->": (1050, 1049, 1050), ",": (1000, 999, 1000)}
for _o in "= \\= == \\== @< @> @=< @>= is =:= =\\= < > =< >= =..".split():
    INFIX[_o] = (700, 699, 699)
INFIX.update({"mod": (400, 400, 399), "rem": (400, 400, 399), "+": (500, 500, 499), "-": (500, 500, 499), "*": (400, 400, 399), "//": (400, 400, 399),
              "/": (400, 400, 399), "^": (200, 199, 200), ":": (200, 199, 200)})
PREFIX = {":-": (1200, 1199), "\\+": (900, 900), "-": (200, 200)}


ESC = {"n": "\n", "t": "\t", "\\": "\\", "'": "'", "a": "\a", "b": "\b", "r": "\r", "f": "\f", "v": "\v", '"': '"', "`": "`"}


def unquote(s):
    q, out, i = s[0], [], 1
    while i < len(s) - 1:
        c = s[i]
        if c == "\\":
            i += 1
            if s[i] in "x01234567":
                j = s.index("\\", i)
                c = chr(int(s[i + 1:j], 16) if s[i] == "x" else int(s[i:j], 8))
                i = j
            else:
                c = ESC[s[i]]
        elif c == q:
            i += 1
        out.append(c)
        i += 1
    return "".join(out)


def number(s):
    if s[:2] == "0'":
        return ord(s[2])
    return float(s) if "." in s else int(s)


class Reader:
    """reads the model programs written in this directory (a subset of the standard syntax)"""

    def __init__(self, text):
        self.toks, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                if not text[i:].strip():
                    break
                raise ValueError(text[i:i + 30])
            i = m.end()
            if m.group(1):
                continue
            for k in range(2, 9):
                if m.group(k) is not None:
                    self.toks.append((k, m.group(k), text[i:i + 1] == "("))
                    break
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (0, "", False)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, s):
        t = self.next()
        if t[1] != s:
            raise ValueError("expected %s got %s at %d" % (s, t[1], self.i))

    def clauses(self):
        while self.i < len(self.toks):
            self.vars = {}
            t = self.expr(1200)
            self.expect(".")
            yield t

    def args(self, close):
        out = [self.expr(999)]
        while self.peek()[1] == ",":
            self.next()
            out.append(self.expr(999))
        return out

    def primary(self, maxp):
        k, s, paren = self.next()
        if k == 3:
            if s == "_":
                return V(), 0
            if s not in self.vars:
                self.vars[s] = V(s)
            return self.vars[s], 0
        if k == 4:
            return number(s), 0
        if k == 8:
            return lst([ord(c) for c in unquote(s)]), 0
        if k == 6 and s == "(":
            t = self.expr(1200)
            self.expect(")")
            return t, 0
        if k == 6 and s == "[":
            if self.peek()[1] == "]":
                self.next()
                return NIL, 0
            items = self.args("]")
            tail = NIL
            if self.peek()[1] == "|":
                self.next()
                tail = self.expr(999)
            self.expect("]")
            return lst(items, tail), 0
        if k == 6 and s == "{":
            if self.peek()[1] == "}":
                self.next()
                return CURLY, 0
            t = self.expr(1200)
            self.expect("}")
            return st("{}", t), 0
        name = s
        if k == 5:
            name = unquote(s)
        if paren and k in (2, 5, 7) or (paren and s in "!;"):
            self.next()
            a = self.args(")")
            self.expect(")")
            return S(name, a), 0
        if k == 7 and s == "-" and self.peek()[0] == 4:
            t = self.next()[1]
            return -number(t), 0
        if k == 7 and name in PREFIX and self.peek()[1] not in (")", ",", "|", "]", ".", "}") \
                and not (self.peek()[1] in INFIX and self.peek()[0] == 7 and self.peek()[1] != "-"
                         and self.peek()[1] != "\\+"):
            p, ap = PREFIX[name]
            return S(name, (self.expr(min(ap, maxp)),)), p
        return Atom(name), 0

    def expr(self, maxp):
        left, p = self.primary(maxp)
        while True:
            k, s, _ = self.peek()
            if s in INFIX and k in (2, 6, 7) and (k != 6 or s in ",;"):
                pp, lp, rp = INFIX[s]
                if pp > maxp or p > lp:
                    break
                self.next()
                left, p = S(s, (left, self.expr(rp))), pp
            else:
                break
        return left


def parse(text):
    """one term (variables in .vars of the second result)"""
    r = Reader(text + " .")
    r.vars = {}
    t = r.expr(1200)
    r.expect(".")
    return t, r.vars


def parse_program(text):
    return list(Reader(text).clauses())
