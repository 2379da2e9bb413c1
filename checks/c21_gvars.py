"""C21: global variables are a store with permanent and backtrackable assignments."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.progs import run_units
from vlib.refpl import Machine, Atom, A, S, V, NIL, parse, deref, copy, lst, unlist, fmt, run_goal, StepLimit, VarOrder, PlError, err, type_error, inst_error, dom_error, st, det, resolve, term_vars

EXTRA = """
do(G, T) :- catch((call(G) -> tr(T) ; tr(n)), error(E, _), tr(E)).
rd(G) :- do(g_read(G, X), X).
tr(X) :- write(user_output, '\\t^'), srv_write(X).
"""
MODEL = """
do(G, T) :- catch((call(G) -> tr(T) ; tr(n)), error(E, _), tr(E)).
rd(G) :- do(g_read(G, X), X).
"""


class Open(Exception):
    """a case the manual leaves open"""


class Elem:
    """kind: copy (t: a private term), link (t: a term), array (e: list of Elem; auto: Elem or None)"""

    def __init__(self):
        self.kind, self.t, self.e, self.auto = "link", 0, None, None
        self.undo = []

    def get(self):
        return (self.kind, self.t, self.e, self.auto)

    def set(self, s):
        self.kind, self.t, self.e, self.auto = s

    def invalidate(self):
        for u in self.undo:
            u[0] = False
        self.undo = []
        if self.kind == "array":
            for x in self.e + ([self.auto] if self.auto else []):
                x.invalidate()

    def clone(self):
        n = Elem()
        n.kind, n.t, n.auto = self.kind, self.t, self.auto
        if self.kind == "copy":
            n.t = copy(self.t)
        if self.kind == "array":
            n.e = [x.clone() for x in self.e]
            n.auto = self.auto.clone() if self.auto else None
        return n


def gdom(kind, culprit):
    return dom_error(kind, culprit)


def functor(g):
    g = deref(g)
    if type(g) is V:
        raise inst_error()
    if type(g) is Atom:
        return g.name, ()
    if type(g) is S:
        return g.name, g.args
    raise type_error("callable", g)


def int_of(m, w, culprits=None):
    """an index: an integer or a reference to one"""
    w = deref(w)
    if type(w) is int:
        return w
    return read_int(m, w)[0]


def read_int(m, g):
    """(value, setter)"""
    el, path = target(m, g)
    if path is None:
        if el.kind == "array":
            raise type_error("integer", A("g_array"))
        t = deref(el.t)

        def setter(v):
            if el.kind == "copy":
                raise Open()
            el.t = v
    else:
        box, i = path
        t = deref(box.args[i])

        def setter(v):
            if el.kind == "link":
                raise Open()        # the linked term itself would change
            a = list(box.args)
            a[i] = v
            box.args = tuple(a)
    if type(t) is not int:
        raise type_error("integer", resolve(t))
    return t, setter


def target(m, g):
    name, args = functor(g)
    if name == "-" and len(args) == 2:
        return selector(m, deref(g))
    el = m.gvars.get(name)
    if el is None:
        el = m.gvars[name] = Elem()
    if args and el.kind != "array":
        # are the indexes looked at first ?
        for a in args:
            if type(deref(a)) is not int:
                before = snapshot(m)
                try:
                    int_of(m, a)
                except PlError:
                    raise Open()
                if snapshot(m) != before:
                    raise Open()
        raise gdom("g_array_index", resolve(g))
    idx, errs = [], []
    for a in args:
        try:
            idx.append(int_of(m, a))
        except PlError as e:
            errs.append(e)
    if errs:
        if len(errs) > 1 or any(i < 0 or i > 3 for i in idx):
            raise Open()
        raise errs[0]
    for i in idx:
        if el.kind != "array" or i < 0:
            raise gdom("g_array_index", resolve(g))
        if i >= len(el.e):
            if el.auto is None or i > 1 << 20:
                raise gdom("g_array_index", resolve(g))
            n = 1
            while n <= i:
                n *= 2
            el.e += [el.auto.clone() for _ in range(n - len(el.e))]
        el = el.e[i]
    return el, None


def selector(m, g):
    errs = []
    try:
        n = int_of(m, g.args[1])
    except PlError as e:
        errs.append(e)
    try:
        el, path = target(m, g.args[0])
    except PlError as e:
        errs.append(e)
    if len(errs) > 1:
        raise Open()
    if errs:
        raise errs[0]
    bad = gdom("g_argument_selector", resolve(g))
    if path is None:
        if el.kind == "array":
            raise bad
        t = deref(el.t)
    else:
        t = deref(path[0].args[path[1]])
    if type(t) is S and t.name == "." and len(t.args) == 2:
        if n < 1:
            raise bad
        for _ in range(n - 1):
            t = deref(t.args[1])
            if not (type(t) is S and t.name == "." and len(t.args) == 2):
                raise bad
        return el, (t, 0)
    if type(t) is not S or not 1 <= n <= len(t.args):
        raise bad
    return el, (t, n - 1)


def mutable(t):
    """a private copy whose structures can be changed"""
    return copy(t)


def make_array(v, op, el, backtrack, cp):
    bad = gdom("g_array_index", resolve(v))
    if len(v.args) > 2:
        raise bad
    a0 = deref(v.args[0])
    init = None
    if type(a0) is int and a0 > 0:
        init = [v.args[1] if len(v.args) == 2 else 0] * a0
        auto = v.args[1] if len(v.args) == 2 else 0
    elif len(v.args) == 1 and type(a0) is S and a0.name == "." and len(a0.args) == 2:
        t = a0
        init = []
        while type(t) is S and t.name == "." and len(t.args) == 2:
            init.append(t.args[0])
            t = deref(t.args[1])
        if t is not NIL:
            raise bad
        auto = 0
    else:
        raise bad
    old = []
    keep_auto = None
    if op == "g_array_extend" and el.kind == "array":
        old = [x.clone() for x in el.e] if backtrack else el.e
        keep_auto = (el.auto.clone() if backtrack else el.auto) if el.auto else None

    def mk(t):
        x = Elem()
        assign_elem(None, x, t, False, cp)
        return x
    new = old + [mk(t) for t in init[len(old):]]
    return new, (mk(auto) if op == "g_array_auto" else keep_auto)


def assign_elem(m, el, v, backtrack, cp):
    v = deref(v)
    saved = el.get()
    if type(v) is S and v.name in ("g_array", "g_array_auto", "g_array_extend"):
        extend = v.name == "g_array_extend" and el.kind == "array"
        e, auto = make_array(v, v.name, el, backtrack, cp)
        if not backtrack and not extend:
            el.invalidate()
        el.set(("array", None, e, auto))
    else:
        if not backtrack:
            el.invalidate()
        if not cp or type(v) in (Atom, int):
            el.set(("link", v, None, None))
        else:
            el.set(("copy", mutable(v), None, None))
    if backtrack:
        rec = [True]
        el.undo.append(rec)

        def undo():
            if rec[0]:
                el.set(saved)
                el.undo = [r for r in el.undo if r is not rec]
        m.trail.append(undo)


def assign(m, g, v, backtrack, cp):
    el, path = target(m, g)
    if path is None:
        # a failing array definition may leave anything behind
        assign_elem(m, el, v, backtrack, cp)
        return True
    if backtrack:
        raise gdom("g_argument_selector", resolve(g))
    box, i = path
    el0 = el
    if el.kind == "link":
        # the variable becomes a copy of the term with this argument
        v = deref(v)
        cell = {}

        def go(t):
            t = deref(t)
            if t is box:
                return S(t.name, [copy(v) if k == i else go(x) for k, x in enumerate(t.args)])
            if type(t) is S:
                return S(t.name, [go(x) for x in t.args])
            return copy(t, cell)
        new = go(el.t)
        el.invalidate()
        el.set(("copy", new, None, None))
        return True
    x = deref(box.args[i])
    if type(x) is V and fmt(el.t, {}).count("X%d" % [deref(y) for y in term_vars(el.t)].index(x)) > 1:
        raise Open()        # the variable occurs elsewhere: is that occurrence replaced too ?
    el0.invalidate()
    a = list(box.args)
    a[i] = mutable(v)
    box.args = tuple(a)
    return True


def value(el):
    if el.kind == "array":
        return S("g_array", (lst([value(x) for x in el.e]),))
    return copy(el.t) if el.kind == "copy" else el.t


def snapshot(m):
    return sorted((k, fmt(value(v))) for k, v in m.gvars.items())


@det("g_assign", 2)
def _(m, g, v):
    return assign(m, g, v, False, True)


@det("g_assignb", 2)
def _(m, g, v):
    return assign(m, g, v, True, True)


@det("g_link", 2)
def _(m, g, v):
    return assign(m, g, v, True, False)


@det("g_read", 2)
def _(m, g, v):
    el, path = target(m, g)
    if path is None:
        return m.unify(value(el), v)
    t = path[0].args[path[1]]
    # a sub-term of a link is copied too, according to the source; the manual leaves it open
    if el.kind == "link" and fmt(t).find("_G") >= 0:
        raise Open()
    return m.unify(copy(t), v)


@det("g_array_size", 2)
def _(m, g, v):
    el, path = target(m, g)
    v = deref(v)
    if type(v) not in (V, int):
        raise type_error("integer", v)
    return path is None and el.kind == "array" and m.unify(v, len(el.e))


def incdec(m, g, o, n, d):
    for x in (o, n):
        if x is not None and type(deref(x)) not in (V, int):
            raise type_error("integer", deref(x))
    v, setter = read_int(m, g)
    if not -2**60 <= v + d < 2**60:
        raise Open()
    if o is not None and not m.unify(o, v):
        return False
    setter(v + d)
    return n is None or m.unify(n, v + d)


for _p, _d in (("inc", 1), ("dec", -1)):
    det("g_" + _p, 1)(lambda m, g, d=_d: incdec(m, g, None, None, d))
    det("g_" + _p, 2)(lambda m, g, n, d=_d: incdec(m, g, None, n, d))
    det("g_" + _p + "o", 2)(lambda m, g, o, d=_d: incdec(m, g, o, None, d))
    det("g_" + _p, 3)(lambda m, g, o, n, d=_d: incdec(m, g, o, n, d))


def bitop(f):
    def g(m, gv, b):
        b = deref(b)
        if type(b) is V:
            raise inst_error()
        if type(b) is not int:
            raise type_error("integer", b)
        if b < 0:
            raise dom_error("not_less_than_zero", b)
        v, setter = read_int(m, gv)
        return f(v & (2**61 - 1), 1 << (b % 61), lambda x: setter(x - 2**61 if x >= 2**60 else x) or True)
    return g


det("g_set_bit", 2)(bitop(lambda v, b, s: s(v | b)))
det("g_reset_bit", 2)(bitop(lambda v, b, s: s(v & ~b)))
det("g_test_set_bit", 2)(bitop(lambda v, b, s: v & b != 0))
det("g_test_reset_bit", 2)(bitop(lambda v, b, s: v & b == 0))


# ---------------------------------------------------------------- histories

SNAP = "rd(a),rd(t),rd(i)"
INIT = "g_assign(a,0),g_assign(t,0),g_assign(i,1),g_assign(n,0)"
SETUP = {
    "plain": "true",
    "term": "g_assign(a,f(X,b,[x,y,9])),g_assign(t,[1,f(2),Y,[3]])",
    "array": "g_assign(t,g_array(3)),g_assign(a,g(1,h(0)))",
    "list array": "g_assign(t,g_array([1,f(K,K),g_array(2,z),[p,q]])),g_assign(a,[2,1])",
    "auto": "g_assign(t,g_array_auto(2,7)),g_assign(a,0)",
    "auto 2d": "g_assign(t,g_array_auto(2,g_array_auto([5,f(U)]))),g_assign(a,t)",
    "big": "g_assign(t,g_array(40,f(W))),g_assign(a,g_array(20))",
    "link": "g_link(a,f(X,c)),g_link(t,g_array([X,0,Y]))",
}
GV = ["a", "t", "i", "t(0)", "t(1)", "t(2)", "t(i)", "t(5)", "a-1", "a-2", "a-3-2", "t(1)-2", "t(i)-1", "t-3", "t(2,1)", "t(0,3)"]
BADGV = ["G", "1", "1.5", "a(0)", "t(-1)", "t(a)", "t(Z)", "t(1.5)", "a-0", "a-9", "a- (-1)", "a-Z", "a-n", "t-0", "n-1", "t(t(0))", "t(t(9))", "t(t(5),t(6))", "t(0,0,0)", "t(a-1)", "a-t(2)", "t(t(12))-1", "t(1)-t(9)", "zz(0)", "t(4000000)"]
VAL = ["5", "f(X)", "[k,Y]", "g_array(2)", "g_array(6,q)", "g_array([3,f(X),g_array(2)])", "g_array_auto(3)", "g_array_auto([1,2],9)", "g_array_extend(5,e)", "g_array_extend([m,n,o,p])", "g_array_extend(1)", "X",
       "g_array_auto(1,f(X))"]
VAL2 = ["4.5", "g_array(0)", "g_array(-1)", "g_array(foo)", "g_array(Q)", "g_array([1|Q])", "g_array(1,2,3)", "g_array([])", "g_array_extend(8)", "g_array_auto(2,g_array_auto(2,w))", "g_array(2,g_array(3,X))",
        "g_array([g_array([g_array([X])])])", "f(g_array(2))", "-3", "a", "[]", "1152921504606846975"]
ASG = ["g_assign", "g_assignb", "g_link"]


def do(g, t="y"):
    return "do(%s,%s)" % (g, t)


def observers(tier, gvs):
    for g in gvs:
        yield do("g_read(%s,R)" % g, "R")
        yield do("g_array_size(%s,R)" % g, "R")
        for p in ("g_inc", "g_dec"):
            yield do("%s(%s)" % (p, g))
            yield do("%s(%s,R)" % (p, g), "R")
            yield do("%so(%s,R)" % (p, g), "R")
            yield do("%s(%s,R,R2)" % (p, g), "R-R2")
        for p in ("g_set_bit", "g_reset_bit", "g_test_set_bit", "g_test_reset_bit"):
            for b in ("0", "3", "60"):
                yield do("%s(%s,%s)" % (p, g, b))


def case(setup, body):
    return "%s,%s,%s" % (INIT, SETUP[setup], body)


def one(tier):
    """one operation after each setup, kept, undone, and followed by a second read"""
    for s in SETUP:
        ops = ["do(%s(%s,%s),y)" % (p, g, v) for p in ASG for g in GV + BADGV for v in VAL + VAL2] + list(observers(tier, GV + BADGV))
        for o in ops:
            yield s, case(s, "%s,%s" % (o, SNAP))
            yield s, case(s, "(%s,%s,fail;%s,rd(t(i)),rd(a-1))" % (o, SNAP, SNAP))


EXTRA_ARGS = ["g_inc(i,a)", "g_inc(i,2)", "g_inc(i,1)", "g_inc(i,1,2)", "g_inc(i,1,3)", "g_inc(i,0,3)", "g_inc(i,f(x),_)", "g_inc(i,_,1.0)", "g_inco(i,1)", "g_inco(i,7)", "g_deco(i,z)", "g_dec(i,0)", "g_dec(i,4)",
              "g_dec(i,1,0)", "g_set_bit(i,Z)", "g_set_bit(i,a)", "g_set_bit(i,-1)", "g_set_bit(i,61)", "g_set_bit(i,62)", "g_reset_bit(i,61)", "g_test_set_bit(i,61)", "g_test_reset_bit(i,122)", "g_test_set_bit(i,1.5)",
              "g_array_size(t,3)", "g_array_size(t,4)", "g_array_size(t,a)", "g_array_size(i,_)", "g_read(t,g_array([_|R]))", "g_read(t,g_array([_,_,R]))", "g_read(t,[])", "g_read(i,1)", "g_read(i,2)", "g_read(a,f(R,R))",
              "g_read(a,g(R,h(R)))", "g_read(t,g_array(R))", "g_read(t,g_array([R,R,R]))"]


def args(tier):
    for s in SETUP:
        for o in EXTRA_ARGS:
            yield s, case(s, "do(%s,R),%s" % (o, SNAP))


def alphabet(tier):
    a = ["%s(%s,%s)" % (p, g, v) for p in ASG for g, v in (("a", "5"), ("a", "f(X,4)"), ("t", "f(X)"), ("t", "g_array(2)"), ("t", "g_array(6,q)"), ("t", "g_array_extend(5,e)"), ("t", "g_array_extend(1)"), ("t(0)", "[k,X]"),
                                                           ("t(1)", "g_array_auto(2)"), ("t(4)", "8"), ("t", "g_array_auto([1,3],9)"))]
    a += ["g_assign(a-1,2)", "g_assign(a-2,f(X))", "g_assign(t(0)-1,g(X))", "g_inc(t(1))", "g_inc(a)", "g_inc(i)", "g_dec(a-2)", "g_read(t(6),_)", "g_read(t(t(0)),_)", "X=3", "X=f(_)", "g_assign(t(1,3),7)", "g_assignb(t(1,1),6)",
          "g_inc(t(i))"]
    return a


SHAPES2 = ["%s,%s,", "(%s,%s,fail;true),", "%s,(%s,fail;true),", "(%s,fail;%s),", "\\+ \\+ (%s,%s),"]
SHAPES3 = ["%s,%s,%s,", "%s,(%s,%s,fail;true),", "%s,(%s,fail;%s),", "(%s,(%s,fail;true),%s,fail;true),", "(%s,%s,%s,fail;true),", "%s,%s,(%s,fail;true),"]


def two(tier):
    a = [do(x) for x in alphabet(tier)]
    for s in SETUP:
        for x, y in itertools.product(a, repeat=2):
            for sh in SHAPES2:
                yield s, case(s, (sh % (x, y)) + SNAP)


def three(tier):
    al = alphabet(tier)
    small = [x for x in al if any(x.startswith(p) for p in ("g_assign(t", "g_assignb(t", "g_link(t,g", "g_read(t(6", "g_inc(t(1", "X=3", "g_link(t(0")) and "(t,f(" not in x]
    a = [do(x) for x in (small if tier == "quick" else al)]
    for s in (("auto",) if tier == "quick" else ("array", "auto", "plain", "link")):
        for x, y, z in itertools.product(a, repeat=3):
            for sh in (SHAPES3[:4] if tier == "quick" else SHAPES3):
                yield s, case(s, (sh % (x, y, z)) + SNAP)


CLAUSES = None


def answer(goal):
    global CLAUSES
    from vlib.refpl import parse_program
    if CLAUSES is None:
        CLAUSES = parse_program(MODEL)
    m = Machine(3000)
    m.acyclic = True
    for c in CLAUSES:
        m.add(c, dynamic=False)
    t = parse("c(f(X,Y,Z),(%s))" % goal)[0]
    try:
        return run_goal(m, t.args[0], t.args[1], 3)
    except (Open, StepLimit, VarOrder, RecursionError):
        return None


def fam(gen):
    def fn(i, n, tier):
        for k, (key, goal) in enumerate(gen(tier)):
            if k % n != i:
                continue
            e = answer(goal)
            if e is not None:
                yield key, 3, "f(X,Y,Z)", "(%s)" % goal, e
    return fn


def native(i, n, tier):
    """compiled calls (inline code) on environment variables"""
    vals = ["X", "f(X,Y)", "[X|Y]", "g_array([X,Y])", "g_array(2,X)", "Y", "g(Z)", "1", "a", "g_array_auto(1,[X])"]
    k = 0
    for op in ASG:
        for g in ("a", "t(1)", "G", "t(I)"):
            for v in vals:
                for body in ("q(X),%s,q(Y),g_read(a,A),g_read(t,B),R=r(A,B,X,Y)", "%s,q(X),g_read(a,A),(g_assignb(a,9),fail;g_read(t,B)),R=r(A,B,X,Y,Z)", "\\+ \\+ (%s,X=1),g_read(a,A),g_read(t,B),R=r(A,B)",
                             "q(X),%s,q(X),R=X"):
                    k += 1
                    if k % n != i:
                        continue
                    cl = "@@(R) :- q(G),q(I),q(K),G=a,I=1,q(Z)," + body % ("%s(%s,%s)" % (op, g, v))
                    goal = INIT + ",g_assign(t,g_array([0,1,2])),@@(R),d(11,12,13,14,15,16,17,18,D),g_read(a,A),g_read(t,T)"
                    nm = "p0_"
                    m = Machine(3000)
                    m.acyclic = True
                    for c in SHARED_CL():
                        m.add(c, dynamic=False)
                    from vlib.refpl import parse_program
                    for c in parse_program(cl.replace("@@", nm) + ".\n"):
                        m.add(c, dynamic=False)
                    t = parse("c(f(R,D,A,T),(%s))" % goal.replace("@@", nm))[0]
                    try:
                        e = run_goal(m, t.args[0], t.args[1], 2)
                    except (Open, StepLimit):
                        continue
                    yield "native", [cl], [(2, "f(R,D,A,T)", goal, e)]


SHARED = "q(_).\nd(A,B,C,D,E,F,G,H,k(A,B,C,D,E,F,G,H)) :- q(A), q(B), q(C), q(D), q(E), q(F), q(G), q(H).\n"


def SHARED_CL():
    from vlib.refpl import parse_program
    return parse_program(SHARED)


def main():
    ck = Check("C21")
    exe = server_exe(EXTRA)
    for nm, g in (("arguments", args), ("one operation", one), ("two operations", two), ("three operations", three)):
        run_cases(ck, nm, exe, fam(g), 16)
    run_units(ck, "compiled", native, [("native", ()), ("consult", ())], shared=SHARED)
    ck.assumptions = ["cases the manual leaves open are left out: counting inside a linked term, sub-terms of links that hold variables, several errors at once, overflow of g_inc"]
    return ck.finish(rule="every history of the alphabet up to the bound (with the undo points of each shape) against an abstract store")


if __name__ == "__main__":
    main()
