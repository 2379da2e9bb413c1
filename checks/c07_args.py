"""C07: compiled clauses match their heads and build their goals exactly as written, with any register allocation."""
import itertools
from vlib.report import Check
from vlib.progs import run_units
from vlib.refpl import Machine, parse, run_goal, StepLimit, VarOrder
import vlib.refterm

OPTS = {
    "native": ("native", ()),
    "noopt": ("native", ("--no-inline", "--no-reorder", "--no-reg-opt", "--no-opt-last-subterm", "--keep-void-inst")),
    "noreorder": ("native", ("--no-reorder",)),
    "minreg": ("native", ("--min-reg-opt", "--no-inline")),
    "lastsub": ("native", ("--no-opt-last-subterm",)),
    "consult": ("consult", ()),
    "assert": ("assert", ()),
}
SHARED = "q(A,q(A)). q(A,B,q(A,B)). q(A,B,C,q(A,B,C)). q(A,B,C,D,q(A,B,C,D)).\ng(1). g(2).\n"
SH = None


def ref(clauses, tmpl, goal, mx, steps=3000):
    global SH
    from vlib.refpl import parse_program
    if SH is None:
        SH = parse_program(SHARED)
    m = Machine(steps)
    m.acyclic = True
    for c in SH:
        m.add(c, dynamic=False)
    for c in clauses:
        m.add(parse(c.replace("@@", "p_"))[0], dynamic=False)
    t = parse("c(%s,%s)" % (tmpl, goal.replace("@@", "p_")))[0]
    try:
        return run_goal(m, t.args[0], t.args[1], mx)
    except (StepLimit, VarOrder):
        return None


GROUND = {"X": "a", "Y": "h(b)", "Z": "[c]", "U": "1"}


def ground(t):
    for v, g in GROUND.items():
        t = t.replace(v, g)
    return t.replace("_", "w")


def unit(key, clauses, heads, calls=None):
    n = len(heads)
    vs = ["V%d" % i for i in range(n)]
    cs = [vs]
    cs.append([ground(h) for h in heads])                       # read mode, succeeds
    cs.append([ground(h) if i % 2 else v for i, (h, v) in enumerate(zip(heads, vs))])
    cs.append([ground(h) if not i % 2 else v for i, (h, v) in enumerate(zip(heads, vs))])
    cs.append(["V0"] * n)                                       # aliased arguments
    cs.append(["f(V0)", "[V1|V0]", "f(a)", "V0"][:n])
    out = []
    for c in cs:
        tm = "t(%s,R)" % ",".join(vs)
        goal = "@@(%s,R)" % ",".join(c)
        e = ref(clauses, tm, goal, 6)
        if e is not None and "CYCLE" not in e:
            out.append((6, tm, goal, e))
    return key, clauses, out


def cyc_free(fn):
    def g(i, n, tier):
        for k, u in enumerate(fn(tier)):
            if k % n == i:
                try:
                    yield unit(*u)
                except RecursionError:
                    pass
    return g


T1 = ["X", "Y", "_", "a", "1", "f(X)", "[X|Y]", "f(g(Y),X)", "[a,Y]", "f(X,f(X,Y))", "[]"]
T2 = ["X", "Y", "Z", "a", "f(X)", "[Y|Z]", "f(g(Z),Y)"]


def fam_pairs(tier):
    """two head arguments, one goal with three arguments"""
    for h in itertools.product(T1, repeat=2):
        for b in itertools.product(T2 if tier != "quick" else ["X", "Y", "Z", "f(X)", "[Y|Z]"], repeat=3):
            yield "pair", ["@@(%s,R):- q(%s,R)" % (",".join(h), ",".join(b))], h


def fam_perm(tier):
    """register permutations: every map from 3-4 head variables to goal arguments"""
    vs = ["X", "Y", "Z", "U"]
    for h in itertools.product(["X", "Y", "Z", "U", "f(X)", "[Y|Z]"], repeat=3):
        for b in itertools.product(["X", "Y", "Z"], repeat=3):
            yield "perm3", ["@@(%s,R):- q(%s,R)" % (",".join(h), ",".join(b))], h
    for b in itertools.product(vs + ["f(Y,X)", "a"], repeat=4):
        yield "perm4", ["@@(X,Y,Z,U,R):- q(%s,R)" % ",".join(b)], ["X", "Y", "Z", "U"]


def fam_env(tier):
    """several goals: permanent variables, unsafe variables, environment trimming, last call"""
    t = ["X", "Y", "Z", "f(X,Z)"]
    heads = [["X", "Y"], ["f(X)", "Y"], ["_", "[X|Y]"], ["X", "X"], ["_", "a"]]
    for h in heads:
        for b in itertools.product(t, repeat=4):
            yield "env2", ["@@(%s,%s,r(A,B)):- q(%s,%s,A),q(%s,%s,B)" % (h[0], h[1], *b)], h
        for b in itertools.product(["X", "Y", "Z"], repeat=5):
            yield "env3", ["@@(%s,%s,r(A,B,C)):- q(%s,%s,A),g(%s),q(%s,B),q(%s,U,C)" % (h[0], h[1], *b)], h


INL = ["X=Y", "X=f(Z)", "f(X,Y)=f(Z,a)", "Z=[X|Y]", "Y=f(Y0,a)", "functor(X,Z,Y)", "arg(1,X,Z)", "Z=..[f,X]", "X==Y", "X\\==Z", "X@<Y", "var(Z)",
       "nonvar(X)", "atom(X)", "integer(U)", "compound(Y)", "Z is U+1", "U>=1", "U=:=1", "Z= -1", "compare(Z,X,Y)", "copy_term(f(X,Z),Y)",
       "callable(X)", "g(Z)", "\\+X=Y", "(X=Y->Z=1;Z=2)", "f(_,X)=f(Z,_)", "Z=f(_,_,X)", "X\\=Y", "atomic(Z)", "true", "number(U)", "U<3", "Z is -U*2"]


def fam_inline(tier):
    h = ["X", "Y", "U"]
    for k in (1, 2):
        for b in itertools.product(INL, repeat=k):
            yield "inl%d" % k, ["@@(X,Y,U,R):- %s,q(X,Y,Z,U,R)" % ",".join(b)], h
            if k == 1:
                yield "inlhead", ["@@(X,Y,U,q(X,Y,Z,U)):- %s" % ",".join(b)], h
    if tier != "quick":
        for b in itertools.product(INL[:22], repeat=3):
            yield "inl3", ["@@(X,Y,U,R):- %s,q(X,Y,Z,U,R)" % ",".join(b)], h


def sized(sizes):
    """boundary sizes of arity, depth, list length and number of permanent variables"""
    for n in sizes:
        vs = ["X%d" % i for i in range(n)]
        yield "list%d" % n, ["@@([%s|T],R):- q([T,%s],R)" % (",".join(vs), ",".join(reversed(vs)))], ["[%s|t]" % ",".join("a" for v in vs)]
        yield "stc%d" % n, ["@@(f(%s),R):- q(g(%s),R)" % (",".join(vs), ",".join(reversed(vs)))], ["f(%s)" % ",".join(str(i) for i in range(n))]
        x, y = "X", "Y"
        for i in range(n):
            x = "f(%s,%d)" % (x, i)
            y = "f(%d,%s)" % (i, y)
        yield "deepl%d" % n, ["@@(%s,R):- q(%s,R)" % (x, y.replace("Y", "X"))], [x.replace("X", "a")]
        yield "deepr%d" % n, ["@@(%s,R):- q(%s,R)" % (y, x.replace("X", "Y"))], [y.replace("Y", "a")]
        # n permanent variables
        yield "perm%d" % n, ["@@(f(%s),r(A,B,C)):- q(X0,A),g(_),q([%s],B),q(X%d,C)" % (",".join(vs), ",".join(vs), n - 1)], \
            ["f(%s)" % ",".join(str(i) for i in range(n))]
        if n <= 130:      # beyond, the clause needs more temporaries than there are registers: rejected by the compiler
            # n arguments, rotated in a call to a helper
            yield "rot%d" % n, ["@@(k(%s),R):-  @@a(%s,R)" % (",".join(vs), ",".join(vs)),
                                "@@a(%s,R):-  @@b(%s,R)" % (",".join(vs), ",".join(vs[1:] + vs[:1])),
                                "@@b(%s,b(%s))" % (",".join(vs), ",".join(vs))], ["k(%s)" % ",".join(str(i) for i in range(n))]
            yield "rev%d" % n, ["@@(k(%s),R):-  @@a(%s,R)" % (",".join(vs), ",".join(vs)),
                                "@@a(%s,R):-  @@b(%s,R)" % (",".join(vs), ",".join(reversed(vs))),
                                "@@b(%s,b(%s))" % (",".join(vs), ",".join(vs))], ["k(%s)" % ",".join(str(i) for i in range(n))]


def fam_deep(tier):
    return sized(list(range(1, 36)) + [63, 64, 65] if tier != "quick" else [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64])


def fam_big(tier):
    return sized([128, 250, 252] if tier == "quick" else [127, 128, 129, 200, 250, 251, 252])


CONSTS = ["0", "1", "-1", "268435455", "268435456", "-268435456", "-268435457", "2147483647", "2147483648", "-2147483648", "-2147483649",
          "4294967295", "4294967296", "1152921504606846975", "-1152921504606846976", "1.5", "-0.5", "1.0e100", "a", "'A b'", "[]", "'[]'", "{}",
          "'\\\\'", "\"ab\"", "f(1.5,a)", "[1,2]", "0'a", "'a''b'", "'\\n'", "!", "+", "'hello world'", "-(1)", "1-2"]


def fam_const(tier):
    """constants of every kind in heads, in terms and in goals"""
    for c in CONSTS:
        cs = c
        yield "chead " + c, ["@@(%s,R):- q(%s,R)" % (cs, cs)], [cs]
        yield "cstc " + c, ["@@(f(%s,X),R):- q(g(X,%s),h,R)" % (cs, cs)], ["f(%s,X)" % cs]
        yield "clst " + c, ["@@([%s|X],R):- q([X|%s],R)" % (cs, cs)], ["[%s|X]" % cs]
        yield "cperm " + c, ["@@(X,R):- q(%s,R0),g(_),q(X,R1),R=r(R0,R1,%s)" % (cs, cs)], ["X"]


def main():
    ck = Check("C07")
    all_native = [OPTS[k] for k in ("native", "noopt", "noreorder", "minreg", "lastsub")]
    byte = [OPTS[k] for k in ("consult", "assert")] + [("dynamic", ())]
    for nm, fam, modes in (
            ("pairs", fam_pairs, all_native[:2] + byte[::2] if not ck.thorough else all_native + byte),
            ("perm", fam_perm, all_native + byte[::2] if not ck.thorough else all_native + byte),
            ("env", fam_env, all_native[:4] + byte if not ck.thorough else all_native + byte),
            ("inline", fam_inline, all_native[:2] + byte if not ck.thorough else all_native + byte),
            ("sizes", fam_deep, all_native + byte),
            ("big sizes", fam_big, [OPTS["native"]] + byte[:2]),
            ("consts", fam_const, all_native + byte)):
        run_units(ck, nm, cyc_free(fam), modes, 8 if not ck.thorough else 24, SHARED)
    ck.assumptions = ["calls: all-fresh, ground, two mixed, aliased and partially instantiated arguments for every clause"]
    return ck.finish(rule="every clause of each grammar up to its bound, under each set of compiler options and as byte code, "
                          "called in six instantiation patterns")


if __name__ == "__main__":
    main()
