"""C06: the logical update view of the dynamic database, with and without clause collection."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe
from vlib.refpl import Machine, run_goal, parse, StepLimit

INITS = [
    [],
    ["d(1,a)", "d(2,b)", "d(1,c)"],
    ["d(1,a)", "d(_,b)", "d(f(1),c)", "d(1,e)"],
]
# %(i)d: the position in the conjunction (fresh variables, distinct tags)
OPS = [
    "d(_,X%d)", "d(1,X%d)", "retract(d(_,X%d))", "retract(d(1,X%d))", "once(retract(d(_,X%d)))",
    "assertz(d(1,z%d))", "asserta(d(1,y%d))", "assertz(d(_,w%d))", "retractall(d(1,_))", "retractall(d(_,b))",
    "clause(d(2,X%d),true)", "\\+d(2,_)", "retractall(d(_,_))", "assertz(d(2,v%d))",
]
MAIN_OPS = OPS[:9]

# rules whose bodies change the predicate that is running
ROPS = [
    "r(_,X%d)", "retract((r(_,X%d):-_))", "once(retract((r(1,_):-_)))", "assertz((r(1,z%d):-tr(n)))",
    "asserta((r(1,y%d):-tr(n)))", "retractall(r(_,_))", "tr(t%d)", "abolish(r/2)", "clause(r(_,X%d),_)", "!",
]


def fill(op, i):
    return op % i if "%d" in op else op


def expected(goal, tmpl, mx=400, steps=60000):
    m = Machine(steps)
    t = parse("q(%s,%s)" % (tmpl, goal))[0]
    try:
        return run_goal(m, t.args[0], t.args[1], mx)
    except StepLimit:
        return None


def db_goal(init, ops):
    n = len(ops)
    setup = ",".join(["abolish(d/2)", "assertz(d(0,0))", "retractall(d(_,_))"] + ["assertz(%s)" % c for c in init])
    body = ",".join(fill(o, i) for i, o in enumerate(ops))
    tm = "t(%s,L)" % ",".join("X%d" % i for i in range(n))
    return tm, "(%s,(%s;findall(A-B,clause(d(A,B),true),L)))" % (setup, body)


def family(alpha, length, inits, suffix=()):
    def fn(i, n, tier):
        k = 0
        for init in inits:
            for ops in itertools.product(alpha, repeat=length):
                k += 1
                if k % n != i:
                    continue
                tm, g = db_goal(init, ops + tuple(suffix))
                e = expected(g, tm)
                if e is not None:
                    yield ("init %s ops %s" % (init, [fill(o, j) for j, o in enumerate(ops)]), 400, tm, g, e)
    return fn


def rule_goal(b1, b2, init3):
    setup = ["abolish(r/2)", "assertz((r(9,9):-true))", "retractall(r(_,_))",
             "assertz((r(1,a):-%s))" % (",".join(b1) or "true"), "assertz((r(2,b):-%s))" % (",".join(b2) or "true")]
    setup += ["assertz((%s))" % c for c in init3]
    return "t(P,Q,L)", "(%s,(r(P,Q);findall(A-B,(current_predicate(r/2),clause(r(A,B),_)),L)))" % ",".join(setup)


def rules(alpha, k1, k2):
    def fn(i, n, tier):
        k = 0
        for b1 in itertools.product(alpha, repeat=k1):
            for b2 in itertools.product(alpha, repeat=k2):
                k += 1
                if k % n != i:
                    continue
                tm, g = rule_goal([fill(o, j) for j, o in enumerate(b1)], [fill(o, 5 + j) for j, o in enumerate(b2)],
                                  ["r(1,c)"])
                e = expected(g, tm, 100, 1500)
                if e is None or not e.endswith("\tno"):
                    continue
                yield ("r(1,a):-%s. r(2,b):-%s." % (b1, b2), 100, tm, g, e)
    return fn


def main():
    ck = Check("C06")
    exe = server_exe()
    for name, pre in (("plain", ""), ("collector", "p.\n")):
        sh = ck.pick(16, 64)
        for ln in (1, 2, 3):
            run_cases(ck, "%s db len %d" % (name, ln), exe, family(OPS, ln, INITS), sh, prelude=pre)
        run_cases(ck, "%s db len 4" % name, exe, family(MAIN_OPS if not ck.thorough else OPS, 4, INITS[1:2] if not ck.thorough else INITS), sh,
                  prelude=pre)
        if ck.thorough:
            run_cases(ck, "%s db len 5" % name, exe, family(MAIN_OPS, 5, INITS[1:2]), sh, prelude=pre)
        run_cases(ck, "%s rules 2+1" % name, exe, rules(ROPS, 2, 1), sh, prelude=pre)
        run_cases(ck, "%s rules 1+2" % name, exe, rules(ROPS, 1, 2), sh, prelude=pre)
        if ck.thorough:
            run_cases(ck, "%s rules 3+1" % name, exe, rules(ROPS, 3, 1), sh, prelude=pre)
    ck.assumptions = ["cases in which the reference needs more than 1500 steps or 100 solutions (unbounded recursion) are left out"]
    return ck.finish(rule="every conjunction of the operations up to the bound, run to exhaustion by backtracking, then the final "
                          "clauses; the same with the clause collector running at every update and scan")
