"""Families of goals, each answered by the reference interpreter and by the real system."""
from .cases import run_cases, server_exe
from .refpl import Machine, parse, parse_program, run_goal, StepLimit, VarOrder

SKIPS = {"n": 0}


class Unordered(str):
    """the same answers in any order"""


def match(e, g):
    return e == g or type(e) is Unordered and sorted(e.split("\t")) == sorted(g.split("\t"))


class Ref:
    """the reference interpreter with an optional program loaded (consult order)"""

    def __init__(self, program="", steps=4000, acyclic=True):
        self.clauses = parse_program(program) if program else []
        self.steps, self.acyclic = steps, acyclic

    def __call__(self, tmpl, goal, mx=8):
        m = Machine(self.steps)
        m.acyclic = self.acyclic
        for c in self.clauses:
            m.add(c, dynamic=False)
        t = parse("c(%s,%s)" % (tmpl, goal))[0]
        try:
            r = run_goal(m, t.args[0], t.args[1], mx)
            if m.unordered:
                return None if r.endswith("more") else Unordered(r)
            return r
        except (StepLimit, VarOrder, RecursionError):
            return None


def family(gen, ref, mx=8):
    """gen(tier) yields (key, template, goal); goals the standard leaves undefined are skipped"""
    def fn(i, n, tier):
        for k, (key, tmpl, goal) in enumerate(gen(tier)):
            if k % n != i:
                continue
            goal = "(%s)" % goal
            e = ref(tmpl, goal, mx)
            if e is not None:
                yield key, mx, tmpl, goal, e
    return fn


def run_goals(check, name, exe, gen, ref, mx=8, shards=16, **kw):
    return run_cases(check, name, exe, family(gen, ref, mx), shards, match=match, **kw)
