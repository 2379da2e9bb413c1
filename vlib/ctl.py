"""Exhaustive checks of clause bodies: every body of a bounded grammar is executed by the real
system in several execution modes and compared with the reference interpreter."""
import os
import shutil
import tempfile

from .build import get_build, WORK, VERIF
from .refpl import Machine, S, V, A, parse, parse_program, st, fmt, run_goal, StepLimit, copy
from .runner import Server, parmap, shards

SRV = os.path.join(VERIF, "pl", "srv.pl")


def bodies(leaves, binops, unops, size):
    """texts of every body with exactly `size` nodes of leaf or unary kind"""
    memo = {}

    def gen(k):
        if k in memo:
            return memo[k]
        out = []
        if k == 1:
            out += leaves
        if k > 1:
            for u in unops:
                out += [u % b for b in gen(k - 1)]
            for i in range(1, k):
                for a in gen(i):
                    for b in gen(k - i):
                        out += ["(%s %s %s)" % (a, o, b) for o in binops]
        memo[k] = out
        return out
    return gen(size)


class Job:
    """bodies: list of texts over variables X,Y,Z; shared: program text used by all of them"""

    def __init__(self, shared, head_vars=("X", "Y"), alt=True, maxsol=14, goal="(n(W),%s)", maxsteps=3000):
        self.shared, self.head_vars, self.alt, self.maxsol = shared, head_vars, alt, maxsol
        self.goal, self.maxsteps = goal, maxsteps

    def reference(self, body):
        """expected text, or None when outside the bound"""
        m = Machine(max_steps=self.maxsteps)
        for c in self.prog():
            m.add(c, dynamic=False)
        head = "p(%s)" % ",".join(self.head_vars)
        m.add(parse("%s :- %s" % (head, body))[0], dynamic=False)
        if self.alt:
            m.add(parse("p(%s)" % ",".join("z" for _ in self.head_vars))[0], dynamic=False)
        t, vs = parse("g(f(W,%s),%s)" % (",".join(self.head_vars), self.goal % head))
        try:
            return run_goal(m, t.args[0], t.args[1], self.maxsol)
        except StepLimit:
            return None

    def reference_call(self, body):
        m = Machine(max_steps=self.maxsteps)
        for c in self.prog():
            m.add(c, dynamic=False)
        t, vs = parse("g(f(W,%s),%s)" % (",".join(self.head_vars), self.goal % ("call((%s))" % body)))
        try:
            return run_goal(m, t.args[0], t.args[1], self.maxsol)
        except StepLimit:
            return None

    def prog(self):
        if not hasattr(self, "_prog"):
            self._prog = parse_program(self.shared)
        return self._prog


TR = "tr(X) :- write(user_output, '\\t^'), srv_write(X).\n"


def run_shard(arg):
    """one shard in one mode: (job, bodies, mode, options) -> list of (body, expected, got)"""
    job, bods, mode, opts, exe_base = arg
    build = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    try:
        n = len(job.head_vars)
        args = ",".join(job.head_vars)
        cases, exp = [], []
        tmpl = "f(W,%s)" % args
        keep = []
        for b in bods:
            e = job.reference_call(b) if mode == "call" else job.reference(b)
            if e is not None:
                keep.append(b)
                exp.append(e)
        bods = keep
        src = [TR, job.shared]
        dyn = []
        late = []
        k0 = 0
        for i, b in enumerate(bods):
            if mode == "call":
                cases.append((job.maxsol, tmpl, job.goal % ("call((%s))" % b)))
                continue
            cases.append((job.maxsol, tmpl, job.goal % ("p%d(%s)" % (i, args))))
            cl = ["p%d(%s) :- %s" % (i, args, b)]
            if job.alt:
                cl.append("p%d(%s)" % (i, ",".join("z" * n)))
            if mode in ("native", "consult"):
                src += [c + ".\n" for c in cl]
            elif mode in DECL:
                # the predicates are interleaved when they can be
                src.insert(k0, DECL[mode] % ("p%d/%d" % (i, n)))
                k0 += 1
                src += [c + ".\n" for c in cl[:1]]
                late += [c + ".\n" for c in cl[1:]]
                if mode != "discontiguous" or len(late) > 4:
                    src += late
                    late = []
            else:
                dyn += ["d(assertz((%s))).\n" % c for c in cl]
        f = os.path.join(d, "prog.pl")
        with open(f, "w") as fd:
            fd.write("".join(src + late))
        exe = os.path.join(d, "exe")
        prelude = ""
        base_opts = ("--no-top-level", "--no-susp-warn", "--no-singl-warn")
        if mode == "native" or mode in DECL:
            build.gplc(exe, SRV, f, opts=base_opts + tuple(opts))
        elif mode == "consult":
            build.gplc(exe, SRV, opts=base_opts)
            prelude = "d((set_prolog_flag(singleton_warning,off),set_prolog_flag(suspicious_warning,off))).\nd(consult('%s')).\n" % f
        else:
            build.gplc(exe, SRV, f, opts=base_opts)
            prelude = "".join(dyn)
        got = Server(exe, build.env(), prelude, cwd=d).run(cases)
        return list(zip(bods, exp, got))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# compiled clauses of predicates which are not static or not in one piece
DECL = {"dynamic": ":- dynamic(%s).\n", "multifile": ":- multifile(%s).\n", "discontiguous": ":- discontiguous(%s).\n", "public": ":- public(%s).\n"}


def run_modes(check, job, name, bods, modes, nshards=8):
    """modes: list of (mode, options)"""
    get_build()
    jobs = []
    for mode, opts in modes:
        for a, b in shards(len(bods), nshards):
            jobs.append((job, bods[a:b], mode, opts, None))
    res = parmap(run_shard, jobs)
    k = 0
    for mode, opts in modes:
        for _ in shards(len(bods), nshards):
            for body, exp, got in res[k]:
                check.add(transitions=exp.count("\t") + 1, traces_validated_against_impl=1)
                check.outcome(exp)
                if exp != got and got != "SKIPPED":
                    check.violate("%s %s%s: %s" % (name, mode, "".join(opts), body),
                                  "program:\n%s\np(%s) :- %s.\np(z,..).  %% mode %s %s\ngoal: %s\nexpected: %s\ngot:      %s"
                                  % (job.shared, ",".join(job.head_vars), body, mode, " ".join(opts),
                                     job.goal, exp, got))
            k += 1
    check.add(states=len(bods))
    check.sample("%s: %s" % (name, bods[len(bods) // 2]))
