"""Families of small programs: each unit is a few clauses of a predicate `@` (and helpers @a, @b...)
plus calls with the expected answers; every unit is run in every requested way of executing it."""
import collections
import hashlib
import os
import re
import shutil
import tempfile

from .build import get_build, WORK, VERIF
from .ctl import DECL
from .runner import Server, parmap, SKIPPED, DEATHS, MAX_DEATHS
from .goals import match
from .cases import SRV, BASE_OPTS, short

QUIET = "d((set_prolog_flag(singleton_warning,off),set_prolog_flag(suspicious_warning,off))).\n"
TR = "tr(X) :- write(user_output, '\\t^'), srv_write(X).\n"


def indicators(src):
    """Name/Arity of the predicates of clauses"""
    out = {}
    for c in src:
        m = re.match(r"\s*([a-z][A-Za-z0-9_]*)(\(?)", c)
        name, n, i = m.group(1), 0, m.end()
        if m.group(2):
            d = n = 1
            while d:
                ch = c[i]
                if ch in "'\"" and c[i - 2:i] != "0'":
                    i = c.index(ch, i + 1)
                d += (ch in "([{") - (ch in ")]}")
                n += ch == "," and d == 1
                i += 1
        if re.match(r"\s*-->", c[i:]):
            n += 2
        out["%s/%d" % (name, n)] = None
    return list(out)


def _shard(arg):
    gen, i, n, tier, shared, modes = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    out = []
    try:
        units = list(gen(i, n, tier))
        if not units:
            return 0, []
        cases, exp, keys = [], [], []
        src, dyn = [], []
        for k, (key, clauses, calls) in enumerate(units):
            nm = "p%d_" % k
            for c in clauses:
                c = c.replace("@@", nm)
                src.append(c + ".\n")
                dyn.append("d(assertz((%s))).\n" % c)
            for mx, tmpl, goal, e in calls:
                cases.append((mx, tmpl, goal.replace("@@", nm)))
                exp.append(e)
                keys.append((key, clauses))
        f = os.path.join(d, "p.pl")
        open(f, "w").write("".join(src))
        sh = os.path.join(d, "shared.pl")
        open(sh, "w").write(TR + shared)
        base_exe = os.path.join(d, "base")
        for mode, opts in modes:
            prelude = ""
            if mode in DECL:
                exe = os.path.join(d, "exe" + mode)
                g = os.path.join(d, mode + ".pl")
                open(g, "w").write("".join(DECL[mode] % pi for pi in indicators(src)) + "".join(src))
                b.gplc(exe, SRV, sh, g, opts=BASE_OPTS + tuple(opts))
            elif mode == "native":
                exe = os.path.join(d, "exe")
                b.gplc(exe, SRV, sh, f, opts=BASE_OPTS + tuple(opts))
            else:
                exe = base_exe
                if not os.path.exists(exe):
                    b.gplc(exe, SRV, sh, opts=BASE_OPTS)
                prelude = QUIET + "d(consult('%s')).\n" % f if mode == "consult" else "".join(dyn)
            srv = Server(exe, b.env(), prelude, cwd=d)
            got = srv.run(cases)
            trans, mism = 0, []
            hist = collections.Counter()
            for j, g in enumerate(got):
                trans += g.count("\t") + 1
                hist[g[:60]] += 1
                if not match(exp[j], g) and g != SKIPPED:
                    if len(mism) < 4 and DEATHS.value <= MAX_DEATHS:
                        g2 = srv.run([cases[j]])[0]
                        if match(exp[j], g2) and match(exp[j], srv.run(cases[:j + 1])[j]):
                            continue
                    mism.append(("%s%s %s call %s" % (mode, "".join(opts), keys[j][0], cases[j][2]),
                                 "program:  %s\nmode:     %s %s\ngoal:     %s\ntemplate: %s\nexpected: %s\ngot:      %s"
                                 % (short(".  ".join(keys[j][1]), 3000), mode, " ".join(opts), short(cases[j][2]),
                                    short(cases[j][1]), short(exp[j]), short(g))))
            out.append((len(cases), trans, hist, mism[:30]))
        return len(units), out, "%s => %s" % (short(". ".join(units[len(units) // 2][1]), 200), short(exp[len(exp) // 2], 100))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_units(check, name, gen, modes, nshards=8, shared=""):
    """gen(i,n,tier) -> (key, [clause texts], [(max, template, goal, expected)])"""
    get_build()
    res = parmap(_shard, [(gen, i, nshards, check.tier, shared, modes) for i in range(nshards)])
    units = 0
    for r in res:
        if r[0] == 0:
            continue
        units += r[0]
        for nc, tr, hist, mism in r[1]:
            check.add(transitions=tr, traces_validated_against_impl=nc)
            for k, v in hist.items():
                check.outcome(k, v)
            for k, t in mism:
                check.violate("%s: %s" % (name, k), t)
        if r is res[0]:
            check.sample("%s: %s" % (name, r[2]))
    check.add(states=units)
    check.cov.setdefault("programs_by_family", {})[name] = units
