"""The workhorse of most checks: every case of a finite family goes through the case server and
its whole answer text is compared with what the reference model says."""
import collections
import os
import shutil
import tempfile
import hashlib

from .build import get_build, WORK, VERIF
from .runner import Server, parmap, SKIPPED, DEATHS, MAX_DEATHS

SRV = os.path.join(VERIF, "pl", "srv.pl")
BASE_OPTS = ("--no-top-level", "--no-susp-warn", "--no-singl-warn")


class Result:
    def __init__(self):
        self.n = 0
        self.transitions = 0
        self.skipped = 0
        self.mism = []          # (key, text)
        self.hist = collections.Counter()
        self.sample = None
        self.inputs = set()


def short(s, n=1200):
    return s if len(s) <= n else s[:n // 2] + " ... " + s[-n // 2:]


def confirm(server, cases, exp, idx, match):
    """repeat a mismatch: alone, else with the cases before it.  Returns a remark or None."""
    if not match(exp[idx], server.run([cases[idx]])[0]):
        return "reproduced alone in a fresh process"
    for _ in range(2):
        if DEATHS.value > MAX_DEATHS:
            return "not repeated"
        if not match(exp[idx], server.run(cases[:idx + 1])[idx]):
            return "reproduced after the %d cases before it (same process)" % idx
    return None


def equal(e, g):
    return e == g


def _worker(arg):
    fn, i, n, tier, kw = arg
    r = Result()
    d = tempfile.mkdtemp(dir=WORK)
    try:
        out = fn(i, n, tier)
        if out is None:
            return r
        cases, exp, keys = [], [], []
        for key, mx, tmpl, goal, e in out:
            cases.append((mx, tmpl, goal))
            exp.append(e)
            keys.append(key)
        match = kw.get("match") or equal
        env = get_build().env(**(kw.get("env") or {}))
        srv = Server(kw["exe"], env, kw.get("prelude", ""), cwd=d, timeout=kw.get("timeout", 10))
        got = srv.run(cases)
        dig = set()
        for k in range(len(cases)):
            e, g = exp[k], got[k]
            if g == SKIPPED:
                r.skipped += 1
                continue
            r.n += 1
            r.transitions += g.count("\t") + 1
            r.hist[g[:60]] += 1
            dig.add(hashlib.md5((cases[k][1] + cases[k][2]).encode("utf-8", "replace")).digest()[:8])
            if not match(e, g):
                note = "(not repeated)"
                if len(r.mism) < 8 and DEATHS.value <= MAX_DEATHS:
                    note = confirm(srv, cases, exp, k, match)
                    if note is None:
                        continue
                r.mism.append((keys[k], "goal:     %s\ntemplate: %s\nexpected: %s\ngot:      %s\n%s"
                               % (short(cases[k][2]), short(cases[k][1]), short(str(e)), short(g), note)))
        r.inputs = dig
        if cases:
            m = len(cases) // 2
            r.sample = "%s => %s" % (short(cases[m][2], 200), short(got[m], 200))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cases(check, name, exe, fn, shards=8, extra_text="", **kw):
    """fn(i, n, tier) -> iterable of (key, max, template, goal, expected) for shard i of n"""
    kw["exe"] = exe
    res = parmap(_worker, [(fn, i, shards, check.tier, kw) for i in range(shards)])
    total = 0
    states = set()
    for r in res:
        total += r.n
        states |= r.inputs
        check.add(transitions=r.transitions, traces_validated_against_impl=r.n)
        for k, v in r.hist.items():
            check.outcome(k, v)
        if r.skipped:
            check.exhaustive = False
            if not any(x.mism for x in res):
                check.violate(name + ": died", "the system under test died again and again")
        for k, t in r.mism:
            check.violate("%s: %s" % (name, k), t + ("\n" + extra_text if extra_text else ""))
        if r.sample and len(res) and r is res[0]:
            check.sample("%s: %s" % (name, r.sample))
    check.add(states=len(states))
    check.cov.setdefault("cases_by_family", {})[name] = total
    return total


_exes = {}


def server_exe(extra_src="", opts=(), files=(), tag="srv"):
    """a case server with extra program text; built once per check run"""
    b = get_build()
    h = hashlib.sha256((extra_src + repr(opts) + repr(files) + open(SRV).read()).encode()).hexdigest()[:16]
    d = os.path.join(b.root, "srv-%s-%d-%s" % (tag, os.getpid(), h))
    exe = os.path.join(d, "exe")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        fs = [SRV]
        if extra_src:
            f = os.path.join(d, "extra.pl")
            open(f, "w").write(extra_src)
            fs.append(f)
        b.gplc(exe, *fs, *files, opts=BASE_OPTS + tuple(opts))
    return exe
