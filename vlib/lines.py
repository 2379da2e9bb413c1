"""Families in which the input of a case is raw text: each scenario is one process of the text driver
(pl/lines.pl + extra Prolog), one line of output per case, compared with the reference."""
import collections
import hashlib
import os
import shutil
import subprocess
import tempfile

from .build import get_build, WORK, VERIF
from .runner import parmap, DEATHS, MAX_DEATHS, die_with_parent
from .cases import short, BASE_OPTS

DRV = os.path.join(VERIF, "pl", "lines.pl")
_exes = {}


def exe(extra="", opts=(), files=()):
    b = get_build()
    h = hashlib.sha256((extra + repr(opts) + "".join(open(f).read() for f in (DRV, *files))).encode()).hexdigest()[:16]
    d = os.path.join(b.root, "srv-lines-%d-%s" % (os.getpid(), h))
    x = os.path.join(d, "exe")
    if not os.path.exists(x):
        os.makedirs(d, exist_ok=True)
        fs = [DRV]
        if extra:
            f = os.path.join(d, "extra.pl")
            open(f, "w").write(extra)
            fs.append(f)
        fs += files
        b.gplc(x, *fs, opts=BASE_OPTS + tuple(opts))
    return x


def go(x, d, setup, data, timeout, env):
    for n, t in (("setup", setup), ("in", data)):
        open(os.path.join(d, n), "w", encoding="latin-1", newline="").write(t)
    if os.path.exists(os.path.join(d, "out")):
        os.remove(os.path.join(d, "out"))
    note = ""
    try:
        p = subprocess.run([x] + [os.path.join(d, n) for n in ("setup", "in", "out")], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, start_new_session=True, preexec_fn=die_with_parent)
        if p.returncode:
            note = "CRASH exit %d %s" % (p.returncode, p.stdout[-300:].decode("latin-1"))
    except subprocess.TimeoutExpired:
        note = "HANG"
    if note:
        with DEATHS.get_lock():
            DEATHS.value += 1
    try:
        out = open(os.path.join(d, "out"), encoding="latin-1", newline="").read()
    except OSError:
        out = ""
    ls = out.split("\n")
    ls.pop()
    return ls, note


def ok(e, g):
    if g is None:
        return False
    if isinstance(e, str):
        return e == g
    if callable(e):
        return e(g)
    return g in e


def _worker(arg):
    gen, i, n, tier, x, sep, kw = arg
    d = tempfile.mkdtemp(dir=WORK)
    r = dict(n=0, scen=0, mism=[], hist=collections.Counter(), sample=None, inputs=0, nmis=0)
    env = get_build().env(**(kw.get("env") or {}))
    to = kw.get("timeout", 60)
    try:
        for key, setup, cases in gen(i, n, tier):
            if DEATHS.value > MAX_DEATHS:
                r["mism"].append(("died", "the system under test died again and again"))
                break
            cases = list(cases)
            data = "".join(t + sep for t, _ in cases)
            out, note = go(x, d, setup, data, to, env)
            r["scen"] += 1
            r["n"] += len(cases)
            r["inputs"] += len(set(t for t, _ in cases))
            bad = []
            for k, (t, e) in enumerate(cases):
                g = out[k] if k < len(out) else None
                r["hist"][(g or "")[:40]] += 1
                if not ok(e, g):
                    bad.append(k)
            if len(out) != len(cases) and not bad:
                bad.append(len(cases) - 1)
            if cases and r["sample"] is None:
                k = len(cases) // 2
                r["sample"] = "%s: %r => %s" % (key, short(cases[k][0], 150), short(out[k] if k < len(out) else "?", 150))
            r["nmis"] += len(bad)
            for k in bad[:6]:
                if len(r["mism"]) > 40:
                    break
                t, e = cases[k]
                g = out[k] if k < len(out) else note or "nothing"
                rem = ""
                if DEATHS.value <= MAX_DEATHS:
                    o, n2 = go(x, d, setup, t + sep, to, env)
                    if len(o) != 1 or not ok(e, o[0]):
                        rem = "reproduced alone: %r %s" % (o[:3], n2)
                    else:
                        o, n2 = go(x, d, setup, data, to, env)
                        if k < len(o) and ok(e, o[k]) and len(o) == len(cases):
                            continue
                        rem = "reproduced with the %d cases before it" % k
                        k0 = bad[0]
                        if k != k0:
                            continue
                es = e if isinstance(e, str) else e.__doc__ if callable(e) else " | ".join(sorted(e))
                r["mism"].append((key, "setup: %s\ntext: %r\nexpected: %s\ngot: %s\n%s (%d wrong in this scenario)" % (short(setup, 400), short(t), short(es or "?"), short(g), rem, len(bad))))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_lines(check, name, x, gen, shards=16, sep="\n", **kw):
    """gen(i, n, tier) -> iterable of (key, setup text, [(case text, expected)]); expected: a text, a set of texts
    or a predicate"""
    res = parmap(_worker, [(gen, i, shards, check.tier, x, sep, kw) for i in range(shards)])
    tot = 0
    for r in res:
        tot += r["n"]
        check.add(states=r["inputs"], transitions=r["n"], traces_validated_against_impl=r["n"], scenarios=r["scen"])
        for k, v in r["hist"].items():
            check.outcome(k, v)
        for k, t in r["mism"]:
            check.violate("%s: %s" % (name, k), t)
        if r is res[0] and r["sample"]:
            check.sample("%s: %s" % (name, r["sample"]))
    check.cov.setdefault("cases_by_family", {})[name] = tot
    return tot
