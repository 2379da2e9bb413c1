"""C44: no built-in call crashes or corrupts the system.

Every built-in predicate is called with every tuple over a universe of values (one per type and some out of every
range) and values special to it; each outcome is judged, and the process has to survive and to answer a list of
reference questions as it did before."""
import collections
import os
import shutil
import subprocess
import tempfile
import time
import threading
from vlib import runner
from vlib.build import get_build, WORK, VERIF
from vlib.report import Check

HERE = os.path.join(VERIF, "checks", "c44")
KILL = "#include <sys/types.h>\n#include <errno.h>\nint kill(pid_t p, int s) { if (s < 0 || s > 64) { errno = EINVAL; return -1; } if (p <= 1) { errno = EPERM; return -1; } errno = ESRCH; return -1; }\n"
LIST = """:- initialization(main).
main :- ( '$current_predicate_bips'(N/A), functor(P, N, A), predicate_property(P, built_in), \\+ sub_atom(N, 0, 1, _, '$'), write(A), write(' '), write(N), nl, fail ; halt ).
"""
SIZES = {"quick": {1: 99, 2: 99, 3: 20, 4: 8, 5: 5, 6: 4, 7: 3, 8: 2, 9: 2}, "thorough": {1: 99, 2: 99, 3: 37, 4: 14, 5: 8, 6: 5, 7: 4, 8: 3, 9: 3}}


def build():
    b = get_build()
    d = os.path.join(b.root, "srv-c44-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    for n, t in (("kill.c", KILL), ("list.pl", LIST)):
        open(os.path.join(d, n), "w").write(t)
    opts = ("--no-top-level", "--no-susp-warn", "--no-singl-warn")
    b.gplc(os.path.join(d, "list"), os.path.join(d, "list.pl"), opts=opts)
    b.gplc(os.path.join(d, "drv"), os.path.join(HERE, "drv.pl"), os.path.join(HERE, "extra.pl"), os.path.join(d, "kill.c"), opts=opts)
    out = subprocess.run([os.path.join(d, "list")], env=b.env(), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60).stdout
    ps = sorted({tuple(l.split(" ", 1)) for l in out.splitlines() if " " in l})
    return os.path.join(d, "drv"), [(n, int(a)) for a, n in ps]


def show(exe, n, ar, i, mx):
    """the text of a call"""
    d = tempfile.mkdtemp(dir=WORK)
    try:
        f = os.path.join(d, "out")
        subprocess.run([exe, f, n or "<empty>", str(ar), str(i), str(i + 1), str(mx), "show"], env=get_build().env(), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        return open(f, encoding="latin-1").read().strip()
    except (OSError, subprocess.SubprocessError):
        return "?"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_one(exe, env, n, ar, fr, to, mx, limit):
    """-> (lines, death) of one process"""
    d = tempfile.mkdtemp(dir=WORK)
    os.mkdir(os.path.join(d, "w"))
    out = os.path.join(d, "out")
    err = open(os.path.join(d, "err"), "wb")
    try:
        p = subprocess.Popen([exe, out, n or "<empty>", str(ar), str(fr), str(to), str(mx)], env=env, cwd=os.path.join(d, "w"), stdin=subprocess.DEVNULL,
                             stdout=err, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=runner.die_with_parent)
        size, t0, c0, death = -1, time.monotonic(), 0.0, ""
        while True:
            try:
                rc = p.wait(0.5)
                if rc:
                    death = "exit %d" % rc
                break
            except subprocess.TimeoutExpired:
                pass
            s = os.path.getsize(out) if os.path.exists(out) else 0
            if s != size:
                size, t0, c0 = s, time.monotonic(), runner.cpu(p.pid)
            wall = time.monotonic() - t0
            if wall > limit and (runner.cpu(p.pid) - c0 > limit * 0.7 or wall > 4 * limit):
                death = "hang"
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                break
        try:                # descendants left behind
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        err.close()
        if death:
            sz = os.path.getsize(os.path.join(d, "err"))
            with open(os.path.join(d, "err"), "rb") as f:
                f.seek(max(0, sz - 600))
                death += " " + f.read().decode("latin-1")
        try:
            ls = open(out, encoding="latin-1", newline="").read().split("\n")
        except OSError:
            ls = [""]
        lost = os.path.exists(os.path.join(d, "w", "drv_lost"))
        return ls, death, lost
    finally:
        shutil.rmtree(d, ignore_errors=True)


OVERFLOW = ("Fatal Error: global stack overflow", "Fatal Error: local stack overflow", "Fatal Error: trail stack overflow", "Fatal Error: cstr stack overflow")


def pred(arg):
    exe, n, ar, tier = arg
    env = get_build().env()
    mx = SIZES[tier].get(ar, 2)
    r = dict(n=0, hist=collections.Counter(), bad=[], full=0, sample="")
    fr = 0
    deaths = 0
    while True:
        ls, death, lost = run_one(exe, env, n, ar, fr, -1, mx, 10)
        last = fr - 1
        q = None
        for l in ls:
            f = l.split("\t")
            if f[0] == "Q":
                q = f[1]
                continue
            if not f[0].isdigit():
                continue
            last = int(f[0])
            if len(f) == 1:
                continue
            r["n"] += 1
            r["hist"][f[1]] += 1
            if r["n"] == 2:
                r["sample"] = l
            if len(f) > 2:
                r["bad"].append((last, "%s" % "; ".join(f[2:]), f[1]))
        if not death:
            if q != "same":
                r["bad"].append((-1, "reference questions answered differently afterwards: %s" % q, ""))
            return n, ar, mx, r
        if any(m in death for m in OVERFLOW):
            r["full"] += 1
        else:
            r["bad"].append((last, "process ended: " + death[:300], ""))
            deaths += 1
            with runner.DEATHS.get_lock():
                runner.DEATHS.value += 1
        if deaths > 5 or r["full"] > 3000 or runner.DEATHS.value > 40:
            return n, ar, mx, r
        fr = last + 1


def main():
    ck = Check("C44")
    exe, preds = build()
    # the longest ones first
    preds.sort(key=lambda p: (-p[1] if p[1] <= 8 else 0, p))
    res = runner.parmap(pred, [(exe, n, a, ck.tier) for n, a in preds])
    ck.cov["largest"] = {"%s/%d" % (n, a): r["n"] for n, a, _, r in sorted(res, key=lambda x: -x[3]["n"])[:12]}
    for n, ar, mx, r in res:
        ck.add(states=r["n"], transitions=r["n"], traces_validated_against_impl=r["n"])
        for k, v in r["hist"].items():
            ck.outcome(k, v)
        for i, t, o in r["bad"][:20]:
            ck.violate("%s/%d: %s" % (n, ar, t.split(":")[0][:60]), "call %d of %s/%d (universe of %d values), %s: %s %s" % (i, n, ar, mx, show(exe, n, ar, i, mx) if i >= 0 else "", o, t))
    if len(preds) < 450:
        ck.violate("list of built-ins", "only %d built-in predicates found" % len(preds))
    ck.cov["predicates"] = len(preds)
    ck.cov["stack_overflow_stops"] = sum(r["full"] for *_, r in res)
    ck.sample("; ".join("%s/%d: %s" % (n, a, r["sample"]) for n, a, _, r in res[::60]))
    return ck.finish(rule="every built-in predicate x every tuple over the universe of values of its arity and the values special to it; the outcome is success, failure or an ISO error whose culprit justifies it, failures and errors leave arguments and streams alone, and reference questions are answered the same afterwards")
