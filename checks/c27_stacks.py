"""C27: running out of a stack is reported, never a corruption.

Programs exercising every part of the system which grows a stack x every stack x every size from one page to what the
program needs and beyond (every size is another overflow point) and, at chosen sizes, every offset of the stacks to the
page (by words): each run gives the program's answer or the one message naming the limited stack; once it fits it fits
in anything larger."""
import os
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib.build import get_build, WORK
from vlib.report import Check
from vlib.runner import die_with_parent

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c27")
VARS = ("TRAILSZ", "CSTRSZ", "GLOBALSZ", "LOCALSZ")
PAD = {"TRAILSZ": "t", "CSTRSZ": "c", "GLOBALSZ": "g", "LOCALSZ": "l"}

# program: (size, answer) or several
P = dict(
    nlist=(4000, 8002000), length=(4000, 4000), functor=(250, 250), nest=(2000, 2000), copy=(250, 250),
    copyl=(2000, 2001000), findall=(3000, 4501500), findallf=(1000, 1000), codes=(3000, 3000), chars=(3000, 3000),
    univ=(250, 250), univ2=(250, 251), read=(1500, 1501), gvar=(2000, 2001000), clause=(1500, 1125750),
    retract=(1500, 1125750), sort=(2000, 2001000), keysort=(1000, 1000), bagof=(2000, 2001000), setof=(500, 500),
    append=(2000, 2000), format=(3000, 3000), wrt=(3000, 3000), throw=(2000, 2001000), float=(3000, "4500.0"),
    vars=(250, 250), subst=(3000, 3000), number=(1000, "err"), setarg=(250, 250), maplist=(3000, 6000),
    between=(100, 100), rec=(2000, 2000), wide20=(200, 200), wide200=(40, 40), wide500=(40, 40), wide700=(30, 30),
    wide2000=(20, 20), cp0=(1000, 1000), cp8=(500, 500), dyn=(2000, 2000), catch=(400, "z"), metacall=(400, 400),
    dfindall=(200, 200), select=(60, 1830), trail=(4000, 4000), gassignb=(1000, 1), fdvars=(500, 500),
    fdsparse=(300, 300), fdchain=(200, 9), fdeq=(200, 7), fdneq=(200, 200), fdlab=(60, 30), fdback=(200, 200),
    fdvec=(60, 60), fdvtr=(30, 30), fdvset=(30, 30), assert_=(1500, 1125750), not_=(400, 400),
    atomcat=(200, 200), subatom=(260, 10), phrase=(1000, 1000), call8=(1000, 1000), ite=(500, 500), print=(1000, 3894),
    unify=(2000, 2000), unifyb=(1500, 4500), clauses=(1000, 500500), retry=(400, 400), assoc=(1000, 1000),
    fdsum=(12, 9), fdreif=(100, 5), fdelem=(100, 100), fddiff=(12, 78), exc=(400, 400), number2=(800, 800),
    perm=(800, 320400), delnth=(3000, 3000), keybag=(200, 40))


def wide(n):
    """an environment of n permanent variables"""
    vs = ["V%d" % i for i in range(n)]
    return "wide%d(0, S) :- !, S = 0.\nwide%d(K, S) :- mk(a,X0), K1 is K-1, %s, wide%d(K1, S1), sum([%s]), X0 = a, S is S1+1.\n" % (
        n, n, ", ".join("mk(%d,%s)" % (i, v) for i, v in enumerate(vs)), n, ",".join(vs))


def program():
    s = open(os.path.join(D, "progs.pl")).read()
    ws = (20, 200, 500, 700, 2000)
    t = "".join(wide(n) for n in ws)
    s = s.replace("%%WIDE%%", t)
    s = s.replace("pad(g, N) :- N > 255", "p(wide2000, N, R) :- wide2000(N, R).\n\npad(g, N) :- N > 255", 1) if "p(wide2000" not in s else s
    for a in range(255):
        h = "pc" + ("(" + ",".join("_" * a) + ")" if a else "")
        s += "%s.\n%s.\n" % (h, h)
    return s


def sweep(x, sw, jobs, fixed=0):
    """jobs: lists of lines; the outcome of each line"""
    n = 24
    parts = [jobs[i::n] for i in range(n)]

    def one(part):
        if not part:
            return []
        try:
            p = subprocess.run([sw, x, str(fixed)], input="".join(" ".join(str(v) for v in j) + "\n" for j in part), stdout=subprocess.PIPE, text=True, errors="replace",
                               timeout=700, preexec_fn=die_with_parent)
            return p.stdout.split("\n")[:-1]
        except subprocess.TimeoutExpired:
            return ["HANG"] * len(part)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, parts))
    out = [None] * len(jobs)
    for i in range(n):
        for k, r in enumerate(rs[i]):
            if i + k * n < len(jobs):
                out[i + k * n] = r
    return out


def name(p):
    return p.rstrip("_")


def main():
    ck = Check("C27")
    b = get_build()
    quick = ck.tier == "quick"
    tmp = tempfile.mkdtemp(prefix="tmp-c27-", dir=WORK)
    try:
        src = os.path.join(tmp, "progs.pl")
        open(src, "w").write(program())
        sw = os.path.join(tmp, "sweep")
        subprocess.run(["gcc", "-O1", "-w", "-o", sw, os.path.join(D, "sweep.c")], check=True)
        x = os.path.join(tmp, "progs")
        r = b.gplc(x, src)
        if not os.path.exists(x):
            ck.violate("build", str(r)[-2000:])
            return ck.finish(rule="-")
        sizes = list(range(4, 132, 4)) + list(range(132, 260, 8 if quick else 4)) + list(range(260, 1100, 48 if quick else 12)) + [2000, 5000]
        odd = [5, 6, 7, 9, 33, 34, 35]
        got = {}

        def explore(jobs):
            for j, r in zip(jobs, sweep(x, sw, jobs)):
                got[j[0], j[4], j[5]] = r
                ck.outcome("%s %s" % (j[0], (r or "")[:3]))
                if r not in ("ok", "ovf"):
                    ck.violate("size %s %s" % (j[0], j[4]), "%s\n%s" % (j, r))
            ck.add(states=len(jobs), transitions=len(jobs), traces_validated_against_impl=len(jobs))
        explore([(name(p), n, "n", 0, v, s, e) for p, (n, e) in P.items() for v in VARS for s in (4, 8, 64, 5000)])
        # in quick a stack of which a page or two are enough is not explored further
        explore([(name(p), n, "n", 0, v, s, e) for p, (n, e) in P.items() for v in VARS for s in sizes + odd
                 if (name(p), v, s) not in got and not (quick and got[name(p), v, 8] == "ok")])
        fit = {}
        for p in P:
            for v in VARS:
                ok = [s for s in sorted(sizes + odd) if got.get((name(p), v, s)) == "ok"]
                if 5000 not in ok:
                    ck.violate("fits %s %s" % (p, v), "no answer with %s=5000: %s" % (v, got.get((name(p), v, 5000))))
                    continue
                f = fit[p, v] = ok[0]
                bad = [s for s in sizes + odd if s >= f and got.get((name(p), v, s), "ok") != "ok"]
                if bad:
                    ck.violate("monotone %s %s" % (p, v), "fits in %d Kb and not in %s" % (f, bad))
        # every offset (by words) at sizes where it nearly fits, half fits, and the next ones
        jobs = []
        for (p, v), f in fit.items():
            n, e = P[p]
            few = f <= 8 and v != "GLOBALSZ"
            if few:
                ss = [4]
            else:
                ss = sorted({max(4, f - 4), f} | (set() if quick else {max(4, f // 8 * 4), f + 4}))
            pads = [PAD[v]] if quick else sorted({PAD[v], "g"})
            for s in ss:
                for pad in pads:
                    for k in range(0, 504 if pad == "l" else 512 if pad == "g" else 128 if pad == "t" else 40, (41 if few else 5) if quick else 1):
                        jobs.append((name(p), n, pad, k + (len(jobs) % 5 if quick and k else 0), v, s, e))
        res = sweep(x, sw, jobs)
        ck.add(states=len(jobs), transitions=len(jobs), traces_validated_against_impl=len(jobs))
        for j, r in zip(jobs, res):
            if r not in ("ok", "ovf"):
                ck.violate("offset %s %s" % (j[0], j[4]), "%s\n%s" % (j, r))
        # sizes fixed at compile time
        for v, opt in (("TRAILSZ", "--trail-size"), ("CSTRSZ", "--cstr-size"), ("GLOBALSZ", "--global-size"), ("LOCALSZ", "--local-size")):
            for s in (12, 100):
                for fx in (0, 1):
                    y = os.path.join(tmp, "f")
                    b.gplc(y, src, opts=("--no-top-level", "--no-susp-warn", "--no-singl-warn", opt, str(s)) + (("--fixed-sizes",) if fx else ()))
                    need = 4 * ((s + 3) // 4)
                    jobs, wants = [], []
                    for p in P:
                        if (p, v) not in fit:
                            continue
                        want = "ok" if need >= fit[p, v] else "ovf"
                        n, e = P[p]
                        for q in (4, 5000) if fx else (8, 5000, 0):     # the variable is ignored / overrides / absent
                            jobs.append((name(p), n, "n", 0, v if q else "XX", q or need, e))
                            wants.append(want if fx or not q else got[name(p), v, q])
                    rs = sweep(y, sw, jobs, fixed=need if fx else 0)
                    ck.add(states=len(jobs), transitions=len(jobs), traces_validated_against_impl=len(jobs))
                    for j, r, w in zip(jobs, rs, wants):
                        if j[4] == "XX" and w == "ovf":
                            good = ("stack overflow (size: %d Kb, environment variable used: %s)" % (need, v)) in (r or "")
                        else:
                            good = r == w
                        if not good:
                            ck.violate("fixed %s %s" % (v, fx), "%s %d fixed=%d: %s\nexpected %s got %s" % (opt, s, fx, j, w, r))
                    os.unlink(y)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return ck.finish(rule="every program x stack x size; every program x stack x offset by words at the sizes around what it needs; every size option with and without fixed sizes")
