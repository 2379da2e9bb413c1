"""C03: control constructs mean the same, and the standard thing, in every execution mode."""
from vlib.report import Check
from vlib.goals import Ref
from vlib.progs import run_units
from vlib.ctl import DECL, Job, bodies, run_modes

SHARED = """
m(1). m(2).
n(1). n(2).
q(1) :- !. q(2).
r(X) :- m(X), tr(r), n(X), !.
"""
NOOPT = ("--no-inline", "--no-reorder", "--no-reg-opt", "--no-opt-last-subterm")


def closures(i, n, tier):
    """call/N: every split of the arguments between the closure and the call, for each kind of predicate"""
    k = 0
    hi = 5 if tier == "quick" else 9
    for c in range(0, hi + 1):
        for r in range(0, min(hi + 1, 11)):
            for kind in ("p", "c", "u", "t"):
                k += 1
                if k % n != i:
                    continue
                ar = c + r
                nm = "@@%s" % kind if kind != "u" else "und"
                hd = lambda f, a: f + ("(%s)" % ",".join(a) if a else "")
                vs = ["V%d" % j for j in range(ar)]
                cl = []
                if kind == "p":                 # two solutions, last argument takes the alternative
                    cl = [hd(nm, vs[:-1] + (["z"] if vs else [])), hd(nm, vs)]
                elif kind == "c":               # cuts, local to it
                    cl = [hd(nm, vs) + ":- !", hd(nm, vs)]
                elif kind == "t":               # throws what it was given
                    cl = [hd(nm, vs) + ":- throw(%s)" % hd("b", vs)]
                cargs = ["a%d" % j if j % 3 else "X%d" % j for j in range(c)]
                rargs = ["b%d" % j if j % 2 else "Y%d" % j for j in range(r)]
                clos = hd(nm, cargs)
                t = "t(%s)" % ",".join([x for x in cargs + rargs if x[0] in "XY"] + ["k"])
                full = hd("call", [clos] + rargs)
                vv = [x for x in cargs + rargs if x[0] in "XY"]
                cl += ["@@go(%s):- %s" % (t, full), "@@gv(C,%s):- C=%s,%s" % (t, clos, hd("call", ["C"] + rargs)),
                       "@@gc(%s):- (%s;true),!" % (t, full)]
                if 1 <= r:
                    cl.append("@@gn(%s):- call(%s)" % (t, ",".join([hd("call", [clos] + rargs[:-1])] + rargs[-1:])))
                else:
                    cl.append("@@gn(%s):- call(call(%s))" % (t, full))
                goals = ["@@go(R)", "@@gv(_,R)", "@@gc(R)", "@@gn(R)"]
                ref = Ref("".join(x.replace("@@", "p_") + ".\n" for x in cl))
                out = []
                for g in goals:
                    if kind == "u":
                        g = "catch(%s,error(E,_),R=E)" % g
                    e = ref("R", g.replace("@@", "p_"))
                    if e is not None:
                        out.append((5, "R", g, e))
                yield "call/N %s %d %d" % (kind, c, r), cl, out


def main():
    ck = Check("C03")
    job = Job(SHARED)
    bins = [",", ";", "->", "*->"]
    un = ["\\+(%s)", "call(%s)", "once(%s)"]
    all_modes = [("native", ()), ("native", NOOPT), ("consult", ()), ("assert", ()), ("call", ())] + [(m, ()) for m in DECL]
    # A: full leaf alphabet
    la = ["!", "m(X)", "n(Y)", "X=1", "Y==2", "fail", "true", "tr(a)"]
    b = [x for k in (1, 2, 3) for x in bodies(la, bins, un, k)]
    run_modes(ck, job, "A", b, all_modes)
    # B: longer bodies over fewer leaves
    lb = ["!", "m(X)", "fail"] if not ck.thorough else ["!", "m(X)", "fail", "n(Y)"]
    run_modes(ck, job, "B", bodies(lb, bins, [], 4), [("native", ()), ("consult", ()), ("assert", ()), ("dynamic", ())])
    run_modes(ck, job, "B'", bodies(["!", "m(X)"], bins, ["\\+(%s)"], 4), all_modes)
    # C: goals in variables, cuts hidden in calls
    lc = ["Z=(!)", "Z", "Z=m(X)", "q(X)", "r(Y)", "tr(c)", "X=2"]
    b = [x for k in (1, 2, 3) for x in bodies(lc, [",", ";", "->"], ["call(%s)"], k)]
    run_modes(ck, Job(SHARED, head_vars=("X", "Y", "Z")), "C", b, all_modes)
    run_units(ck, "call/N", closures, [("native", ()), ("consult", ()), ("assert", ()), ("dynamic", ())], 8)
    if ck.thorough:
        run_modes(ck, job, "D", bodies(["!", "m(X)", "tr(a)"], [",", ";", "->"], ["\\+(%s)"], 4), all_modes)
        run_modes(ck, job, "E", bodies(["!", "m(X)"], bins, [], 5), [("native", ()), ("consult", ())])
    ck.assumptions = ["bodies up to the stated number of leaves/unary nodes; two facts for each generator"]
    return ck.finish(rule="every clause body of the grammar up to the bound, in each execution mode, "
                          "compared solution by solution (and side effect by side effect) with the reference interpreter")
