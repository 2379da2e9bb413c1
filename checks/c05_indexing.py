"""C05: clause selection = textual order filtered by head unification, whatever the indexing."""
import itertools
from vlib.report import Check
from vlib.cases import run_cases, server_exe, BASE_OPTS
from vlib import cases as C
from vlib.refpl import parse, Machine, fmt, st, V, S
from vlib.build import get_build, WORK
from vlib.runner import parmap, Server
import os
import shutil
import tempfile

HEADS = ["_", "a", "b", "1", "2", "[]", "[_|_]", "f(_)", "f(_,_)", "1.5"]
HEADS2 = ["_", "a", "1", "[x|_]", "[]", "f(a)", "g(_)", "-1"]
CALLS = ["_", "a", "b", "c", "1", "2", "3", "-1", "[]", "[x]", "[y|_]", "f(a)", "f(b)", "f(a,b)", "g(1)", "g(1,2)",
         "1.5", "2.5", "'[]'", "1152921504606846975", "f", "'.'"]


def unif(h, c):
    m = Machine()
    return m.unify(parse(h)[0], parse(c)[0])


_tab = {}


def matches(h, c):
    k = (h, c)
    if k not in _tab:
        _tab[k] = unif(h, c)
    return _tab[k]


def expected(heads, call):
    return "\t".join(["=%d" % i for i, h in enumerate(heads) if matches(h, call)] + ["no"])


def shard(arg):
    """one shard of predicate definitions in one mode"""
    mode, preds, calls, tier = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    try:
        src, dyn, cases, exp = [], [], [], []
        for k, heads in enumerate(preds):
            n = len(heads)
            if mode in ("native", "consult", "dynamic"):
                if mode == "dynamic":
                    src.append(":- dynamic(p%d/2).\n" % k)
                src += ["p%d(%s,%d).\n" % (k, h, i) for i, h in enumerate(heads)]
            elif mode == "assertz":
                dyn += ["d(assertz(p%d(%s,%d))).\n" % (k, h, i) for i, h in enumerate(heads)]
            elif mode == "asserta":
                dyn += ["d(asserta(p%d(%s,%d))).\n" % (k, heads[i], i) for i in reversed(range(n))]
            elif mode == "mixed":
                # the middle clause first, then outwards: a and z in turn
                order = [n // 2]
                lo, hi = n // 2 - 1, n // 2 + 1
                while lo >= 0 or hi < n:
                    if lo >= 0:
                        order.append(lo)
                        lo -= 1
                    if hi < n:
                        order.append(hi)
                        hi += 1
                for j, i in enumerate(order):
                    op = "asserta" if i < n // 2 else "assertz"
                    dyn.append("d(%s(p%d(%s,%d))).\n" % (op, k, heads[i], i))
            for c in calls:
                e = expected(heads, c)
                # called through a fresh variable chain and directly
                cases.append((5000, "N", "(X= %s,p%d(X,N))" % (c, k)))
                exp.append(e)
        f = os.path.join(d, "p.pl")
        open(f, "w").write("".join(src) or "dummy.\n")
        exe = os.path.join(d, "exe")
        prelude = "".join(dyn)
        if mode in ("native", "dynamic"):
            b.gplc(exe, C.SRV, f, opts=BASE_OPTS)
        else:
            b.gplc(exe, C.SRV, opts=BASE_OPTS)
            if mode == "consult":
                prelude = "d(consult('%s')).\n" % f
        got = Server(exe, b.env(), prelude, cwd=d).run(cases)
        mism = []
        for j, (e, g) in enumerate(zip(exp, got)):
            if e != g:
                heads = preds[j // len(calls)]
                mism.append(("%s %s call %s" % (mode, heads if len(heads) < 9 else "%d clauses" % len(heads), calls[j % len(calls)]),
                             "mode %s, %s\nexpected: %s\ngot:      %s\nclauses p(Arg,N), first args: %s"
                             % (mode, cases[j][2], C.short(e, 200), C.short(g, 200), heads)))
        return len(preds), len(cases), sum(e.count("\t") + 1 for e in exp), mism
    finally:
        shutil.rmtree(d, ignore_errors=True)


def big_preds(tier):
    """switch tables and dynamic hash tables beyond their initial sizes"""
    out = []
    sizes = (5, 9, 17, 33, 65, 130) if tier == "quick" else (5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 260, 520)
    kinds = {
        "atom": lambda i: "k%d" % i,
        "int": lambda i: str(i * 7 - 50),
        "sint": lambda i: str(i << 34),
        "stc": lambda i: "s%d(_)" % i,
        "ar": lambda i: "s(%s)" % ",".join("_" * (i + 1)),
        "dup": lambda i: "k%d" % (i % 3),
        "mix": lambda i: ["k%d" % i, str(i), "s%d(_)" % i, "[_|_]", "%d.5" % i][i % 5],
    }
    for n in sizes:
        for kn, kf in kinds.items():
            if kn == "ar" and n > 65:
                continue
            base = [kf(i) for i in range(n)]
            out.append(base)
            for pos in sorted({0, 1, n // 2, n - 1, n}):
                out.append(base[:pos] + ["_"] + base[pos:])
            out.append(base + base)
    return out


def main():
    ck = Check("C05")
    get_build()
    jobs = []
    k = ck.pick(3, 4)
    preds = [h for n in range(1, k + 1) for h in itertools.product(HEADS, repeat=n)]
    preds += [h for h in itertools.product(HEADS2, repeat=ck.pick(3, 5))]
    preds += [h for h in itertools.product(["_", "a", "1", "[_|_]", "f(_)"], repeat=ck.pick(4, 6))]
    calls = CALLS[:-4] if not ck.thorough else CALLS
    nsh = ck.pick(8, 32)
    for mode in ("native", "consult", "assertz", "asserta", "mixed", "dynamic"):
        for i in range(nsh):
            jobs.append((mode, preds[i::nsh], calls, ck.tier))
    big = big_preds(ck.tier)
    for mode in ("native", "consult", "assertz", "mixed"):
        for i in range(8):
            # the calls depend on the keys: all keys of the family
            ks = sorted({h for hs in big[i::8] for h in hs})
            ks = ["_", "zz", "7777", "nn(1)", "[a]"] + ks
            jobs.append((mode, big[i::8], ks if len(ks) < 400 else ks[:5] + ks[5::len(ks) // 300], ck.tier))
    for np, nc, tr, mism in parmap(shard, jobs):
        ck.add(states=np, traces_validated_against_impl=nc, transitions=tr)
        for key, t in mism[:20]:
            ck.violate(key, t)
    ck.sample("p(%s)" % list(preds[len(preds) // 2]))
    ck.assumptions = ["a case = one call of one predicate; all calls of the alphabet on every predicate"]
    return ck.finish(rule="every sequence of first arguments over the alphabet up to the bound, plus table-size families; "
                          "5 ways of defining the predicate; every call argument of the alphabet")
