"""C25: FD domains are exact integer sets.

(a) every range operation of the solver (C level, real code) on every pair of a set universe that straddles the machine
word and vector_max, against plain sets; (b) every history of domain predicates up to a depth on a variable, the state
read after each step through every documented observer, against a set model of Intro-FD."""
import itertools
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import cases
from vlib.build import get_build, CompileError, WORK
from vlib.cases import run_cases, server_exe
from vlib.report import Check

HERE = os.path.dirname(os.path.abspath(__file__))
MAX = (1 << 28) - 1
HELP = """
dm(X, D) :- integer(X), !, fd_min(X,I), fd_max(X,A), fd_size(X,S), fd_dom(X,L0), write_to_atom(L,L0), flg(X,F), D = i(X,I,A,S,L,F).
dm(X, D) :- fd_var(X), !, fd_min(X,I), fd_max(X,A), fd_size(X,S), ( S < 140 -> fd_dom(X,L0) ; L0 = [] ), write_to_atom(L,L0), flg(X,F), tx(X,T), D = d(I,A,S,L,F,T).
dm(_, v).
flg(X, f(F,V)) :- ( fd_has_extra_cstr(X) -> F = e ; F = n ), ( fd_has_vector(X) -> V = s ; V = i ).
tx(X, T) :- write_to_atom(A, X), sub_atom(A, B, 1, _, '('), !, B1 is B+1, sub_atom(A, B1, _, 1, T).
"""


def ranges(ck):
    """part (a)"""
    b = get_build()
    d = os.path.join(b.root, "rng-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "e.pl"), "w").write("dummy :- fd_domain(_, 0, 1).\n")
    exe = os.path.join(d, "rng")
    inc = " ".join("-I" + os.path.join(b.src, x) for x in ("EnginePl", "BipsPl", "EngineFD", "BipsFD"))
    try:
        b.gplc(exe, os.path.join(HERE, "c25", "rng.c"), os.path.join(d, "e.pl"), opts=("--no-top-level", "-C", "-O2 " + inc))
    except CompileError as e:
        ck.violate("ranges", str(e))
        return
    jobs = []
    for vm, nu in ck.pick(((127, 8), (63, 7), (1023, 6)), ((127, 10), (63, 9), (1023, 9), (191, 9))):
        for s in range(16):
            jobs.append((vm, nu, s))

    def one(j):
        vm, nu, s = j
        try:
            return j, subprocess.run([exe, str(s), "16", str(vm), str(nu)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=b.env(), timeout=700)
        except subprocess.TimeoutExpired:
            return j, None
    tot = 0
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            key = "ranges vecmax=%d" % j[0]
            if r is None or r.returncode or "DONE" not in r.stdout:
                ck.violate(key, "%s: %s" % (key, "no end" if r is None else "exit %d %s" % (r.returncode, r.stdout[-500:])))
                continue
            done = r.stdout[r.stdout.index("DONE"):].split()
            tot += int(done[2].split("=")[1])
            if not done[3].startswith("bad=0"):
                bads = [l for l in r.stdout.split("\n") if l.startswith("BAD")]
                for l in bads[:20]:
                    ck.violate("ranges " + " ".join(l.split()[1:3]), l)
    ck.add(states=tot, transitions=tot, traces_validated=tot)
    ck.sample("range operations: %d executions" % tot)
    subprocess.run(["rm", "-rf", d])


def runs_of(s):
    s = sorted(s)
    out, i = [], 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        out.append("%d..%d" % (s[i], s[j]) if j > i else str(s[i]))
        i = j + 1
    return ":".join(out)


class M:
    """model of a variable: t true set (as sorted list of intervals), r represented set, sparse, ever (values were lost at some time)"""

    def __init__(self, vm):
        self.vm = vm
        self.var = True
        self.t = self.r = [(0, MAX)]
        self.sparse = self.ever = False
        self.ext = None           # what the flag must be: True/False/None unknown

    def copy(self):
        m = M(self.vm)
        m.__dict__.update(self.__dict__)
        return m


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def inter(x, y):
    return norm([(max(a, c), min(b, d)) for a, b in x for c, d in y])


def compl1(v):
    return norm([(0, v - 1), (v + 1, MAX)])


def size(x):
    return sum(b - a + 1 for a, b in x)


def step(m, kind, s):
    """kind: iv (interval s), set (sparse list s), ne (all but a value)"""
    m = m.copy()
    first, m.var = m.var, False
    ground = size(m.r) == 1
    m.t = inter(m.t, s)
    lim = [(0, m.vm)]
    if ground:
        m.r = inter(inter(m.r, s), lim) if kind == "set" else inter(m.r, s)
        return m
    if kind == "set":
        m.ever |= any(b > m.vm for a, b in s)
        m.r = inter(inter(m.r, s), lim)
        m.sparse = True
    elif kind == "vec":
        m.r = inter(m.r, lim)
        m.sparse = True
    elif m.sparse:
        m.r = inter(m.r, s)
    else:
        x = inter(m.r, s)
        if len(x) > 1:                                 # a hole: switch
            m.sparse = True
            x = inter(x, lim)
        m.r = x
    if m.r != m.t:
        m.ever = True
    return m


def expect(m, off):
    """the accepted texts of the observed term"""
    if m.var:
        return ["v"]
    if size(m.r) == 1:
        v = m.r[0][0]
        return ["i(%d,%d,%d,1,'[%d]',f(n,i))" % (v, v, v, v)]
    lo, hi, n = m.r[0][0], m.r[-1][1], size(m.r)
    lst = [x for a, b in m.r for x in range(a, b + 1)] if n < 140 else []
    fl = "e" if m.t != m.r else "n" if not m.ever or off else "en"
    tx = ":".join("%d..%d" % (a, b) if b > a else str(a) for a, b in m.r)
    return ["d(%d,%d,%d,%s,f(%s,%s),'%s%s')" % (lo, hi, n, "'[%s]'" % ",".join(map(str, lst)) if lst else "[]", f, "s" if m.sparse else "i", tx, "@" if f == "e" and m.sparse else "") for f in fl]


def alphabet(vm):
    vs = [0, 1, 2, 63, 64, vm - 1, vm, vm + 1, vm + 2, vm + 73, MAX]
    ops = []
    for v in vs:
        ops.append(("X #\\= %d" % v, "ne", compl1(v)))
        ops.append(("X #>= %d" % v, "iv", [(v, MAX)]))
        ops.append(("X #=< %d" % v, "iv", [(0, v)]))
        ops.append(("X #= %d" % v, "iv", [(v, v)]))
    for a, b in ((0, 5), (1, 64), (64, vm), (60, vm + 2), (vm, vm + 73), (vm + 1, vm + 73), (-3, 2), (3, 2), (-4, -1), (0, 1 << 40), (63, 63), (vm + 2, vm + 2)):
        ops.append(("fd_domain(X,%s,%d)" % ("(%d)" % a if a < 0 else a, b), "iv", norm([(max(a, 0), min(b, MAX))])))
    ops.append(("fd_domain_bool(X)", "iv", [(0, 1)]))
    for l in ([], [3], [1, 2], [0, 5, 63, 64], [vm - 1, vm], [64, 2, 2, 64], [vm, vm + 1], [5, vm + 2, 1], [0, 1, 2, 3, 4, 5, 62, 63, 64, 65, 66, vm - 1, vm], [-1, 4, 6], [vm + 1]):
        s = norm([(x, x) for x in l if x >= 0])
        ops.append(("fd_domain(X,[%s])" % ",".join(str(x) if x >= 0 else "(%d)" % x for x in l), "set", s))
        if len(l) != 1 and l:
            ops.append(("(fd_domain(Y,[%s]), X = Y)" % ",".join(str(x) if x >= 0 else "(%d)" % x for x in l), "set", s))
    ops.append(("(fd_domain(Y,2,64), X = Y)", "iv", [(2, 64)]))
    ops.append(("(fd_domain(Y,2,%d), Y = X)" % (vm + 9), "iv", [(2, vm + 9)]))
    ops.append(("fd_use_vector(X)", "vec", [(0, MAX)]))
    return ops


def histories(i, n, tier, vm, depth, some=0):
    ops = alphabet(vm)
    if some:
        ops = [o for o in ops if o[1] in ("set", "vec", "iv") and ("Y" in o[0] or "fd_" in o[0])] + [o for o in ops if o[1] == "ne" or "#=<" in o[0]]
        ops = [o for j, o in enumerate(ops) if j % some == 0] + [o for o in ops if o[1] == "vec"]
    k = 0
    for d in range(3 if some else 1, depth + 1):
        for h in itertools.product(range(len(ops)), repeat=d):
            k += 1
            if k % n != i:
                continue
            m = M(vm)
            goals, tmpl, exps, ok = [], [], [], True
            for j, o in enumerate(h):
                g, kind, s = ops[o]
                g = g.replace("Y", "Y%d" % j)
                if m.var and ("X = Y" in g or "Y%d = X" % j in g):
                    # a plain variable becomes that FD variable
                    ys = inter(s, [(0, MAX if kind == "iv" else vm)])
                    nm = m.copy()
                    nm.var, nm.t, nm.r, nm.sparse = False, s, ys, kind == "set"
                    nm.ever = nm.t != nm.r
                elif kind == "vec" and m.var:
                    ok = False      # error: tested apart
                    break
                else:
                    nm = step(m, kind, s)
                goals.append(g)
                if not nm.r:
                    m = nm
                    break
                off = "off" if g.startswith("X #=<") and s[0][1] <= vm and kind == "iv" else None
                goals.append("dm(X,D%d)" % j)
                tmpl.append("D%d" % j)
                exps.append(expect(nm, off))
                m = nm
            if not ok:
                continue
            if not m.r:
                exp = ("no",)
            else:
                exp = tuple("=t(" + ",".join(x) + ")\tno" for x in itertools.product(*exps))
            yield "history d=%d vm=%d" % (d, vm), 2, "t(%s)" % ",".join(tmpl or ["0"]), "(%s)" % ",".join(goals), exp


def observers(i, n, tier):
    """type tests, observers on integers, errors"""
    if i:
        return
    xs = [("X", "v"), ("5", "i"), ("0", "i"), ("(-3)", "i"), ("a", "a"), ("1.5", "a"), ("f(X)", "a"), ("[]", "a"), ("F", "f"), ("G", "f")]
    pre = "(fd_domain(F,2,6), fd_domain(G,[1,4]), %s)"
    txt = {"X": "'_G'(0)", "f(X)": "f('_G'(0))", "(-3)": "-3"}
    for x, k in xs:
        for p, ok in (("fd_var", "f"), ("non_fd_var", "via"), ("generic_var", "vf"), ("non_generic_var", "ia")):
            yield "type tests", 2, "t", pre % ("%s(%s)" % (p, x)), ("=t\tno",) if k in ok else ("no",)
        for p in ("fd_min(%s,N)", "fd_max(%s,N)", "fd_size(%s,N)", "fd_dom(%s,N)"):
            val = {"F": {"fd_min": "2", "fd_max": "6", "fd_size": "5", "fd_dom": "[2,3,4,5,6]"}, "G": {"fd_min": "1", "fd_max": "4", "fd_size": "2", "fd_dom": "[1,4]"}}
            nm = p.split("(")[0]
            if k == "v":
                e = ("!!e(instantiation_error,/(%s,2))" % nm,)
            elif k == "a":
                e = ("!!e(type_error(fd_variable,%s),/(%s,2))" % (txt.get(x, x), nm),)
            else:
                v = val.get(x, {"fd_min": txt.get(x, x), "fd_max": txt.get(x, x), "fd_size": "1", "fd_dom": "[%s]" % txt.get(x, x)})[nm]
                yield "observers", 2, "t", pre % ("%s, N == %s" % (p % x, v if v != "-3" else "(-3)")), ("=t\tno",)
                yield "observers", 2, "t", pre % (p % x).replace("N", "[77]" if nm == "fd_dom" else "77"), ("no",)
                e = None
            if e:
                yield "observers", 2, "t", "catch(%s,error(E,C),throw(e(E,C)))" % (pre % (p % x)), e
        for p in ("fd_has_extra_cstr", "fd_has_vector", "fd_use_vector"):
            if k in "va":
                e = ("!!e(%s,/(%s,1))" % ("instantiation_error" if k == "v" else "type_error(fd_variable,%s)" % txt.get(x, x), p),)
            else:
                e = ("=t\tno",) if p == "fd_use_vector" or p == "fd_has_vector" and x == "G" else ("no",)
            yield "observers", 2, "t", "catch(%s,error(E,C),throw(e(E,C)))" % (pre % ("%s(%s)" % (p, x))), e
    for g, e in (("fd_min(F,a)", "type_error(integer,a)"), ("fd_max(F,1.5)", "type_error(integer,1.5)"), ("fd_size(F,f(x))", "type_error(integer,f(x))"), ("fd_dom(F,a)", "type_error(list,a)"), ("fd_dom(F,[a|b])", "type_error(list,'.'(a,b))"),
                 ("fd_domain([X|_],1,2)", "instantiation_error"), ("fd_domain(a,1,2)", "type_error(list,a)"), ("fd_domain([F,a],1,9)", "type_error(fd_variable,a)"), ("fd_domain(X,_,2)", "instantiation_error"), ("fd_domain(X,1,_)", "instantiation_error"),
                 ("fd_domain(X,a,2)", "type_error(integer,a)"), ("fd_domain(X,1,2.0)", "type_error(integer,2.0)"), ("fd_domain([X|_],[1])", "instantiation_error"), ("fd_domain(X,[1|_])", "instantiation_error"), ("fd_domain(X,[1,_])", "instantiation_error"),
                 ("fd_domain(X,a)", "type_error(list,a)"), ("fd_domain(X,[1|a])", "type_error(list,'.'(1,a))"), ("fd_domain(X,[1,a])", "type_error(integer,a)"), ("fd_domain([X,f(y)],[1])", "type_error(fd_variable,f(y))"), ("fd_domain_bool(a)", "type_error(list,a)"),
                 ("fd_set_vector_max(_)", "instantiation_error"), ("fd_set_vector_max(a)", "type_error(integer,a)")):
        yield "errors", 2, "t", "catch(%s,error(E,_),throw(x(E)))" % (pre % g), ("!!x(%s)" % e,)
    for g in ("fd_domain([],1,2)", "fd_domain([F,X,G,3],1,5), fd_max(F,5), fd_max(X,5), fd_min(X,1), fd_max(G,4)", "fd_domain_bool([X,G]), G == 1, fd_dom(X,[0,1])", "fd_domain([X,F],[5,2,9]), fd_dom(F,[2,5]), fd_dom(X,[2,5,9])", "fd_max_integer(M), M =:= %d, fd_domain(X,0,M), fd_max(X,M)" % MAX,
              "fd_vector_max(127)", "fd_set_vector_max(200), fd_vector_max(255), fd_set_vector_max(127), fd_vector_max(127)", "(fd_max(F,6), F #< 4, fd_max(F,3), fail ; fd_dom(F,[2,3,4,5,6]))", "(G #\\= 4, G == 1, fail ; fd_dom(G,[1,4]))", "F #> 5, F == 6"):
        yield "lists", 2, "t", pre % g, ("=t\tno",)


def match(exp, got):
    return got in exp


def main():
    ck = Check("C25")
    ranges(ck)
    exe = server_exe(HELP)
    for vm, d in ck.pick(((127, 2), (63, 2)), ((127, 3), (63, 2), (1023, 2))):
        run_cases(ck, "histories vm=%d" % vm, exe, lambda i, n, t, vm=vm, d=d: histories(i, n, t, vm, d), 16, match=match, env={"VECTORMAX": vm})
    for vm in (127, 63):
        run_cases(ck, "three steps vm=%d" % vm, exe, lambda i, n, t, vm=vm: histories(i, n, t, vm, 3, 3 if vm == 63 else 2), 16, match=match, env={"VECTORMAX": vm})
    run_cases(ck, "observers, errors", exe, observers, 1, match=match)
    ck.assumptions = ["values up to fd_max_integer as interval bounds; sparse sets over up to ten boundary values of the vector words",
                      "extra_cstr has to be on when values are lost and off when none ever was; between (values lost and excluded later) it may be either except after X #=< v with v in the vector"]
    return ck.finish(rule="(a) every range operation x every pair of sets; (b) every history of domain goals up to the depth with the full observation after each step")


if __name__ == "__main__":
    main()
