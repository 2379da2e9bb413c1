"""C26: fd_labeling enumerates every solution once, in an order its heuristics allow; fd_minimize/fd_maximize are optimal.

The order is judged by a nondeterministic model: at every node of the search tree any variable the documented heuristic
may select (ties are left to the system unless the manual settles them), then its values in an order the value heuristic allows."""
import itertools
from vlib import fd
from vlib.cases import run_cases, server_exe
from vlib.report import Check

VARM = ("standard", "first_fail", "ff", "most_constrained", "smallest", "largest", "max_regret", "random")
VALM = ("min", "max", "middle", "bounds", "random", "bisect")
NM = ["X", "Y", "Z", "T"]
HELP = "d([],[]).\nd([X|L],[D|M]) :- ( D = A-B -> fd_domain(X,A,B) ; fd_domain(X,D) ), d(L,M).\n"


def values_ok(dom, seq, meth):
    """may a value heuristic try the values of dom in this order"""
    dom, s = sorted(dom), list(seq)
    if sorted(s) != dom:
        return False
    if meth in ("min", "bisect"):
        return s == dom
    if meth == "max":
        return s == dom[::-1]
    if meth == "bounds":
        rest = dom[:]
        for v in s:
            if v not in (rest[0], rest[-1]):
                return False
            rest.remove(v)
        return True
    if meth == "middle":
        ix = [dom.index(v) for v in s]
        if ix[0] not in ((len(dom) - 1) // 2, len(dom) // 2, max(0, len(dom) // 2 - 1)):
            return False
        return all(max(ix[:k]) - min(ix[:k]) == k - 1 for k in range(1, len(ix) + 1))
    return True


def picks(names, doms, deg, meth, reorder):
    """the variables (names in list order, all with several values) the heuristic may select"""
    if meth == "standard":
        return names[:1]
    if meth == "random":
        return names
    key = {"first_fail": lambda x: (len(doms[x]),), "ff": lambda x: (len(doms[x]),), "most_constrained": lambda x: (len(doms[x]), -deg[x]), "smallest": lambda x: (min(doms[x]), -deg[x]),
           "largest": lambda x: (-max(doms[x]), -deg[x]), "max_regret": lambda x: (-(sorted(doms[x])[1] - sorted(doms[x])[0]), -deg[x])}[meth]
    best = min(map(key, names))
    l = [x for x in names if key(x) == best]
    if meth in ("first_fail", "ff") and not reorder:
        return l[:1]
    return l


def consistent(seq, order, idx, doms, deg, ne, o):
    """is seq (tuples over order) an enumeration the options allow; ne: disequalities"""
    live = [x for x in order if len(doms[x]) > 1]
    live = list(dict.fromkeys(live))
    if not live:
        return len(seq) == 1 and all(seq[0][idx[x]] == min(doms[x]) for x in order)
    for v in picks(live, doms, deg, o[0], o[2]):
        blocks = []
        for k, g in itertools.groupby(seq, key=lambda t: t[idx[v]]):
            blocks.append((k, list(g)))
        vals = [k for k, _ in blocks]
        # values without a solution below are tried and left out of the sequence
        subs, dead = {}, set()
        for a in doms[v]:
            d = assign(doms, v, a, ne)
            if d is None or not sols(d, ne, order):
                dead.add(a)
            else:
                subs[a] = d
        if len(set(vals)) != len(vals) or set(vals) != set(subs):
            continue
        if not any(values_ok(doms[v], p, o[1]) for p in extend(vals, sorted(dead))):
            continue
        if all(consistent(b, order, idx, subs[k], deg, ne, o) for k, b in blocks):
            return True
    return False


def extend(vals, dead):
    if not dead:
        yield vals
        return
    for p in itertools.permutations(vals + dead):
        it = iter(p)
        if [x for x in p if x not in dead] == vals:
            yield list(p)


def assign(doms, v, a, ne):
    d = dict(doms)
    d[v] = (a,)
    todo = [v]
    while todo:
        x = todo.pop()
        for p, q in ne:
            for s, t in ((p, q), (q, p)):
                if s == x and d[x][0] in d[t]:
                    r = tuple(c for c in d[t] if c != d[x][0])
                    if not r:
                        return None
                    d[t] = r
                    if len(r) == 1:
                        todo.append(t)
    return d


def sols(d, ne, order):
    ns = sorted(set(order))
    return any(all(dict(zip(ns, t))[p] != dict(zip(ns, t))[q] for p, q in ne if p in ns and q in ns) for t in itertools.product(*(d[x] for x in ns)))


class Order:
    def __init__(self, order, names, doms, ne, o):
        self.a = (order, {x: j for j, x in enumerate(names)}, doms, {x: sum(x in e for e in ne) for x in names}, ne, o)

    def ok(self, got):
        it = got.split("\t")
        if it[-1] != "no" or any(not x.startswith("=t(") for x in it[:-1]):
            return False
        seq = [tuple(int(c) for c in x[3:-1].split(",")) for x in it[:-1]]
        order, idx, doms, deg, ne, o = self.a
        d = dict(doms)
        for x in doms:
            if len(d[x]) == 1:
                d = assign(d, x, d[x][0], ne)
                if d is None:
                    return not seq
        if not seq:
            return not sols(d, ne, order)
        return consistent(seq, order, idx, d, deg, ne, o)

    def __str__(self):
        return "an order allowed for %s" % (self.a,)


class OneOf:
    def __init__(self, *l):
        self.l = l

    def ok(self, got):
        return got in self.l

    def __str__(self):
        return " or ".join(self.l)


class SetOf:
    """every solution once, any order"""

    def __init__(self, l, first=None):
        self.l, self.first = sorted(l), first

    def ok(self, got):
        it = got.split("\t")
        return it[-1] == "no" and sorted(it[:-1]) == self.l and (self.first is None or not self.l or it[0] == self.first)

    def __str__(self):
        return "the set %s" % self.l


def match(exp, got):
    return exp.ok(got) if hasattr(exp, "ok") else exp == got


def dtext(d):
    return "%d-%d" % (d[0], d[-1]) if d == tuple(range(d[0], d[-1] + 1)) else "[%s]" % ",".join(map(str, d))


def opts():
    for a in VARM:
        for b in VALM:
            for r in (True, False):
                yield a, b, r


def otext(o):
    return "[variable_method(%s),value_method(%s),reorder(%s)]" % (o[0], o[1], "true" if o[2] else "false")


DOMS = [(0,), (0, 1), (2, 3), (0, 1, 2), (1, 2, 3, 4), (0, 3), (1, 5, 6), (0, 2, 5, 9), (3, 4, 5, 6, 7), (0, 1, 2, 3, 4, 5), (1, 64, 100)]


def one(i, n, tier):
    k = 0
    for d in DOMS + [(7, 8, 9, 10, 11, 12, 13), (0, 2, 4, 6, 8, 10, 12)]:
        for o in opts():
            for l in ("X", "[X]", "[5,X]", "[X,X]"):
                k += 1
                if k % n == i:
                    yield "one variable", 20, "t(X)", "(d([X],[%s]),fd_labeling(%s,%s))" % (dtext(d), l, otext(o)), Order(["X"], ["X"], {"X": d}, [], ("standard",) + o[1:] if l == "X" else o)


def several(i, n, tier):
    k = 0
    small = [(0,), (0, 1), (2, 3), (0, 1, 2), (0, 3), (1, 5, 6), (0, 2, 5, 9), (1, 2, 3, 4)]
    for m, ds in ((2, DOMS), (3, small if tier == "quick" else DOMS)):
        for doms in itertools.product(ds, repeat=m):
            tot = 1
            for d in doms:
                tot *= len(d)
            if tot > 60:
                continue
            for o in opts():
                if m == 3 and tier == "quick" and o[1] in ("random", "bisect", "max") and o[0] not in ("ff", "max_regret"):
                    continue
                k += 1
                if k % n == i:
                    ns = NM[:m]
                    l = ns if k % 5 else ns[::-1] + ns[:1]
                    yield "%d variables" % m, 100, "t(%s)" % ",".join(ns), "(d([%s],[%s]),fd_labeling([%s],%s))" % (",".join(ns), ",".join(map(dtext, doms)), ",".join(l), otext(o)), Order(l, ns, dict(zip(ns, doms)), [], o)


def diseq(i, n, tier):
    """forward checking is exact on disequalities, so the heuristics can be followed; degrees break the ties"""
    k = 0
    ns = NM[:3]
    pairs = [("X", "Y"), ("Y", "Z"), ("X", "Z")]
    ds = [(0, 1), (0, 1, 2), (1, 2, 3), (0, 2, 5)]
    for m in range(1, 4):
        for ne in itertools.combinations(pairs, m):
            for doms in itertools.product(ds, repeat=3):
                for o in opts():
                    if o[1] in ("random", "bisect", "middle") and tier == "quick" and o[0] != "ff":
                        continue
                    k += 1
                    if k % n == i:
                        yield "disequalities", 100, "t(X,Y,Z)", "(d([X,Y,Z],[%s]),%s,fd_labeling([X,Y,Z],%s))" % (",".join(map(dtext, doms)), ",".join("%s #\\= %s" % e for e in ne), otext(o)), Order(ns, ns, dict(zip(ns, doms)), list(ne), o)


PROBS = ["X #< Y", "X + Y #= Z", "X * Y #= Z", "fd_all_different([X,Y,Z])", "X + Y + Z #= 6, X #=< Y", "X #= Y", "fd_element(X,[2,0,3,1],Y)", "X #\\= Y #<=> Z", "2*X + 3*Y #>= 10, Z #= X", "X #= 3 #\\/ Y #= 1", "X #> 9", "fd_atmost(1,[X,Y,Z],2), Y #>= X", "X ** 2 #= Y", "X #\\= 2, Y #\\= X + 1, Z #> 2", "fd_relation([[0,1,2],[2,2,2],[3,1,0]],[X,Y,Z])", "X - Y #= Z", "dist(X,Y) #= Z", "X rem 2 #= 1, Y // 2 #= Z"]


def brute(p):
    """the solutions of a problem over 0..3, by Python"""
    f = {"X #< Y": lambda x, y, z: x < y, "X + Y #= Z": lambda x, y, z: x + y == z, "X * Y #= Z": lambda x, y, z: x * y == z, "fd_all_different([X,Y,Z])": lambda x, y, z: len({x, y, z}) == 3,
         "X + Y + Z #= 6, X #=< Y": lambda x, y, z: x + y + z == 6 and x <= y, "X #= Y": lambda x, y, z: x == y, "fd_element(X,[2,0,3,1],Y)": lambda x, y, z: x >= 1 and [2, 0, 3, 1][x - 1] == y,
         "X #\\= Y #<=> Z": lambda x, y, z: z == (x != y), "2*X + 3*Y #>= 10, Z #= X": lambda x, y, z: 2 * x + 3 * y >= 10 and z == x, "X #= 3 #\\/ Y #= 1": lambda x, y, z: x == 3 or y == 1, "X #> 9": lambda x, y, z: False,
         "fd_atmost(1,[X,Y,Z],2), Y #>= X": lambda x, y, z: (x, y, z).count(2) <= 1 and y >= x, "X ** 2 #= Y": lambda x, y, z: x * x == y, "X #\\= 2, Y #\\= X + 1, Z #> 2": lambda x, y, z: x != 2 and y != x + 1 and z > 2,
         "fd_relation([[0,1,2],[2,2,2],[3,1,0]],[X,Y,Z])": lambda x, y, z: (x, y, z) in [(0, 1, 2), (2, 2, 2), (3, 1, 0)], "X - Y #= Z": lambda x, y, z: x - y == z, "dist(X,Y) #= Z": lambda x, y, z: abs(x - y) == z,
         "X rem 2 #= 1, Y // 2 #= Z": lambda x, y, z: x % 2 == 1 and y // 2 == z}[p]
    return [t for t in itertools.product(range(4), repeat=3) if f(*t)]


def problems(i, n, tier):
    k = 0
    for p in PROBS:
        s = brute(p)
        for o in opts():
            for late in (False, True):
                for l in ([0, 1, 2], [2, 0, 1]):
                    k += 1
                    if k % n != i:
                        continue
                    lab = "fd_labeling([%s],%s)" % (",".join(NM[j] for j in l), otext(o))
                    dom = "fd_domain([X,Y,Z],0,3)"
                    if late and "<=>" in p:     # a reified constraint wants a boolean, and raises a type_error for Z = 2
                        dom = "fd_domain([X,Y],0,3),fd_domain(Z,0,1)"
                    g = "(%s,%s)" % (dom, "%s,%s" % ((lab, p) if late else (p, lab)))
                    it = ["=t(%d,%d,%d)" % t for t in s]
                    if o[0] == "standard" and o[1] in ("min", "bisect", "max"):
                        q = sorted(s, key=lambda t: [t[j] for j in l], reverse=o[1] == "max")
                        e = "\t".join(["=t(%d,%d,%d)" % t for t in q] + ["no"])
                    else:
                        e = SetOf(it)
                    yield "problems", 100, "t(X,Y,Z)", g, e


def options(i, n, tier):
    if i:
        return
    d = "fd_domain([X,Y],0,2)"
    full = lambda key: "\t".join(["=t(%d,%d)" % t for t in sorted(itertools.product(range(3), repeat=2), key=key)] + ["no"])
    for g in ("fd_labeling([X,Y])", "fd_labeling([X,Y],[])", "fd_labelingff([X,Y])", "fd_labeling([X,Y],[value_method(max),value_method(min)])", "fd_labeling([X,Y],[reorder(false)])", "fd_labeling([X,4,Y])", "fd_labeling([]),fd_labeling(X),fd_labeling(Y)",
              "fd_labeling(3),fd_labelingff(X),fd_labeling([Y])", "fd_labeling([X,Y],[variable_method(largest),variable_method(standard)])", "fd_labeling(X,[value_method(min)]),fd_labeling(Y,[variable_method(ff)])"):
        yield "options", 20, "t(X,Y)", "(%s,%s)" % (d, g), full(lambda t: t)
    for g in ("fd_labeling([Y,X],[value_method(min)])",):
        yield "options", 20, "t(X,Y)", "(%s,%s)" % (d, g), full(lambda t: t[::-1])
    yield "options", 20, "t(X,Y)", "(%s,fd_labeling([X,Y],[value_method(min),value_method(max)]))" % d, full(lambda t: (-t[0], -t[1]))
    for a in VARM:
        for b in VALM:
            yield "backtracks", 1, "t(B)", "(%s,fd_labeling([X,Y],[variable_method(%s),value_method(%s),backtracks(B)]))" % (d, a, b), "=t(0)\tmore"
            yield "backtracks", 1, "t(ok)", "(%s,findall(B,fd_labeling([X,Y],[variable_method(%s),value_method(%s),backtracks(B)]),[B1|L]),B1==0,length(L,8),sort(0,@<,[B1|L],S) -> true ; true)" % (d, a, b) if 0 else "(%s,findall(B,fd_labeling([X,Y],[variable_method(%s),value_method(%s),backtracks(B)]),L),sort([],S),S=[],sort(L,M),M==L)" % (d, a, b), OneOf("=t(ok)\tno", "=t(ok)\tmore")
    bad = [("_", "instantiation_error"), ("[reorder(true)|_]", "instantiation_error"), ("[_]", "instantiation_error"), ("[reorder(true),_]", "instantiation_error"), ("a", "type_error(list,a)"), ("[reorder(true)|a]", "type_error(list,'.'(reorder(true),a))"),
           ("[foo]", "domain_error(fd_labeling_option,foo)"), ("[value_method(foo)]", "domain_error(fd_labeling_option,value_method(foo))"), ("[variable_method(min)]", "domain_error(fd_labeling_option,variable_method(min))"), ("[reorder(yes)]", "domain_error(fd_labeling_option,reorder(yes))"), ("[1]", "domain_error(fd_labeling_option,1)")]
    for b, e in bad:
        yield "errors", 2, "x", "(%s,fd_labeling([X,Y],%s))" % (d, b), "!" + e
    for b, e in (("_", "instantiation_error"), ("[X|_]", "instantiation_error"), ("[X,_]", "instantiation_error"), ("a", "type_error(list,a)"), ("[X|a]", None), ("[X,a]", "type_error(fd_variable,a)"), ("f(X)", None), ("[1.5]", "type_error(fd_variable,1.5)")):
        if e:
            for g in ("fd_labeling(%s,[variable_method(ff)])", "fd_labelingff(%s)", "fd_labeling(%s)"):
                yield "errors", 1, "x", "(%s,X=0,%s)" % (d, g % b), OneOf("!" + e, "!" + e.replace("X", "0"))
    # more than fifty variables: the selection array is packed while labeling
    for r in ("true", "false"):
        for meth in ("ff", "most_constrained"):
            for gl, w1, w2 in ((10, 5, 19), (20, 3, 21), (0, 12, 12), (26, 4, 20), (5, 20, 4)):
                gs = ",".join("_" for _ in range(51))
                g = ("(length(G1,%d),length(W1,%d),length(W2,%d),N is 51-%d-%d-%d-1,length(G2,N),fd_domain(G1,0,1),fd_domain(G2,0,1),fd_domain(W1,0,3),fd_domain(W2,0,3),fd_domain(U,0,2),W1=[W|_],eqs(W1,W),eqs(W2,W),"
                     "append(G1,W1,L1),append(L1,[U|W2],L2),append(L2,G2,L),fd_labeling(L,[variable_method(%s),reorder(%s)]))" % (gl, w1, w2, gl, w1, w2, meth, r))
                yield "fifty-one variables", 13, "t(U,W)", g, "\t".join("=t(%d,%d)" % (u, w) for u in range(3) for w in range(4)) + "\t=t(0,0)\tmore"


def optimum(i, n, tier):
    k = 0
    objs = {"X": lambda x, y, z: x, "Y": lambda x, y, z: y, "Z": lambda x, y, z: z, "X+Y": lambda x, y, z: x + y, "2*X+Z": lambda x, y, z: 2 * x + z, "X*Y": lambda x, y, z: x * y, "10-X-Y-Z": lambda x, y, z: 10 - x - y - z, "max(X,Y)+Z": lambda x, y, z: max(x, y) + z}
    for p in PROBS:
        s = brute(p)
        for ob in objs:
            f = objs[ob]
            for pr, best in (("fd_minimize", min), ("fd_maximize", max)):
                for lab in ("fd_labeling([X,Y,Z])", "fd_labelingff([Z,Y,X])", "fd_labeling([X,Y,Z],[value_method(max)])", "fd_labeling([X,Y,Z],[variable_method(largest),value_method(bisect),reorder(false)])"):
                    for shape in (0, 1, 2):
                        k += 1
                        if k % n != i:
                            continue
                        if s:
                            b = best(f(*t) for t in s)
                            q = [t for t in s if f(*t) == b]
                            if "ff" not in lab and "largest" not in lab:
                                q.sort(reverse="max)" in lab)
                                e = "\t".join(["=t(%d,%d,%d,%d)" % (t + (b,)) for t in q] + ["no"])
                            else:
                                e = SetOf(["=t(%d,%d,%d,%d)" % (t + (b,)) for t in q])
                        else:
                            e = "no"
                        if shape == 0:
                            g = "fd_domain([X,Y,Z],0,3),%s,C #= %s,%s(%s,C)" % (p, ob, pr, lab)
                        elif shape == 1:       # the problem inside the goal, the objective set by is/2
                            g = "fd_domain([X,Y,Z],0,3),%s((%s,%s,C is %s),C)" % (pr, p, lab, ob)
                        else:                  # inside another optimisation of an unrelated variable, and used after
                            g = "fd_domain([X,Y,Z],0,3),fd_domain(V,0,2),%s((%s,C #= %s,%s(%s,C),fd_labeling(V)),V)" % ("fd_maximize", p, ob, pr, lab)
                        if shape == 1 and "max(" in ob:
                            continue
                        yield "optimum", 100, "t(X,Y,Z,C)", "(%s)" % g, e
    if i == 0:
        for j in range(3):
            for m in ("", ",[value_method(max)]", ",[value_method(bisect)]"):
                yield "optimum at the ends", 3, "X", "(fd_max_integer(M),L is M-%d,fd_domain(X,L,M),fd_maximize(fd_labeling(X%s),X),Y is M-X,Y==0,X2 is X-M)" % (j, m), "=268435455\tno"
                yield "optimum at the ends", 3, "X", "(fd_domain(X,0,%d),fd_minimize(fd_labeling(X%s),X))" % (j, m), "=0\tno"
        for pr in ("fd_minimize", "fd_maximize"):
            for g, e in (("%s(_,X)", "!instantiation_error"), ("%s(1,X)", "!type_error(callable,1)"), ("%s(undefd,X)", "!existence_error(procedure,/(undefd,0))"), ("%s(true,a)", "!type_error(fd_variable,a)"), ("%s(fail,X)", "no"), ("%s(throw(b),X)", "!!b"), ("%s(true,3)", "=x\tno"), ("(%s(member(X,[3,1,2]),X),X==%%d)" % pr, None), ("(%s((X=3;X=1;X=2;X=1),X),X==%%d)" % pr, None)):
                if e is None:
                    w = 1 if pr == "fd_minimize" else 3
                    yield "optimum", 5, "x", g % w, "=x\t=x\tno" if "X=1)" in g and w == 1 else "=x\tno"
                else:
                    yield "optimum errors", 2, "x", g % pr, e


def main():
    ck = Check("C26")
    exe = server_exe(HELP + "eqs([],_).\neqs([X|L],W) :- ( X == W -> true ; X #= W ), eqs(L,W).\n")
    for nm, f, sh in (("one variable", one, 8), ("several variables", several, 16), ("disequalities", diseq, 16), ("problems", problems, 16), ("options", options, 1), ("optimum", optimum, 16)):
        run_cases(ck, nm, exe, f, sh, match=match)
    ck.assumptions = ["at most three variables, domains of at most seven values (one family of 51 variables); the manual's ties (same rank) are left to the system"]
    return ck.finish(rule="every option combination x every problem of the families; solutions compared as sets and orders with a nondeterministic search model")


if __name__ == "__main__":
    main()
