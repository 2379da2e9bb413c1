"""C36: loading a file gives the program written in it.

Every sequence of up to three items (clauses, directives, conditional compilation, inclusion, errors) over a few
predicates is written to a file and consulted by the real consult/1; every short history of consulting, changing and
consulting again two files; the same texts compiled natively; each against a reference reader and loader written in
Python from the documentation."""
import itertools
import os
import shutil
import subprocess
import tempfile

from vlib.build import VERIF, WORK, get_build
from vlib.lines import exe, run_lines
from vlib.report import Check
from vlib.runner import parmap, die_with_parent

D = os.path.join(VERIF, "checks", "c36")
PREDS = ["p", "q", "r"]
SETUP = "driver(cs_case)."
INC = {"b.pl": ["p(3).", "q(3)."], "e.pl": [":-if(true)."], "k.pl": ["p(4)", ":-include('b.pl').", "q(4)."]}


class Bad(Exception):
    pass


# ---- the reference reader: text items -> program
# item = (text, kind, data)
def fact(p, v):
    return ("%s(%s)." % (p, v), "cl", (p, str(v), None))


def rule(p, q):
    return ("%s(X):-%s(X)." % (p, q), "cl", (p, None, q))


def decl(d, p):
    return (":-%s(%s/1)." % (d, p), "decl", (d, p))


I = {
    "p1": fact("p", 1), "p2": fact("p", 2), "q1": fact("q", 1), "q2": fact("q", 2), "r1": fact("r", 1),
    "pq": rule("p", "q"), "qr": rule("q", "r"),
    "dp": decl("dynamic", "p"), "xp": decl("discontiguous", "p"), "mp": decl("multifile", "p"), "bp": decl("public", "p"),
    "dq": decl("dynamic", "q"), "xq": decl("discontiguous", "q"), "mq": decl("multifile", "q"),
    "xpq": (":-discontiguous([p/1,q/1]).", "decl2", ("discontiguous", "pq")),
    "i1": (":-initialization(cs_log(1)).", "init", ("log", 1)),
    "ip": (":-initialization(cs_sol(p(X),X)).", "init", ("sol", "p")),
    "if": (":-initialization(fail).", "init", ("fail",)),
    "it": (":-initialization(throw(x)).", "init", ("fail",)),
    "iq": (":-initialization(cs_as(q(9))).", "init", ("assert", "q", "9")),
    "op": (":-op(700,xfx,===>).", "op", 1),
    "op0": (":-op(0,xfx,===>).", "op", 0),
    "po": ("p(a===>b).", "opcl", ("p", "===>(a,b)")),
    "fc": (":-set_prolog_flag(double_quotes,codes).", "flag", "codes"),
    "fa": (":-set_prolog_flag(double_quotes,atom).", "flag", "atom"),
    "ps": ('p("a").', "strcl", "p"),
    "inc": (":-include('b.pl').", "include", "b.pl"),
    "inc0": (":-include('nofile').", "bad", None),
    "inck": (":-include('k').", "include", "k.pl"),
    "ift": (":-if(true).", "if", True), "iff": (":-if(fail).", "if", False), "ife": (":-if(throw(x)).", "if", False),
    "eit": (":-elif(true).", "elif", True), "eif": (":-elif(fail).", "elif", False),
    "el": (":-else.", "else", None), "en": (":-endif.", "endif", None),
    "ifx": (":-if(current_op(_,_,===>)).", "ifop", None),
    "te1": ("term_expansion(p(1),[p(10),q(10),p(11)]).", "te", ("p1", ["p10", "q10", "p11"])),
    "te2": ("term_expansion(q(1),[]).", "te", ("q1", [])),
    "te3": ("term_expansion(p(2),p(20)).", "te", ("p2", ["p20"])),
    "te4": ("term_expansion(q(2),[(:-initialization(cs_log(2))),q(21),q(22),r(21)]).", "te", ("q2", ["i2", "q21", "q22", "r21"])),
    "se": ("p(1 2).", "syn", None),
    "bb": ("p(1):-1.", "badbody", "p"),
    "hd": ("1:-p(1).", "bad", None),
    "bi": ("append(1,2,3).", "bad", None),
    "un": (":-foo.", "nop", None),
    "eo": ("end_of_file.", "eof", None),
    "ea": (":-initialization(cs_log(0)). p(5). /* x", "syn", None),
    "cm": ("% p(1).\n/* p(1). */", "nop", None),
    "sh": ("#!/bin/sh", "shebang", None),
    "i2": (":-initialization(cs_log(2)).", "init", ("log", 2)),
}
ALL = [k for k in I if k not in ("i2", "sh")]
for _p in "pqr":
    for _n in (3, 4, 9, 10, 11, 20, 21, 22):
        I["%s%d" % (_p, _n)] = fact(_p, _n)
INCI = {"b.pl": ["p3", "q3"], "k.pl": ["p4", "inc", "q4"]}
INCT = {f: "".join(I[k][0] + "\n" for k in l) for f, l in INCI.items()}


class Prog:
    """what a file defines"""

    def __init__(self, ops=None, dq=None):
        self.flags = {}
        self.defd = []
        self.cl = {}
        self.sys = []
        self.user = []
        self.hasop = bool(ops)
        self.dq = dq or "codes"
        self.te = []
        self.bad = False
        self.pp = []
        self.empty = []

    def read(self, items, top=True):
        for k in items:
            if not self.item(k):
                return
        if top and self.pp:
            self.bad = True

    def item(self, k, expand=True):
        text, kind, d = I[k]
        if kind == "shebang":
            return True
        if kind == "syn":
            self.bad = True
            return not (k == "ea")
        if kind in ("opcl",) and not self.hasop:
            self.bad = True
            return True
        if kind == "eof":
            if self.pp:
                self.bad = True
            return False
        if expand:
            for (a, l) in self.te:
                if a == k:
                    for x in l:
                        if not self.item(x, False):
                            return False
                    return True
        pp = self.pp
        if kind in ("if", "ifop"):
            if kind == "ifop":
                d = self.hasop
            if pp and pp[-1][1] != "keep":
                pp.append(("then", "all"))
            else:
                pp.append(("then", "keep" if d else "ignore"))
            return True
        if kind == "elif":
            if not pp or pp[-1][0] != "then":
                raise Bad()
            if pp[-1][1] != "ignore":
                pp[-1] = ("then", "all")
            else:
                pp[-1] = ("then", "keep" if d else "ignore")
            return True
        if kind == "else":
            if not pp or pp[-1][0] != "then":
                raise Bad()
            pp[-1] = ("else", {"keep": "ignore", "ignore": "keep", "all": "all"}[pp[-1][1]])
            return True
        if kind == "endif":
            if not pp:
                raise Bad()
            pp.pop()
            return True
        if pp and pp[-1][1] != "keep":
            return True
        if kind == "nop":
            pass
        elif kind == "bad":
            raise Bad()
        elif kind == "badbody":
            if d in self.defd and self.last != d and "discontiguous" not in self.flags.get(d, ()):
                self.last = None
            else:
                raise Bad()
        elif kind == "cl":
            self.clause(d)
        elif kind == "opcl":
            self.clause((d[0], d[1], None))
        elif kind == "strcl":
            self.clause((d, {"codes": "'.'(97,[])", "atom": "a", "chars": "'.'(a,[])"}[self.dq], None))
        elif kind == "decl":
            self.decl(*d)
        elif kind == "decl2":
            for p in d[1]:
                self.decl(d[0], p)
        elif kind == "op":
            self.hasop = bool(d)
            self.sys.append(("op", d))
        elif kind == "flag":
            self.dq = d
            self.sys.append(("flag", d))
        elif kind == "init":
            self.user.append(d)
        elif kind == "te":
            self.te.append(d)
            self.last = "term_expansion"
        elif kind == "include":
            self.read(INCI[d], False)
        else:
            raise ValueError(kind)
        return True

    def decl(self, d, p):
        fl = self.flags.setdefault(p, set())
        for f in {"dynamic": ["dynamic", "public"]}.get(d, [d]):
            if f not in fl and p not in self.defd:
                fl.add(f)
        if d in ("dynamic", "multifile") and p not in self.empty:
            self.empty.append(p)

    def clause(self, c):
        p = c[0]
        fl = self.flags.setdefault(p, set())
        if "discontiguous" not in fl:
            if p in self.defd and self.last != p:
                self.last = None
                return  # discontiguous clauses are ignored
        if p not in self.defd:
            self.defd.append(p)
        self.cl.setdefault(p, []).append(c)
        self.last = p

    last = None


def load(items, ops=None, dq=None):
    p = Prog(ops, dq)
    try:
        p.read(items)
    except Bad:
        p.bad = True
    return p


class State:
    """the loaded program: predicate -> [clauses (file, clause)], kind flags"""

    def __init__(self, native=False):
        self.pr = {}
        self.kind = {}
        self.log = []
        self.op = 0
        self.dq = "codes"

    def sols(self, p, depth=0):
        if p not in self.pr:
            return "u(%s)" % pi(p)
        out = []
        for f, (n, v, q) in self.pr[p]:
            if q is None:
                out.append(v)
            else:
                if depth > 5:
                    raise RecursionError
                s = self.sols(q, depth + 1)
                if isinstance(s, str):
                    return s
                out += s
        return out

    def load(self, f, prog):
        names = list(prog.defd) + [e for e in prog.empty if e not in prog.defd]
        for p in names:
            fl = prog.flags.get(p, set())
            cl = [(f, c) for c in prog.cl.get(p, [])]
            if "multifile" in fl and p in self.pr and "multifile" in self.kind[p]:
                self.pr[p] = [x for x in self.pr[p] if x[0] != f] + cl
                self.kind[p] = fl
            else:
                self.pr[p] = cl
                self.kind[p] = fl
        for s in prog.sys:
            if s[0] == "op":
                self.op = s[1]
            else:
                self.dq = s[1]
        for u in prog.user:
            if u[0] == "log":
                self.log.append(str(u[1]))
            elif u[0] == "sol":
                s = self.sols(u[1])
                self.log.append("existence_error(procedure,%s)" % s[2:-1] if isinstance(s, str) else lst(s))
            elif u[0] == "assert":
                self.add(u[1], u[2])

    def add(self, p, v):
        if p not in self.pr:
            self.pr[p] = []
            self.kind[p] = {"dynamic", "public"}
        if "dynamic" in self.kind[p]:
            self.pr[p].append((None, (p, v, None)))
            self.log.append("true")
        else:
            self.log.append("permission_error(modify,static_procedure,%s)" % pi(p))

    def show(self, p):
        s = self.sols(p)
        k = self.kind.get(p, set())
        if p in self.pr:
            c = lst([c[1] if c[2] is None else c[2] for f, c in self.pr[p]]) if "public" in k else "private"
        else:
            c = "[]"
        return "r(%s,%s,%s,%s,%s)" % (s if isinstance(s, str) else lst(s), "d" if p in self.pr else "u",
                                    "y" if "dynamic" in k else "n", "y" if "multifile" in k else "n", c)


def pi(p):
    return "/(%s,1)" % p


def lst(l):
    return "'.'(%s,%s)" % (l[0], lst(l[1:])) if l else "[]"


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def observe(st, res):
    """the answer line after the steps giving res"""
    a = list(res)
    log, st.log = st.log, []
    a += [lst(log), lst([st.show(p) for p in PREDS]), lst(["op(700,xfx)"] if st.op else []), st.dq]
    return a


OBS = "l,p([p/1,q/1,r/1]),o(===>),f(double_quotes)"


def text(items):
    return "".join(I[k][0] + "\n" for k in items)


def incs(items):
    """files to write for the includes used"""
    need = {}
    todo = [k for k in items]
    while todo:
        k = todo.pop()
        if I[k][1] == "include":
            f = I[k][2]
            if f not in need:
                need[f] = INCT[f]
                todo += INCI[f]
    return need


def case(files, steps, expected):
    return "c([%s],[%s])." % (",".join("%s-%s" % (q(f), q(t)) for f, t in files), ",".join(steps)), lst(expected)


def single(items):
    if "ea" in items[:-1]:
        return None
    pr = load(items)
    st = State()
    if pr.bad:
        r = ["fail"]
    else:
        try:
            st.load("a", pr)
            r = ["true"]
        except RecursionError:
            return None
    try:
        e = observe(st, r)
    except RecursionError:
        return None
    fs = [("a.pl", text(items))] + sorted(incs(items).items())
    return case(fs, ["s(consult(a))", OBS], e)


def shardit(it, i, n):
    return (x for j, x in enumerate(it) if j % n == i)


CORE = "p1 p2 q1 pq dp xp mp i1 ip iq op po inc ift iff el en te1 te2 se un".split()


def fam_seq(i, n, tier):
    seqs = itertools.chain(((a,) for a in ALL), itertools.product(ALL, ALL), itertools.product(CORE, repeat=3) if tier == "quick" else itertools.product(ALL, repeat=3))
    yield from batch("items", (single(s) for s in shardit(seqs, i, n)))


def batch(key, cases, k=60):
    buf, j = [], 0
    for c in cases:
        if c is None:
            continue
        buf.append(c)
        if len(buf) == k:
            yield "%s %d" % (key, j), SETUP, buf
            buf, j = [], j + 1
    if buf:
        yield "%s %d" % (key, j), SETUP, buf


def fam_if(i, n, tier):
    """conditional compilation: every well- and ill-nested sequence, clauses between"""
    al = ["ift", "iff", "eit", "eif", "el", "en"]

    def seqs():
        for m in range(1, 7 if tier == "quick" else 8):
            for s in itertools.product(al, repeat=m):
                # at most the first ill-placed directive, then stop
                d = []
                bad = 0
                for j, x in enumerate(s):
                    if x in ("ift", "iff"):
                        d.append("t")
                    elif not d or (x != "en" and d[-1] == "e"):
                        bad = j + 1
                        break
                    elif x == "el":
                        d[-1] = "e"
                    elif x == "en":
                        d.pop()
                if bad and bad != len(s):
                    continue
                if d and m > 4:
                    continue
                yield s

    def mk(s):
        items = ["xq"]
        for j, x in enumerate(s):
            items += ["q%d" % (9, 10, 11, 20, 21, 22, 1)[j], x]
        return items + ["q3"]
    yield from batch("if", (single(mk(s)) for s in shardit(seqs(), i, n)))


def fam_groups(i, n, tier):
    """order and grouping: clauses of three predicates, declarations first, expansions"""
    cl = ["p1", "p2", "q1", "q2", "r1"]
    m = 5 if tier == "quick" else 6
    heads = [(), ("xp",), ("dp",), ("mp",), ("xpq",), ("dp", "xp"), ("mp", "xp"), ("te1",), ("te4",), ("te1", "te4"), ("te1", "xp"), ("te1", "te4", "xpq"), ("te4", "dq"), ("te1", "mq", "xq"), ("te1", "dp", "xp")]

    def seqs():
        for h in heads:
            for k in (3, 4, m) if tier == "quick" else range(2, m + 1):
                if k == m and tier == "quick" and h not in heads[:2] + heads[8:11:2]:
                    continue
                for s in itertools.product(cl, repeat=k):
                    if k == m and s.count("r1") > 1:
                        continue
                    yield h + s
    yield from batch("groups", (single(s) for s in shardit(seqs(), i, n)))


# ---- histories
VAR = {
    "s": ["p1", "q1"], "s2": ["p2"], "pq": ["pq", "q2"], "d": ["dp", "p1", "iq"], "de": ["dp"], "m": ["mp", "p1", "q1"],
    "m2": ["mp", "p2", "p11"], "me": ["mp"], "e": ["p9", "se"], "z": [], "i": ["ip", "i1"], "o": ["op", "po"], "of": ["op0", "fa", "ps"],
    "md": ["mp", "dp", "p20"], "x": ["xp", "p1", "q1", "p2"],
}
KIND = {"m": "m", "m2": "m", "me": "m", "md": "md"}


def fam_hist(i, n, tier):
    files = ["a", "b"]
    names = list(VAR)
    single_ = [(f, v) for f in files for v in names]
    if tier == "quick":
        single_ = [(f, v) for f, v in single_ if f == "a" or v in ("s2", "pq", "d", "m", "m2", "e", "of", "md")]
    extra = [("+", "p"), ("+", "q"), ("-", "p")]
    steps = single_ + extra

    def seqs():
        for k in (2, 3):
            for s in itertools.product(steps, repeat=k):
                yield s

    def mk(s):
        st = State()
        fs, goals, res = [], [], []
        hasop = 0
        try:
            for j, (f, v) in enumerate(s):
                if f == "+":
                    goals.append("s(cs_as(%s(90)))" % v)
                    st.add(v, "90")
                    res.append("true")
                elif f == "-":
                    goals.append("s(catch(abolish(%s/1),_,true))" % v)
                    if v in st.pr and "dynamic" in st.kind[v]:
                        del st.pr[v]
                        del st.kind[v]
                    res.append("true")
                else:
                    # the defined-in-other-kind combinations are left open
                    pr = load(VAR[v], st.op, st.dq)
                    for p in pr.defd + pr.empty:
                        if p in st.pr and not pr.bad and ("multifile" in st.kind[p]) != ("multifile" in pr.flags.get(p, ())):
                            return None
                        if p in st.pr and not pr.bad and "multifile" in st.kind[p] and st.kind[p] != pr.flags.get(p, set()):
                            return None
                    fs.append(("%s.%d" % (f, j), text(VAR[v])))
                    goals.append("s(cs_use(%s,'%s.%d'))" % (f, f, j))
                    goals.append("s(consult(%s))" % f)
                    res.append("true")
                    if pr.bad:
                        res.append("fail")
                    else:
                        st.load(f, pr)
                        res.append("true")
                goals.append("l,p([p/1,q/1,r/1])")
                log, st.log = st.log, []
                res += [lst(log), lst([st.show(p) for p in PREDS])]
            e = observe(st, res)
        except RecursionError:
            return None
        return case(fs, goals + [OBS], e)
    yield from batch("history", (mk(s) for s in shardit(seqs(), i, n)))


def fam_state(i, n, tier):
    """what is set at the top level before a consult is in force for the file, and the byte-code is read all the same"""
    pre = {
        "true": [], "op(200,xfy,(:-))": ["colon"], "op(700,xfx,===>)": ["op"], "op(0,fx,dynamic)": [], "op(200,fy,clause)": [], "op(200,xfx,predicate)": [], "op(200,fx,[call,get_atom,put_value,execute,proceed])": [],
        "op(0,xfx,/)": ["noslash"], "op(0,fy,-)": [], "op(0,yfx,+)": [], 
        "set_prolog_flag(double_quotes,atom)": ["atom"], "set_prolog_flag(double_quotes,chars)": ["chars"], "set_prolog_flag(back_quotes,codes)": [],
        "set_prolog_flag(strict_iso,off)": [], "set_prolog_flag(unknown,fail)": [], "set_prolog_flag(singleton_warning,off)": [],
        "set_prolog_flag(suspicious_warning,off)": [], "set_prolog_flag(char_conversion,on)": [],
        "char_conversion(x,y)": [], "(set_prolog_flag(char_conversion,on),char_conversion(p,r))": ["p2r"],
        "(set_prolog_flag(char_conversion,on),char_conversion('1','2'))": ["1to2"],
        "(set_prolog_flag(char_conversion,on),char_conversion('(','['))": ["cc("],
        "assertz(term_expansion(p(1),[p(10),q(10),p(11)]))": ["te1"],
        "set_input(user_input)": [], "g_assign(x,1)": [],
    }
    files = [["p1", "q1"], ["pq", "q2"], ["dp", "p1", "p2"], ["xp", "p1", "q1", "p2"], ["po"], ["ps"], ["mp", "p1", "ip"], ["inc", "p2"], ["te3", "p2", "q1"], ["i1", "p1"], ["se"], ["q1", "op", "po"]]

    def mk(g, fx, items):
        if any(x in fx for x in ("colon", "cc(")):
            return None
        if "noslash" in fx and any(I[k][1] in ("decl", "decl2") for k in items):
            return None
        if "p2r" in fx or "1to2" in fx:
            if any(I[k][1] in ("te", "include", "init", "opcl", "decl") or k in ("ps",) for k in items):
                return None
        pr = Prog("op" in fx, "atom" if "atom" in fx else "chars" if "chars" in fx else None)
        st = State()
        st.op = int("op" in fx)
        st.dq = pr.dq
        if "te1" in fx:
            pr.te.append(I["te1"][2])
        its = list(items)
        if "p2r" in fx:
            its = [{"p1": "r1", "p2": "r2", "pq": "rq"}.get(k, k) for k in its]
        if "1to2" in fx:
            its = [{"p1": "p2", "q1": "q2"}.get(k, k) for k in its]
        if any(k not in I for k in its):
            return None
        bad = False
        if "nodir" in fx and any(I[k][0].startswith(":-") for k in items):
            bad = True
        if "norule" in fx and any(I[k][2] and I[k][1] == "cl" and I[k][2][2] for k in items):
            bad = True
        try:
            pr.read(its)
        except Bad:
            pr.bad = True
        if pr.bad or bad:
            r = ["fail"]
        else:
            st.load("a", pr)
            r = ["true"]
        e = observe(st, ["true"] + r)
        fs = [("a.pl", text(items))] + sorted(incs(items).items())
        return case(fs, ["s((%s))" % g, "s(consult(a))", "s(set_prolog_flag(unknown,error))", OBS], e[:2] + ["true"] + e[2:])
    yield from batch("state", (mk(g, fx, it) for (g, fx), it in shardit(itertools.product(pre.items(), files), i, n)))


def fam_forms(i, n, tier):
    """ways of calling consult"""
    a = ["p1", "q1"]
    b = ["p2", "i1"]
    bad = ["p9", "se"]

    def mk(texts, goal, res, loads):
        st = State()
        for f, its in loads:
            st.load(f, load(its))
        return case(sorted((f, text(t)) for f, t in texts.items()), ["s(%s)" % goal, OBS], observe(st, [res]))
    T = {"a.pl": a, "b.pl": b, "c": a, "d.pro": b, "bad.pl": bad}
    A, B = ("a", a), ("b", b)
    nof = "existence_error(source_sink,%s)"
    cs = [
        mk(T, "consult(a)", "true", [A]), mk(T, "consult('a.pl')", "true", [A]), mk(T, "consult('./a')", "true", [A]),
        mk(T, "[a]", "true", [A]), mk(T, "[a,b]", "true", [A, B]), mk(T, "[b,a]", "true", [B, A]), mk(T, "consult([a,b])", "true", [A, B]),
        mk(T, "consult([])", "true", []), mk(T, "consult([a])", "true", [A]), mk(T, "consult([a|b])", "type_error(list,'.'(a,b))", []),
        mk(T, "consult([a,bad,b])", "fail", [A]), mk(T, "consult([bad,a])", "fail", []), mk(T, "consult([a,nof,b])", nof % "'nof.pl'", [A]),
        mk(T, "consult(_)", "instantiation_error", []), mk(T, "consult([a|_])", "instantiation_error", []), mk(T, "consult([_])", "instantiation_error", []),
        mk(T, "consult(1)", "type_error(list,1)", []), mk(T, "consult([a,1])", {"type_error(atom,1)"}.pop(), []), mk(T, "consult(f(a))", "type_error(list,f(a))", []),
        mk(T, "consult(nof)", nof % "'nof.pl'", []), mk(T, "consult('c')", nof % "'c.pl'", []), mk(T, "consult('d.pro')", "true", [B]), mk(T, "consult(d)", "true", [("d", b)]),
        mk(T, "consult(a,[quiet])", "true", [A]), mk(T, "consult(a,[])", "true", [A]), mk(T, "consult(a,[foo])", "domain_error(consult_option,foo)", []),
        mk(T, "consult(a,_)", "instantiation_error", []), mk(T, "consult(a,[_])", "instantiation_error", []), mk(T, "consult(a,foo)", "type_error(list,foo)", []),
        mk(dict(T, **{"x.pl": ["te2"], "e.pl": ["q1", "p1"]}), "(consult(a),consult(b))", "true", [A, B]),
    ]
    cs += [mk(T, "(working_directory(W),make_directory(dd),atom_concat(W,'/a',P),change_directory(dd),consult(P),change_directory(W))", "true", [A])]
    yield from batch("forms", shardit(cs, i, n))


def fam_nest(i, n, tier):
    """a consult in an initialization, redefinition of a predicate being run, big files"""
    def raw(files, steps, e):
        return case(files, steps, e)
    cs = []
    f = [("a.pl", "p(1).\n:-initialization(consult(b)).\nq(1).\n:-initialization(cs_log(1)).\n"), ("b.pl", "p(2).\nr(2).\n:-initialization(cs_log(2)).\n")]
    cs.append(raw(f, ["s(consult(a))", "l", "s(p(1))", "s(p(2))", "s(q(1))", "s(r(2))"], ["true", lst(["2", "1"]), "fail", "true", "true", "true"]))
    f = [("a.pl", "p(1).\np(2).\np(3).\n"), ("b.pl", "p(4).\np(5).\n"), ("m.pl", ":-multifile(p/1).\np(1).\np(2).\n"), ("m2.pl", ":-multifile(p/1).\np(4).\n")]
    for d in ("", ":-dynamic(p/1).\n"):
        f2 = [("a.pl", d + f[0][1]), ("b.pl", d + f[1][1]), f[2], f[3]]
        for tgt, aft in (("a", "123"), ("b", "45")):
            cs.append(raw(f2, ["s(consult(a))", "s((p(X),cs_log(X),consult(%s),fail;true))" % tgt, "l", "s(cs_sol(p(X),X))", "l"],
                          ["true", "true", lst(list("123")), "true", lst([lst(list(aft))])]))
            cs.append(raw(f2, ["s(consult(a))", "s((p(X),cs_log(X),(X==2->consult(%s);true),fail;true))" % tgt, "l", "s(cs_sol(p(X),X))", "l"],
                          ["true", "true", lst(list("123")), "true", lst([lst(list(aft))])]))
        f3 = [("a.pl", d + "p(X):-q(X).\np(9).\nq(1):-consult(b),cs_log(in).\nq(2).\n"), ("b.pl", d + "p(4).\nq(5).\nq(6).\n"), ]
        cs.append(raw(f3, ["s(consult(a))", "s((p(X),cs_log(X),fail;true))", "l", "s(cs_sol(p(X),X))", "s(cs_sol(q(X),X))", "l"],
                      ["true", "true", lst(["in", "1", "2", "9"]), "true", "true", lst([lst(["4"]), lst(["5", "6"])])]))
    cs.append(raw(f, ["s(consult(m))", "s((p(X),cs_log(X),consult(m2),fail;true))", "l", "s(cs_sol(p(X),X))", "s(consult(m))", "s(cs_sol(p(X),X))", "l"],
                  ["true", "true", lst(["1", "2"]), "true", "true", "true", lst([lst(["1", "2", "4"]), lst(["4", "1", "2"])])]))
    # sizes
    for k in (0, 1, 2, 100, 255, 256, 257, 1000, 3000) + ((10000,) if tier != "quick" else ()):
        for d in ("", ":-dynamic(p/1).\n", ":-discontiguous(p/1).\n", ":-multifile(p/1).\n"):
            t = d + "".join("p(%d).\n" % j for j in range(k)) + "q(1).\n"
            if k == 0 and "dyn" not in d and "mul" not in d:
                continue
            cs.append(raw([("a.pl", t)], ["s(consult(a))", "s((findall(X,p(X),L),length(L,N),sort(L,M),L==M,cs_log(N)))", "l", "s(q(1))"], ["true", "true", lst([str(k)]), "true"]))
    for k in (1, 10, 100, 255):
        a = ",".join("a%d" % j for j in range(k))
        cs.append(raw([("a.pl", "p(%s).\n" % a)], ["s(consult(a))", "s((functor(T,p,%d),T,arg(%d,T,A),cs_log(A)))" % (k, k), "l"], ["true", "true", lst(["a%d" % (k - 1)])]))
    for k in (1, 5, 30, 60, 63, 64, 65, 100, 200, 1000):
        cs.append(raw([("a.pl", "p(1).\n"), ("b.pl", "q(1).\n")], ["s(consult(a,[%s]))" % ",".join(["quiet"] * k), "s(p(1))"], ["true", "true"]))
        cs.append(raw([("a.pl", "p(1).\n")] + [("i%d.pl" % j, "q%d(1).\n" % j) for j in range(k if k < 100 else 0)], ["s(consult(a,[%s]))" % ",".join("include(i%d)" % (j if k < 100 else 0) for j in range(k if k < 100 else 0)), "s(p(1))"] + (["s(q%d(1))" % (k - 1)] if k < 100 else []), ["true", "true"] + (["true"] if k < 100 else [])))
    # include depth, same file included twice
    for k in (1, 2, 5, 20):
        fs = [("a.pl", ":-discontiguous(p/1).\np(0).\n:-include(i1).\np(100).\n")] + [("i%d.pl" % j, "p(%d).\n%sp(%d).\n" % (j, ":-include(i%d).\n" % (j + 1) if j < k else "", 100 - j)) for j in range(1, k + 1)]
        cs.append(raw(fs, ["s(consult(a))", "s(cs_sol(p(X),X))", "l"], ["true", "true", lst([lst([str(x) for x in list(range(k + 1)) + list(range(100 - k, 101))])])]))
    fs = [("a.pl", ":-discontiguous([p/1,q/1]).\n:-include(b).\n:-include('b.pl').\n"), ("b.pl", "p(1).\nq(1).")]
    cs.append(raw(fs, ["s(consult(a))", "s(cs_sol(p(X),X))", "s(cs_sol(q(X),X))", "l"], ["true", "true", "true", lst([lst(["1", "1"])] * 2)]))
    # include found in the directory of the including file
    fs = [("dd/a.pl", ":-include(b).\nq(1).\n"), ("dd/b.pl", "p(1).\n"), ("b.pl", "p(2).\n")]
    cs.append(raw([], ["s((catch(make_directory(dd),_,true),cs_file('dd/a.pl',%s),cs_file('dd/b.pl',%s)))" % (q(fs[0][1]), q(fs[1][1])), "s(consult('dd/a'))", "s(cs_sol(p(X),X))", "l"], ["true", "true", "true", lst([lst(["1"])])]))
    # DCG, control constructs, strings, quoted names, modes of writing the byte-code
    odd = ["a", "'A b'", "[]", "{}", "'[]'", "'\\n'", "''", "'\\''", "-1", "- 1", "1.5", "-0.0", "1.0e100", "0'a", "\"ab\"", "f(X,Y,X)", "[1,2|T]", "{a}", "{X}", "-(-(1))", "- a", "1 - -1", "(a:-b)", "(:-a)", "(a,b)", "(a;b)", "'$VAR'(1)", "'$VAR'(x)", "\\+a", "[(a,b)]", "f(:-)", "f((:-),(a:-b))", "- (1)", "1-2-3", "1-(2-3)", "a=b", "[a|b]", "'\\001\\'", "'\\200\\'", "1152921504606846975", "-1152921504606846976", "'.'", "'a.b'", "'%'", "'/*'", "|", "('|')", "f(;)", "(;)", "f(!)", "`abc`", "f(_,_)", "'\\\\'", "\"\"", "$a", "1.0e-300", "123456789.123456789"]
    for t in odd:
        if t in ("$a", "|"):
            continue
        for tm in ("p(%s).", ":-dynamic(p/1).\np(%s).", ":-public(p/1).\np(%s).", "p(X):- X = (%s).", ":-initialization(cs_log(p(%s))).\n", "p(X):-cs_id(%s,X)."):
            if "X" in t or "_" in t or "T]" in t:
                if "log" in tm:
                    continue
                t2 = t.replace("X", "Q")
            else:
                t2 = t
            text_ = tm % t2 + "\n"
            if "log" in tm:
                goal = "s((consult(a),g_read(cs_l,[p(X)]),cs_var(X,%s)))" % q(t2 + " .")
            else:
                goal = "s((consult(a),p(X),cs_var(X,%s)))" % q(t2 + " .")
            cs.append(raw([("a.pl", text_)], [goal], ["true"]))
    yield from batch("nest", shardit(cs, i, n), 20)


EXTRA = r"""
cs_as(T) :- catch(assertz(T), error(E,_), true), ( var(E) -> cs_log(true) ; cs_log(E) ).
cs_use(F, G) :- atom_concat(F, '.pl', P), ( file_exists(P) -> unlink(P) ; true ), rename_file(G, P).
cs_id(X, X).
cs_var(X, A) :- read_term_from_atom(A, Y, []), subsumes_term(X, Y), subsumes_term(Y, X).
"""


# ---- native
MAIN = r"""
:- initialization(cs_main).
cs_main :- set_output(user_error), cs_native([%s]), halt.
"""


def native_job(arg):
    i, n, seqs = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, cnt = [], 0
    try:
        objs = os.path.join(NOBJ, "drv.o")
        mains = os.path.join(NOBJ, "main.o")
        for s in seqs:
            pr = load(s)
            if pr.bad or any(I[k][0].find("ift") >= 0 for k in s):
                e = None
            else:
                st = State()
                try:
                    st.load("a", pr)
                    e = lst(observe(st, []))
                except RecursionError:
                    continue
            for p in "pqr":
                pass
            for f, t in [("a.pl", text(s))] + sorted(incs(s).items()):
                open(os.path.join(d, f), "w").write(t)
            x = os.path.join(d, "x")
            if os.path.exists(x):
                os.remove(x)
            undef = [c[2] for l in pr.cl.values() for c in l if c[2] and c[2] not in pr.defd + pr.empty]
            if e is not None and undef:
                continue
            r = b.run(["gplc", "--no-top-level", "--no-susp-warn", "--no-singl-warn", "-o", x, mains, objs, "a.pl"], cwd=d, timeout=60)
            cnt += 1
            if e is None:
                if r.returncode == 0 and os.path.exists(x):
                    bad.append((s, "gplc accepts the text", "an error"))
                continue
            if r.returncode != 0 or not os.path.exists(x):
                bad.append((s, "gplc: " + r.stdout[-400:], e))
                continue
            try:
                o = subprocess.run([x], cwd=d, env=b.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, preexec_fn=die_with_parent)
                g = o.stdout.decode("latin-1").strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                g = "HANG"
            if g != e:
                bad.append((s, g, e))
            if len(bad) > 20:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cnt, bad


NOBJ = None


def native(ck):
    global NOBJ
    b = get_build()
    NOBJ = tempfile.mkdtemp(dir=WORK)
    try:
        shutil.copy(os.path.join(D, "drv.pl"), NOBJ)
        open(os.path.join(NOBJ, "drv2.pl"), "w").write(open(os.path.join(D, "drv.pl")).read() + EXTRA)
        open(os.path.join(NOBJ, "main.pl"), "w").write(MAIN % OBS)
        b.gplc(os.path.join(NOBJ, "drv.o"), os.path.join(NOBJ, "drv2.pl"), opts=("-c", "--no-susp-warn", "--no-singl-warn"), cwd=NOBJ)
        b.gplc(os.path.join(NOBJ, "main.o"), os.path.join(NOBJ, "main.pl"), opts=("-c", "--no-susp-warn", "--no-singl-warn"), cwd=NOBJ)
        core = "p1 p2 q1 pq dp xp mp bp ip iq op po fa ps inc te1 te4 ift el en".split()
        seqs = [(a,) for a in ALL] + list(itertools.product(core, repeat=2))
        if ck.tier != "quick":
            seqs = [(a,) for a in ALL] + list(itertools.product(ALL, repeat=2)) + list(itertools.product(core[:12], repeat=3))
        seqs += [("ift", "p1", "el", "q1", "en"), ("iff", "p1", "el", "q1", "en"), ("xp", "p1", "q1", "p2"), ("dp", "xp", "p1", "q1", "p2"), ("te1", "te4", "xpq", "p1", "q2", "p2"), ("te4", "p1", "q2", "r1")]
        n = 64
        res = parmap(native_job, [(i, n, seqs[i::n]) for i in range(n)])
        tot = 0
        for c, bad in res:
            tot += c
            ck.add(states=c, transitions=c, traces_validated_against_impl=c)
            for s, g, e in bad:
                ck.violate("native: " + " ".join(s), "text:\n%s\nexpected: %s\ngot:      %s" % (text(s), e, g))
        ck.cov.setdefault("cases_by_family", {})["native"] = tot
    finally:
        shutil.rmtree(NOBJ, ignore_errors=True)


ENV = dict(GLOBALSZ=8192, LOCALSZ=4096, TRAILSZ=4096, CSTRSZ=256, MAX_ATOM=32768)


def main():
    ck = Check("C36")
    x = exe(open(os.path.join(D, "drv.pl")).read() + EXTRA)
    for name, f in (("forms", fam_forms), ("nest", fam_nest), ("state", fam_state), ("items", fam_seq), ("conditional", fam_if), ("groups", fam_groups), ("history", fam_hist)):
        run_lines(ck, name, x, f, shards=16, timeout=120, env=ENV)
    native(ck)
    return ck.finish(rule="the text of every file is generated by enumerating item sequences; the reference reader and loader gives the program, or an error, it stands for")
