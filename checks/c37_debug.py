"""C37: the debugger only observes.

trace: every query of a grammar, traced without stopping: the answers are those of the reference interpreter, the ports form
a legal box history (call, exit, redo, fail, exception nested as boxes, numbers and depths) and the sequence of calls and
exits, with the instantiation of the goals, is that of the resolution.
commands: stopping at every port, every command at every position of every history: the commands that look leave
everything that follows as it was, the ones that move the stopping point (skip, leap, goto, nodebug) hide exactly the
ports they should, the ones that act (fail, retry, unify, abort, break, command) do what they say and nothing else.
spies: every set of spied predicates / spypoint conditions: exactly the ports of these predicates are shown."""
import collections
import itertools
import os
import re
import shutil
import tempfile

from checks.c50_toplevel import Dead, Top, lines, names_in, ren, verify
from vlib.build import WORK, get_build
from vlib.cases import short
from vlib.refpl import DET, Atom, Machine, PlError, S, StepLimit, TRUE, V, VarOrder, copy, deref, parse, parse_program, unlist
from vlib.report import Check
from vlib.runner import parmap

PROG = """
:- dynamic(dy/1).
mem(X, [X|_]).
mem(X, [_|L]) :- mem(X, L).
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).
len([], 0).
len([_|T], N) :- len(T, M), N is M + 1.
col(r). col(g). col(b).
one(1).
fst(X) :- col(X), !.
ite(X, Y) :- ( X == a -> Y = 1 ; X = b, Y = 2 ; Y = 3 ).
neg(X) :- \\+ mem(X, [a, b]).
dj(X) :- ( X = 1 ; one(X) ; mem(X, [2, 3]) ).
cut3(X) :- mem(X, [1, 2, 3]), X > 1, !.
cut3(9).
bad(X) :- col(X), Y is X + 1, mem(Y, [1]).
thr(X) :- mem(X, [1, 2]), X > 1, throw(ball(X)).
safe(X) :- catch(thr(X), ball(Y), X = c(Y)).
safe(z).
resc(X) :- catch(bad(X), error(E, _), mem(X, [E, k])).
all(L) :- findall(X, mem(X, [1, 2]), L).
soft(X) :- ( mem(X, [1, 2]) *-> true ; X = none ).
out(X) :- mem(X, [1, 2]), write('@o'), nl.
hi(X) :- call(mem, X, [p, q]).
hi2(X) :- call(mem(X), [u]).
st(X) :- dy(X).
st(X) :- assertz(dy(7)), dy(X), retract(dy(7)).
deep(0) :- !.
deep(N) :- M is N - 1, deep(M).
"""

QUERIES = ["mem(X, [1, 2])", "mem(X, [a, Y])", "app(X, Y, [1, 2])", "len([a, b], X)", "col(X)", "fst(X)", "ite(X, Y)", "ite(a, Y)", "neg(c)", "neg(a)", "dj(X)", "cut3(X)", "bad(X)", "thr(X)", "safe(X)", "resc(X)", "all(X)",
           "soft(X)", "out(X)", "hi(X)", "hi2(X)", "st(X)", "deep(3)", "X = f(Y)", "X = 1", "Y = 2", "X == Y", "X is Y + 1", "X is 3 * 2", "atom_length(abc, X)", "throw(oops)", "!", "true", "one(X)", "X = f(_)", "\\+ X = 1", "mem(X, []) "]


def wraps(g):
    yield "\\+ ( %s )" % g
    yield "findall(X, ( %s ), Z)" % g
    yield "catch(( %s ), _E, true)" % g
    yield "( %s -> true ; Z = no )" % g
    yield "( %s ; one(Z) )" % g
    yield "call(( %s ))" % g
    yield "( %s *-> one(Z) ; one(X) )" % g


def goals(tier):
    for q in QUERIES:
        yield q
    for q in QUERIES:
        yield from wraps(q)
    for q, r in itertools.product(QUERIES, QUERIES):
        yield "%s, %s" % (q, r)
    if tier != "quick":
        for q, r in itertools.product(QUERIES, QUERIES):
            for w in wraps(q):
                yield "%s, %s" % (w, r)
                yield "%s, %s" % (r, w)


# ---- reference: the resolution with its calls and exits
CONTROL = {("!", 0), ("true", 0), ("fail", 0), ("throw", 1)}


def key(t):
    t = deref(t)
    return (t.name, len(t.args)) if type(t) is S else (t.name, 0)


def boxed(g, top=False):
    g = deref(g)
    if type(g) is V:
        return g
    k = key(g)
    if k in CONTROL:
        return g
    if k in ((",", 2), (";", 2), ("->", 2), ("*->", 2)):
        return S(g.name, tuple(boxed(a) for a in g.args))
    if k == ("call", 1):
        return S("call", (boxed(g.args[0]),))
    if k == ("catch", 3):
        return S("catch", (boxed(g.args[0]), g.args[1], boxed(g.args[2])))
    inner = g
    if k == ("\\+", 1):
        inner = S("\\+", (boxed(g.args[0]),))
    elif k == ("findall", 3):
        inner = S("findall", (g.args[0], boxed(g.args[1]), g.args[2]))
    n, r, e = V(), V(), V()
    c = lambda a, b: S(",", (a, b))
    run = S(";", (S("->", (S("==", (r, Atom("go"))), inner)), S("=", (r, S("u", (g,))))))
    box = c(S("$ev_call", (g, n, r)), c(run, c(S("$ev_exit", (g, n, e)), S(";", (S("->", (S("==", (e, Atom("ok"))), TRUE)), c(Atom("!"), Atom("fail")))))))
    return S("call", (box,))


def ev_call(m, g, n, r):
    while m.path and m.path[-1].ref is None:
        m.path.pop()
    v = V()
    m.bind(v, TRUE)
    m.path.append(v)
    k = len(m.events)
    m.events.append(("Call", len(m.path), copy(g)))
    if k in m.act:
        a = m.act[k]
        if a == "f":
            return False
        return m.unify(n, len(m.path)) and m.unify(r, S("u", (parse(a)[0],)))
    return m.unify(n, len(m.path)) and m.unify(r, Atom("go"))


def ev_exit(m, g, n, e):
    k = len(m.events)
    m.events.append(("Exit", deref(n), copy(g)))
    return m.unify(e, Atom("no" if m.act.get(k) == "f" else "ok"))


CL = None


def clauses():
    global CL
    if CL is None:
        CL = []
        for c in parse_program(PROG.replace(":- dynamic(dy/1).\n", "")):
            c = deref(c)
            if type(c) is S and c.name == ":-":
                CL.append(S(":-", (c.args[0], boxed(c.args[1]))))
            else:
                CL.append(c)
    return CL


def reference(names, goal, act=()):
    """(solutions, end, events, outputs) or None"""
    t, vs = parse("(" + goal + ")")
    m = Machine(12000)
    m.acyclic = True
    m.out, m.path, m.events, m.act = [], [], [], dict(act)
    m.det[("write", 1)] = lambda m, a: (m.out.append(deref(a).name), True)[1]
    m.det[("nl", 0)] = lambda m: True
    m.det[("$ev_call", 3)], m.det[("$ev_exit", 3)] = ev_call, ev_exit
    for c in clauses():
        m.add(c, dynamic=False)
    m.add(Atom("dyz"), dynamic=False)
    dyn = parse("dy(0)")[0]
    m.add(dyn)
    m.db[("dy", 1)].clauses.clear()
    sols = []
    try:
        for _ in m.solve(boxed(t)):
            c = copy(S("t", tuple(vs[n] for n in names))) if names else None
            sols.append(dict(zip(names, c.args)) if names else {})
            if len(sols) > 11 or m.unordered:
                return None
        return sols, None, m.events, m.out
    except PlError as e:
        b = deref(e.term)
        if type(b) is S and b.name == "error" and len(b.args) == 2:
            return sols, ("error", b.args[0]), m.events, m.out
        return sols, ("ball", b), m.events, m.out
    except (StepLimit, VarOrder, RecursionError):
        return None


# ---- the dialogue
PORT = re.compile(r"^ ([ +]) +(\d+) +(\d+)  (Call|Exit|Redo|Fail|Exception): (.*?)(?: \?)?$")
ANC = re.compile(r"^ [ +] +(\d+) +(\d+)  \S")


def portline(l):
    m = PORT.match(l)
    return m and (m.group(4), int(m.group(2)), int(m.group(3)), m.group(5), m.group(1))


def norm(text):
    m = {}
    return re.sub(r"(?<![A-Za-z0-9_])_\d+", lambda x: m.setdefault(x.group(), "_v%d" % len(m)), text)


class Dialogue:
    """items: ('p', port) | ('s', port, command) prompt at a port | ('t', text) | ('a', key) answer prompt | ('q',)"""

    def __init__(self, top, query, policy, keys=";"):
        self.items = items = []
        k = 0
        top.send(query + ".\n")
        while True:
            t, kind = top.read()
            ls = t.split("\n")
            last = portline(ls[-1]) if kind == "m" else None
            for l in ls[:-1] if last else ls:
                p = portline(l)
                if p:
                    items.append(("p", p))
                elif l.strip():
                    items.append(("t", l))
            if kind == "e":
                raise Dead("the top level ended; last: %r" % (items[-4:],))
            if kind == "q":
                items.append(("q",))
                return
            if last:
                cmd = policy(k, last, self)
                items.append(("s", last, cmd))
                k += 1
                top.send(cmd)
            else:
                items.append(("a", keys))
                top.send(keys + ("" if keys == "\n" else "\n"))
            if len(items) > 3000:
                raise Dead("endless dialogue")

    def ports(self):
        return [i[1] for i in self.items if i[0] in "ps"]

    def answers(self):
        segs, text = [], []
        for i in self.items:
            if i[0] == "t":
                if i[1].strip() not in ("{trace}", "{debug}"):
                    text.append(i[1])
            elif i[0] == "a":
                segs.append(("\n".join(text), "m", i[1]))
                text = []
            elif i[0] == "q":
                segs.append(("\n".join(text), "q", None))
        return segs

    def shape(self):
        """everything shown, variables renamed per line"""
        out = []
        for i in self.items:
            if i[0] in "ps":
                out.append(norm("%d %d %s: %s" % (i[1][1], i[1][2], i[1][0], i[1][3])))
            elif i[0] == "t":
                out.append(norm(i[1].strip()) if not re.match(r"^\(\d+ ms\)", i[1]) else re.sub(r"^\(\d+ ms\) ", "", i[1]))
            else:
                out.append(i[0])
        return [o for o in out if o not in ("{trace}", "{debug}", "nl")]


def outputs(d):
    segs, out = [], []
    for text, kind, k in d.answers():
        keep = []
        for l in text.split("\n"):
            (out if l.startswith("@") else keep).append(l)
        segs.append(("\n".join(keep), kind, k))
    return segs, out


def boxes(ports):
    """None or what is wrong with the history of ports"""
    live, done = [], []  # live: [id, n, m, call text]; done: (box, exit text), by time of exit
    nid = 0
    for port, n, m, text, flag in ports:
        here = "%d %d %s: %s" % (n, m, port, text)
        text = norm(text)
        if port == "Call":
            if m != len(live) + 1:
                return "%s: the depth should be %d" % (here, len(live) + 1)
            if live and n <= live[-1][1]:
                return "%s: a number not above that of its parent" % here
            nid += 1
            live.append((nid, n, m, text, live[-1][0] if live else 0))
        elif port == "Redo":
            parent = live[-1][0] if live else 0
            while done and not (done[-1][0][1] == n and done[-1][0][2] == m and done[-1][0][4] == parent):
                done.pop()
            if not done:
                return "%s: no box to go back to" % here
            b, t = done.pop()
            if t != text:
                return "%s: but it was left as %s" % (here, t)
            live.append(b)
        else:
            if not live:
                return "%s: no open box" % here
            b = live.pop()
            if (b[1], b[2]) != (n, m):
                return "%s: the open box is %d %d %s" % (here, b[1], b[2], b[3])
            if port == "Exit":
                done.append((b, text))
            else:
                if text != b[3]:
                    return "%s: but it was called as %s" % (here, b[3])
    return None


def same_goal(a, b):
    if type(a) is not str:
        return ren(a, {}) == ren(parse("(%s)" % b)[0], {})
    if a.replace(" ", "") == b.replace(" ", ""):
        return True
    try:
        return ren(parse("(%s)" % a)[0], {}) == ren(parse("(%s)" % b)[0], {})
    except ValueError:
        return norm(a).replace(" ", "") == norm(b).replace(" ", "")


def check_trace(names, ref, d, events=True):
    sols, end, evs, out = ref
    segs, o = outputs(d)
    w = verify(names, sols, end, segs)
    if w:
        return w
    if "".join(o) != "".join(out).replace("\n", ""):
        return "the program wrote %r instead of %r" % (o, out)
    w = boxes(d.ports())
    if w or not events:
        return w
    got = [p for p in d.ports() if p[0] in ("Call", "Exit") and p[3] != "fail"]
    for i, (e, g) in enumerate(itertools.zip_longest(evs, got)):
        if e is None or g is None or e[0] != g[0] or e[1] != g[1] or not same_goal(e[2], g[3]):
            return "event %d is %s, the resolution has %s" % (i, g, e)


class Session:
    def __init__(self, b):
        self.b = b
        self.d = tempfile.mkdtemp(dir=WORK)
        open(os.path.join(self.d, "p.pl"), "w").write(PROG)
        self.top = None
        self.mode = "off"

    def get(self, *setup):
        if self.top is None:
            self.top = Top(self.b, self.d, ("--quiet", "--consult-file", "p.pl"))
            self.top.read()
        for s in setup:
            self.top.ask(s, "")
        return self.top

    def drop(self):
        if self.top:
            self.top.close()
        self.top = None

    def close(self):
        self.drop()
        shutil.rmtree(self.d, ignore_errors=True)


RET = lambda k, p, d: "\n"


def trace_job(arg):
    i, n, tier = arg
    s = Session(get_build())
    bad, cnt, tr = [], 0, 0
    hist = collections.Counter()
    try:
        for k, g in enumerate(goals(tier)):
            if k % n != i or len(bad) > 8:
                continue
            names = names_in(g)
            ref = reference(names, g)
            if ref is None:
                hist["SKIP " + g[:40]] += 1
                continue
            if "st(" in g:
                s.drop()
            for mode in ("none", "off"):
                d = None
                try:
                    top = s.get() if s.top and mode == "none" and s.mode == "none" else s.get(*(("leash(none).", "trace.") if mode == "none" else ("nodebug.",)))
                    s.mode = mode
                    if "st(" in g and mode == "off":
                        s.top.ask("retractall(dy(_)).", "")
                    d = Dialogue(top, g, RET)
                    w = check_trace(names, ref, d, mode == "none")
                    if mode == "off" and d.ports():
                        w = w or "ports shown without debugger"
                except Dead as e:
                    w = str(e)
                if w:
                    s.drop()
                    bad.append(("%s (%s)" % (g, mode), "%s\nsolutions %s %s\ndialogue: %s" % (w, ref[0], ref[1], d and "\n".join(map(str, d.items)))))
                    break
                cnt += 1
                tr += len(d.items)
                hist[" ".join(p[0][0] for p in d.ports())[:40]] += 1
                if tier == "quick" and k % 8:
                    break
    finally:
        s.close()
    return cnt, tr, bad, hist


# ---- family commands
LOOK = ["w", "d", "p", "e", "g", "A", "=", ".", "?", "h", "L", "z", "+-", "<", "@", "@f", "@t", "*", "b"]
TYPED = {"<": "<\n7", "@": "@\ng_assign(kk, 5).", "@f": "@\nfail.", "@t": "@\nthrow(x).", "*": "*\nfoo(1),call,true.", "b": "b\nX = 1.\nend_of_file."}
MOVE = ["c", "s", "l", "n", "G"]
ACT = ["f", "u", "r", "a"]


def short_goals(tier):
    for q in QUERIES:
        yield q
    for q in QUERIES[:24]:
        for k, w in enumerate(wraps(q)):
            if tier != "quick" or k < 5:
                yield w
    pool = ["mem(X, [1, 2])", "fst(X)", "safe(X)", "cut3(X)", "X = 1", "\\+ X = 1", "dj(X)", "all(Y)", "one(Y)", "thr(X)", "hi(X)", "st(X)"]
    for q, r in itertools.product(pool, pool):
        yield "%s, %s" % (q, r)


def cmd_cases(base, tier):
    n = sum(1 for i in base.items if i[0] == "s")
    pos = range(n) if n <= 14 or tier != "quick" else list(range(9)) + list(range(n - 5, n))
    stops = [i[1] for i in base.items if i[0] == "s"]
    for k in pos:
        for c in LOOK + MOVE + ACT:
            if c != "u" or stops[k][0] == "Call":
                yield k, c


def check_cmd(s, g, names, ref, base, k, c):
    stops = [i for i in base.items if i[0] == "s"]
    port = stops[k][1]

    def policy(j, p, d):
        if c == "+-" and j - k in (0, 1):
            return "+-"[j - k] + "\n"
        if j != k:
            return "\n"
        if c == "b":  # the prompts of the nested level are read here
            s.top.send("b\n")
            for line in ("X = 1.\n", "end_of_file.\n"):
                while True:
                    t, kind = s.top.read()
                    if kind != "m" or not portline(t.split("\n")[-1]):
                        break
                    s.top.send("\n")
                if kind != "q" or line[0] == "e" and not re.search(r"X = 1\n\n(\(\d+ ms\) )?yes\n", t):
                    raise Dead("no nested top level: %r" % t)
                s.top.send(line)
            return ""
        if c in ("@", "@f", "@t", "<", "*"):
            return TYPED[c] + "\n"
        if c == "u":
            return "u\n%s.\n" % head
        if c == "G":
            return "G\n%d\n" % goto
        return c + "\n"

    head = "foo(9)" if k % 3 == 2 else generalize(port[3], k)
    goto = max(p[1] for i, p, _ in stops)
    setup = ()
    if c == "@":
        setup = ("g_assign(kk, 0).",)
    top = s.get(*setup)
    d = Dialogue(top, g, policy)
    got, exp = d.shape(), base.shape()
    # index in base of the k-th stop
    at = [x for x, i in enumerate(base_items(base)) if i[0] == "s"][k]
    here = exp[at]

    def explain(e):
        for x, (a, b_) in enumerate(itertools.zip_longest(e, got)):
            if a != b_:
                return "at line %d: expected %r, got %r" % (x, a, b_)

    if c in LOOK or c == "c" or (c == "r" and port[0] == "Call") or (c == "f" and port[0] == "Fail"):
        if c != "c":
            # the same port again, then as before
            mid = len(got) - (len(exp) - at)
            extra = got[at + 1:mid]
            if got[:at] + got[mid:] != exp or got[at] != here or mid <= at:
                return explain(exp) or "the port is not shown again"
            if c == "g":
                want, live = [], []
                for p in [i[1] for i in base.items if i[0] in "ps"]:
                    if p is port:
                        break
                    (live.append if p[0] in ("Call", "Redo") else lambda p: live.pop())(p)
                if port[0] in ("Call", "Redo"):
                    want = [(p[1], p[2]) for p in live]
                else:
                    want = [(p[1], p[2]) for p in live[:-1]]
                seenl = [(int(m.group(1)), int(m.group(2))) for m in (ANC.match(i[1]) for i in d.items if i[0] == "t") if m]
                if seenl != want:
                    return "the ancestors are %s, shown %s" % (want, seenl)
            if c in ("w", "p") and "'" not in port[3] and port[3] != "nl" and not any(same_goal(port[3], x) for x in extra):
                return "the goal is written as %s" % extra
            if c == "e" and port[0] == "Exception" and not any(x.startswith("Exception raised:") for x in extra):
                return "no exception shown: %s" % extra
            if c == "@":
                d2 = Dialogue(top, "g_read(kk, K)", RET)
                if not any(x[0] == "t" and x[1].strip() == "K = 5" for x in d2.items):
                    return "the command had no effect: %r" % d2.items
            return None
        return explain(exp)
    if c == "s":
        if port[0] not in ("Call", "Redo"):
            return explain(exp)
        e, hide = [], False
        for x, i in enumerate(base_items(base)):
            if hide and i[0] in "ps":
                if i[1][1] == port[1] and i[1][0] in ("Exit", "Fail", "Exception"):
                    hide = False
                else:
                    continue
            e.append(exp[x])
            if x == at:
                hide = True
        return explain(e)
    if c == "G":
        e, hide = [], False
        for x, i in enumerate(base_items(base)):
            if hide and i[0] in "ps":
                if i[1][1] == goto:
                    hide = False
                else:
                    continue
            e.append(exp[x])
            if x == at:
                hide = True
                e.append(None)
        got2 = [y for y in (re.sub("^[A-Za-z ]* nb: ?", "", y) for y in got) if y]
        e = [y for y in e if y is not None]
        if got2 != e:
            return "goto %d: expected %s\ngot %s" % (goto, e, got2)
        s.get("trace.")
        return None
    if c in ("l", "n"):
        e = exp[:at + 1] + [y for y, i in zip(exp[at + 1:], base_items(base)[at + 1:]) if i[0] not in "ps"]
        w = explain(e)
        s.get(*(("trace.",) if c == "l" else ("trace.",)))
        return w
    if c == "a":
        w = None if got[:at + 1] == exp[:at + 1] and got[at + 1:] == ["execution aborted", "q"] else "abort: %s" % got[at + 1:]
        s.get("retractall(dy(_)).", "trace.")
        return w
    # what changes the resolution: ask the reference
    ev = sum(1 for i in stops[:k] if i[1][0] in ("Call", "Exit") and i[1][3] != "fail")
    if c in ("f", "u") and port[0] in ("Call", "Exit") and port[3] != "fail":
        r2 = reference(names, g, {ev: "f" if c == "f" else head})
        s.get("trace.", "retractall(dy(_)).")
        if r2 is None:
            return None
        segs, o = outputs(d)
        segs = [("\n".join(l for l in t.split("\n") if not l.startswith("Head: ")), kd, ky) for t, kd, ky in segs]
        return verify(names, r2[0], r2[1], segs)
    if c == "r":
        first = not any(i[1][1] == port[1] and i[1][0] in ("Exit", "Redo") for i in stops[:k])
        s.get("trace.", "retractall(dy(_)).")
        if "st(" in g or not first or port[0] == "Redo":
            return None
        segs, o = outputs(d)
        return verify(names, ref[0], ref[1], segs)
    s.get("trace.", "retractall(dy(_)).")
    return None


def base_items(d):
    """the items shape() keeps"""
    return [i for i in d.items if not (i[0] == "t" and i[1].strip() in ("{trace}", "{debug}"))]


def generalize(goal, k):
    """a head: the goal with constants put for its variables"""
    vs = {}
    return re.sub(r"(?<![A-Za-z0-9_])_\d+", lambda m: vs.setdefault(m.group(), "ab"[(len(vs) + k) % 2]), goal)


def cmd_job(arg):
    i, n, tier = arg
    s = Session(get_build())
    bad, cnt, tr = [], 0, 0
    hist = collections.Counter()
    try:
        for k, g in enumerate(short_goals(tier)):
            if k % n != i or len(bad) > 8:
                continue
            names = names_in(g)
            ref = reference(names, g)
            if ref is None:
                hist["SKIP " + g[:40]] += 1
                continue
            base = None

            def start():
                s.drop()
                s.get("trace.")
                return Dialogue(s.top, g, RET)
            try:
                base = start()
                w = check_trace(names, ref, base)
            except Dead as e:
                w = str(e)
            if w:
                s.drop()
                bad.append(("%s (stopping)" % g, "%s\ndialogue: %s" % (w, base and "\n".join(map(str, base.items)))))
                continue
            for pos, c in cmd_cases(base, tier):
                try:
                    if "st(" in g or s.top is None:
                        s.drop()
                        s.get("trace.")
                    w = check_cmd(s, g, names, ref, base, pos, c)
                except Dead as e:
                    w = str(e)
                cnt += 1
                tr += len(base.items)
                hist["%s %s" % (c, [x for x in base.items if x[0] == "s"][pos][1][0])] += 1
                if w:
                    s.drop()
                    bad.append(("%s: %s at prompt %d" % (g, c, pos), "%s\nat %s\nbaseline: %s" % (w, [x for x in base.items if x[0] == "s"][pos][1], "\n".join(base.shape()))))
                    if len(bad) > 8:
                        break
    finally:
        s.close()
    return cnt, tr, bad, hist


# ---- family spies
SPIED = ["mem", "col", "one", "thr", "is", "=", "findall", "dj"]
CONDS = [("mem(X, _)", "call", "var(X)"), ("mem(X, _)", "_", "nonvar(X)"), ("mem(_, L)", "exit", "true"), ("mem(1, _)", "P", "P == exit"), ("mem(_, [_])", "_", "_"), ("col(X)", "redo", "X == r"), ("col(X)", "_", "fail"), ("mem(_, _)", "fail", "_"), ("thr(_)", "exception", "true"),
         ("one(X)", "call", "(X = 1, nonvar(X))"), ("mem(X, _)", "_", "(X = 1 ; X = 2)"), ("mem(X, _)", "call", "mem(X, [2])")]


def cond_holds(cond, port):
    """does the condition hold for this port?"""
    t = parse("c(%s,%s,(%s))" % cond)[0]
    g = parse("(%s)" % port[3])[0]
    m = Machine(4000)
    m.out = []
    for c in parse_program(PROG.replace(":- dynamic(dy/1).\n", "")):
        m.add(c, dynamic=False)
    if not m.unify(t.args[0], g) or not m.unify(t.args[1], Atom(port[0].lower())):
        return False
    if type(deref(t.args[2])) is V:
        return True
    return m.once_solve(t.args[2])


def spy_job(arg):
    i, n, tier = arg
    s = Session(get_build())
    bad, cnt, tr = [], 0, 0
    hist = collections.Counter()
    sets = [c for r in range(0, 4 if tier != "quick" else 3) for c in itertools.combinations(SPIED, r)]
    try:
        for k, g in enumerate(short_goals(tier)):
            if k % n != i or len(bad) > 8:
                continue
            names = names_in(g)
            ref = reference(names, g)
            if ref is None:
                continue
            try:
                s.drop()
                base = Dialogue(s.get("trace."), g, RET)
            except Dead as e:
                bad.append((g, str(e)))
                continue
            used = set(re.match(r"[a-z]+", p[3]).group() for p in base.ports() if re.match(r"[a-z]+", p[3]))
            todo = [("set", c) for c in sets if (tier != "quick" or len(c) < 2 or set(c) & used)] + [("cond", c) for c in CONDS if re.match("[a-z]+", c[0]).group() in used]
            for what, c in todo:
                try:
                    if "st(" in g:
                        s.drop()
                    top = s.get("nospyall.", "debug.")
                    if what == "set":
                        for p in c:
                            top.ask("spy(%s)." % ("(%s)" % p if p in ("is", "=") else p), "")
                        top.ask("debug.", "")
                        keep = lambda p: functor(p[3]) in c
                    else:
                        top.ask("spypoint_condition(%s,%s,%s)." % c, "")
                        top.ask("debug.", "")
                        keep = lambda p: functor(p[3]) == re.match("[a-z]+", c[0]).group() and cond_holds(c, p)
                    d = Dialogue(top, g, lambda k_, p, d_: "l\n")
                    e = [y for y, it in zip(base.shape(), base_items(base)) if it[0] not in "ps" or keep(it[1])]
                    got = d.shape()
                    w = None if e == got else "expected %s\ngot %s" % (e, got)
                    if not w:
                        for p in d.ports():
                            if p[4] != "+":
                                w = "a port without its mark: %s" % (p,)
                except Dead as x:
                    w = str(x)
                cnt += 1
                tr += len(base.items)
                hist["%s %s" % (what, c)] += 1
                if w:
                    s.drop()
                    bad.append(("%s with %s %s" % (g, what, c), "%s\nbaseline %s" % (w, "\n".join(base.shape()))))
                    if len(bad) > 8:
                        break
    finally:
        s.close()
    return cnt, tr, bad, hist


def functor(text):
    try:
        return key(parse("(%s)" % text)[0])[0]
    except ValueError:
        return re.match("[a-z]+", text).group()


def run(ck, name, fn, args):
    tot = 0
    for c, tr, bad, hist in parmap(fn, args):
        tot += c
        ck.add(states=c, transitions=tr, traces_validated_against_impl=c)
        for k, v in hist.items():
            ck.outcome(k, v)
        for k, t in bad:
            ck.violate("%s: %s" % (name, k), t)
    ck.cov.setdefault("cases_by_family", {})[name] = tot


def main():
    ck = Check("C37")
    get_build()
    run(ck, "trace", trace_job, [(i, 24, ck.tier) for i in range(24)])
    run(ck, "commands", cmd_job, [(i, 48, ck.tier) for i in range(48)])
    run(ck, "spies", spy_job, [(i, 48, ck.tier) for i in range(48)])
    return ck.finish(rule="each (query, command, position) compared with the reference resolution and with the dialogue without the command")
