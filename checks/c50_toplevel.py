"""C50: the top level answers what the query means.

answers: every goal of a grammar x every key sequence, asked to the real top level through pipes; what is printed is read
back (reference reader) and compared with the solutions of the reference interpreter: names, order, prompts, yes/no/error.
histories: every sequence of items (queries that succeed, fail, raise, abort, stop, break, do i/o, change flags, syntax
errors, end of file in a nested level) up to a depth, with a model of the nesting and of the state.
options: every sequence of command-line options up to a length."""
import collections
import itertools
import os
import re
import select
import shutil
import subprocess
import tempfile

from vlib.build import WORK, get_build
from vlib.cases import short
from vlib.refpl import Machine, PlError, S, StepLimit, V, VarOrder, copy, deref, parse, parse_program
from vlib.report import Check
from vlib.runner import parmap, die_with_parent

PROMPT, MORE = "| ?- ", " ? "


class Dead(Exception):
    pass


class Top:
    """a top level driven prompt by prompt"""

    def __init__(self, b, d, args=("--quiet",)):
        self.p = subprocess.Popen(["gprolog", *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  env=b.env(GLOBALSZ="8192", LOCALSZ="4096", TRAILSZ="4096", CSTRSZ="256", MAX_ATOM="32768", LINEDIT="no"), cwd=d, preexec_fn=die_with_parent)
        self.fd = self.p.stdout.fileno()

    def send(self, text):
        try:
            self.p.stdin.write(text.encode("latin-1"))
            self.p.stdin.flush()
        except OSError:
            raise Dead("the top level is gone")

    def read(self):
        """up to the next prompt: (text, 'q' main prompt | 'm' more? | 'e' end)"""
        buf = b""
        while True:
            r, _, _ = select.select([self.fd], [], [], 30)
            if not r:
                raise Dead("no prompt after 30 s; output so far: %r" % buf[-500:])
            c = os.read(self.fd, 65536)
            if not c:
                return buf.decode("latin-1"), "e"
            buf += c
            if buf.endswith(b"| ?- "):
                return buf[:-5].decode("latin-1"), "q"
            if buf.endswith(b" ? "):
                return buf[:-3].decode("latin-1"), "m"

    def ask(self, line, keys):
        """[(text, kind, key given)]; kind of the last one is q or e"""
        self.send(line + "\n")
        keys = list(keys)
        out = []
        while True:
            t, k = self.read()
            if k != "m":
                out.append((t, k, None))
                return out
            key = keys.pop(0) if keys else "\n"
            out.append((t, k, key))
            if len(out) > 60:
                raise Dead("60 prompts for one query")
            self.send(key if key == "\n" else key + "\n")

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()


# ---- the reference: what the lines printed must mean
MODEL = [("length(X, 2)", "X = [_, _]"), ("length(A, 1)", "A = [_]"), ("functor(Y, f, 3)", "Y = f(_, _, _)"), ("X =.. [h, B, _Z]", "X = h(B, _Z)"), ("member(", "mem("),
         ("append(X, Y, [1, 2])", "( X = [], Y = [1, 2] ; X = [1], Y = [2] ; X = [1, 2], Y = [] )"), ("between(1, 3, Y)", "btw(Y)")]
PROG = parse_program("mem(X, [X|_]).\nmem(X, [_|L]) :- mem(X, L).\nbtw(X) :- var(X), !, mem(X, [1, 2, 3]).\nbtw(X) :- integer(X), !, X >= 1, X =< 3.\nbtw(X) :- throw(error(type_error(integer, X), 0)).\n")


def solutions(names, goal):
    """([{name: term}], end) or None when the reference does not say"""
    try:
        for real, model in MODEL:
            goal = goal.replace(real, model)
        t, vs = parse("(" + goal + ")")
    except ValueError:
        return None
    m = Machine(4000)
    m.acyclic = True
    m.out = []
    for c in PROG:
        m.add(c, dynamic=False)
    sols = []
    try:
        for _ in m.solve(t):
            c = copy(S("t", tuple(vs[n] for n in names))) if names else None
            sols.append(dict(zip(names, c.args)) if names else {})
            if m.out or len(sols) > 11 or m.unordered:
                return None
        return sols, None
    except PlError as e:
        t = deref(e.term)
        if type(t) is S and t.name == "error" and len(t.args) == 2:
            return sols, ("error", t.args[0])
        return sols, ("ball", t)
    except (StepLimit, VarOrder, RecursionError):
        return None


def vars_of(t, out):
    t = deref(t)
    if type(t) is V:
        out.append(t)
    elif type(t) is S:
        for a in t.args:
            vars_of(a, out)
    return out


def display(names, sol):
    """names of variables, what is displayed"""
    named, shown = {}, []
    for n in sorted(names):
        t = deref(sol[n])
        if type(t) is V and t not in named:
            named[t] = n
        elif not n.startswith("_") and not (type(t) is V and named[t].startswith("_")):
            shown.append((n, t))
    occ = collections.Counter()
    for n, t in shown:
        occ.update(vars_of(t, []))
    return named, shown, occ


def same(e, g, named, occ, names, gv, bij):
    e, g = deref(e), deref(g)
    if type(e) is V:
        if type(g) is not V:
            return False
        gn = gv.get(g, "_")
        if e in named:
            return gn == named[e]
        if occ[e] == 1:
            return gn == "_"
        if gn == "_" or gn in names or not re.fullmatch("[A-Z][A-Za-z0-9_]*", gn):
            return False
        return bij.setdefault(e, gn) == gn and bij.setdefault(("r", gn), e) == e
    if type(e) is S:
        return type(g) is S and g.name == e.name and len(g.args) == len(e.args) and all(same(x, y, named, occ, names, gv, bij) for x, y in zip(e.args, g.args))
    return type(e) is type(g) and e == g


def lines(t):
    return [l.strip() for l in t.split("\n") if l.strip()]


def sol_lines(names, sol, ls, prompted):
    """how many lines of ls show this solution, or None"""
    named, shown, occ = display(names, sol)
    if not shown:
        if prompted is None:  # in 'all' mode: true is printed when there may be more
            return 1 if ls[:1] == ["true"] else 0
        return (1 if ls[:1] == ["true"] else None) if prompted else 0
    bij = {}
    for i, (n, t) in enumerate(shown):
        if i >= len(ls) or not ls[i].startswith(n + " = "):
            return None
        try:
            g, vs = parse(ls[i][len(n) + 3:])
        except ValueError:
            return None
        if not same(t, g, named, occ, names, {v: k for k, v in vs.items()}, bij):
            return None
    return len(shown)


def ren(t, m):
    t = deref(t)
    if type(t) is V:
        return ("v", m.setdefault(t, len(m)))
    if type(t) is S:
        return (t.name,) + tuple(ren(a, m) for a in t.args)
    return t


def end_ok(end, ls):
    ls = [re.sub(r"^\(\d+ ms\) ", "", l) for l in ls]
    if end is None:
        return ls == ["no"]
    if len(ls) != 1 or not ls[0].startswith("uncaught exception: "):
        return False
    try:
        g = parse(ls[0][20:])[0]
    except ValueError:
        return False
    if end[0] == "error":
        return type(g) is S and g.name == "error" and len(g.args) == 2 and ren(g.args[0], {}) == ren(end[1], {})
    return ren(g, {}) == ren(end[1], {})


YES = lambda ls: [re.sub(r"^\(\d+ ms\) ", "", l) for l in ls] == ["yes"]


def verify(names, sols, end, segs):
    """None or what is wrong"""
    i = 0
    k = 0
    while True:
        text, kind, key = segs[k]
        ls = lines(text)
        if kind == "e":
            return "the top level ended"
        if i == len(sols):
            return None if kind == "q" and end_ok(end, ls) else "after %d solutions: %r" % (i, ls)
        n = sol_lines(names, sols[i], ls, kind == "m")
        if n is None:
            return "solution %d shown as %r" % (i + 1, ls)
        ls = ls[n:]
        if kind == "q":
            if i == len(sols) - 1 and end is None and YES(ls):
                return None
            return "after solution %d without a prompt: %r" % (i + 1, ls)
        if ls:
            return "after solution %d: %r" % (i + 1, ls)
        while True:
            k += 1
            text, kind, nkey = segs[k]
            ls = lines(text)
            if key == "\n":
                return None if kind == "q" and YES(ls) else "after return: %r" % ls
            if key in "; ":
                if key == " " and text.startswith("\b;"):
                    segs[k] = (text[2:], kind, nkey)
                i += 1
                break
            if key == "a":
                i += 1
                while i < len(sols):
                    n = sol_lines(names, sols[i], ls, None)
                    if n is None:
                        return "after a: solution %d shown as %r" % (i + 1, ls)
                    ls = ls[n:]
                    i += 1
                if kind != "q":
                    return "a prompt after a"
                return None if end_ok(end, ls) or end is None and YES(ls) else "after a: %r" % ls
            if not (len(ls) == 1 and ls[0].startswith("Action (")) or kind != "m":
                return "after another key: %r" % ls
            key = nkey


# ---- family answers
VS = ["X", "Y", "_Z", "A"]
TERMS = ["1", "b", "'B c'", "f(Y)", "f(Y,Y)", "[Y|A]", "[X1,a]", "g(_Z,_)", "- 1", "Y - 1", "\"s\"", "- (1)", "1 - (2 - 3)", "- a", "(a :- b, c)", "[]", "f(,)", "{a,Y}", "[(a , b)]", "f((a :- b))", "(\\+ a)", "[(-)]", "'\\n'", "1.5", "f(;, '|', '[]', {})",
         "'$VAR'(1)", "'A'", "'_'", "a = b", "f(a = b)", "(a = b)"]


def atoms_of(tier):
    a = []
    for t in TERMS:
        if t in ("a = b", "f(,)"):
            continue
        a.append("X = %s" % t)
    for v, w in itertools.permutations(VS, 2):
        a.append("%s = %s" % (v, w))
    a += ["Y = 2", "A = f(_Z)", "_Z = 3", "Y = f(B, C)", "_ = a", "Y = f(_)", "A = [_Z, _Z]"]
    a += ["copy_term(f(Y, A1, A1, _), X)", "copy_term([P, Q, P], Y)", "length(X, 2)", "length(A, 1)", "functor(Y, f, 3)", "X =.. [h, B, _Z]", "copy_term(g(_Z, Y), A)", "copy_term(k(U1, U2, U1, U2), _Z)"]
    multi = ["member(X, [1, Y, c])", "( X = 1 ; X = Y )", "member(A, [_Z, f(_Z)])", "( true ; true )", "append(X, Y, [1, 2])", "( X = 1 ; fail )", "( fail ; X = 2 ; Y = 3 )", "member(_Z, [1, 2])", "( X = 1 ; throw(b(X, Y)) )", "between(1, 3, Y)", "( A = 1 ; atom_length(_, _) )", "once(member(X, [1, 2]))", "( X = Y ; Y = _Z ; A = X )"]
    ends = ["fail", "throw(ball)", "throw(t(X, Y, X))", "atom_length(_, Y)", "undefd(X)", "X \\= X", "call(1)", "catch(throw(c(X)), c(Y), true)", "true", "!", "\\+ X = 1"]
    return a, multi, ends


KEYS = [k for n in (0, 1, 2) for k in itertools.product((";", "a", "\n"), repeat=n)] + [(" ",), (" ", " ", " "), ("z", ";"), ("z", "z", "\n"), (";", ";", ";"), (";", "z", "a"), ("h",)]


def goals(tier):
    a, multi, ends = atoms_of(tier)
    one = [";", ";", ";"]
    for g in a + ends:
        yield g, False
    for g in multi:
        yield g, True
    for g, h in itertools.product(a, a):
        yield "%s, %s" % (g, h), False
    for g, h in itertools.product(a + ends, multi):
        yield "%s, %s" % (g, h), True
        yield "%s, %s" % (h, g), True
    for g, h in itertools.product(multi, multi):
        yield "%s, %s" % (g, h), True
    for g, h in itertools.product(a, ends):
        yield "%s, %s" % (g, h), False
        yield "( %s ; %s )" % (g, h), True
    if tier != "quick":
        for g, h, i in itertools.product(a, a, multi):
            yield "%s, %s, %s" % (g, h, i), True


def names_in(goal):
    g = re.sub(r"'(\\.|[^'])*'|\"[^\"]*\"", "", goal)
    return sorted(set(v for v in re.findall(r"(?<![a-zA-Z0-9_])[A-Z_][A-Za-z0-9_]*", g) if v != "_"))


def answers_job(arg):
    i, n, tier = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, cnt, tr, skipped = [], 0, 0, 0
    hist = collections.Counter()
    top = None
    recent = collections.deque(maxlen=4)
    try:
        for k, (g, many) in enumerate(goals(tier)):
            if k % n != i or len(bad) > 8:
                continue
            names = names_in(g)
            r = solutions(names, g)
            if r is None:
                skipped += 1
                hist['SKIP ' + g[:40]] += 1
                continue
            sols, end = r
            for keys in (KEYS if many and len(sols) + (end is not None) > 1 and (tier != "quick" or k % 4 == 0) else [(";",) * 5, ("a",), ()] if many else [(";",) * 5]):
                try:
                    if top is None:
                        top = Top(b, d)
                        top.read()
                    segs = top.ask(g + ".", keys)
                    w = verify(names, sols, end, segs)
                except Dead as e:
                    segs, w = [], str(e)
                cnt += 1
                tr += len(segs)
                hist[short(" ".join(t.split("=")[0] for t, _, _ in segs), 60)] += 1
                if w:
                    bad.append(("%s. keys %s" % (g, "".join(keys).replace("\n", "~")), "%s\nsolutions: %s then %s\nwhole dialogue: %r\nbefore: %s" % (w, sols, end, segs, list(recent))))
                    top.close()
                    top = None
                recent.append(g)
    finally:
        if top:
            top.close()
        shutil.rmtree(d, ignore_errors=True)
    return cnt, tr, bad, hist


# ---- family histories
SQ = lambda s: "".join(re.sub(r"\(\d+ ms\) ", "", s).split())
SYN = "uncaughtexception:error(syntax_error("


class Model:
    def __init__(self):
        self.stack = []  # what the outer queries print when the nested level ends
        self.flag = "error"
        self.g = "0"
        self.out = True

    def ind(self):
        return "{%d}" % len(self.stack) if self.stack else ""


def q(goal, text, keys=""):
    return (goal, keys, lambda m: text)


def w_(text, then):
    return lambda m: (text if m.out else "") + then


def brk(then, keys=""):
    def f(m):
        m.stack.append(then)
        return "{BreakLevel%d}" % len(m.stack)
    return f


def eof(m):
    return "{EndBreak}" + m.stack.pop()


def setflag(v):
    def f(m):
        m.flag = v
        return "yes"
    return f


def synerr(m):
    return {"error": SYN, "warning": "warning", "fail": "no"}[m.flag]


def setg(v):
    def f(m):
        m.g = v
        return "yes"
    return f


def setout(v):
    def f(m):
        m.out = v
        return "yes"
    return f


ITEMS = [
    ("X = f(Y,_Z,_,Y).", "", lambda m: "X=f(Y,_Z,_,Y)yes"),
    ("member(X,[1,2]).", ";", lambda m: "X=1?X=2yes"),
    ("member(X,[1,2]).", "\n", lambda m: "X=1?yes"),
    ("member(X,[1,2,3]).", "a", lambda m: "X=1?X=2X=3yes"),
    ("fail.", "", lambda m: "no"),
    ("throw(a).", "", lambda m: "uncaughtexception:a"),
    ("member(X,[1,2]), throw(b).", "", lambda m: "uncaughtexception:b"),
    ("member(X,[1,2]), (X = 1 ; abort).", ";", lambda m: "X=1?executionaborted"),
    ("abort.", "", lambda m: "executionaborted"),
    ("catch(abort,_,true).", "", lambda m: "executionaborted"),
    ("member(X,[1,2]), (X = 1 ; stop).", ";", lambda m: "X=1?"),
    ("stop.", "", lambda m: ""),
    ("foo bar.", "", synerr),
    ("X = ) .", "", synerr),
    ("set_prolog_flag(syntax_error,fail).", "", setflag("fail")),
    ("set_prolog_flag(syntax_error,warning).", "", setflag("warning")),
    ("set_prolog_flag(syntax_error,error).", "", setflag("error")),
    ("write(abc).", "", w_("abc", "yes")),
    ("write(abc), throw(x).", "", w_("abc", "uncaughtexception:x")),
    ("write(abc), abort.", "", w_("abc", "executionaborted")),
    ("write(user_output,abc), fail.", "", lambda m: "abcno"),
    ("g_assign(k,1).", "", setg("1")),
    ("g_assign(k,2), fail.", "", lambda m: (setg("2")(m), "no")[1]),
    ("g_read(k,X).", "", lambda m: "X=%syes" % m.g),
    ("read(X).\nfoo(bar).", "", lambda m: "X=foo(bar)yes"),
    ("get_char(X).\nq", "", lambda m: "X=qyes"),
    ("read(X), throw(X).\nzz.", "", lambda m: "uncaughtexception:zz"),
    ("open('/dev/null',write,_S), set_output(_S).", "", setout(False)),
    ("set_output(user_output).", "", setout(True)),
    ("break.", "", brk("yes")),
    ("X = 1, break, Y = X.", "", brk("X=1Y=1yes")),
    ("break, fail.", "", brk("no")),
    ("break, throw(in).", "", brk("uncaughtexception:in")),
    ("catch(break,_,true).", "", brk("yes")),
    ("break, abort.", "", brk("executionaborted")),
    ("end_of_file.", "", eof),
    ("X = f(X).", "", lambda m: "cannotdisplaycyclictermforXyes"),
    ("fd_domain(X,1,3), Y = X.", "", lambda m: "X=_#0(1..3)Y=_#0(1..3)yes"),
    ("fd_domain(X,1,2), fd_labeling(X).", ";", lambda m: "X=1?X=2yes"),
    ("X = '$VARNAME'(a).", "", None),
]
ITEMS = [x for x in ITEMS if x[2]]


def check_item(m, it, segs):
    level = len(m.stack)
    exp = it[2](m)
    got = "".join(t + ("?" if k == "m" else "") for t, k, _ in segs)
    if segs[-1][1] == "e":
        return "the top level ended"
    got = SQ(got)
    ind = m.ind()
    if ind:
        if not got.endswith(ind):
            return "expected the indicator %s, got %s" % (ind, got)
        got = got[:-len(ind)]
    if got != exp and not (exp in (SYN, "warning") and got.startswith(exp) and "{" not in got):
        return "expected %s, got %s" % (exp, got)


def hist_job(arg):
    depth, heads, tier = arg
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, cnt, tr = [], 0, 0
    hist = collections.Counter()
    top = m = None
    trail = []

    def reset():
        nonlocal top, m
        if top:
            top.close()
        top = Top(b, d)
        top.read()
        m = Model()
        del trail[:]
        top.ask("g_assign(k,0).", "")

    def step(it):
        nonlocal tr
        trail.append(it[0])
        try:
            segs = top.ask(it[0], it[1])
            w = check_item(m, it, segs)
        except Dead as e:
            segs, w = [], str(e)
        tr += len(segs)
        hist[short(it[0] + " " + str(len(m.stack)), 60)] += 1
        if w:
            bad.append((" ".join(trail[-depth:]).replace("\n", " "), "%s\nlevel %d\nlast dialogue: %r\nall queries since the start: %s" % (w, len(m.stack), segs, trail[-30:])))
            reset()
            return False
        return True

    try:
        reset()
        for h in heads:
            for rest in itertools.product(range(len(ITEMS)), repeat=depth - 1):
                if len(bad) > 8:
                    break
                seq = [ITEMS[h]] + [ITEMS[r] for r in rest]
                lv = 0
                for it in seq:  # end_of_file only inside a nested level
                    if it[2] is eof:
                        lv -= 1
                        if lv < 0:
                            break
                    elif "break" in it[0]:
                        lv += 1
                if lv < 0:
                    continue
                cnt += 1
                if len(trail) > 400:
                    reset()
                ok = all(step(it) for it in seq)
                while ok and m.stack:  # leave the nested levels
                    ok = step(EOF)
                if ok:
                    for it in RESTORE:
                        if not step(it):
                            break
    finally:
        if top:
            top.close()
        shutil.rmtree(d, ignore_errors=True)
    return cnt, tr, bad, hist


EOF = ("end_of_file.", "", eof)
RESTORE = [("set_output(user_output), set_prolog_flag(syntax_error,error), g_assign(k,0).", "", lambda m: (setout(True)(m), setflag("error")(m), setg("0")(m), "yes")[3]), ("member(X,[1,2]), Y = Z.", ";", lambda m: "X=1Z=Y?X=2Z=Yyes")]


# ---- family options
OPTS = [("--init-goal", "write(i1)", "i1", None), ("--init-goal", "fail", "warning:command-linegoalfailfailed", None), ("--init-goal", "throw(ib)", "warning:command-linegoal'throw(ib)'causedexception:ib", None),
        ("--consult-file", "c1.pl", "", None), ("--consult-file", "nofile", "warning:command-lineconsultingfilenofilefailedduetoexistence_error(source_sink,'nofile.pl')", None),
        ("--entry-goal", "write(e1)", "e1", None), ("--entry-goal", "c1(X),write(X)", None, None), ("--entry-goal", "fail", "warning:command-linegoalfailfailed", None), ("--entry-goal", "throw(eb)", "warning:command-linegoal'throw(eb)'causedexception:eb", None),
        ("--entry-goal", "abort", "executionaborted", None), ("--entry-goal", "stop", "", None),
        ("--query-goal", "X = 3", "|?-X=3.X=3yes", None), ("--query-goal", "fail", "|?-fail.no", None), ("--query-goal", "throw(qb)", "|?-throw(qb).uncaughtexception:qb", None), ("--query-goal", "abort", "|?-abort.executionaborted", None),
        ("--query-goal", "c1(Y)", None, None), ("--query-goal", "member(X,[1,2])", "|?-member(X,[1,2]).X=1?yes", None)]


def opt_expected(seq):
    consulted = any(OPTS[o][1] == "c1.pl" for o in seq)
    out = ""
    for kind in ("--init-goal", "--consult-file", "--entry-goal", "--query-goal"):
        for o in seq:
            k, g, e, _ = OPTS[o]
            if k != kind:
                continue
            if e is None:
                if k == "--entry-goal":
                    e = "7" if consulted else "warning:command-linegoal'c1(X),write(X)'causedexception:error(existence_error(procedure,c1/1),'command-line')"
                else:
                    e = "|?-c1(Y).Y=7yes" if consulted else "|?-c1(Y).uncaughtexception:error(existence_error(procedure,c1/1),top_level/0)"
            out += e
    return out


def opts_job(arg):
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    bad, cnt = [], 0
    hist = collections.Counter()
    try:
        open(os.path.join(d, "c1.pl"), "w").write("c1(7).\n")
        for seq in arg:
            if len(bad) > 8:
                break
            args = ["gprolog", "--quiet"]
            for o in seq:
                args += [OPTS[o][0], OPTS[o][1]]
            nq = sum(OPTS[o][1].startswith("member") for o in seq)
            p = subprocess.run(args, input=("\n" * nq + "Z = f(X,_).\nbreak.\nc1(Z).\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=b.env(LINEDIT="no", MAX_ATOM="32768"), cwd=d, timeout=60, preexec_fn=die_with_parent)
            got = p.stdout.decode("latin-1")
            got = SQ(got)
            nested = "Z=7yes" if any(OPTS[o][1] == "c1.pl" for o in seq) else "uncaughtexception:error(existence_error(procedure,c1/1),top_level/0)"
            exp = opt_expected(seq) + "|?-Z=f(X,_)yes|?-{BreakLevel1}{1}|?-%s{1}|?-{EndBreak}yes|?-" % nested
            cnt += 1
            hist[got[:40]] += 1
            if got != exp or p.returncode:
                bad.append((" ".join(args[2:]), "exit %s\nexpected %s\ngot      %s" % (p.returncode, exp, got)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cnt, cnt, bad, hist


def run(ck, name, fn, args):
    tot = 0
    for c, tr, bad, hist in parmap(fn, args):
        tot += c
        ck.add(states=c, transitions=tr, traces_validated_against_impl=c)
        for k, v in hist.items():
            ck.outcome(k, v)
        for k, t in bad:
            ck.violate("%s: %s" % (name, k), t)
    ck.cov.setdefault("cases_by_family", {})[name] = tot


def main():
    ck = Check("C50")
    get_build()
    run(ck, "answers", answers_job, [(i, 24, ck.tier) for i in range(24)])
    depth = ck.pick(3, 4)
    run(ck, "history", hist_job, [(depth, [h], ck.tier) for h in range(len(ITEMS))])
    seqs = [s for n in range(0, ck.pick(4, 5)) for s in itertools.product(range(len(OPTS)), repeat=n)]
    run(ck, "options", opts_job, [seqs[i::24] for i in range(24)])
    ck.sample("member(X, [1, Y, c]), X = f(Y). keys ;a")
    return ck.finish(rule="every goal of the grammar x key sequence; every history of the items up to depth %d; every option sequence up to length %d" % (depth, ck.pick(3, 4)))
