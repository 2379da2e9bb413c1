"""C31: DCG translation preserves the grammar's language.

Every grammar body up to a size, as a compiled rule, a consulted rule, a rule expanded at run time and a body given to
phrase, on every short input (and partial and output-bound calls), against the textbook reading of the rules run by the
reference interpreter."""
import itertools
from vlib.cases import run_cases, server_exe
from vlib.goals import Ref, match
from vlib.progs import run_units
from vlib.report import Check

# ---- bodies: nested tuples
LEAVES = [("t", "a"), ("t", "b"), ("t",), ("t", "a", "b"), ("n", "n1"), ("n", "n2"), ("n", "n3(X)"), ("!",), ("{}", "fail"), ("{}", "tr(x)"), ("{}", "X=k"), ("{}", "!"), ("call", "n2"), ("call", "n3", "X"), ("tv", "X")]
SHARED = [("n1", (), ("t", "a")), ("n2", (), (",", ("t", "a"), ("{}", "tr(n)"))), ("n2", (), ("t",)), ("n3(X)", (), ("tv", "X")), ("n4", ("a",), ("t", "b"))]


def src(b):
    o = b[0]
    if o == "t":
        return "[" + ",".join(b[1:]) + "]"
    if o == "tv":
        return "[" + b[1] + "]"
    if o == "s":
        return '"' + b[1] + '"'
    if o == "n":
        return b[1]
    if o == "!":
        return "!"
    if o == "{}":
        return "{%s}" % b[1]
    if o == "call":
        return "call(%s)" % ",".join(b[1:])
    if o == "\\+":
        return "\\+(%s)" % src(b[1])
    return "(%s %s %s)" % (src(b[1]), o, src(b[2]))


class Tr:
    def __init__(self):
        self.k = 0

    def new(self):
        self.k += 1
        return "S_%d" % self.k

    def body(self, b, s0, s):
        o = b[0]
        if o in ("t", "tv"):
            return "%s=%s" % (s0, "[%s|%s]" % (",".join(b[1:]), s) if len(b) > 1 else s)
        if o == "s":
            return "%s=%s" % (s0, "[%s|%s]" % (",".join(str(ord(c)) for c in b[1]), s) if b[1] else s)
        if o == "n":
            n = b[1]
            return "%s,%s,%s)" % (n[:-1], s0, s) if n.endswith(")") else "%s(%s,%s)" % (n, s0, s)
        if o == "call":
            return "call(%s,%s,%s)" % (",".join(b[1:]), s0, s)
        if o == "!":
            return "(!,%s=%s)" % (s0, s)
        if o == "{}":
            return "(%s,%s=%s)" % (b[1], s0, s)
        if o == "\\+":
            return "(\\+(%s),%s=%s)" % (self.body(b[1], s0, self.new()), s0, s)
        if o in (";", "|"):
            return "(%s;%s)" % (self.body(b[1], s0, s), self.body(b[2], s0, s))
        m = self.new()
        return "(%s%s%s)" % (self.body(b[1], s0, m), o, self.body(b[2], m, s))

    def rule(self, head, push, b, early=False):
        """early: the pushback is unified with the rest first (only seen when the rest is bound)"""
        h = "%s,S0,S)" % head[:-1] if head.endswith(")") else "%s(S0,S)" % head
        if not push:
            return "%s :- %s" % (h, self.body(b, "S0", "S"))
        m = self.new()
        if early:
            return "%s :- S=[%s|%s], %s" % (h, ",".join(push), m, self.body(b, "S0", m))
        return "%s :- %s, S=[%s|%s]" % (h, self.body(b, "S0", m), ",".join(push), m)


def both(cl):
    """the manual leaves open when the pushback is unified with a rest that is bound"""
    r1, r2 = (Ref(BASE + "".join(Tr().rule(h.replace("@@", "q_"), p, x, early) + ".\n" for h, p, x in cl)) for early in (False, True))
    if not any(p for _, p, _ in cl):
        return r1

    def f(t, g, mx=8):
        e = r1(t, g, mx)
        return e if e == r2(t, g, mx) else None
    return f


def rule_src(head, push, b):
    return "%s%s --> %s" % (head, ",[%s]" % ",".join(push) if push else "", src(b))


def bodies(leaves, bins, uns, n):
    memo = {1: list(leaves)}

    def gen(k):
        if k not in memo:
            out = [(u, b) for u in uns for b in gen(k - 1)]
            for i in range(1, k):
                out += [(o, x, y) for x in gen(i) for y in gen(k - i) for o in bins]
            memo[k] = out
        return memo[k]
    return gen(n)


def words(al, n):
    return ["[" + ",".join(w) + "]" for l in range(n + 1) for w in itertools.product(al, repeat=l)]


CALLS = [("I=%s" % w) for w in words("ab", 2)] + ["I=[a,b,a]", "I=[a|_]", "I=[b,a|_]", "I=_", "(I=[a,b],O=[b])", "(I=[a,b],O=[a,b])", "(I=[a],O=[])", "(I=[b,a],O=[a])", "(I=[a],O=x)", "(I=[X,Y])", "(I=[X,b],O=[b])", "O=[a]"]
BASE = "".join(Tr().rule(*r) + ".\n" for r in SHARED)


def some_bodies(tier):
    bs = []
    for k in (1, 2):
        bs += bodies(LEAVES, [",", ";", "->", "*->", "|"][:5], ["\\+"], k)
    bs += bodies([("t", "a"), ("t",), ("n", "n2"), ("!",), ("{}", "tr(x)")] + ([("tv", "X"), ("{}", "!")] if tier != "quick" else []), [",", ";", "->", "*->"], ["\\+"], 3)
    bs += bodies([("t", "a"), ("n", "n2"), ("!",)], [",", ";", "->"] if tier != "quick" else [",", ";"], ["\\+"] if tier != "quick" else [], 4)
    return bs


def ok(b):
    """a|b is only read as a disjunction at priority above 1000, and if-then without else is a choice of its own"""
    return True


def rules(i, n, tier):
    k = 0
    for b in some_bodies(tier):
        for push in ((), ("b",)) if size(b) < 3 else ((),):
            for alt in (True, False) if size(b) < 3 else (True,):
                k += 1
                if k % n != i:
                    continue
                cl = [("@@p(X)", push, b)] + ([("@@p(z)", (), ("t", "a"))] if alt else [])
                ref = both(cl)
                calls = []
                for c in CALLS if size(b) < 3 else CALLS[:6] + CALLS[7:8] + CALLS[10:14]:
                    e = ref("t(X,I,O)", "(%s,q_p(X,I,O))" % c)
                    if e is not None:
                        calls.append((8, "t(X,I,O)", "(%s,%s)" % (c, "phrase(@@p(X),I,O)" if k % 3 else "@@p(X,I,O)"), e))
                    if "O=" not in c:
                        e = ref("t(X,I)", "(%s,q_p(X,I,[]))" % c)
                        if e is not None:
                            calls.append((8, "t(X,I)", "(%s,phrase(@@p(X),I))" % c, e))
                yield src(b) + (" pushback" if push else ""), [rule_src(*r) for r in cl], calls


def size(b):
    return 1 if b[0] in ("t", "tv", "n", "!", "{}", "call", "s") else sum(size(x) for x in b[1:]) + (b[0] == "\\+")


def direct(i, n, tier):
    """phrase on a body, and rules expanded at run time"""
    ref = Ref(BASE)
    for k, b in enumerate(some_bodies(tier)):
        if k % n != i:
            continue
        g = "call((%s))" % Tr().body(b, "I", "O")
        for j, c in enumerate(CALLS if size(b) < 3 else CALLS[1:6]):
            e = ref("t(X,I,O)", "(%s,%s)" % (c, g))
            if e is not None:
                yield "phrase %s" % src(b), 8, "t(X,I,O)", "(%s,phrase(%s,I,O))" % (c, src(b)), e
                yield "phrase %s in a variable" % src(b), 8, "t(X,I,O)", "(%s,P=(%s),phrase(P,I,O))" % (c, src(b)), e
                if "," in src(b):
                    yield "phrase %s late" % src(b), 8, "t(X,I,O)", "(%s,P=({true},Q),Q=(%s),phrase(P,I,O))" % (c, src(b)), e
        if size(b) < 3:
            for push in ((), ("b",), ("b", "a")):
                cl = [("q_p(X)", push, b), ("q_p(z)", (), ("t", "a"))]
                r2 = both(cl)
                ex = ",".join("expand_term((%s),C%d),assertz(C%d)" % (rule_src(*r), j, j) for j, r in enumerate(cl))
                for c in CALLS:
                    e = r2("t(X,I,O)", "(%s,q_p(X,I,O))" % c)
                    if e is not None:
                        yield "expanded %s" % src(b), 8, "t(X,I,O)", "(retractall(q_p(_,_,_)),\\+ \\+ (%s),%s,phrase(q_p(X),I,O))" % (ex, c), e


def strings(i, n, tier):
    """strings of each double_quotes flag, and what is not a body"""
    if i:
        return
    for s in ("", "a", "ab", "ba"):
        for t in ("", "a", "b"):
            for o in (",", ";", "->"):
                b = (o, ("s", s), ("s", t))
                for w in ("", "a", "b", "ab", "aba", "baa"):
                    for out in ("_", "[]", "[97]"):
                        e = Ref(BASE)("t(I,O)", "(I=[%s],O=%s,%s)" % (",".join(str(ord(c)) for c in w), out, Tr().body(b, "I", "O")))
                        yield "string %s" % src(b), 8, "t(I,O)", '(I="%s",O=%s,phrase(%s,I,O))' % (w, out, src(b)), e
    for g, e in (("phrase(_,[a],X)", "!instantiation_error"), ("phrase(1,[a],X)", "!type_error(callable,1)"), ("phrase((n1,_),[a],X)", "!instantiation_error"), ("phrase((n1,1),[a],X)", None), ("phrase(undefd,[a],X)", "!existence_error(procedure,/(undefd,2))"),
                 ("phrase(undefd(b),[a])", "!existence_error(procedure,/(undefd,3))"), ("phrase((n1,{throw(b)}),[a],X)", "!!b"), ("phrase(([a],{_}),[a],X)", "!instantiation_error"), ("phrase(\\+[a],[b],X)", "='.'(b,[])\tno"), ("phrase([a|_],[a],X)", None), ("expand_term((_-->a),X)", "!instantiation_error"), ("expand_term((1-->a),X)", "!type_error(callable,1)"),
                 ("expand_term((a,b-->c),X)", "!type_error(list,b)"), ("expand_term((a,_-->c),X)", "!instantiation_error"), ("expand_term(_,X)", "='_G'(0)\tno"), ("expand_term((a:-b),X)", "=:-(a,b)\tno"), ("expand_term(1,X)", "=1\tno"), ("expand_term((a-->b),(a(S,T):-b(S,T)))", "='_G'(0)\tno"), ("expand_term((a-->b),(a(S,T):-c(S,T)))", "=(-->)"),
                 ("expand_term((a(Y)-->b(Y),c),(a(Y,S,T):-B)),X=f(B,S,T,Y)", "=f(','(b('_G'(0),'_G'(1),'_G'(2)),c('_G'(2),'_G'(3))),'_G'(1),'_G'(3),'_G'(0))\tno"), ("expand_term((a-->[x],{y},b),C),assertz(C),clause(a(L,M),_)", None)):
        if e and e[0] != "=" or e and "-->" not in e:
            yield "errors", 3, "X", g, e


def nested(i, n, tier):
    """recursive grammars: all parses of every word"""
    gs = {"right": "w --> []. w --> [a],w. w --> [b],w.", "center": "w --> []. w --> [a],w,[b].", "amb": "w --> [a]. w --> [b]. w --> v,w. v --> [a]. v --> [b]. v --> [a,b].", "push": "w --> v,[b]. v,[b] --> [a]. v --> [a].",
          "cut": "w --> v,!,w. w --> []. v --> [a]. v --> [b],[a].", "look": "w --> \\+[b],[X],{tr(X)},w. w --> [].", "count": None}
    for k, (nm, g) in enumerate(sorted(gs.items())):
        if g is None or k % n != i:
            continue
        tr = {"right": [("w", (), ("t",)), ("w", (), (",", ("t", "a"), ("n", "w"))), ("w", (), (",", ("t", "b"), ("n", "w")))],
              "center": [("w", (), ("t",)), ("w", (), (",", ("t", "a"), (",", ("n", "w"), ("t", "b"))))],
              "amb": [("w", (), ("t", "a")), ("w", (), ("t", "b")), ("w", (), (",", ("n", "v"), ("n", "w"))), ("v", (), ("t", "a")), ("v", (), ("t", "b")), ("v", (), ("t", "a", "b"))],
              "push": [("w", (), (",", ("n", "v"), ("t", "b"))), ("v", ("b",), ("t", "a")), ("v", (), ("t", "a"))],
              "cut": [("w", (), (",", ("n", "v"), (",", ("!",), ("n", "w")))), ("w", (), ("t",)), ("v", (), ("t", "a")), ("v", (), (",", ("t", "b"), ("t", "a")))],
              "look": [("w", (), (",", ("\\+", ("t", "b")), (",", ("tv", "X"), (",", ("{}", "tr(X)"), ("n", "w"))))), ("w", (), ("t",))]}[nm]
        ref = Ref("".join(Tr().rule("q_" + h, p, pre(b)) + ".\n" for h, p, b in tr), steps=20000)
        calls = []
        for w in words("ab", 5):
            e = ref("O", "(I=%s,q_w(I,O))" % w, 40)
            if e is not None:
                calls.append((40, "O", "(I=%s,phrase(@@w,I,O))" % w, e))
            e = ref("x", "(I=%s,q_w(I,[]))" % w, 40)
            if e is not None:
                calls.append((40, "x", "phrase(@@w,%s)" % w, e))
        yield nm, [rule_src("@@" + h, p, pre(b, "@@")) for h, p, b in tr], calls


def pre(b, p="q_"):
    """nonterminals of this grammar"""
    if b[0] == "n":
        return ("n", p + b[1])
    if b[0] in ("t", "tv", "!", "{}", "call", "s"):
        return b
    return (b[0],) + tuple(pre(x, p) for x in b[1:])


def main():
    ck = Check("C31")
    shared = "".join(rule_src(*r) + ".\n" for r in SHARED)
    modes = [("native", ()), ("consult", ())]
    run_units(ck, "rules", rules, modes, 16, shared)
    run_units(ck, "recursive grammars", nested, modes, 6, shared)
    exe = server_exe(shared + ":- dynamic(q_p/3).\ntr(X) :- write(user_output, '\\t^'), srv_write(X).\n")
    run_cases(ck, "phrase and expand_term", exe, direct, 16, match=match)
    run_cases(ck, "strings and errors", exe, strings, 1, match=match)
    return ck.finish(rule="every grammar body up to the size x every input x every way of running it, against the rules read as difference-list relations by the reference interpreter")
