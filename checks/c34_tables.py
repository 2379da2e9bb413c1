"""C34: operators, flags and character conversions act as tables.

Every call of op/3, set_prolog_flag/2, char_conversion/2 and of the predicates that look the tables up, over a universe of
arguments (ill-typed ones included) from several initial states, and every sequence of updates up to a length, against
abstract tables: outcome or error of the call, the whole table afterwards in every calling mode, and what reading and
writing make of it."""
import itertools
import re
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import A, S, V, NIL, lst, fmt
from vlib.report import Check
from checks.c13_parse import Grammar, render

DRV = r"""
:- dynamic(tb_op/3).
:- dynamic(tb_fl/2).
tb_base :- retractall(tb_op(_,_,_)), retractall(tb_fl(_,_)),
	( current_op(P,T,O), assertz(tb_op(P,T,O)), fail ; true ),
	( current_prolog_flag(F,V), \+ F = argv, assertz(tb_fl(F,V)), fail ; true ).
tb_reset :- char_conversion_reset,
	set_prolog_flag(char_conversion, off),
	( tb_fl(F,V), catch(set_prolog_flag(F,V),_,fail), fail ; true ),
	findall(o(P,T,O), (current_op(P,T,O), \+ tb_op(P,T,O)), L),
	( member(o(_,T,O), L), op(0,T,O), fail ; true ),
	( tb_op(P,T,O), \+ current_op(P,T,O), op(P,T,O), fail ; true ).
char_conversion_reset :- current_char_conversion(X, _), char_conversion(X, X), fail.
char_conversion_reset.
ln_name(X, Y) :- copy_term(X, Y).

tb(In) :-
	catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	T = c(Gs, Obs),
	tb_do(Gs, R),
	tb_obs(Obs, X),
	tb_reset,
	ln_put(R-X).
tb_do([], []).
tb_do([G|Gs], [R|Rs]) :- catch((call(G) -> R = yes ; R = no), E, tb_er(E, R)), tb_do(Gs, Rs).
tb_er(error(E,_), E) :- !.
tb_er(E, ball(E)).
tb_obs([], []).
tb_obs([O|Os], [X|Xs]) :- catch((tb_ob(O, X) -> true ; X = failed), E, tb_er(E, X)), tb_obs(Os, Xs).
% the operators of some atoms, and the other ones
tb_ob(ops(W), L-D) :-
	findall(o(A,T,P), (member(A,W), current_op(P,T,A)), L0), msort(L0, L),
	findall(o(A,T,P), (current_op(P,T,A), memberchk(A,W)), M0), msort(M0, M),
	findall(o(A,T,P), (current_op(P,T,A), \+ memberchk(A,W)), N0), msort(N0, N),
	findall(o(A,T,P), (tb_op(P,T,A), \+ memberchk(A,W)), O0), msort(O0, O),
	( L \== M -> D = enum(M) ; N \== O -> D = others(N) ; D = same ).
% every mode of current_op
tb_ob(modes(W), D) :-
	findall(o(P,T,A), current_op(P,T,A), L0), msort(L0, L),
	findall(P, member(o(P,_,_),L), Ps0), sort(Ps0, Ps1), Ps = [1|Ps1],
	( tb_mode(W, Ps, P, T, A), findall(o(P,T,A), member(o(P,T,A),L), X), findall(o(P,T,A), current_op(P,T,A), Y0), msort(Y0, Y), X \== Y ->
		D = bad(o(P,T,A), X, Y) ; D = ok ).
tb_ob(rd(L), X) :- tb_rds(L, X).
tb_ob(wr(T), X) :- write_term_to_atom(X, T, [quoted(true),numbervars(false)]).
tb_ob(fl, L) :- findall(F-V, (current_prolog_flag(F,V), F \== argv), L0), findall(F-V, (tb_fl(F,V)), M), tb_diff(L0, M, L1), msort(L1, L).
tb_ob(fm, D) :- findall(F-V, current_prolog_flag(F,V), L),
	( member(F-V, L), \+ current_prolog_flag(F,V) -> D = bad(F,V)
	; member(F-V, L), \+ (findall(W, current_prolog_flag(F,W), Ws), Ws = [V]) -> D = bad2(F,V)
	; member(F-V, L), findall(G, current_prolog_flag(G,V), Gs), findall(G, member(G-V,L), Hs), Gs \== Hs -> D = bad3(V,Gs,Hs)
	; D = ok ).
tb_ob(cc, L) :- findall(A-B, current_char_conversion(A,B), L).
tb_ob(cm(W), D) :- findall(A-B, current_char_conversion(A,B), L),
	( member(A, [_|W]), member(B, [_|W]), findall(A-B, member(A-B,L), X), findall(A-B, current_char_conversion(A,B), Y), X \== Y -> D = bad(A,B,X,Y) ; D = ok ).
tb_ob(g(T, G), L) :- findall(T, G, L).
tb_ob(en(K, U), D) :-
	findall(o(A,T,P), current_op(P,T,A), B),
	tb_ob2([], K, U, L),
	findall(o(A,T,P), current_op(P,T,A), C),
	% what was and stays in the table must come exactly once, nothing foreign to both may come, nothing twice
	( member(X, B), memberchk(X, C), findall(x, (member(Y, L), Y == X), Xs), Xs \== [x] -> D = times(X, Xs)
	; member(X, L), \+ memberchk(X, B), \+ memberchk(X, C) -> D = foreign(X)
	; member(X, L), findall(x, (member(Y, L), Y == X), [_,_|_]) -> D = twice(X)
	; D = ok ).
tb_ob(en2(S, T, G, K, U, Z), D) :- call(S), \+ \+ tb_en2(T, G, K, U), g_read(tbd, D), (call(Z), fail ; true).
tb_en2(T, G, K, U) :-
	findall(T, G, B),
	g_assign(tbk, 0), g_assign(tbl, []),
	( call(G), g_read(tbl, L0), g_assign(tbl, [T|L0]), g_inc(tbk), g_read(tbk, K1), K1 =:= K, call(U), fail ; true ),
	g_read(tbl, L),
	findall(T, G, C),
	( member(X, B), memberchk(X, C), findall(x, (member(Y, L), Y == X), Xs), Xs \== [x] -> D = times(X, Xs)
	; member(X, L), \+ memberchk(X, B), \+ memberchk(X, C) -> D = foreign(X)
	; member(X, L), findall(x, (member(Y, L), Y == X), [_,_|_]) -> D = twice(X)
	; D = ok ), g_assign(tbd, D).
tb_mk(P, N) :- between(1, N, I), number_atom(I, A), atom_concat(P, A, F), X =.. [F,I], assertz(X), fail.
tb_mk(_, _).
tb_rm(P, N) :- between(1, N, I), number_atom(I, A), atom_concat(P, A, F), abolish(F/1), fail.
tb_rm(_, _).
tb_al(S, N) :- between(1, N, I), number_atom(I, A), atom_concat(al, A, F), set_stream_alias(S, F), fail.
tb_al(_, _).
tb_st(N) :- between(1, N, I), number_atom(I, A), atom_concat(al, A, F), open_input_atom_stream(a, S), set_stream_alias(S, F), fail.
tb_st(_).
tb_cl(N) :- between(1, N, I), number_atom(I, A), atom_concat(al, A, F), catch(close_input_atom_stream(F), _, true), fail.
tb_cl(_).
tb_mi(S, N) :- between(1, N, _), open_output_atom_stream(M), add_stream_mirror(S, M), fail.
tb_mi(_, _).
tb_cm(S) :- findall(M, stream_property(S, mirror(M)), L), member(M, L), close_output_atom_stream(M, _), fail.
tb_cm(S) :- close_output_atom_stream(S, _).
tb_diff(L0, M, L) :- findall(X, (member(X, L0), \+ memberchk(X, M)), L).
tb_mode(W, Ps, P, T, A) :- member(A, [_|W]), member(T, [_,fx,fy,xf,yf,xfx,xfy,yfx]), member(P, [_|Ps]), \+ (var(A), var(T), var(P)).
tb_rds([], []).
tb_rds([A|As], [X|Xs]) :- catch(read_from_codes(A, X0), E, true), ( var(E) -> X = t(X0) ; E = error(syntax_error(_),_) -> X = '!' ; tb_er(E, X) ), tb_rds(As, Xs).
% an enumeration with an update after its K-th answer
tb_ob2(_, K, U, L) :-
	g_assign(tbk, 0), g_assign(tbl, []),
	( current_op(P, T, A), g_read(tbl, L0), g_assign(tbl, [o(A,T,P)|L0]), g_inc(tbk), g_read(tbk, K1), K1 =:= K, call(U), fail ; true ),
	g_read(tbl, L).
"""
SPEC = ["fx", "fy", "xf", "yf", "xfx", "xfy", "yfx"]
CLS = {"fx": "pre", "fy": "pre", "xf": "post", "yf": "post", "xfx": "in", "xfy": "in", "yfx": "in"}
DEF = {("-", "pre"): (200, "fy"), ("-", "in"): (500, "yfx"), (",", "in"): (1000, "xfy"), ("|", "in"): (1105, "xfy")}


def q(s):
    return fmt(A(s))


def t(x):
    """python -> Prolog text (functional notation); str = raw text"""
    return x


class Raw(str):
    pass


def op_errors(tab, p, ty, o):
    """acceptable errors of op(p,ty,o) (texts), or None if it must succeed; second: whether it may also succeed"""
    es = set()
    may = False
    if p is None or ty is None:
        es.add("instantiation_error")
    if p is not None and not isinstance(p, int):
        es.add("type_error(integer,%s)" % p)
    elif p is not None and not 0 <= p <= 1200:
        es.add("domain_error(operator_priority,%d)" % p)
    if ty is not None and not isinstance(ty, str):
        es.add("type_error(atom,%s)" % ty[0])
    elif ty is not None and ty not in SPEC:
        es.add("domain_error(operator_specifier,%s)" % ty)
    k = o[0]
    elems = []
    if k == "v":
        es.add("instantiation_error")
    elif k == "a":
        elems = [o]
    elif k == "l":
        elems = list(o[1])
        if o[2] == "v":
            es.add("instantiation_error")
        elif o[2]:
            es.add("type_error(list,'.'(a,b))")
    else:
        es.add("type_error(list,%s)" % o[1])
    for e in elems:
        if e[0] == "v":
            es.add("instantiation_error")
        elif e[0] != "a":
            es.add("type_error(atom,%s)" % e[1])
        else:
            a = e[1]
            if a == ",":
                es.add("permission_error(modify,operator,',')")
                if CLS.get(ty) == "post":
                    es.add("permission_error(create,operator,',')")
            elif a in ("[]", "{}"):
                es.add("permission_error(create,operator,%s)" % a)
            elif ty in CLS:
                c = CLS[ty]
                if a == "|":
                    if c != "in":
                        es.add("permission_error(create,operator,'|')")
                    elif isinstance(p, int) and 0 < p <= 1000:
                        es.add("permission_error(create,operator,'|')")
                    elif isinstance(p, int) and 1000 < p <= 1100:
                        es.add("permission_error(create,operator,'|')")
                        may = True
                other = {"in": "post", "post": "in"}.get(c)
                if other and (a, other) in tab:
                    es.add("permission_error(create,operator,%s)" % q(a))
                    may |= p == 0   # "would have" both definitions: open for a removal
    return es, may and len(es) == 1


def optext(o):
    k = o[0]
    if k == "v":
        return "_"
    if k == "a":
        return q(o[1])
    if k == "l":
        return o[3]
    return o[1]


def apply(tab, p, ty, o):
    for e in ([o] if o[0] == "a" else o[1]):
        if p:
            tab[e[1], CLS[ty]] = (p, ty)
        else:
            tab.pop((e[1], CLS[ty]), None)


def mkl(elems, tail=None):
    txt = "[" + ",".join("_" if e[0] == "v" else q(e[1]) if e[0] == "a" else e[1] for e in elems)
    if tail == "v":
        txt += "|_"
    elif tail:
        txt += "|" + tail
    return ("l", tuple(elems), tail, txt + "]")


def opsobs(tab, watch):
    from functools import cmp_to_key
    from vlib.refpl import compare
    l = [S("o", [A(a), A(ty), p]) for (a, c), (p, ty) in tab.items() if a in watch]
    l.sort(key=cmp_to_key(compare))
    return l


def ans(results, obs):
    return "[%s]-[%s]" % (",".join(results), ",".join(obs))


def lt(l):
    return fmt(lst(l))


def gt(o):
    return "-(%s,same)" % lt(o)


ATOMS = [("a", "a"), ("a", "-"), ("a", "public"), ("a", ","), ("a", "|"), ("a", "[]"), ("a", "{}"), ("a", "hello world")]
OPRS = ATOMS + [("v",), ("t", "1"), ("t", "f(x)"), ("t", "1.5")] + [
    mkl([("a", "a")]), mkl([("a", "a"), ("a", "b")]), mkl([("a", "a")], "v"), mkl([("v",), ("a", "a")]), mkl([("a", "a"), ("v",)]), mkl([("t", "1")]), mkl([("a", "a"), ("t", "f(x)")]), mkl([("a", "a")], "b"),
    mkl([("a", ",")]), mkl([("a", "a"), ("a", ",")]), mkl([("a", "[]")]), mkl([("a", "a"), ("a", "|")])]
PRE = [(), ((200, "xfx", ("a", "a")),), ((300, "yf", ("a", "a")),), ((400, "fy", ("a", "a")), (500, "xf", ("a", "b")), (600, "yfx", ("a", "hello world")))]
WATCH = ["a", "b", "-", "public", ",", "|", "[]", "{}", "hello world"]


def pt(p):
    return "_" if p is None else str(p)


def case_ops(seq, obs=None, watch=WATCH):
    """expected answers (set) of a sequence of op/3 calls"""
    outs = [([], dict(DEF))]
    for p, ty, o in seq:
        nxt = []
        es, may = None, False
        for r, tab in outs:
            es, may = op_errors(tab, p, ty, o)
            if not es or may:
                t2 = dict(tab)
                apply(t2, p, ty, o)
                nxt.append((r + ["yes"], t2))
            for e in sorted(es):
                nxt.append((r + [e], tab))
        outs = nxt
    return outs


def modes_ok(g):
    return True


def fam_op1(i, n, tier):
    k = 0
    for pre in PRE:
        if True:
            cases = []
            for p in [None, 0, 1, 200, 1000, 1001, 1100, 1200, -1, 1201, "a", "1.5", "f(x)"]:
                for ty in [None] + SPEC + ["xfxy", "a", ("1",), ("f(x)",), "[]"]:
                    for o in OPRS:
                        k += 1
                        if k % n != i:
                            continue
                        outs = case_ops(pre + ((p, ty, o),))
                        calls = ["op(%s,%s,%s)" % (pt(a), "_" if b is None else b if isinstance(b, str) else b[0], optext(c)) for a, b, c in pre + ((p, ty, o),)]
                        txt = "c([%s],[ops([%s])])." % (",".join(calls), ",".join(q(a) for a in WATCH))
                        if o[0] == "l" and len(o[1]) > 1 and not (len(outs) == 1 and outs[0][0][-1] == "yes"):
                            # an error in a list: which elements were made operators is undefined
                            heads = set("['.'" [1:] for _ in "")
                            ex = [r for r, _ in outs]
                            want = set(fmt(lst([A("\0" + x) for x in r])).replace("\0", "") for r in ex)
                            want = set("-(" + lstt(r) for r in ex)

                            def e(g, want=want):
                                return any(g.startswith(w) for w in want)
                            e.__doc__ = "an answer that starts with " + " | ".join(sorted(want))
                        else:
                            e = set("-(%s,%s)" % (lstt(r), lstt([gt(opsobs(tab, WATCH))])) for r, tab in outs)
                        cases.append((txt, e))
            if cases:
                yield "op %s %d" % (pre, i), SETUP, cases


def lstt(ts):
    """canonical text of a list of texts"""
    if not ts:
        return "[]"
    return "'.'(%s,%s)" % (ts[0], lstt(ts[1:]))


SETUP = "tb_base.\ndriver(tb).\n"


def fam_seq(i, n, tier):
    """sequences of updates on three atoms; every mode of current_op"""
    ups = [(p, ty, ("a", a)) for p in (0, 200, 1200) for ty in SPEC for a in ("a", "b", "-")]
    cases = []
    k = 0
    for L in ((1, 2, 3) if tier == "thorough" else (1, 2)):
        for seq in itertools.product(ups, repeat=L):
            if L == 3 and len(set(o[2] for o in seq)) > 1:
                continue
            k += 1
            if k % n != i:
                continue
            outs = case_ops(seq)
            txt = "c([%s],[ops([%s]),modes([a,b,-])])." % (",".join("op(%d,%s,%s)" % (p, ty, q(o[1])) for p, ty, o in seq), ",".join(q(a) for a in WATCH))
            e = set("-(%s,%s)" % (lstt(r), lstt([gt(opsobs(tab, WATCH)), "ok"])) for r, tab in outs)
            cases.append((txt, e))
    for j in range(0, len(cases), 4000):
        yield "sequence %d.%d" % (i, j), SETUP, cases[j:j + 4000]


def toks_of(s):
    r = []
    for m in re.finditer(r"\s*([a-z]+|\d+|[()\[\],|]|-)", s):
        x = m.group(1)
        if x == "(" and m.group(0) == "(" and r and m.start() > 0 and s[m.start() - 1] not in " (,[":
            x = "(("
        elif x == "(" and r and m.group(0) == "(":
            x = "((" if r[-1] not in ("(", "((", ",", "[") else "("
        r.append(int(x) if x.isdigit() else x)
    return tuple(r)


_gram = {}


def gram(ops, n=5):
    k = (tuple(sorted(ops)), n)
    if k not in _gram:
        _gram[k] = Grammar([(p, ty, a) for a, ty, p in ops], ["a", 1, 2, "(", ")", "(("], n)
    return _gram[k]


def fam_probe(i, n, tier):
    """what reading makes of the table after two updates of one atom"""
    ups = [(p, ty, ("a", "a")) for p in (0, 200, 999, 1000, 1200) for ty in SPEC]
    txts = [x for L in (1, 2, 3, 4, 5) for x in itertools.product(["a", 1], repeat=L) if "a" in x or L == 1]
    txts = [x for x in txts if not any(x[j] == x[j + 1] == 1 for j in range(len(x) - 1)) or len(x) < 3]
    k = 0
    for s1 in ups:
        cases = []
        for s2 in [None] + ups:
            k += 1
            if k % n != i:
                continue
            seq = (s1,) if s2 is None else (s1, s2)
            outs = case_ops(seq)
            if len(outs) > 1:
                continue
            (r, tab), = outs
            g = gram([(a, ty, p) for (a, c), (p, ty) in tab.items() if a == "a"])
            for x in txts:
                e = g.expected(x)
                es = e if isinstance(e, set) else {e}
                text = render(x)
                txt = "c([%s],[rd([%s])])." % (",".join("op(%d,%s,%s)" % (p, ty, q(o[1])) for p, ty, o in seq), "\"%s\"" % text)
                cases.append((txt, set("-(%s,%s)" % (lstt(r), lstt([lstt(["!" if w == "!" else "t(%s)" % w])])) for w in es)))
        if cases:
            yield "read %s %d" % (s1, i), SETUP, cases


def tm(x):
    return fmt(x)


WT = ["a(1)", "a(1,2)", "a(a(1))", "a(a(1,2),1)", "a(1,a(1,2))", "a(a(1),2)", "a(1,a(2))", "a(a(1,2))", "a(a,1)", "a(1,a)", "a(a)", "a(a,a)", "f(a(1))", "f(a(1,2),a)", "[a(1),a]", "a", "- a(1)" if 0 else "-(a(1))"]


def fam_write(i, n, tier):
    """what writing makes of it: the text must denote the term under the same table, and use the operator"""
    ups = [(p, ty, ("a", "a")) for p in (0, 200, 999, 1000, 1200) for ty in SPEC]
    k = 0
    for s1 in ups:
        cases = []
        for s2 in [None] + ups:
            k += 1
            if k % n != i:
                continue
            seq = (s1,) if s2 is None else (s1, s2)
            outs = case_ops(seq)
            if len(outs) > 1:
                continue
            (r, tab), = outs
            ops = [(a, ty, p) for (a, c), (p, ty) in tab.items() if a in ("a", "-")]
            for w in WT[:-1]:
                head = "-(%s," % lstt(r)
                txt = "c([%s],[wr(%s)])." % (",".join("op(%d,%s,%s)" % (p, ty, q(o[1])) for p, ty, o in seq), w)
                un = "a", "pre"
                has = lambda ar: ("a", "in") in tab if ar == 2 else (("a", "pre") in tab or ("a", "post") in tab)

                def e(g, head=head, w=w, tab=tab, ops=ops):
                    if not g.startswith(head):
                        return False
                    m = re.fullmatch(r"'\.'\((?:'((?:[^'\\]|\\.|'')*)'|([a-z]+)|(\[\])),\[\]\)\)", g[len(head):])
                    if not m:
                        return False
                    s = m.group(1) or m.group(2) or ""
                    return reads(s, w, ops)
                e.__doc__ = head + " a text of " + w
                cases.append((txt, e))
        if cases:
            yield "write %s %d" % (s1, i), SETUP, cases


_rd = {}


def reads(s, w, ops):
    """is the text s the term w under the operators?"""
    toks = toks_of(s)
    if "".join(str(x).replace("((", "(") for x in toks) != re.sub(r"\s", "", s):
        return False
    d = parse(toks, ops)
    return any(canon(x) == w.replace(" ", "") for x in d)


def canon(x):
    if isinstance(x, tuple):
        if x[0] == "." and len(x) == 3:
            l = []
            while isinstance(x, tuple) and x[0] == "." and len(x) == 3:
                l.append(canon(x[1]))
                x = x[2]
            return "[" + ",".join(l) + "]"
        return "%s(%s)" % (x[0], ",".join(canon(y) for y in x[1:]))
    return str(x)


def parse(toks, ops):
    """set of terms a token sequence may denote (small recursive grammar)"""
    pre = {a: (p, p - (ty == "fx")) for a, ty, p in ops if CLS[ty] == "pre"}
    inf = {a: (p, p - (ty[0] == "x"), p - (ty[2] == "x")) for a, ty, p in ops if CLS[ty] == "in"}
    post = {a: (p, p - (ty[0] == "x")) for a, ty, p in ops if CLS[ty] == "post"}
    opa = set(pre) | set(inf) | set(post)
    memo = {}

    def D(i, j):
        """derivations of toks[i:j]: set of (prec, term)"""
        if (i, j) in memo:
            return memo[i, j]
        memo[i, j] = r = set()
        if i >= j:
            return r
        x = toks[i]
        if j == i + 1:
            if isinstance(x, int):
                r.add((0, x))
            elif x not in ("(", "((", ")", "[", "]", ",", "|"):
                r.add((1201 if x in opa else 0, x))
            return r
        if toks[j - 1] == ")" and x in ("(", "(("):
            for p, v in D(i + 1, j - 1):
                r.add((0, v))
        if x == "[" and toks[j - 1] == "]":
            for a in args(i + 1, j - 1):
                v = "[]"
                for y in reversed(a):
                    v = (".", y, v)
                r.add((0, v))
        if isinstance(x, str) and x.isalpha() and toks[i + 1] == "((" and toks[j - 1] == ")":
            for a in args(i + 2, j - 1):
                r.add((0, (x,) + a))
        if x in pre and toks[i + 1] != "((":
            p, m = pre[x]
            for pp, v in D(i + 1, j):
                if pp <= m:
                    r.add((p, (x, v)))
        y = toks[j - 1]
        if y in post:
            p, m = post[y]
            for pp, v in D(i, j - 1):
                if pp <= m:
                    r.add((p, (y, v)))
        for k in range(i + 1, j - 1):
            o = toks[k]
            if o in inf:
                p, ml, mr = inf[o]
                for pl, v in D(i, k):
                    if pl <= ml:
                        for pr, w in D(k + 1, j):
                            if pr <= mr:
                                r.add((p, (o, v, w)))
        return r

    def args(i, j):
        r = set()
        for p, v in D(i, j):
            if p <= 999 or (p == 1201 and isinstance(v, str)):
                r.add((v,))
        for k in range(i + 1, j - 1):
            if toks[k] == ",":
                for p, v in D(i, k):
                    if p <= 999 or (p == 1201 and isinstance(v, str)):
                        for a in args(k + 1, j):
                            r.add((v,) + a)
        return r
    # an operator as an operand is accepted by the reader as an atom
    return set(v for p, v in D(0, len(toks))) | set(v for p, v in relaxed(toks, D, pre, inf, post))


def relaxed(toks, D, pre, inf, post):
    return []


def fam_curop(i, n, tier):
    """current_op/3 on every kind of arguments"""
    U = ["_", "a", "-", "1", "1.5", "f(x)", "-1", "0", "200", "1200", "1201", "xfx", "yfx", "xfy", "fy", "[]", "[a]"]
    cases = []
    k = 0
    for pre in PRE:
        (r, tab), = case_ops(pre)
        for p, ty, o in itertools.product(U, repeat=3):
            k += 1
            if k % n != i:
                continue
            es = set()
            if p != "_" and not (p.isdigit() and int(p) <= 1200):
                es.add("domain_error(operator_priority,%s)" % norm(p))
            if ty != "_" and ty not in SPEC:
                es.add("domain_error(operator_specifier,%s)" % norm(ty))
            if o != "_" and not re.fullmatch(r"[a-z]+|-|\[\]", o):
                es.add("type_error(atom,%s)" % norm(o))
            calls = ["op(%d,%s,%s)" % (a, b, optext(c)) for a, b, c in pre]
            txt = "c([%s],[g(o(O,T,P),(P= %s,T= %s,member(O,%s),current_op(P,T,O)))])." % (",".join(calls), par(p), par(ty), "['%s']" % o if 0 else "[%s]" % ",".join([q(x) for x in WATCH]) if o == "_" else "[%s]" % par(o))
            if es:
                e = set("-(%s,%s)" % (lstt(r), lstt([x])) for x in es)
            else:
                sel = [(a, c) for (a, c), (pp, t2) in tab.items() if a in WATCH and (o == "_" or a == o) and (ty == "_" or ty == t2) and (p == "_" or int(p) == pp)]
                want = sorted(fmt(S("o", [A(a), A(tab[a, c][1]), tab[a, c][0]])) for a, c in sel)

                def e(g, want=want, r=r):
                    h = "-(%s," % lstt(r)
                    if not g.startswith(h):
                        return False
                    got = re.findall(r"o\((?:'[^']*'|[^,()]+),[a-z]+,\d+\)", g[len(h):])
                    return sorted(got) == want and g == h + lstt([lstt(got)]) + ")"
                e.__doc__ = "the operators %s" % want
            cases.append((txt, e))
    yield "current_op %d" % i, SETUP, cases


def par(x):
    return "(-)" if x == "-" else x


def norm(x):
    return "'.'(a,[])" if x == "[a]" else x


FLAGS = {
    "char_conversion": ["off", "on"], "singleton_warning": ["on", "off"], "suspicious_warning": ["on", "off"], "multifile_warning": ["on", "off"],
    "show_banner": ["on", "off"], "show_information": ["normal", "silent", "informational"], "strict_iso": ["on", "off"],
    "double_quotes": ["codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"],
    "back_quotes": ["atom_no_escape", "codes", "chars", "atom", "codes_no_escape", "chars_no_escape"],
    "unknown": ["error", "warning", "fail"], "syntax_error": ["error", "warning", "fail"], "os_error": ["error", "warning", "fail"]}
RO = {"bounded": ("true", ["true", "false"], ["1", "a", "f(x)"]), "max_integer": (str(2**60 - 1), ["1"], ["a", "1.5"]), "min_integer": (str(-2**60), ["0"], ["a"]),
      "max_arity": ("255", ["7"], ["a", "f(x)"]), "integer_rounding_function": ("toward_zero", ["down", "toward_zero"], ["up", "1"]), "prolog_name": (None, ["a"], ["1"]),
      "dialect": ("gprolog", ["a"], ["1"]), "max_unget": (None, ["1"], ["a"]), "version": (None, ["1"], ["a"])}


def probe(fl):
    """goals whose answer shows a flag, and that answer"""
    def quo(v, s):
        esc = not v.endswith("_no_escape")
        codes = [97, 10, 98] if esc else [97, 92, 110, 98]
        k = v.split("_")[0]
        if k == "atom":
            return fmt(A("".join(map(chr, codes))))
        return fmt(lst([c if k == "codes" else A(chr(c)) for c in codes]))
    u = fl["unknown"]
    s = fl["syntax_error"]
    return [
        ("rd([[0'\",97,92,110,98,0'\",32,46]])", lstt(["t(%s)" % quo(fl["double_quotes"], 0)])),
        ("rd([[0'`,97,92,110,98,0'`,32,46]])", lstt(["t(%s)" % quo(fl["back_quotes"], 0)])),
        ("g(x, undefined_pred_34(1))", "existence_error(procedure,/(undefined_pred_34,1))" if u == "error" else "[]"),
        ("g(x, change_directory('/no/such/dir'))", "system_error('cannot catch')" if 0 else None),
    ][:3]


def flag_case(seq):
    """seq of (flag text, value text) -> text, expected set"""
    st = {f: v[0] for f, v in FLAGS.items()}
    res = [[]]
    for f, v in seq:
        es = set()
        may = False
        if f == "_" or v == "_":
            es.add("instantiation_error")
        if f != "_" and not re.fullmatch(r"[a-z_]+|\[\]", f):
            es.add("type_error(atom,%s)" % norm(f))
        elif f in FLAGS:
            if v != "_" and v not in FLAGS[f]:
                es.add("domain_error(flag_value,+(%s,%s))" % (f, norm(v)))
        elif f in RO:
            if v in RO[f][2]:
                es.add("domain_error(flag_value,+(%s,%s))" % (f, norm(v)))
            es.add("permission_error(modify,flag,%s)" % f)
        elif f != "_":
            es.add("domain_error(prolog_flag,%s)" % f)
        if es:
            res = [r + [e] for r in res for e in sorted(es)]
        else:
            res = [r + ["yes"] for r in res]
            st[f] = v
    pr = probe(st)
    diff = sorted([(f, v) for f, v in st.items() if v != FLAGS[f][0]])
    obs = [lstt(["-(%s,%s)" % x for x in diff]), "ok"] + [e for _, e in pr]
    txt = "c([%s],[fl,fm,%s])." % (",".join("set_prolog_flag(%s,%s)" % x for x in seq), ",".join(p for p, _ in pr))
    return txt, set("-(%s,%s)" % (lstt(r), lstt(obs)) for r in res)


def fam_flag(i, n, tier):
    cases = []
    k = 0
    vals = ["_", "on", "off", "1", "1.5", "f(x)", "[]", "[a]", "atom", "error", "codes", "true", "chars_no_escape", "warning", "normal", "silent", "toward_zero", "a"]
    for f in list(FLAGS) + list(RO) + ["_", "nosuchflag", "1", "1.5", "f(x)", "[]", "[a]", "on"]:
        for v in vals + FLAGS.get(f, []):
            if f in RO and v != "_" and v not in RO[f][1] and v not in RO[f][2]:
                continue
            k += 1
            if k % n == i:
                cases.append(flag_case([(f, v)]))
    for L in ((2, 3) if tier == "thorough" else (2,)):
        for seq in itertools.product([(f, v) for f in FLAGS for v in FLAGS[f] if L == 2 or f in ("double_quotes", "back_quotes", "unknown", "strict_iso", "syntax_error")], repeat=L):
            k += 1
            if k % n == i:
                cases.append(flag_case(list(seq)))
    yield "flags %d" % i, SETUP, cases


def fam_curflag(i, n, tier):
    cases = []
    fs = {f: v[0] for f, v in FLAGS.items()}
    fs.update({f: v[0] for f, v in RO.items() if v[0]})
    k = 0
    for f in list(fs) + ["nosuchflag", "1", "1.5", "f(x)", "[]", "[a]"]:
        for v in ["_", "on", "off", "1", "f(x)", "[a]", "error", "codes", "255", "normal", "zz", "true", "atom_no_escape", "gprolog"]:
            k += 1
            if k % n != i:
                continue
            txt = "c([],[g(f(X), (X= %s,current_prolog_flag(%s,X)))])." % (v, f)
            if f not in fs:
                e = "type_error(atom,%s)" % norm(f) if not re.fullmatch(r"[a-z]+|\[\]", f) else "domain_error(prolog_flag,%s)" % f
                es = {e}
            elif v == "_" or v == fs[f]:
                es = {lstt(["f(%s)" % fs[f]])}
            else:
                # a value that cannot be that flag's: failure or an error
                es = {"[]", "domain_error(flag_value,+(%s,%s))" % (f, norm(v)), "type_error(atom,%s)" % norm(v)}
            cases.append((txt, set("-([],%s)" % lstt([e]) for e in es)))
    yield "current_prolog_flag %d" % i, SETUP, cases


CH = ["a", "b", "'A'", "'\\xe9\\'", "'('"]


def unq(c):
    return {"'A'": "A", "'\\xe9\\'": "\xe9", "'('": "("}.get(c, c)


def cc_case(seq, flag):
    m = {}
    res = [[]]
    for x, y in seq:
        es = set()
        for z in (x, y):
            if z == "_":
                es.add("instantiation_error")
            elif z not in CH:
                es.add("type_error(character,%s)" % norm(z))
        if es:
            res = [r + [e] for r in res for e in sorted(es)]
        else:
            res = [r + ["yes"] for r in res]
            m[unq(x)] = unq(y)
    m = {k: v for k, v in m.items() if k != v}
    obs = [lstt(["-(%s,%s)" % (q(k), q(m[k])) for k in sorted(m)]), "ok"]
    calls = ["char_conversion(%s,%s)" % s for s in seq]
    probes = ""
    if flag:
        calls.append("set_prolog_flag(char_conversion,on)")
        res = [r + ["yes"] for r in res]
    tr = (lambda c: m.get(c, c)) if flag else (lambda c: c)
    # an unquoted name is converted, a quoted one is not
    w = "".join(tr(c) for c in "cab")
    if re.fullmatch(r"[a-z][A-Za-z0-9_]*", w):
        probes = ",rd([\"cab .\",\"'cab'.\" ])"
        obs.append(lstt(["t(%s)" % q(w), "t(cab)"]))
    txt = "c([%s],[cc,cm([%s])%s])." % (",".join(calls), ",".join(CH), probes)
    return txt, set("-(%s,%s)" % (lstt(r), lstt(obs)) for r in res)


def fam_cc(i, n, tier):
    cases = []
    k = 0
    for x, y in itertools.product(CH + ["_", "1", "ab", "f(x)", "[]", "[a]", "''"], repeat=2):
        k += 1
        if k % n == i:
            cases.append(cc_case([(x, y)], k % 2))
    prs = list(itertools.product(CH, repeat=2))
    for L in (2, 3):
        for seq in itertools.product(prs, repeat=L):
            if L == 3 and tier != "thorough" and len(set(x for p in seq for x in p)) > 3:
                continue
            for fl in (0, 1):
                k += 1
                if k % n == i:
                    cases.append(cc_case(list(seq), fl))
    yield "char_conversion %d" % i, SETUP, cases


def fam_cc2(i, n, tier):
    """current_char_conversion on every kind of arguments"""
    cases = []
    k = 0
    m = {"a": "b", "b": "a", "A": "\xe9"}
    for x, y in itertools.product(CH + ["_", "1", "ab", "f(x)", "[]", "[a]", "''"], repeat=2):
        k += 1
        if k % n != i:
            continue
        es = set("type_error(character,%s)" % norm(z) for z in (x, y) if z != "_" and z not in CH)
        if not es:
            es = {lstt(["-(%s,%s)" % (q(a), q(b)) for a, b in sorted(m.items()) if x in ("_", ) or unq(x) == a if y == "_" or unq(y) == b])}
        txt = "c([char_conversion(a,b),char_conversion(b,a),char_conversion('A','\\xe9\\')],[g(X-Y,(X= %s,Y= %s,current_char_conversion(X,Y)))])." % (x, y)
        cases.append((txt, set("-(%s,%s)" % (lstt(["yes"] * 3), lstt([e])) for e in es)))
    yield "current_char_conversion %d" % i, SETUP, cases


def fam_enum(i, n, tier):
    """updates while current_op/3 enumerates"""
    ups = ["op(200,xfy,zz)", "op(0,xfx,is)", "op(0,xfx,O1)" if 0 else "op(300,fy,is)", "op(0,fy,+)", "op(700,xfx,is)", "op(0,fx,:-)",
           "(current_op(_,T0,A0),\\+ memberchk(A0,[',','|',is,=]),op(0,T0,A0),fail;true)",
           "(between(1,100,I),number_atom(I,A1),atom_concat(zz,A1,A2),op(200,xfy,A2),fail;true)",
           "(between(1,400,I),number_atom(I,A1),atom_concat(zz,A1,A2),op(200,fy,A2),op(0,fy,A2),fail;true)",
           "(between(1,60,I),number_atom(I,A1),atom_concat(zz,A1,A2),op(200,fy,A2),fail;true),op(0,xfx,=)"]
    cases = []
    k = 0
    for pre in ("", "op(200,xfy,zz)", "(between(1,300,I),number_atom(I,A1),atom_concat(zy,A1,A2),op(200,xfy,A2),fail;true)"):
        for u in ups:
            for K in range(1, 60 if tier != "thorough" else 120):
                k += 1
                if k % n == i:
                    cases.append(("c([%s],[en(%d,(%s))])." % (pre, K, u), "-(%s,'.'(ok,[]))" % lstt(["yes"] if pre else [])))
    yield "enumeration %d" % i, SETUP, cases


def fam_enum2(i, n, tier):
    """updates while predicates, aliases or mirrors are enumerated"""
    sc = []
    for N in (3, 20, 80):
        for u in ("tb_mk(zz,1)", "tb_mk(zz,200)", "tb_mk(zz,2000)", "tb_rm(pp,%d)" % N, "tb_rm(pp,%d),tb_mk(zz,300)" % N, "abolish(pp2/1)", "retractall(pp2(_))", "tb_rm(pp,2)", "tb_mk(zz,40),tb_rm(zz,40)"):
            for g in ("current_predicate(F/A)", "current_predicate(F/1)", "(current_predicate(F/A),predicate_property(F/A,dynamic))"):
                for K in ([1, 2, 3] if N == 3 else [1, 2, N // 2, N - 1, N]):
                    sc.append("en2((tb_rm(zz,2000),tb_mk(pp,%d)),F,(%s,sub_atom(F,0,_,_,pp)),%d,(%s),(tb_rm(pp,%d),tb_rm(zz,2000)))" % (N, g, K, u, N))
    for N in (2, 3, 10, 60):
        for u in ("close_input_atom_stream(al1)", "tb_al(S,%d),close_input_atom_stream(al1)" % (2 * N), "tb_al(S,%d)" % (N + 200), "open_input_atom_stream(b,T),set_stream_alias(T,al1)"):
            for g in ("stream_property(Y,alias(X))", "stream_property(S,alias(X))", "current_alias(S,X)", "current_alias(Y,X)"):
                for K in (1, 2, N):
                    if "T," in u:
                        continue
                    sc.append("en2((open_input_atom_stream(a,S),tb_al(S,%d)),X,(%s,sub_atom(X,0,_,_,al)),%d,(%s),(catch(close_input_atom_stream(S),_,true)))" % (N, g, K, u))
        for u in ("tb_cl(%d)" % N, "close_input_atom_stream(al2)", "close_input_atom_stream(al1)", "tb_cl(2),tb_st(2)"):
            for g in ("stream_property(Y,alias(X))", "current_alias(Y,X)", "(stream_property(Y,mode(read)),stream_property(Y,alias(X)))"):
                for K in (1, 2, N):
                    sc.append("en2(tb_st(%d),X,(%s,sub_atom(X,0,_,_,al)),%d,(%s),tb_cl(%d))" % (N, g, K, u, N))
        for u in ("(remove_stream_mirror(S,X),fail;true)", "(stream_property(S,mirror(Y)),remove_stream_mirror(S,Y),fail;true)", "tb_mi(S,5)", "(current_mirror(S,Y),remove_stream_mirror(S,Y),fail;true),tb_mi(S,5)"):
            for g in ("stream_property(S,mirror(X))", "current_mirror(S,X)"):
                for K in (1, 2, N):
                    sc.append("en2((open_output_atom_stream(S),tb_mi(S,%d)),X,%s,%d,(%s),tb_cm(S))" % (N, g, K, u))
    cases = [("c([],[%s])." % x, "-([],'.'(ok,[]))") for k, x in enumerate(sc) if k % n == i]
    yield "tables %d" % i, SETUP, cases


def main():
    ck = Check("C34")
    x = lines.exe(DRV)
    for nm, f in [("op", fam_op1), ("sequences", fam_seq), ("reading", fam_probe), ("writing", fam_write), ("current_op", fam_curop), ("enumeration", fam_enum), ("enumeration of tables", fam_enum2),
                  ("flags", fam_flag), ("current_prolog_flag", fam_curflag), ("char_conversion", fam_cc), ("current_char_conversion", fam_cc2)]:
        run_lines(ck, nm, x, f)
    return ck.finish(rule="outcome, whole table and reading/writing after every call and every sequence of updates equal those of abstract tables")
