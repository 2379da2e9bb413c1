"""C12: quoted output reads back as the same term, for every term of bounded universes x operator tables x options, each
written text also placed in the argument, list, bracket and operand contexts the priority option is for."""
import itertools
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import Atom, S, V, fmt, qatom
from vlib.report import Check

DRV = r"""
:- dynamic(wopt/3).
% wopt(Name, WriteOptions, Context)
wopt(writeq, wq, n).
wopt(canonical, wc, n).
wopt(quoted, [quoted(true)], n).
wopt(noops, [quoted(true),ignore_ops(true)], n).
wopt(spaces, [quoted(true),space_args(true)], n).
wopt(depth, [quoted(true),max_depth(100)], n).
wopt(p999, [quoted(true),priority(999)], arg).
wopt(p999l, [quoted(true),priority(999),space_args(true)], list).
wopt(p0, [quoted(true),priority(0)], op).

wr_rt(S) :-
	catch(read_term(S, T, []), E, true),
	( nonvar(E) -> write(unreadable), nl
	; T == end_of_file -> fail
	; copy_term(T, T1), ln_nv(T1), wr_all(T, T1), nl ).
wr_all(T, T1) :-
	wopt(N, O, X),
	wr_text(O, T, L0),
	wr_ctx(X, L0, L, T1, T2),
	catch(read_from_codes(L, R), E, true),
	( nonvar(E) -> wr_bad(N, L, E)
	; ln_nv(R), ( R == T2 -> fail ; wr_bad(N, L, R) ) ).
wr_all(_, _) :- write(ok).
wr_text(wq, T, L) :- !, write_to_codes_q(L, T).
wr_text(wc, T, L) :- !, write_canonical_to_codes(L, T).
wr_text(O, T, L) :- write_term_to_codes(L, T, O).
write_to_codes_q(L, T) :- writeq_to_codes(L, T).
wr_ctx(n, L0, L, T, T) :- append(L0, " .", L).
wr_ctx(arg, L0, L, T, foo(T,T)) :- append(L0, ") .", L1), append("foo(", L0, L2), append(L2, [0',|L1], L).
wr_ctx(list, L0, L, T, [T,T|T]) :- append(L0, "] .", L1), append(L0, [0'||L1], L2), append(L0, [0',|L2], L3), L = [0'[|L3].
wr_ctx(op, L0, L, T, (T = T)) :- append(L0, " .", L1), append(L0, [32, 0'=, 32|L1], L).
wr_bad(N, L, R) :- write(N), write(': '), atom_codes(A, L), write_term(A, [quoted(true)]), write(' => '), write_term(R, [quoted(true),ignore_ops(true)]).

% exact text: Options, then Term; the text is printed
wr_ex(S) :-
	catch(read_term(S, O-T, [variable_names(VN)]), E, true),
	( nonvar(E) -> write(unreadable), nl
	; O == end -> fail
	; catch(wr_exo(O, VN, T), E2, true), ( nonvar(E2) -> put_char('!') ; true ), nl ).
wr_exo(vn(O), VN, T) :- !, write_term(T, [variable_names(VN)|O]).
wr_exo(op(P,Ty,N), _, O-T) :- !, op(P, Ty, N), wr_exo(O, [], T).
wr_exo(O, _, T) :- write_term(T, O).
"""
A = Atom


def vn(k):
    return S("$v", (k,))


def text(t):
    """canonical input text; variables are S('$v', (k,))"""
    if type(t) is S:
        if t.name == "$v":
            return "X%d" % t.args[0]
        return "%s(%s)" % (qatom(t.name) if t.name not in (",", "|") else "'%s'" % t.name, ",".join(text(x) for x in t.args))
    if type(t) is Atom:
        q = qatom(t.name) if t.name not in ("|",) else "'|'"
        return q
    if isinstance(t, float):
        return fmt(t)
    return str(t)


LEAVES = [A(x) for x in ("a", "[]", "{}", "", " ", "\n", "A", "_x", "+", "-", ",", "|", "!", ";", ".", "/*", "\\", "a b", "'", "\xe9", ":-", "->", "is", "e", "0", "end_of_file", "\\+", "%", "..", "a.", "dynamic", "**")] + [0, 1, -1, 2.5, -2.5, 1.0e30, vn(0), vn(1)]
UN = ["f", "-", "+", "\\", "\\+", ":-", "?-", "[]", "{}", "", "A", ",", "|", "!", ";", "a b", "'", "*", "."]
BIN = ["f", "-", "+", "*", ",", "|", ";", "->", ":-", "=", "is", "**", "^", ":", ".", "[]", "{}", "mod", "/*", "=..", "#\\=", "\\=", "!"]


def fam_default(i, n, tier):
    def terms():
        for x in LEAVES:
            if x is not A("end_of_file"):
                yield x
        for f in UN:
            for x in LEAVES:
                yield S(f, (x,))
        for f in BIN:
            for x in LEAVES:
                for y in LEAVES:
                    yield S(f, (x, y))
        lv = [A("a"), A("-"), 1, -1, vn(0), A("[]"), A("{}"), A(",")]
        if tier != "quick":
            lv += [2.5, A("\\+"), A("|"), A("A"), A(":-")]
        un = ["-", "\\+", ":-", "f", "{}", "+", "\\"]
        bi = ["-", ",", "^", ":-", "=", ".", "|", "**", "->", "f", "*"]
        d1 = [S(f, (x,)) for f in un for x in lv] + [S(f, (x, y)) for f in bi for x in lv for y in lv]
        for f in un:
            for x in d1:
                yield S(f, (x,))
                for g in un:
                    yield S(g, (S(f, (x,)),))
        for f in bi:
            for x in d1:
                for y in lv:
                    yield S(f, (x, y))
                    yield S(f, (y, x))
        sm = [S(f, (x,)) for f in un for x in (A("a"), A("-"), 1, -1)] + [S(f, (x, y)) for f in bi for x, y in ((A("a"), 1), (-1, A("-")))]
        for f in bi:
            for x in sm:
                for y in sm:
                    yield S(f, (x, y))
    cs = [(text(t) + " .", "ok") for k, t in enumerate(terms()) if k % n == i]
    yield "default operators", "driver(wr_rt).\n", cs


def fam_tables(i, n, tier):
    from checks.c13_parse import tables, optext
    lv = [A("a"), A("p"), 1, -1]
    for k, ops in enumerate(tables(tier)):
        if k % n != i:
            continue
        fs = sorted(set(o[2] for o in ops))
        lv = [A("a"), 1, -1] + [A(f) for f in fs]
        u = [S(f, (x,)) for f in fs for x in lv]
        b = [S(f, (x, y)) for f in fs for x in lv for y in lv]
        d1 = u + b
        ts = lv + d1
        for f in fs:
            for x in d1:
                ts.append(S(f, (x,)))
                for y in [A("a"), -1, A(fs[-1])]:
                    ts.append(S(f, (x, y)))
                    ts.append(S(f, (y, x)))
            sm = [S(g, (A("a"),)) for g in fs] + [S(g, (1, A("a"))) for g in fs]
            for x, y in itertools.product(sm, sm):
                ts.append(S(f, (x, y)))
                for g in fs:
                    ts.append(S(g, (S(f, (x, y)),)))
                    ts.append(S(g, (S(f, (x, y)), A("a"))))
                    ts.append(S(g, (-1, S(f, (x, y)))))
                ts.append(S(".", (S(f, (x, y)), A("[]"))))
                ts.append(S("{}", (S(f, (x, y)),)))
        yield " ".join("%d%s%s" % o for o in ops), optext(ops) + "driver(wr_rt).\n", [(text(t) + " .", "ok") for t in ts]


HIGH = [[(1200, "xfx", "i"), (1200, "fx", "p"), (1200, "xf", "s")], [(999, "xfy", "i"), (999, "fy", "p"), (999, "yf", "s")], [(1000, "yfx", "i"), (1000, "fy", "p"), (1000, "yf", "s")], [(1, "xfx", "i"), (1, "fx", "p"), (1, "xf", "s")], [(700, "xfx", "[]"), (700, "fy", "{}")], [(700, "fy", "[]"), (700, "xfx", "{}")],
        [(200, "xfx", "-"), (700, "fy", "-")], [(200, "xf", "-"), (0, "yfx", "-")], [(0, "fy", "-")], [(0, "xfy", "|")], [(1001, "xfy", "|")], [(1200, "xfy", "|")], [(200, "xfy", "e"), (200, "fy", "x")], [(400, "yfx", "E"), (300, "fy", "A")], [(400, "yfx", "*/"), (300, "fy", "/*")], [(400, "yfx", ".."), (300, "fy", ".(")], [(400, "xf", "."), (300, "fy", "$")],
        [(400, "yfx", ""), (300, "fy", " ")], [(400, "fy", "!"), (300, "xfx", ";"), (200, "xfx", "!")], [(300, "fy", ";")], [(1105, "xfy", ";"), (1105, "xfy", "|")], [(300, "fx", "1"), (400, "xfx", "0'")], [(300, "fx", "a b"), (400, "xfx", "'")],
        [(300, "xf", "a b"), (200, "xfx", "'"), (100, "fy", "x y")], [(100, "yf", ""), (200, "xfx", " "), (300, "fy", "X")], [(200, "xf", "b"), (200, "xf", "x"), (300, "xfx", "o")]]


def fam_high(i, n, tier):
    from checks.c13_parse import optext
    for k, ops in enumerate(HIGH):
        if k % n != i:
            continue
        fs = sorted(set(o[2] for o in ops)) + ["-", ","]
        lv = [A("a"), 1, -1, 0, 2.5, vn(0), A("[]"), A("{}"), A("E"), A("e")] + [A(f) for f in fs]
        u = [S(f, (x,)) for f in fs for x in lv]
        b = [S(f, (x, y)) for f in fs for x in lv for y in lv]
        ts = lv + u + b
        d1 = u + [S(f, (x, y)) for f in fs for x in lv[:3] for y in lv]
        for f in fs + [".", "=", "f", "{}", ":-"]:
            for x in d1:
                ts.append(S(f, (x,)))
                for y in (A("a"), 1, -1, 0, A(fs[0])):
                    ts.append(S(f, (x, y)))
                    ts.append(S(f, (y, x)))
        yield " ".join("%d%s%s" % o for o in ops), "".join("op(%d,%s,%s).\n" % (p, t, qatom(a) if a != "|" else "'|'") for p, t, a in ops) + "driver(wr_rt).\n", [(text(t) + " .", "ok") for t in ts]


def fam_names(i, n, tier):
    """every atom name up to two characters (three over a smaller alphabet), as atom, functor, operand and element"""
    al = " aZ_09'\"`\\/*.,|;!()[]{}%+-=:~\n\t\xe9\x7f\x80"
    names = [chr(c) for c in range(1, 256)] + ["".join(x) for x in itertools.product(al, repeat=2)] + ["".join(x) for x in itertools.product("aA_0'\\/*.%[]{}|, \n" if tier == "quick" else al, repeat=3)]
    cs = []
    for k, m in enumerate(names):
        if k % n != i:
            continue
        a = A(m)
        q = text(a)
        for t in ("f(%s)", "-(%s)", "-(a,%s)", "-(%s,1)", "'.'(%s,%s)", "'{}'(%s)", "','(%s,b)", "%s(X,-1)", "%s(1)", "\\+(\\(%s))", "f(-(%s),*(2,%s))"):
            cs.append((t.replace("%s", q) + " .", "ok"))
    yield "names", "driver(wr_rt).\n", cs


def fam_numbers(i, n, tier):
    if i:
        return
    vs = [0, 1, -1, 10, (1 << 60) - 1, -(1 << 60), 1.0, -1.0, 0.1, -0.1, 1e10, 1e22, 1e23, 1.5e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.125, 1e15, 1e16, 1e17, 0.0001, 0.00001, 1 / 3, 2.0 ** 60, 2.0 ** 0.5, 100000.0, 1000000.0]
    cs = []
    for v in vs:
        for t in ("%s", "-(%s)", "+(%s)", "\\(%s)", "-(-(%s))", "-(a,%s)", "-(%s,a)", "^(%s,2)", "-(^(%s,2))", "**(%s,%s)", "-(%s,%s)", "'.'(%s,%s)", "f(%s)", ":-(%s)", "{}(%s)", "=(a,%s)", "+(%s,e)", "mod(%s,%s)", "\\+(%s)", "-(+(%s,1))", "-(a,-(%s))", "*(-(%s),2)", "^(-(%s),2)"):
            cs.append((t.replace("%s", fmt(v)) + " .", "ok"))
    yield "numbers", "driver(wr_rt).\n", cs


EXACT = [
    # numbervars / namevars / variable_names
    ("[numbervars(true)]-'$VAR'(0)", "A"), ("[numbervars(true)]-'$VAR'(25)", "Z"), ("[numbervars(true)]-'$VAR'(26)", "A1"), ("[numbervars(true)]-'$VAR'(27)", "B1"), ("[numbervars(true)]-'$VAR'(51)", "Z1"), ("[numbervars(true)]-'$VAR'(52)", "A2"), ("[numbervars(true)]-'$VAR'(2625)", "Z100"),
    ("[numbervars(false)]-'$VAR'(1)", "$VAR(1)"), ("[quoted(true)]-'$VAR'(1)", "'$VAR'(1)"), ("[quoted(true),numbervars(true)]-'$VAR'(x)", "'$VAR'(x)"), ("[quoted(true),numbervars(true)]-'$VAR'('A')", "'$VAR'('A')"), ("[quoted(true),numbervars(true)]-'$VAR'(1,2)", "'$VAR'(1,2)"), ("[quoted(true),numbervars(true)]-'$VAR'(1.0)", "'$VAR'(1.0)"),
    ("[numbervars(true)]-f('$VAR'(3),g('$VAR'(3)))", "f(D,g(D))"), ("[numbervars(true)]-('$VAR'(3)-'$VAR'(4))", "D-E"), ("[numbervars(true)]-['$VAR'(3)|'$VAR'(4)]", "[D|E]"), ("[numbervars(true),ignore_ops(true)]-f('$VAR'(3))", "f(D)"),
    ("[namevars(true)]-'$VARNAME'('Foo')", "Foo"), ("[namevars(false),quoted(true)]-'$VARNAME'('Foo')", "'$VARNAME'('Foo')"), ("[namevars(true),quoted(true)]-'$VARNAME'('_X1')", "_X1"), ("[namevars(true),quoted(true)]-'$VARNAME'(1)", "'$VARNAME'(1)"),
    ("vn([])-f(Foo,Bar,Foo)", "f(Foo,Bar,Foo)"), ("vn([quoted(true)])-[X|Y]", "[X|Y]"), ("vn([quoted(true)])-(- X + Y)", "-X+Y"), ("vn([ignore_ops(true)])-(X+Y)", "+(X,Y)"),
    ("[variable_names(['A'=X,'B'=X])]-f(X)", None),
    # quoted, ignore_ops, space_args
    ("[quoted(false)]-f('A b','\\n')", None), ("[]-'hello World'", "hello World"), ("[quoted(true)]-'hello World'", "'hello World'"), ("[quoted(false)]-'don''t'", "don't"), ("[quoted(true)]-'don''t'", "'don''t'"),
    ("[ignore_ops(true)]-(1+2*3)", "+(1,*(2,3))"), ("[ignore_ops(true)]-[1,2]", "'.'(1,'.'(2,[]))"), ("[ignore_ops(true),quoted(true)]-(a:-b,c)", ":-(a,','(b,c))"), ("[ignore_ops(true)]-{a}", "{}(a)"), ("[ignore_ops(true)]-(- 1)", "-1"), ("[ignore_ops(true)]- -(1)", "-(1)"), ("[ignore_ops(true)]- -(a)", "-(a)"),
    ("[]-[1,2|a]", "[1,2|a]"), ("[]-{a,b}", "{a,b}"), ("[]-(a:-b,c;d->e)", "a:-b,c;d->e"), ("[]- -(1)", "- (1)"), ("[]- (1 - -1)", "1- -1"), ("[]-(a= \\b)", "a= \\b"), ("[]-(-(-(1)))", "- - (1)"), ("[]- - (-1)", "- -1"), ("[]-(-(a))", "-a"), ("[]-(-(-(a)))", "- -a"), ("[]-(1-(2-3))", "1-(2-3)"), ("[]-((1-2)-3)", "1-2-3"), ("[]-(2**(3**4))", "2**(3**4)"), ("[]-((a:-b):-c)", "(a:-b):-c"),
    ("[]-f((a,b))", "f((a,b))"), ("[]-f((a:-b))", "f((a:-b))"), ("[]-[(a,b),c]", "[(a,b),c]"), ("[]-(a=b)", "a=b"), ("[]-(a is b)", "a is b"), ("[]-(a->b)", "a->b"), ("[]-(a,b)", "a,b"), ("[]-f(:-)", "f(:-)"), ("[]-(- (-))", "- (-)"), ("[]-(\\+ (a,b))", "\\+ (a,b)"), ("[]-(:- a)", ":-a"),
    ("[space_args(true)]-f(a,b,[c,d|e])", "f(a, b, [c, d|e])"), ("[space_args(false)]-f(a,b,[c,d|e])", "f(a,b,[c,d|e])"), ("[space_args(true),quoted(true)]-f(',',b)", "f(',', b)"), ("[space_args(true)]-f({a,b})", None),
    # priority
    ("[priority(999)]-(a,b)", "(a,b)"), ("[priority(1000)]-(a,b)", "a,b"), ("[priority(500)]-(1+2)", "1+2"), ("[priority(499)]-(1+2)", "(1+2)"), ("[priority(0)]-(- a)", "(-a)"), ("[priority(0)]-a", "a"), ("[priority(1200)]-(a:-b)", "a:-b"), ("[priority(1199)]-(a:-b)", "(a:-b)"), ("[priority(0)]- -1", None), ("[priority(0)]-[a]", "[a]"),
    # rightmost option wins, errors
    ("[quoted(true),quoted(false)]-'A'", "A"), ("[quoted(false),quoted(true)]-'A'", "'A'"), ("[foo]-a", "!"), ("[quoted(maybe)]-a", "!"), ("[quoted(_)]-a", "!"), ("_-a", "!"), ("[quoted(true)|_]-a", "!"), ("[_]-a", "!"), ("foo-a", "!"), ("[max_depth(a)]-b", "!"), ("[numbervars(1)]-b", "!"), ("[variable_names(a)]-b", "!"), ("[variable_names([a])]-b", "!"),
    # max_depth
    ("[max_depth(0)]-f(g(h(i)))", "f(g(h(i)))"), ("[max_depth(10)]-f(g(h(i)))", "f(g(h(i)))"), ("[max_depth(20)]-[a,b,c]", "[a,b,c]"),
    # extra operators
    ("op(0,xfx,===)-([]-(===(a,b)))", "===(a,b)"), ("op(200,xfy,&)-([quoted(true)]-(&(a,&(b,c))))", "a&b&c"), ("op(9,fx,fx)-([quoted(true)]-(fx(a)))", "fx a"), ("op(9,xf,xf)-([quoted(true)]-(xf(a)))", "a xf"), ("op(9,fy,++)-([quoted(true)]-(++(++(a))))", "++ ++a"),
]


def fam_exact(i, n, tier):
    if i:
        return
    cs = [(a + " .", e) for a, e in EXACT if e is not None]
    for k in range(0, 120):
        cs.append(("[numbervars(true)]-f('$VAR'(%d)) ." % k, "f(%s)" % (chr(65 + k % 26) + (str(k // 26) if k >= 26 else ""))))
    for k in (-1, -26):
        cs.append(("[numbervars(true),quoted(true)]-'$VAR'(%d) ." % k, lambda g: g.startswith("'$VAR'(") or g.startswith("S")))
    yield "exact texts", "driver(wr_ex).\n", cs + [("end-end .", "")][:0]


def main():
    ck = Check("C12")
    x = lines.exe(DRV)
    run_lines(ck, "default operators", x, fam_default)
    run_lines(ck, "operator tables", x, fam_tables)
    run_lines(ck, "special tables", x, fam_high)
    run_lines(ck, "atom names", x, fam_names)
    run_lines(ck, "numbers", x, fam_numbers, shards=1)
    run_lines(ck, "options", x, fam_exact, shards=1)
    return ck.finish(rule="every term x operator table x writing option: the text, alone and in its contexts, reads back as a variant of the term")
