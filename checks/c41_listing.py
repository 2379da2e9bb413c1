"""C41: listed clauses read back as the same program.

Every body up to a depth over the control constructs and other operators, every head form, argument terms, variable
patterns and operator tables: the text portray_clause writes, read with the same operators, is a variant of the clause;
and every short history of updates followed by every form of listing: the clauses printed, read back, are those of
clause/2 for exactly the predicates asked for, in order."""
import itertools
import os
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import A, fmt
from vlib.report import Check

DRV = r"""
ls(In) :-
	catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	catch((ls_do(T, R) -> true ; R = failed), E2, R = ball(E2)),
	ln_put(R).
ls_do(c(T), R) :-
	copy_term(T, T0),
	open_output_atom_stream(S), portray_clause(S, T), close_output_atom_stream(S, A),
	( ls_var(T, T0) -> true ; throw(bound) ),
	open_output_atom_stream(S1), current_output(O), set_output(S1), portray_clause(T), set_output(O), close_output_atom_stream(S1, A1),
	( A1 == A -> true ; throw(differ(A, A1)) ),
	ls_rd(A, L),
	( L = [X], ls_norm(X, Y), ls_norm(T, Z), ls_var(Y, Z) -> R = ok ; R = bad(A, L) ).
ls_do(l(Gs, Q, Ps), R) :-
	ls_run(Gs),
	open_output_atom_stream(S), current_output(O), set_output(S),
	catch(ls_lst(Q), E, true), set_output(O), close_output_atom_stream(S, A),
	( nonvar(E) -> R = ball(E)
	; ls_rd(A, L),
	  ls_sel(Ps, Q, Ps1),
	  ls_cmp(L, Ps1, Bad), ( Bad = [] -> R = ok ; R = bad(A, Bad) ) ),
	ls_clr(Ps).
ls_do(e(G), R) :- open_output_atom_stream(S), current_output(O), set_output(S), catch((call(G) -> R = yes ; R = no), error(R, _), true), set_output(O), close_output_atom_stream(S, _).
ls_run([]).
ls_run([G|Gs]) :- catch((call(G) -> true ; true), _, true), ls_run(Gs).
ls_clr([]).
ls_clr([N/K|L]) :- functor(H, N, K), catch((predicate_property(H, dynamic) -> abolish(N/K) ; true), _, true), ls_clr(L).
ls_lst(all) :- listing.
ls_lst(q(X)) :- listing(X).
ls_sel([], _, []).
ls_sel([N/K|L], Q, M) :-
	functor(H, N, K),
	( ls_ask(Q, N, K) -> findall(C, (clause(H, B), ls_norm((H :- B), C)), Cs), M = [N/K-Cs|M1] ; M = M1 ),
	ls_sel(L, Q, M1).
ls_ask(all, N, _) :- \+ sub_atom(N, 0, 1, _, '$').
ls_ask(q(X), N, K) :- \+ sub_atom(N, 0, 1, _, '$'), \+ \+ (atom(X) -> X = N ; X = N/K).
ls_cmp([], [], []).
ls_cmp(L, Ps, Bad) :-
	ls_grp(L, G),
	findall(B, ls_cmp1(G, Ps, B), Bad).
ls_cmp1(G, _, twice(PI)) :- append(_, [PI-_|X], G), memberchk(PI-_, X).
ls_cmp1(G, Ps, foreign(PI)) :- member(PI-_, G), \+ memberchk(PI-_, Ps).
ls_cmp1(G, Ps, wrong(PI, Cs, Ds)) :- member(PI-Cs, Ps), ( memberchk(PI-Ds, G) -> true ; Ds = [] ), \+ ls_var(Cs, Ds).
ls_grp([], []).
ls_grp([C|L], [PI-[C1|Cs]|G]) :- ls_norm(C, C1), ls_pi(C1, PI), ls_grp1(L, PI, Cs, L1), ls_grp(L1, G).
ls_grp1([C|L], PI, [C1|Cs], M) :- ls_norm(C, C1), ls_pi(C1, PI), !, ls_grp1(L, PI, Cs, M).
ls_grp1(L, _, [], L).
ls_pi((H :- _), N/K) :- functor(H, N, K).
ls_rd(A, L) :- open_input_atom_stream(A, S), catch(ls_rds(S, L), E, (close_input_atom_stream(S), L = [err(E)])), ( L = [err(_)] -> true ; close_input_atom_stream(S) ).
ls_rds(S, L) :- read(S, X), ( X == end_of_file -> L = [] ; L = [X|M], ls_rds(S, M) ).
ls_norm(X, Y) :- nonvar(X), X = (_ :- _), !, Y = X.
ls_norm(X, (X :- true)) :- nonvar(X), \+ X = (_ --> _), \+ X = (:- _), !.
ls_norm(X, X).
ls_var(X, Y) :- subsumes_term(X, Y), subsumes_term(Y, X).
ls_load(T, F) :- open(F, write, S), write(S, T), close(S), consult(F).
"""
OPSETS = {
    "default": "",
    "user": "op(700,xfx,===>), op(200,xf,!!), op(900,fy,not), op(1150,fx,dyn), op(1100,xfy,a), op(1200,xfx,rule), op(0,xfx,=), op(300,fx,b), op(1000,xfy,&), op(1090,yfx,or).\n",
    "less": "op(0,xfy,->), op(0,xfy,*->), op(0,fy,\\+), op(0,xfx,is), op(0,yfx,-), op(0,xfx,-->).\n",
    "tight": "op(800,xfy,;), op(1150,xfy,->), op(900,fy,:-), op(1200,xfx,is), op(1199,yfx,*->).\n",
}
BIN = ["','", "';'", "'->'", "'*->'", "':-'", "'|'", "'-->'"]


def q(s):
    return fmt(A(s))


def bodies(leaves, conn, depth):
    prev = list(leaves)
    for _ in range(depth):
        prev = list(leaves) + ["%s(%s,%s)" % (c, x, y) for c in conn for x in prev for y in prev]
    return prev


def fam_body(i, n, tier):
    sets = [(["a", "!", "X", "p(X,Y)"], BIN, 2 if False else 1), (["a", "!", "X"], BIN[:6], 2), (["a"], BIN[:4], 3)]
    if tier == "thorough":
        sets += [(["a"], BIN[:5], 3), (["a", "!", "X", "b"], BIN, 2)]
    L = []
    for s in sets:
        L += bodies(*s)
    # negations, other prefix operators and non-callable shapes inside
    un = ["\\+(%s)", "':-'(%s)", "'?-'(%s)", "call(%s)", "'{}'(%s)", "'.'(%s,[])", "findall(X,%s,Y)", "-(%s)", "^(X,%s)", "'='(X,%s)", "'$VAR'(%s)", "'.'(x,%s)", ":(m,%s)"]
    d1 = bodies(["a", "!", "X"], BIN[:5], 1)
    L += [u % b for u in un for b in d1]
    L += ["%s(%s,%s)" % (c, u % b, "z") for c in BIN[:5] for u in un for b in ("a", "','(a,b)", "';'(a,b)", "'->'(a,b)", "X")]
    L += ["%s(%s,%s)" % (c, "z", u % b) for c in BIN[:5] for u in un for b in ("a", "','(a,b)", "';'(a,b)", "'->'(a,b)", "X")]
    L += ["true", "fail", "[]", "{}", "1", "'A'", "'a b'", "'.'(a,[])", "- 1", "-(1)", "-(-(1))", "-", "*", "','", "'|'", "(:-)", "dynamic", "is", "1.5", "','(true,true)", "'$VAR'(1)", "'$VARNAME'('X')"]
    L = list(dict.fromkeys(L))
    for o, s in OPSETS.items():
        if tier == "quick" and o != "default":
            mine = [b for j, b in enumerate(L) if len(b) < 30 or j % 4 == 0]
        else:
            mine = L
        cs = []
        for b in mine[i::n]:
            cs.append(("c(':-'(h(X,Z),%s))." % b, "ok"))
            if len(b) < 40 or tier == "thorough":
                cs.append(("c(':-'(%s))." % b, "ok"))
                cs.append(("c('-->'(h,%s))." % b, "ok"))
        yield "bodies, operators %s" % o, s + "driver(ls).\n", cs


TERMS = ["a", "X", "Y", "Z", "0", "1", "-1", "-(1)", "- a", "1.0e10", "-1.0", "'A'", "[]", "{}", "'\\n'", "'it''s'", "'.'(a,'.'(X,T))", "'.'(a,[])", "'{}'(X)", "'{}'(','(a,b))", "f(X,Y)", "+(a,b)", "-(a,-(b,c))", "-(-(a,b),c)", "','(a,b)", "':-'(a,b)", "':-'(a)", "\\+(a)", "'$VAR'(0)", "'$VAR'(1)", "'$VAR'(27)", "'$VAR'(X)", "'$VAR'('Foo')", "'$VARNAME'('A')", "'$VARNAME'('_')", "'$VARNAME'(X)", "(*)", "(-)", "','", "'|'", "'|'(a,b)", "'='(=,=)", "-((-))", "'.'((:-),[])", "dynamic", "'hello world'", "'_x'", "\"str\"", "'/*'", "'%'", "'!'", "';'", "'[]'", "'{}'", "'\\\\'", "f(',')", "f((:-))", "f(':-'(a,b))", "'.'(':-'(a,b),[])", "'.'(','(a,b),','(a,b))", "=>(a,b)", "===>(a,===>)", "'!!'(a)", "not(not(a))", "b(b)", "b(1)", "&(a,&(b,c))", "or(or(a,b),or(c,d))", "dyn(a)", "rule(a,b)", "^(X,^(Y,a))", "**(2,**(3,4))", "mod(a,b)", "-(2,3)", "^(-1,2)", "^(-(1),2)", "^(- a,2)"]


def fam_terms(i, n, tier):
    fs = ["c(%s).", "c(':-'(%s,b)).", "c(':-'(%s,true)).", "c('-->'(%s,b)).", "c('-->'(%s,true)).", "c('-->'(%s,[])).", "c(h(%s)).", "c(':-'(h(%s),g(%s))).".replace("%s))).", "%s,Y)))."), "c(':-'(h,is(X,%s))).", "c('-->'(','(h,%s),i)).", "c('.'(%s,[])).", "c(':-'(h,','(i,%s))).", "c(':-'(h,;(->(%s,%s),%s))).", "c('?-'(%s)).", "c('-->'(%s))."]
    for o, s in OPSETS.items():
        cs = []
        for k, (f, t) in enumerate(itertools.product(fs, TERMS)):
            if k % n != i:
                continue
            if t in "XYZ" and "true" in f:
                continue
            x = f.replace("%s", t)
            cs.append((x, lambda g, t=t, f=f: g == "ok" or (g.startswith("ball(error(") and f == "c(%s)." and t in NC)))
        yield "terms, operators %s" % o, s + "driver(ls).\n", cs
        two = [("c(':-'(f(%s,%s),g(%s)))." % (x, y, y), "ok") for x, y in itertools.product(TERMS, repeat=2)]
        two += [("c(h('='(%s,%s)))." % (x, y), "ok") for x, y in itertools.product(TERMS, repeat=2)]
        if o in ("default", "user") or tier == "thorough":
            yield "pairs of terms, operators %s" % o, s + "driver(ls).\n", two[i::n]


NC = {"X", "Y", "Z", "0", "1", "-1", "1.0e10", "-1.0"}


def parts(n):
    def go(k, m):
        if k == n:
            yield ()
            return
        for v in range(m + 1):
            for r in go(k + 1, max(m, v + 1)):
                yield (v,) + r
    return go(0, 0)


def fam_vars(i, n, tier):
    cs = []
    for m in range(1, 8 if tier == "quick" else 10):
        for p in parts(m):
            vs = ["V%d" % v for v in p]
            cs.append(("c(':-'(h(%s),p(%s)))." % (",".join(vs[: m // 2 + 1]), ",".join(vs[m // 2 + 1:] or ["k"])), "ok"))
    for m in list(range(1, 120)) + [700, 701, 702, 703, 2000]:
        vs = ["V%d" % k for k in range(m)]
        cs.append(("c(h(%s))." % (",".join(vs) if m < 250 else "[" + ",".join(vs) + "]"), "ok"))
        cs.append(("c(':-'(h([%s]),p([%s])))." % (",".join(vs), ",".join(vs)), "ok"))
        cs.append(("c(':-'(h([%s]),p([%s],'$VAR'(%d),'$VAR'(0),'$VARNAME'('B3'))))." % (",".join(vs), ",".join(vs[::2]), m // 2), "ok"))
    cs += [("c(f(%s,'$VAR'(%s),'$VARNAME'('%s'),%s))." % (x, k, v, x), "ok") for x in ("X", "g(X,Y,Y)") for k in (0, 1, 2, 25, 26, 131070, 131071, 131072, 200000, 2 ** 31, 2 ** 32, -1, -2 ** 40, 2 ** 59) for v in ("A", "B", "A1", "Z9", "A5041", "A5042", "A99999999999", "_", "foo", "A-1", "Z-1")]
    # deep bodies
    for d in (10, 100, 1000):
        b1 = b2 = b3 = b4 = "a"
        for _ in range(d):
            b1 = "';'(%s,b)" % b1
            b2 = "'->'(b,%s)" % b2
            b3 = "','(%s,b)" % b3
            b4 = "','(b,%s)" % b4
        cs += [("c(':-'(h,%s))." % b, "ok") for b in (b1, b2, b3, b4)]
    yield "variables", "driver(ls).\n", cs[i::n]


UPD = ["assertz(p(1))", "asserta((p(X) :- q(X), !))", "assertz((p :- a ; b -> c))", "assertz(q(X, Y, X))", "assertz('$h'(1))", "assertz((q(X) :- \\+ X, X = \"ab\"))", "retract((p(X) :- Y))", "abolish(p/1)", "retractall(q(_,_,_))", "assertz((p(A) :- (A, b), (c, d)))", "assertz('P x'('it''s'))", "assertz((X + Y))", "assertz(p(f(A,B,_), A, B))", "asserta((p(_) :- X = '$VAR'(1), w(X)))"]
PIS = ["p/1", "p/0", "q/3", "q/1", "p/3", "'$h'/1", "'P x'/1", "(+)/2"]
ASK = ["all", "q(p/1)", "q(p)", "q(q)", "q(p/0)", "q(_/1)", "q(p/_)", "q(_/_)", "q('$h'/1)", "q('P x')", "q(+)", "q(zork)", "q(zork/3)", "q((+)/2)"]


def fam_hist(i, n, tier):
    hs = [h for m in (0, 1, 2, 3) for h in itertools.product(range(len(UPD)), repeat=m)]
    cs = []
    for k, h in enumerate(hs):
        asks = ASK if len(h) < 3 else [ASK[k % len(ASK)]] if tier == "quick" else ASK[k % 2::2]
        for a in asks:
            cs.append(("l([%s],%s,[%s])." % (",".join("(%s)" % UPD[x] for x in h), a, ",".join(PIS)), "ok"))
    for part in range(4):
        yield "histories %d" % part, "driver(ls).\n", cs[i * 4 + part::n * 4]
    if i == 0:
        E = [("listing(_)", "instantiation_error"), ("listing(f(x))", "type_error(predicate_indicator,f(x))"), ("listing(1)", "type_error(predicate_indicator,1)"), ("portray_clause(_)", "instantiation_error"), ("portray_clause(1)", "type_error(callable,1)"), ("portray_clause(_,a)", "instantiation_error"), ("portray_clause(nope,a)", "existence_error(stream,nope)"), ("portray_clause(user_input,a)", "permission_error(output,stream,user_input)"), ("portray_clause(1,a)", "domain_error(stream_or_alias,1)"), ("listing(append)", "yes"), ("listing(nothing/7)", "yes")]
        yield "errors", "driver(ls).\n", [("e(%s)." % g, e) for g, e in E]


CL = ["r(1).", "r(X) :- s(X), !, t(Y, Y).", "r(_) :- ( a -> b ; c ), \\+ d.", "s(X) --> [X], t, !, {u(X)}.", "s(a, b).", "r :- X, (Y ; Z).", "s(X) --> \"ab\", X | y.", ":- dynamic(r/2).", "r(A, B) :- A =.. [B|_].", ":- op(700, xfx, ===>).\nr(a ===> b).", "r(0'a, 0x1F, 1.5e3).", ":- initialization(true).", "t(X, Y) :- catch(X, Y, (a, b)), findall(X, (p, q), Y)."]
PI2 = ["r/0", "r/1", "r/2", "r/3", "s/1", "s/2", "s/3", "t/2"]


def fam_file(i, n, tier):
    fs = [h for m in (1, 2) for h in itertools.product(range(len(CL)), repeat=m)]
    if tier == "thorough":
        fs += list(itertools.permutations(range(len(CL)), 3))
    for k, h in enumerate(fs):
        if k % n != i:
            continue
        txt = ":- discontiguous([r/0,r/1,r/2,r/3,s/1,s/2,s/3,t/2]).\n" + "".join(CL[x] + "\n" for x in h)
        cs = [("l([],%s,[%s])." % (a, ",".join(PI2)), "ok") for a in ("all", "q(r)", "q(r/1)", "q(s/2)", "q(_/2)")]
        cs = [("l([],%s,[%s])." % (a, ",".join(PI2)), "ok") for a in ("all", "q(r)", "q(r/1)", "q(s/3)", "q(_/2)")][:1 if len(h) > 2 else 5]
        yield "consulted file %r" % (h,), "ls_load(%s,'f.pl').\ndriver(ls0).\n" % q(txt), cs


DRV2 = r"""
ls_exp(Es) :- open('f.pl', read, S), ls_exp(S, Es), close(S).
ls_exp(S, Es) :- read(S, T), ( T == end_of_file -> Es = [] ; T = (:- _) -> ls_exp(S, Es) ; expand_term(T, T1), ls_norm(T1, (H :- B)), ls_goal(B, B1), Es = [(H :- B1)|M], ls_exp(S, M) ).
ls_goal(X, Y) :- var(X), !, Y = call(X).
ls_goal(X, Y) :- X =.. [F,A,B], memberchk(F, [',', ';', '->', '*->']), !, ls_goal(A, A1), ls_goal(B, B1), Y =.. [F,A1,B1].
ls_goal(X, X).
ls_sel0([], _, _, []).
ls_sel0([N/K|L], Es, Q, M) :-
	functor(H, N, K),
	( ls_ask(Q, N, K) -> findall((H :- B), member((H :- B), Es), Cs), M = [N/K-Cs|M1] ; M = M1 ),
	ls_sel0(L, Es, Q, M1).
ls0(In) :-
	catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	T = l(Gs, Q, Ps),
	ls_run(Gs),
	open_output_atom_stream(S), current_output(O), set_output(S),
	catch(ls_lst(Q), E2, true), set_output(O), close_output_atom_stream(S, A),
	( nonvar(E2) -> R = ball(E2)
	; ls_rd(A, L), ls_exp(Es), ls_sel0(Ps, Es, Q, Ps1), ls_cmp(L, Ps1, Bad), ( Bad = [] -> R = ok ; R = bad(A, Bad) ) ),
	ln_put(R).
"""


def main():
    ck = Check("C41")
    x = lines.exe(DRV + DRV2)
    run_lines(ck, "bodies", x, fam_body)
    run_lines(ck, "terms", x, fam_terms)
    run_lines(ck, "variables", x, fam_vars)
    run_lines(ck, "listing", x, fam_hist)
    run_lines(ck, "file", x, fam_file)
    return ck.finish(rule="states = distinct clauses and histories; transitions = clauses printed, read back and compared by the real system; each is run on the implementation")
