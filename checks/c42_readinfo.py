"""C42: read_term reports variables and ends truthfully.

Every token sequence up to a length in several layouts, followed by another term: the terms, variables, variable_names,
singletons, start and stop positions, and for the others the position of the syntax error (the first token that no
derivable sequence continues, computed from the grammar) and that the next read starts after the end token."""
import itertools
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import Atom, S, V, fmt, NIL
from vlib.report import Check
from checks import c13_parse, c14_lexer
from checks.c13_parse import Grammar, Var

A = Atom
DRV = c14_lexer.DRV + r"""
ri(S) :- lx_line(S, L), open_input_codes_stream(L, T), ri_loop(T), close_input_codes_stream(T), nl.
ri_loop(S) :-
	read_opts(O, V, VN, SN),
	catch((read_term(S, T, O) -> R = yes ; R = no), E, true),
	ri_one(E, R, S, T, V, VN, SN).
ri_one(E, _, S, _, _, _, _) :- nonvar(E), !, ri_err(E), ri_pos(S), ( E = error(syntax_error(_),_) -> ri_loop(S) ; true ).
ri_one(_, no, S, _, _, _, _) :- write(no), ri_pos(S), ri_loop(S).
ri_one(_, yes, S, T, V, VN, SN) :- !,
	( T == end_of_file, at_end_of_stream(S) -> write(end)
	; \+ \+ (term_variables(r(T,V,VN,SN), L), ln_nv(L, 0), write_term(r(T,V,VN,SN), [quoted(true),ignore_ops(true)])),
	  last_read_start_line_column(A, B), write(' from '), write(A), put_char(':'), write(B), ri_pos(S), ri_loop(S) ).
ri_err(error(syntax_error(A),_)) :- !, syntax_error_info(F, L, C, M), write('error '), write(L), put_char(':'), write(C),
	number_atom(L, LA), number_atom(C, CA), atom_concat(F, ':', X1), atom_concat(X1, LA, X2), atom_concat(X2, ' (char:', X3), atom_concat(X3, CA, X4), atom_concat(X4, ') ', X5), atom_concat(X5, M, X6),
	( X6 == A -> true ; write(' but message '), writeq(A) ).
ri_err(E) :- write('!'), write_term(E, [quoted(true),ignore_ops(true)]).
ri_pos(S) :- line_count(S, A), line_position(S, B), character_count(S, C), write(' upto '), write(A), put_char(':'), write(B), put_char(':'), write(C), write('; ').
:- dynamic(rio/4).
read_opts(O, V, VN, SN) :- rio(O, V, VN, SN), !.
read_opts([variables(V),variable_names(VN),singletons(SN)], V, VN, SN).
"""

TOKS = [("a", "X", "Y", "_", "_A", "((", ")", ","), ("X", "Y", "-", "((", ")", "(", ":-"), ("X", "_", "[", "]", "|", ","), ("X", "Y", "{", "}", "-", "="), ("a", "-", "\\+", "*", "((", ")", 1)]
SEPS = (" ", "\n ", " /* \n*/ ", " % X\n")


def lc(s, i):
    """line, 1-based column of index i"""
    b = s[:i]
    return b.count("\n") + 1, i - (b.rfind("\n") + 1) + 1


def layout(toks, sep):
    """text of the tokens followed by an end token, and the index of each"""
    s = ""
    ix = []
    for t in toks:
        if t == "((":
            ix.append(len(s))
            s += "("
        else:
            s += sep if s or t == "(" else ""
            ix.append(len(s))
            s += str(t)
    s += sep
    ix.append(len(s))
    return s + ".", ix


def occurrences(toks):
    """variables in text order: [(name, var)]; each _ its own"""
    r = []
    for k, t in enumerate(toks):
        if isinstance(t, str) and (t[0].isupper() or t[0] == "_"):
            r.append((k, t))
    return r


def conv(t, toks):
    """term of the grammar -> term with fresh variables; anonymous ones are taken in text order"""
    names = {}

    def cv(t):
        if isinstance(t, Var):
            if t.name.startswith("_#"):
                return names.setdefault(t.name, V())
            return names.setdefault(t.name, V())
        if type(t) is tuple:
            return S(t[0], [cv(x) for x in t[1]])
        return t
    return cv(t), names


def info(term, toks):
    t, names = conv(term, toks)
    order = []
    for k, n in occurrences(toks):
        if n not in order:
            order.append(n)
    vs = [names[n] for n in order]
    nv = [n for n in order if not n.startswith("_#")]
    cnt = {n: toks.count(n) for n in nv}
    eq = lambda n: S("=", (A(n), names[n]))
    return t, mk(vs), mk([eq(n) for n in nv]), mk([eq(n) for n in nv if cnt[n] == 1])


def mk(xs, tail=NIL):
    for x in reversed(xs):
        tail = S(".", (x, tail))
    return tail


class G2(Grammar):
    """'_' tokens are numbered so that each is its own variable"""


def grammar(toks, n):
    g = Grammar([o for o in c13_parse.DEF], toks, n)
    return g


def rename(toks):
    """number the anonymous variables"""
    r = []
    k = 0
    for t in toks:
        if t == "_":
            t = "_#%d" % k
            k += 1
        r.append(t)
    return tuple(r)


def subst(term, n):
    """the grammar shares one Var('_'): number its occurrences in text (= traversal) order"""
    k = [0]

    def go(t):
        if isinstance(t, Var) and t.name == "_":
            k[0] += 1
            return Var("_#%d" % (k[0] - 1))
        if type(t) is tuple:
            return (t[0], tuple(go(x) for x in t[1]))
        return t
    return go(term)


def isvar(t):
    return isinstance(t, str) and (t[0].isupper() or t[0] == "_")


def pos_after(s, i):
    """line_count, line_position, character_count once i characters are consumed"""
    l, c = lc(s, i)
    return "%d:%d:%d" % (l - 1, c - 1, i)


def fam_seqs(i, n, tier):
    L = 5 if tier == "quick" else 6
    for w in TOKS:
        # variables are names for the grammar: '_A' starts with '_', which Grammar treats like a capital
        g = Grammar([o for o in c13_parse.DEF], [t for t in w], L + 3 if len(w) <= 7 else L + 2)
        viable = set()
        for d in g.D:
            for s in d:
                for k in range(len(s) + 1):
                    viable.add(s[:k])
        cs = []
        k = 0
        for l in range(0, L + 1):
            for toks in itertools.product(w, repeat=l):
                k += 1
                if k % n != i:
                    continue
                vs = g.D[l].get(toks) if l else None
                for sep in SEPS:
                    s, ix = layout(toks, sep)
                    end = len(s)
                    full = s + "\nb(Z,Z2)."
                    if vs:
                        first = []
                        for v in vs:
                            first.append(fmt(S("r", info(subst(v[1], 0), list(rename(toks))))) + " from %d:%d upto %s; " % (*lc(s, ix[0]), pos_after(s, end)))
                    else:
                        # reported at a token of the clause (which one is the parser's choice, but not before the last
                        # token that every derivation allows: see bad)
                        bad = next((j for j in range(l) if toks[:j + 1] not in viable), l)
                        first = ["error %d:%d upto %s; " % (*lc(s, ix[j]), pos_after(s, end)) for j in range(max(0, bad - 1), l + 1)]
                    z = len(s) + 1
                    rest = fmt(S("r", info(("b", (Var("Z"), Var("Z2"))), ["b", "((", "Z", ",", "Z2", ")"]))) + " from %d:%d upto %s; end" % (*lc(full, z), pos_after(full, len(full)))
                    exp = {f + rest for f in first}
                    cs.append((c14_lexer.enc(full), exp.pop() if len(exp) == 1 else exp))
        yield " ".join(map(str, w)), "driver(ri).\n", cs


def one(g, toks, viable, s, ix, base, endpos):
    """expected text(s) for the clause whose tokens start at ix (indices in s), whose end token ends at endpos"""
    l = len(toks)
    vs = g.D[l].get(toks) if l else None
    if vs:
        return [fmt(S("r", info(subst(v[1], 0), list(rename(toks))))) + " from %d:%d upto %s; " % (*lc(s, ix[0]), pos_after(s, endpos)) for v in vs]
    bad = next((j for j in range(l) if toks[:j + 1] not in viable), l)
    return ["error %d:%d upto %s; " % (*lc(s, ix[j]), pos_after(s, endpos)) for j in range(max(0, bad - 1), l + 1)]


def fam_pairs(i, n, tier):
    """every pair of short clauses: nothing of the first (names, error, look-ahead) leaks into the second"""
    L = 2 if tier == "quick" else 3
    for w in TOKS:
        g = Grammar([o for o in c13_parse.DEF], list(w), L + 3)
        viable = {s[:k] for d in g.D for s in d for k in range(len(s) + 1)}
        all_ = [t for l in range(0, L + 1) for t in itertools.product(w, repeat=l)]
        for sep, gap in ((" ", " "), ("\n", "\n"), (" /* \n*/ ", "% .\n")):
            cs = []
            k = 0
            lay = {t: layout(t, sep) for t in all_}
            for t1 in all_:
                for t2 in all_:
                    k += 1
                    if k % n != i:
                        continue
                    s1, i1 = lay[t1]
                    s2, i2 = lay[t2]
                    b = len(s1) + len(gap)
                    full = s1 + gap + s2
                    e1 = one(g, t1, viable, full, i1, 0, len(s1))
                    e2 = one(g, t2, viable, full, [x + b for x in i2], b, len(full))
                    exp = {x + y + "end" for x in e1 for y in e2}
                    cs.append((c14_lexer.enc(full), exp.pop() if len(exp) == 1 else exp))
            yield "%s, %r" % (" ".join(map(str, w)), sep), "driver(ri).\n", cs


def fam_opts(i, n, tier):
    """syntax_error(fail|error), end_of_term(dot|eof): every clause of up to 3 tokens, alone on the stream"""
    L = 3 if tier == "quick" else 4
    for w in TOKS:
        g = Grammar([o for o in c13_parse.DEF], list(w), L + 3)
        viable = {s[:k] for d in g.D for s in d for k in range(len(s) + 1)}
        for se in ("error", "fail"):
            for eot in ("dot", "eof"):
                cs = []
                k = 0
                for l in range(0, L + 1):
                    for toks in itertools.product(w, repeat=l):
                        k += 1
                        if k % n != i or (l == 0 and eot == "eof"):
                            continue
                        s, ix = layout(toks, "\n")
                        if eot == "eof":
                            s = s[:-1]
                        full = s if eot == "eof" else s + " x."
                        e1 = one(g, toks, viable, full, ix, 0, len(s))
                        if e1[0].startswith("error") and se != "error":
                            e1 = ["no upto %s; " % pos_after(full, len(s))]
                        e2 = "end" if eot == "eof" else "r(x,[],[],[]) from %d:%d upto %s; end" % (*lc(full, len(s) + 1), pos_after(full, len(full)))
                        exp = {x + e2 for x in e1}
                        cs.append((c14_lexer.enc(full), exp.pop() if len(exp) == 1 else exp))
                yield "%s, %s %s" % (" ".join(map(str, w)), se, eot), "retractall(rio(_,_,_,_)).\nassertz(rio([variables(V),variable_names(VN),singletons(SN),syntax_error(%s),end_of_term(%s)],V,VN,SN)).\ndriver(ri).\n" % (se, eot), cs


def main():
    ck = Check("C42")
    x = lines.exe(DRV)
    run_lines(ck, "token sequences", x, fam_seqs)
    run_lines(ck, "pairs of clauses", x, fam_pairs)
    run_lines(ck, "read options", x, fam_opts)
    return ck.finish(rule="every token sequence in every layout: variables, names, singletons, start, stop and error positions")
