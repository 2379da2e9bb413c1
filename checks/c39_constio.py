"""C39: term I/O on constants equals stream I/O on their text.

Every term of a family x every writing predicate x every representation, every short text x every reading predicate,
against the same operation on a file; every short sequence of operations with nested uses, errors and several streams
open at once, against an abstract model; constants larger than the internal buffers."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.refpl import A as AT, fmt

EXTRA = r"""
:- op(700, xfx, ===>).
:- op(200, xfy, **).
:- op(200, fy, neg).
:- op(100, yf, post).
ct_count(N) :- findall(S, current_stream(S), L), length(L, N).
ct_get(R, L) :- get_code(R, C), ( C < 0 -> L = [] ; L = [C|M], ct_get(R, M) ).
ct_try(G, E) :- catch((G -> E = yes ; E = no), error(E1,_), E = err(E1)).
ct_save(L) :- open('f', write, S), ct_puts(L, S), close(S).
ct_puts([], _).
ct_puts([C|L], S) :- put_code(S, C), ct_puts(L, S).

% the text a writing goal gives on a file, or the error
ct_ref(W, T, R) :-
	open('f', write, S), ct_try(ct_out(W, S, T), E), close(S),
	( E == yes -> open('f', read, I), ct_get(I, R), close(I) ; R = E ).
ct_out(write, S, T) :- write(S, T).
ct_out(writeq, S, T) :- writeq(S, T).
ct_out(write_canonical, S, T) :- write_canonical(S, T).
ct_out(display, S, T) :- display(S, T).
ct_out(print, S, T) :- print(S, T).
ct_out(o(O), S, T) :- write_term(S, T, O).
ct_out(f(F), S, A) :- format(S, F, A).
ct_const(write, K, X, T) :- ct_c(K, write_to_atom(X,T), write_to_chars(X,T), write_to_codes(X,T)).
ct_const(writeq, K, X, T) :- ct_c(K, writeq_to_atom(X,T), writeq_to_chars(X,T), writeq_to_codes(X,T)).
ct_const(write_canonical, K, X, T) :- ct_c(K, write_canonical_to_atom(X,T), write_canonical_to_chars(X,T), write_canonical_to_codes(X,T)).
ct_const(display, K, X, T) :- ct_c(K, display_to_atom(X,T), display_to_chars(X,T), display_to_codes(X,T)).
ct_const(print, K, X, T) :- ct_c(K, print_to_atom(X,T), print_to_chars(X,T), print_to_codes(X,T)).
ct_const(o(O), K, X, T) :- ct_c(K, write_term_to_atom(X,T,O), write_term_to_chars(X,T,O), write_term_to_codes(X,T,O)).
ct_const(f(F), K, X, T) :- ct_c(K, format_to_atom(X,F,T), format_to_chars(X,F,T), format_to_codes(X,F,T)).
ct_c(atom, G, _, _) :- call(G).
ct_c(chars, _, G, _) :- call(G).
ct_c(codes, _, _, G) :- call(G).
ct_open(atom, S) :- open_output_atom_stream(S).
ct_open(chars, S) :- open_output_chars_stream(S).
ct_open(codes, S) :- open_output_codes_stream(S).
ct_close(atom, S, X) :- close_output_atom_stream(S, X).
ct_close(chars, S, X) :- close_output_chars_stream(S, X).
ct_close(codes, S, X) :- close_output_codes_stream(S, X).
ct_conv(atom, X, L) :- atom_codes(X, L).
ct_conv(chars, X, L) :- ct_cc(X, L).
ct_conv(codes, X, X).
ct_cc([], []).
ct_cc([C|L], [D|M]) :- char_code(C, D), ct_cc(L, M).

ct_w(W, T, R) :-
	ct_count(N0),
	ct_ref(W, T, L),
	findall(K-Why, (ct_kind(K), ct_bad(W, K, T, L, Why)), Bad),
	ct_count(N1),
	( N0 == N1 -> true ; throw(streams_left(N0, N1)) ),
	( Bad == [] -> R = ok ; R = differ(L, Bad) ).
ct_kind(atom). ct_kind(chars). ct_kind(codes).
ct_bad(W, K, T, L, unbound(X,E)) :- ct_try(ct_const(W, K, X, T), E), \+ ct_same(K, E, X, L).
ct_bad(W, K, T, L, stream(X,E)) :- ct_open(K, S), ct_try(ct_out(W, S, T), E), ct_close(K, S, X), \+ ct_same(K, E, X, L).
ct_bad(W, K, T, L, current(X,E)) :- W \= f(_), ct_open(K, S), current_output(O), set_output(S), ct_try(ct_outc(W, T), E), set_output(O), ct_close(K, S, X), \+ ct_same(K, E, X, L).
ct_bad(W, K, T, [C|L], bound) :- ct_conv(K, X, [C|L]), \+ ct_const(W, K, X, T).
ct_bad(W, K, T, [C|L], other(X)) :- D is C+1-C mod 2*2, D > 0, ct_conv(K, X, [D|L]), ct_const(W, K, X, T).
ct_bad(W, K, T, [C|L], prefix) :- K \== atom, ct_conv(K, X, [C|L]), append(P, [_], X), ct_const(W, K, P, T).
ct_bad(W, K, T, [C|L], partial) :- K \== atom, ct_conv(K, X, [C|L]), X = [F|_], \+ (ct_const(W, K, [F|Y], T), [F|Y] == X).
ct_outc(write, T) :- write(T).
ct_outc(writeq, T) :- writeq(T).
ct_outc(write_canonical, T) :- write_canonical(T).
ct_outc(display, T) :- display(T).
ct_outc(print, T) :- print(T).
ct_outc(o(O), T) :- write_term(T, O).
ct_same(K, yes, X, L) :- L \= err(_), !, ct_conv(K, X, Y), Y == L.
ct_same(_, E, _, E).

% ---- reading
ct_r(A, R) :-
	ct_count(N0),
	atom_codes(A, L), atom_chars(A, H), ct_save(L),
	findall(F-Why, ct_badr(F, A, H, L, Why), Bad),
	ct_count(N1),
	( N0 == N1 -> true ; throw(streams_left(N0, N1)) ),
	( Bad == [] -> R = ok ; R = Bad ).
ct_badr(read, A, H, L, Why) :- ct_onfile(S, T, read(S, T), X), ct_cmp(T, X, read_from_atom(A,T), read_from_chars(H,T), read_from_codes(L,T), Why).
ct_badr(term, A, H, L, Why) :-
	O = [variables(V),variable_names(N),singletons(W)], 
	ct_onfile(S, T/V/N/W, read_term(S, T, O), X),
	ct_cmp(T/V/N/W, X, read_term_from_atom(A,T,O), read_term_from_chars(H,T,O), read_term_from_codes(L,T,O), Why).
ct_badr(fail, A, H, L, Why) :-
	O = [syntax_error(fail)], ct_onfile(S, T, read_term(S, T, O), X),
	ct_cmp(T, X, read_term_from_atom(A,T,O), read_term_from_chars(H,T,O), read_term_from_codes(L,T,O), Why).
ct_badr(eof, A, H, L, Why) :-
	O = [end_of_term(eof)], ct_onfile(S, T, read_term(S, T, O), X),
	ct_cmp(T, X, read_term_from_atom(A,T,O), read_term_from_chars(H,T,O), read_term_from_codes(L,T,O), Why).
ct_badr(token, A, H, L, Why) :- ct_onfile(S, T, read_token(S, T), X), ct_cmp(T, X, read_token_from_atom(A,T), read_token_from_chars(H,T), read_token_from_codes(L,T), Why).
ct_badr(ops(P), A, H, L, K-Y-X) :-
	ct_prog(P, Ops),
	open('f', read, S), ct_ops(Ops, S, X), close(S),
	( open_input_atom_stream(A, S1), ct_ops(Ops, S1, Y), close_input_atom_stream(S1), K = atom
	; open_input_chars_stream(H, S2), ct_ops(Ops, S2, Y), close_input_chars_stream(S2), K = chars
	; open_input_codes_stream(L, S3), ct_ops(Ops, S3, Y), close_input_codes_stream(S3), K = codes ),
	X \== Y.
ct_prog(1, [r,r,r,p]).
ct_prog(2, [t,t,g,p,t,r]).
ct_prog(3, [g,r,p,t,r]).
ct_ops([], _, []).
ct_ops([O|L], S, [X|M]) :- ct_op(O, S, X), ct_ops(L, S, M).
ct_op(r, S, X-P) :- ct_run(T/I, (read_term(S, T, [variable_names(I)])), X), ct_pos(S, P).
ct_op(t, S, X-P) :- ct_run(T, read_token(S, T), X), ct_pos(S, P).
ct_op(g, S, X) :- ct_run(T, get_char(S, T), X).
ct_op(p, S, X) :- ct_run(T, peek_char(S, T), X).
ct_pos(S, p(C,L,K,E)) :- character_count(S, C), line_count(S, L), line_position(S, K), ( stream_property(S, end_of_stream(E)) -> true ).
ct_onfile(S, T, G, X) :- open('f', read, S), ct_run(T, G, X), close(S).
% outcome as a ground term: error with its position, failure, or the term with numbered variables
ct_run(T, G, X) :- copy_term(T-G, T1-G1), ct_try(G1, E), ( E == yes -> ct_nv(T1), X = T1 ; E == no -> X = no ; ct_err(E, X) ).
ct_err(err(syntax_error(M)), X) :- !, ct_tail(M, N), syntax_error_info(_, L, C, E), X = syn(L, C, E, N).
ct_err(E, E) :- ct_nv(E).
% the message without the place it starts with (it names the file)
ct_tail(M, N) :- ( sub_atom(M, B, 2, _, ') '), sub_atom(M, B, _, 0, N) -> true ; N = M ).
ct_nv(T) :- term_variables(T, L), ct_nv(L, 0).
ct_nv([], _).
ct_nv(['_V'(N)|L], N) :- N1 is N+1, ct_nv(L, N1).
ct_cmp(T, X, G1, G2, G3, K-Y-X) :- ( G = G1, K = atom ; G = G2, K = chars ; G = G3, K = codes ), ct_run(T, G, Y), Y \== X.

% ---- sequences
portray(portr(X)) :- write(X).
portray(nest(X)) :- write_to_atom(A, X), atom_concat(A, '. ', A1), read_from_atom(A1, Y), format("<~t~w~6|>", [Y]).
portray(nestout(X)) :- open_output_codes_stream(S), write(S, X), close_output_codes_stream(S, L), length(L, N), write(N).
portray(inner) :- catch(read_from_atom('c d', _), _, true), catch(format_to_atom(_, "~t~a", [1]), _, true), write(inner).
portray(bad) :- throw(bad).
portray(badread) :- read_from_atom('e f', _).
ct_seq(L, R) :-
	ct_count(N0),
	ct_seq(L, s(no,no,no,no), R),
	ct_count(N1),
	( N0 == N1 -> true ; throw(streams_left(N0, N1)) ).
ct_seq([], s(A,B,C,D), []) :- ct_end(A, close_output_atom_stream(A,_)), ct_end(B, close_output_codes_stream(B,_)), ct_end(C, close_input_atom_stream(C)), ct_end(D, close_input_codes_stream(D)).
ct_seq([O|L], S0, R) :- ct_do(O, S0, S, X), ( X == skip -> R = R1 ; R = [X|R1] ), ct_seq(L, S, R1).
ct_end(no, _) :- !.
ct_end(_, G) :- call(G).
ct_do(oa, s(_,B,C,D), s(S,B,C,D), skip) :- open_output_atom_stream(S).
ct_do(oc, s(A,_,C,D), s(A,S,C,D), skip) :- open_output_codes_stream(S).
ct_do(wa, s(A,B,C,D), s(A,B,C,D), skip) :- format(A, "~w~5|", [x]).
ct_do(wc, s(A,B,C,D), s(A,B,C,D), skip) :- writeq(B, 'Y').
ct_do(ca, s(A,B,C,D), s(no,B,C,D), X) :- close_output_atom_stream(A, X).
ct_do(cc, s(A,B,C,D), s(A,no,C,D), X) :- close_output_codes_stream(B, L), atom_codes(X, L).
ct_do(ia, s(A,B,_,D), s(A,B,S,D), skip) :- open_input_atom_stream('t(1). t(2). t(3). ', S).
ct_do(ic, s(A,B,C,_), s(A,B,C,S), skip) :- open_input_codes_stream("xyzt", S).
ct_do(ra, s(A,B,C,D), s(A,B,C,D), X) :- read(C, X).
ct_do(rc, s(A,B,C,D), s(A,B,C,D), X) :- get_char(D, X).
ct_do(za, s(A,B,C,D), s(A,B,no,D), skip) :- close_input_atom_stream(C).
ct_do(zc, s(A,B,C,D), s(A,B,C,no), skip) :- close_input_codes_stream(D).
ct_do(w, S, S, X) :- write_to_atom(X, f(a,'B')).
ct_do(q, S, S, X) :- writeq_to_codes(L, f('B')), atom_codes(X, L).
ct_do(r, S, S, X) :- read_from_codes("g(1,h).", X).
ct_do(rt, S, S, X) :- read_term_from_chars([k,'(',l,')','.'], X, []).
ct_do(tk, S, S, X) :- read_token_from_atom('foo(', X).
ct_do(e1, S, S, X) :- catch(read_from_atom('a b', _), error(syntax_error(_),_), X = syn).
ct_do(e2, S, S, X) :- catch(format_to_atom(_, "ab~t~a", [1]), error(type_error(X,_),_), true).
ct_do(e3, S, S, X) :- catch(write_term_to_atom(_, f(a), [foo]), error(domain_error(X,_),_), true).
ct_do(e4, S, S, X) :- catch(print_to_atom(_, f(bad)), X, true).
ct_do(e5, S, S, X) :- catch(print_to_codes(_, f(badread)), error(syntax_error(_),_), X = syn).
ct_do(e6, S, S, X) :- catch(write_to_atom(1, a), error(type_error(X,_),_), true).
ct_do(e7, S, S, X) :- catch(number_codes(_, "3x"), error(syntax_error(_),_), X = syn).
ct_do(e8, S, S, X) :- catch(read_term_from_codes("p(X,Y,X). ", T, [variable_names(V)]), _, true), T-V = p(1,2,1)-W, ( W = ['X'=1,'Y'=2] -> X = vars ; X = V ).
ct_do(p1, S, S, X) :- print_to_atom(X, f(nest(1))).
ct_do(p2, S, S, X) :- print_to_atom(X, f(nestout(abc),inner,portr(2))).
ct_do(f1, S, S, X) :- format_to_atom(X, "~p~t~p~20|", [nest(1),inner]).
ct_do(v1, S, S, X) :- write_term_to_atom(X, f(A,B,A), [variable_names(['A'=A,'B'=B])]).
"""


def q(s):
    return "'" + "".join(c if c.isalnum() and ord(c) < 128 or c in " +-*/.,()[]_~|%" else "\\x%x\\" % ord(c) for c in s) + "'"


ATOMS = ["a", "[]", "'A b'", "''", "+", "'\\n'", "1", "-1", "1.5", "X", "Y", "'$VAR'(1)", "{}", "(;)", "\"s\"", "neg"]
WRITERS = ["write", "writeq", "write_canonical", "display", "print", "o([])", "o([quoted(true),ignore_ops(true)])", "o([quoted(true),numbervars(true),space_args(true)])", "o([max_depth(3)])", "o([variable_names(['A b'=X,'Q'=Y])])", "o([bad])", "o(_)", "o([quoted(maybe)])"]


def terms(depth):
    if depth == 0:
        return ATOMS
    s = terms(depth - 1)
    a = ATOMS if depth > 1 else s
    return ATOMS + ["f(%s)" % x for x in s] + ["neg(%s)" % x for x in s] + ["post(%s)" % x for x in s[:8]] + ["%s(%s,%s)" % (o, x, y) for o in ("g", "+", "','", "'.'", "===>", "**") for x in s for y in a] + ["{%s}" % x for x in s] + ["portr(%s)" % x for x in s[:4]]


def writes(i, n, tier):
    k = 0
    ts = list(dict.fromkeys(terms(1)))
    if tier == "thorough":
        ts = list(dict.fromkeys(ts + terms(2)))[:40000]
    for t in ts:
        for w in WRITERS:
            k += 1
            if k % n == i:
                yield w, 2, "R", "ct_w(%s,%s,R)" % (w, t), "=ok\tno"
    for f, a in (("~w", "[a]"), ("~q~n", "['A']"), ("~t~w~10|~w", "[a,b]"), ("ab~n~Nc~N", "[]"), ("~z", "[]"), ("~w", "[]"), ("x", "[1]"), ("~t~a", "[1]"), ("~p", "[portr(1)]"), ("~*c~30|x", "[3,0'a]"), ("~%5.1f", "[2.5]"), ("~e", "[foo]"), ("~", "[]")):
        k += 1
        if k % n == i:
            yield "format", 2, "R", "ct_w(f(%s),%s,R)" % (q(f), a), "=ok\tno"


TOKS = ["a", "X", "_", "1", "'q r'", "\"s\"", "f(", "(", ")", ",", ".", ".\n", " ", "+", "0'c", "%c\n", "/*", "'", "[", "]", "{}", "0x1G", "\n", "1.5e", "neg ", "|", "`b`", "\\"]


def reads(i, n, tier):
    k = 0
    for l in range(0, 4 if tier == "quick" else 5):
        for w in itertools.product(TOKS, repeat=l):
            k += 1
            if k % n == i:
                yield "text", 2, "R", "ct_r(%s,R)" % q("".join(w)), "=ok\tno"
    if tier == "quick":
        for w in itertools.product(TOKS[:14], repeat=4):
            k += 1
            if k % n == i:
                yield "text", 2, "R", "ct_r(%s,R)" % q("".join(w)), "=ok\tno"


OPS = ["oa", "oc", "wa", "wc", "ca", "cc", "ia", "ic", "ra", "rc", "za", "zc"]
PURE = {"w": "f(a,B)", "q": "f('B')", "r": None, "rt": None, "tk": None, "e1": "syn", "e2": "atom", "e3": "write_option", "e4": "bad", "e5": "syn", "e6": "atom", "e7": "syn", "e8": "vars", "p1": None, "p2": "f(3,inner,2)", "f1": None, "v1": "f(A,B,A)"}


def model(w):
    oa = oc = ia = ic = None
    out = []
    for o in w:
        if o in PURE:
            out.append(o)
        elif o == "oa" and oa is None:
            oa = ""
        elif o == "oc" and oc is None:
            oc = ""
        elif o == "wa" and oa is not None:
            oa = oa + "x" + " " * max(0, 4 - len(oa))
        elif o == "wc" and oc is not None:
            oc += "'Y'"
        elif o == "ca" and oa is not None:
            out.append(("t", oa))
            oa = None
        elif o == "cc" and oc is not None:
            out.append(("t", oc))
            oc = None
        elif o == "ia" and ia is None:
            ia = 0
        elif o == "ic" and ic is None:
            ic = 0
        elif o == "ra" and ia is not None and ia < 3:
            ia += 1
            out.append(("x", "t(%d)" % ia))
        elif o == "rc" and ic is not None and ic < 4:
            ic += 1
            out.append(("t", "xyzt"[ic - 1]))
        elif o == "za" and ia is not None:
            ia = None
        elif o == "zc" and ic is not None:
            ic = None
        else:
            return None
    return out


def pure(o):
    if o == "r":
        return "g(1,h)"
    if o == "rt":
        return "k(l)"
    if o == "tk":
        return "foo"
    if o == "p1":
        return fmt(AT("f(<  1>)"))
    if o == "f1":
        return fmt(AT("<    1>" + " " * 8 + "inner"))
    return fmt(AT(PURE[o]))


def dots(l):
    return "'.'(%s,%s)" % (l[0], dots(l[1:])) if l else "[]"


def seqs(i, n, tier):
    k = 0

    def go(ops, l):
        nonlocal k
        for w in itertools.product(ops, repeat=l):
            m = model(w)
            if m is None or not m:
                continue
            k += 1
            if k % n == i:
                r = [pure(x) if isinstance(x, str) else fmt(AT(x[1])) if x[0] == "t" else x[1] for x in m]
                yield "sequence", 2, "R", "ct_seq([%s],R)" % ",".join(w), "=%s\tno" % dots(r)

    pu = list(PURE)
    for l in (1, 2, 3):
        yield from go(pu, l)
    for l in range(1, 5 if tier == "quick" else 6):
        yield from go(OPS + ["w", "q", "r", "e1", "e2", "e4", "p1", "f1"], l)
    for l in (5, 6) if tier == "quick" else (5, 6, 7):
        yield from go(OPS[:6] + ["w", "e2"] if l < 6 else OPS[:5] + ["e4"], l)
        yield from go(OPS[6:] + ["r", "e1"], l)
        yield from go(["oa", "wa", "ca", "ia", "ra", "za", "e5"], l)


def sizes(i, n, tier):
    k = 0
    for s in (100, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 100000, 300000, 1048575, 1048576, 1100000):
        rep = "ct_rep(%d,0'a,L)," % s
        L = [("read_from_codes", rep + "append(L,\".\",L1),read_from_codes(L1,X),atom_length(X,N)", s), ("read_from_chars", rep + "append(L,\".\",L1),ct_cc(H,L1),read_from_chars(H,X),atom_length(X,N)", s), ("read_from_atom", rep + "append(L,\".\",L1),atom_codes(A,L1),read_from_atom(A,X),atom_length(X,N)", s),
             ("read_token_from_codes", rep + "read_token_from_codes(L,X),atom_length(X,N)", s), ("open_input_codes_stream", rep + "open_input_codes_stream(L,S),ct_get(S,M),close_input_codes_stream(S),(M==L->N=%d)" % s, s),
             ("open_input_chars_stream", rep + "ct_cc(H,L),open_input_chars_stream(H,S),ct_get(S,M),close_input_chars_stream(S),(M==L->N=%d)" % s, s), ("open_input_atom_stream", rep + "atom_codes(A,L),open_input_atom_stream(A,S),ct_get(S,M),close_input_atom_stream(S),(M==L->N=%d)" % s, s),
             ("write_to_codes", rep + "atom_codes(A,L),write_to_codes(M,A),(M==L->N=%d)" % s, s), ("write_to_chars", rep + "atom_codes(A,L),write_to_chars(M,A),length(M,N)", s), ("write_to_atom", rep + "atom_codes(A,L),write_to_atom(M,A),(M==A->N=%d)" % s, s), ("writeq_to_atom", rep + "atom_codes(A,[0'B|L]),writeq_to_atom(M,A),atom_length(M,N)", s + 3),
             ("write list", rep + "write_to_atom(M,L),atom_length(M,N)", 3 * s + 1), ("format_to_codes", rep + "format_to_codes(M,\"~s\",[L]),(M==L->N=%d)" % s, s), ("format control", rep + "format_to_codes(M,L,[]),(M==L->N=%d)" % s, s),
             ("open_output_codes_stream", rep + "open_output_codes_stream(S),ct_puts(L,S),close_output_codes_stream(S,M),(M==L->N=%d)" % s, s), ("open_output_atom_stream", rep + "open_output_atom_stream(S),ct_puts(L,S),close_output_atom_stream(S,M),atom_length(M,N)", s),
             ("atom_codes", rep + "atom_codes(A,L),atom_codes(A,M),(M==L->N=%d)" % s, s), ("atom_chars", rep + "ct_cc(H,L),atom_chars(A,H),atom_chars(A,M),(M==H->N=%d)" % s, s), ("number_codes", rep.replace("0'a", "0'0") + "number_codes(N,[0'1|L]),fail;N=0", 0) if s < 0 else ("name", rep + "name(A,L),atom_length(A,N)", s)]
        for nm, g, e in L:
            k += 1
            if k % n == i:
                if s > 1000000 and "read" in nm:
                    # a token that long may be refused
                    yield nm, 2, "N", "catch((%s),error(resource_error(_),_),N=%d)" % (g, e), ("=%d\tno" % e, "!syntax")
                else:
                    yield nm, 2, "N", g, ("=%d\tno" % e,)


def errors(i, n, tier):
    for p in ("read_from_%s(%s,_)", "read_token_from_%s(%s,_)", "read_term_from_%s(%s,_,[])", "open_input_%s_stream(%s,_)"):
        for k, a, e in (("atom", "_", "!instantiation_error"), ("atom", "1", "!type_error(atom,1)"), ("atom", "f(x)", "!type_error(atom,f(x))"), ("atom", "\"ab\"", "!type_error(atom,"),
                        ("chars", "_", "!instantiation_error"), ("chars", "[a|_]", "!instantiation_error"), ("chars", "[a,_]", "!instantiation_error"), ("chars", "1", "!type_error(list,1)"), ("chars", "[a|b]", "!type_error(list,"), ("chars", "[a,f(x)]", "!type_error(character,f(x))"), ("chars", "[a,bc]", "!type_error(character,bc)"), ("chars", "foo", "!type_error(list,foo)"),
                        ("codes", "_", "!instantiation_error"), ("codes", "[0'a|_]", "!instantiation_error"), ("codes", "[0'a,_]", "!instantiation_error"), ("codes", "1", "!type_error(list,1)"), ("codes", "[0'a|b]", "!type_error(list,"), ("codes", "[0'a,f(x)]", "!type_error(integer,f(x))"), ("codes", "[0'a,1000]", "!representation_error(character_code"), ("codes", "[0'a,-1]", "!representation_error(character_code")):
            yield "errors", 2, "X", (p % (k, a)) + ",X=1", (e,)
    for p, a in (("write_to_%s(%s,a)", ""), ("writeq_to_%s(%s,a)", ""), ("write_canonical_to_%s(%s,a)", ""), ("display_to_%s(%s,a)", ""), ("print_to_%s(%s,a)", ""), ("write_term_to_%s(%s,a,[])", ""), ("format_to_%s(%s,a,[])", "")):
        for k, x, e in (("atom", "1", "!type_error(atom,1)"), ("atom", "f(x)", "!type_error(atom,"), ("chars", "1", "!type_error(list,1)"), ("chars", "[b|c]", "!"), ("chars", "foo", "!type_error(list,foo)"), ("codes", "1", "!type_error(list,1)"), ("codes", "foo", "!type_error(list,foo)"), ("atom", "b", "no"), ("chars", "[b]", "no"), ("chars", "[]", "no"), ("codes", "[]", "no"), ("codes", "[0'a,0'b]", "no"), ("atom", "a", "=1"), ("chars", "[a]", "=1"), ("codes", "[0'a]", "=1"), ("chars", "[X|_]", "=a"), ("codes", "[_|X]", "=[]")):
            if e == "!" :
                continue
            yield "errors", 2, "X", (p % (k, x)) + (",X=1" if "X" not in x else ""), (e,)


def match(e, g):
    if isinstance(e, tuple):
        return any(g.startswith(x) for x in e)
    return e == g


def main():
    ck = Check("C39")
    exe = server_exe(EXTRA + "ct_rep(N, C, L) :- ( N =< 0 -> L = [] ; L = [C|M], N1 is N-1, ct_rep(N1, C, M) ).\n")
    run_cases(ck, "write", exe, writes, 16)
    run_cases(ck, "read", exe, reads, 16)
    run_cases(ck, "sequences", exe, seqs, 16)
    run_cases(ck, "errors", exe, errors, 1, match=match)
    run_cases(ck, "sizes", exe, sizes, 16, match=match, env={"GLOBALSZ": "400000", "TRAILSZ": "100000", "LOCALSZ": "100000"}, timeout=60)
    return ck.finish(rule="every term x writing predicate, every text x reading predicate and every operation sequence up to the bound, against the same on a file")
