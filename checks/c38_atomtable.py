"""C38: atoms are unique by name and survive table growth.

Texts x the constructors of atoms x which of them creates the atom; the table at every load (every MAX_ATOM up to
several times the number of predefined atoms, filled to the last slot); a million texts at once (hash collisions);
new_atom with every prefix length and every set of taken extensions; enumeration while atoms are created."""
import itertools
import os
import subprocess
from vlib import lines
from vlib.build import get_build, WORK
from vlib.lines import run_lines
from vlib.refpl import A, fmt
from vlib.report import Check
from vlib.runner import parmap, die_with_parent

DRV = r"""
at_split(L, A) :- append(X, Y, L), atom_codes(A1, X), atom_codes(A2, Y), atom_concat(A1, A2, A).
at_mk(0, L, A) :- atom_codes(A, L).
at_mk(1, L, A) :- at_chars(L, C), atom_chars(A, C).
at_mk(2, L, A) :- length(L, N), append([0'x|L], "y", M), atom_codes(B, M), sub_atom(B, 1, N, 1, A).
at_mk(3, L, A) :- open_input_codes_stream(L, S), length(L, N), at_getc(N, S, C), close_input_codes_stream(S), atom_chars(A, C).
at_mk(4, L, A) :- at_quote(L, Q), append([39|Q], "' . ", M), open_input_codes_stream(M, S), read(S, A), close_input_codes_stream(S).
at_mk(5, L, A) :- at_quote(L, Q), append([39|Q], "'(k).", M), read_from_codes(M, T), functor(T, A, 1).
at_mk(6, L, A) :- append(L, "z", M), atom_codes(B, M), atom_concat(A, z, B).
at_mk(7, L, A) :- atom_codes(B, [0'z|L]), atom_concat(z, A, B).
at_mk(8, L, A) :- format_to_codes(M, "~s", [L]), open_output_atom_stream(S), format(S, "~s", [M]), close_output_atom_stream(S, A).
at_mk(9, L, A) :- atom_codes(B, L), write_to_chars(C, B), atom_chars(A, C).
at_chars([], []).
at_chars([C|L], [X|M]) :- char_code(X, C), at_chars(L, M).
at_getc(0, _, []) :- !.
at_getc(N, S, [C|L]) :- get_char(S, C), N1 is N-1, at_getc(N1, S, L).
at_quote([], []).
at_quote([39|L], [39,39|M]) :- !, at_quote(L, M).
at_quote([0'\\|L], [0'\\,0'\\|M]) :- !, at_quote(L, M).
at_quote([C|L], [0'\\|M]) :- ( C < 32 ; C > 126 ), !, format_to_codes(X, "x~8r\\", [C]), X = [_|Y], format_to_codes(Z, "~s", [Y]), append(Z, N, M), at_quote(L, N).
at_quote([C|L], [C|M]) :- at_quote(L, M).

% c(First, Codes): all constructors, First creates
at(In) :-
	catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	catch((at_do(T, R) -> true ; R = failed), E2, (E2 = error(F, _) -> R = err(F) ; R = ball(E2))),
	ln_put(R).
at_do(c(F, L), R) :-
	at_mk(F, L, A),
	atom_codes(A, L1), ( L1 == L -> true ; throw(first(L1)) ),
	( between(0, 9, K), at_mk(K, L, B), B \== A -> throw(other(K)) ; true ),
	( length(L, N0), N0 < 300, at_split(L, B), B \== A -> throw(split) ; true ),
	( L = [C], char_code(B, C), B \== A -> throw(char) ; true ),
	atom_length(A, N), length(L, N1), ( N == N1 -> true ; throw(length(N)) ),
	findall(P, atom_property(A, P), Ps),
	( memberchk(length(N), Ps) -> true ; Ps == [], L = [0'$|_] -> true ; throw(props(Ps)) ),
	( Ps == [] -> true ; term_hash(A, H), memberchk(hash(H), Ps) -> true ; throw(props(Ps)) ),
	( member(P, Ps), \+ (P = length(_) ; P = hash(_)), \+ atom_property(A, P) -> throw(prop(P)) ; true ),
	findall(P, (member(P, Ps), P \= length(_), P \= hash(_)), Qs),
	( current_atom(A) -> X = seen ; X = hidden ),
	findall(x, (current_atom(B), B == A), Xs), length(Xs, Nx),
	R = r(X, Nx, Qs).
at_do(cmp(L1, L2), R) :- atom_codes(A, L1), atom_codes(B, L2), compare(R0, A, B), ( A = B -> U = yes ; U = no ), ( A == B -> V = yes ; V = no ),
	( F =.. [A,1], G =.. [B,1], F = G -> W = yes ; W = no ), R = r(R0, U, V, W).
% new_atom: K calls with a prefix of length N
at_do(new(L0, K, Taken), R) :-
	( L0 = rep(C, N) -> length(L, N), at_fill(L, C) ; L = L0 ),
	( member(X, Taken), append(L, X, M), atom_codes(_, M), fail ; true ),
	atom_codes(P, L), at_news(K, P, [], R).
at_do(new0(K), R) :- at_new0(K, R).
at_do(g(T, G), L) :- findall(T, G, L).
% the K-th answer of the enumeration creates N atoms
at_do(en(K, N, Pf), R) :-
	findall(A, current_atom(A), B0), msort(B0, B), sort(B0, B1), length(B, Nb), length(B1, Nb1), ( Nb == Nb1 -> true ; throw(dup) ),
	g_assign(atk, 0), g_assign(atl, []),
	( current_atom(A), g_read(atl, L0), g_assign(atl, [A|L0]), g_inc(atk), g_read(atk, K1), K1 =:= K, at_create(N, Pf), fail ; true ),
	g_read(atl, L1), msort(L1, L), sort(L1, L2), length(L, Nl), length(L2, Nl2), ( Nl == Nl2 -> true ; throw(dup2) ),
	( at_sub(B, L) -> true ; throw(lost) ),
	findall(A, current_atom(A), C0), sort(C0, C), length(C0, Nc0), length(C, Nc), ( Nc0 == Nc -> true ; throw(dup3) ),
	D is Nc-Nb, ( at_sub(L, C) -> true ; throw(foreign) ), R = created(D).
at_do(pairs, R) :-
	findall(A-P, atom_property(A, P), L),
	findall(A-P, (current_atom(A), atom_property(A, P)), M),
	( L == M -> true ; throw(pairs) ),
	findall(A, atom_property(A, needs_quotes), Q1), findall(A, member(A-needs_quotes, L), Q2), ( Q1 == Q2 -> true ; throw(q) ),
	findall(A, (current_atom(A), (current_op(_, T, A), (T = fx ; T = fy) -> true ; fail)), O1), findall(A, member(A-prefix_op, L), O2), ( O1 == O2 -> true ; throw(pre) ),
	findall(A, (current_atom(A), (current_op(_, T, A), member(T, [xfx,xfy,yfx]) -> true ; fail)), O3), findall(A, member(A-infix_op, L), O4), ( O3 == O4 -> true ; throw(inf) ),
	findall(A, (current_atom(A), (current_op(_, T, A), (T = xf ; T = yf) -> true ; fail)), O5), findall(A, member(A-postfix_op, L), O6), ( O5 == O6 -> true ; throw(post) ),
	R = ok.
at_do(many(Bits, Len, From, To, Base), R) :-
	at_many(From, To, Bits, Len, Base), at_many(From, To, Bits, Len, Base),
	g_assign(atk, 0), ( current_atom(_), g_inc(atk), fail ; true ), g_read(atk, N0), D = N0,
	at_many(From, To, Bits, Len, Base), g_assign(atk, 0), ( current_atom(_), g_inc(atk), fail ; true ), g_read(atk, N1), ( N1 =:= D -> R = ok ; R = grown(N1, D) ).
at_fill([], _).
at_fill([C|L], C) :- at_fill(L, C).
at_sub([], _).
at_sub([X|L], [Y|M]) :- ( X == Y -> at_sub(L, M) ; at_sub([X|L], M) ).
at_create(0, _) :- !.
at_create(N, P) :- number_codes(N, L), append(P, L, M), atom_codes(_, M), N1 is N-1, at_create(N1, P).
at_new0(0, ok) :- !.
at_new0(K, R) :- findall(A, current_atom(A), L), new_atom(X), ( memberchk(X, L) -> R = taken(X) ; findall(A, current_atom(A), L2), length(L, N), length(L2, N2), N2 =:= N+1, current_atom(X) -> K1 is K-1, at_new0(K1, R) ; R = notnew(X) ).
at_news(0, _, _, ok) :- !.
at_news(K, P, D, R) :-
	findall(A, (current_atom(A), sub_atom(A, 0, _, _, P)), L),
	new_atom(P, X),
	( atom(X), sub_atom(X, 0, _, _, P), X \== P -> true ; throw(prefix(X)) ),
	( memberchk(X, L) -> throw(taken(X)) ; true ), ( memberchk(X, D) -> throw(twice(X)) ; true ),
	atom_codes(X, C), atom_codes(Y, C), ( X == Y -> true ; throw(notunique) ),
	atom_length(X, N), length(C, N1), ( N =:= N1 -> true ; throw(len) ),
	findall(A, (current_atom(A), sub_atom(A, 0, _, _, P)), L2), ( atom_length(P, 0) -> true ; P = '$' -> true ; sub_atom(P, 0, 1, _, '$') -> true ; length(L, M1), length(L2, M2), M2 =:= M1+1 -> true ; throw(count) ),
	( \+ (atom_codes(P, [0'$|_])), \+ memberchk(X, L2) -> throw(absent) ; true ),
	K1 is K-1, at_news(K1, P, [X|D], R).
% a whole table: N texts of the digits of 0..N-1
at_many(I, To, _, _, _) :- I >= To, !.
at_many(I, To, B, N, S) :- ( at_one(I, B, N, S, R), R \== ok -> throw(R) ; true ), I1 is I+1, at_many(I1, To, B, N, S).
at_one(I, B, N, S, R) :- at_dig(N, I, B, S, L), atom_codes(A, L), atom_codes(A, L2), ( L == L2 -> R = ok ; R = bad(L, L2) ).
at_dig(0, _, _, _, []) :- !.
at_dig(N, I, B, S, [C|L]) :- C is S + (I /\ ((1<<B)-1)), J is I>>B, M is N-1, at_dig(M, J, B, S, L).
"""

FILL = r"""
:- initialization(fi).
% k(Texts...) on standard input lines: fill the table with texts, look at everything after each creation
fi :- argument_list([Pf,Stop|M]), atom_codes(Pf, P), number_atom(N, Stop), g_assign(fi_n, 0), ( M == [] -> Md = 0 ; Md = 1 ), fi_go(P, N, Md, []).
fi_go(P, N, Md, D) :-
	g_read(fi_n, I),
	( I =:= N -> fi_all(D), fi_full(P, Md), halt ; true ),
	number_codes(I, C), append(P, C, L),
	( Md =:= 0 -> atom_codes(A, L) ; new_atom(zzz, A), atom_codes(A, L1) ),
	put_char(.), flush_output,
	J is I+1, g_assign(fi_n, J),
	( Md =:= 0 -> D1 = [A-L|D] ; D1 = [A-L1|D] ),
	( I /\ 15 =:= 0 -> fi_all(D1) ; true ),
	fi_go(P, N, Md, D1).
fi_all([]).
fi_all([A-L|D]) :- ( atom_codes(A, M), M == L -> true ; write(bad(A,L)) ), ( atom_codes(B, L), B == A -> true ; write(bad2(A,L)) ), fi_all(D).
fi_full(_, _) :- findall(A, current_atom(A), B), fi_cnt(B, 0, N), sort(B, C), fi_cnt(C, 0, M), ( N =:= M -> true ; write(dup) ),
	( fi_pre(X), \+ fi_mem(X, B) -> write(missing(X)) ; true ), put_char(e).
fi_pre(a). fi_pre([]). fi_pre(foo). fi_pre(append). fi_pre('\n'). fi_pre(true).
fi_mem(X, [Y|L]) :- ( X == Y -> true ; fi_mem(X, L) ).
fi_cnt([], N, N).
fi_cnt([_|L], N, M) :- N1 is N+1, fi_cnt(L, N1, M).
foo.
"""


def codes(t):
    return "[" + ",".join(str(ord(c)) for c in t) + "]"


SPECIAL = ["\x01", "\t", "\n", " ", "!", '"', "'", "\\", "`", "%", ",", ".", "/", "*", "0", "9", "a", "z", "A", "_", "$", "[", "]", "{", "}", "|", "(", ")", ";", "+", "-", "~", "\x7f", "\x80", "\xe9", "\xff"]


OPS = None


def expect(t):
    """needs_quotes, visibility"""
    nq = fmt(A(t)) != t
    hid = t.startswith("$")

    def check(g, hid=hid, nq=nq):
        if hid:
            want = "r(hidden,0,"
        else:
            want = "r(seen,1,"
        if not g.startswith(want):
            return False
        ps = g[len(want):]
        return ("needs_quotes" in ps) == nq or hid
    check.__doc__ = "every constructor gives the same atom; r(%s, needs_quotes iff %s)" % ("hidden,0" if hid else "seen,1", nq)
    return check


def texts(tier):
    out = [""]
    out += [chr(c) for c in range(1, 256)]
    out += ["".join(p) for p in itertools.product(SPECIAL, repeat=2)]
    al = ["a", "B", "0", "+", " ", "'", "$", "\n", "[", "]"] if tier == "quick" else SPECIAL[1:24]
    out += ["".join(p) for p in itertools.product(al, repeat=3)]
    out += ["a" * n for n in list(range(3, 80)) + [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 100000]]
    out += ["+" * n for n in (3, 31, 32, 33, 255, 256)]
    return list(dict.fromkeys(out))


def fam_cons(i, n, tier):
    T = texts(tier)
    for k in range(10):
        mine = T[i::n]
        yield "constructor %d creates" % k, "driver(at).\n", [("c(%d,%s)." % (k, codes(t)), expect(t)) for t in mine if len(t) < 30000 or k in (0, 1, 2, 6, 7)]


def fam_cmp(i, n, tier):
    T = [""] + ["".join(p) for l in (1, 2, 3) for p in itertools.product("ab" if tier == "quick" else "abc", repeat=l)] + ["\x80", "\xff", "\x01", "a\x80", "a\x7f", "A", "a\xff\x01", "a" * 300, "a" * 300 + "b", "a" * 301]
    cs = []
    for x, y in itertools.product(T, repeat=2):
        o = "<" if x.encode("latin-1") < y.encode("latin-1") else ">" if x.encode("latin-1") > y.encode("latin-1") else "="
        u = "yes" if x == y else "no"
        cs.append(("cmp(%s,%s)." % (codes(x), codes(y)), "r(%s,%s,%s,%s)" % (o, u, u, u)))
    yield "comparison", "driver(at).\n", cs[i::n]


CH = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def fam_new(i, n, tier):
    ls = list(range(0, 40)) + list(range(40, 1100, 7)) + list(range(1010, 1040)) + [2000, 4095, 4096, 5000, 20000, 65535, 65536, 200000]
    if tier == "thorough":
        ls = list(range(0, 2100)) + ls[-8:]
    for j, l in enumerate(dict.fromkeys(ls)):
        if j % n == i:
            yield "new_atom with a prefix of %d characters" % l, "driver(at).\n", [("new(rep(112,%d),3,[])." % l, "ok"), ("new(rep(113,%d),2,[])." % l, "ok"), ("c(0,%s)." % codes("chk"), expect("chk"))]
    # extensions already taken
    sets = [["%s" % c for c in CH], [c for c in CH[::2]], [c for c in CH[1::2]], [a + b for a in CH for b in CH], [c for c in CH] + [a + b for a in CH for b in CH], [c for c in CH[:31]] + [a + b for a in CH[31:] for b in CH]]
    sets += [[c for c in CH if c != d] for d in (CH if tier == "thorough" else CH[::6])]
    for j, s in enumerate(sets):
        if j % n == i:
            for px in ("", "p", "atom_", "\xe9", "$n", "a b"):
                yield "new_atom with taken extensions %d %r" % (j, px), "driver(at).\n", [("new(%s,%d,[%s])." % (codes(px), 20, ",".join(codes(x) for x in s)), "ok")]
    if i == 0:
        yield "new_atom/1", "driver(at).\n", [("new0(60).", "ok")]
        yield "new_atom repeatedly", "driver(at).\n", [("new(%s,%d,[])." % (codes("rep"), 600), "ok")]
        E = [("new_atom(_,_)", "err(instantiation_error)"), ("new_atom(1,_)", "err(type_error(atom,1))"), ("new_atom(f(x),_)", "err(type_error(atom,f(x)))"), ("new_atom(a,b)", "err(uninstantiation_error(b))"), ("new_atom(a,1)", "err(uninstantiation_error(1))"), ("new_atom(b)", "err(uninstantiation_error(b))"),
             ("current_atom(1)", "err(type_error(atom,1))"), ("current_atom(f(x))", "err(type_error(atom,f(x)))"), ("atom_property(1,_)", "err(type_error(atom,1))"), ("atom_property(a,foo)", "err(domain_error(atom_property,foo))"), ("atom_property(a,1)", "err(domain_error(atom_property,1))"),
             ("atom_property(a,length(b))", "err(type_error(integer,b))"), ("atom_property(abc,length(3))", "'.'(x,[])"), ("atom_property(abc,length(4))", "[]"), ("current_atom(append)", "'.'(x,[])"), ("current_atom('$zork')", "[]")]
        yield "errors", "driver(at).\n", [("g(x,%s)." % g, e) for g, e in E]


def fam_enum(i, n, tier):
    ks = range(1, 40) if tier == "quick" else range(1, 400)
    for j, k in enumerate(ks):
        if j % n == i:
            yield "enumeration, atoms created after answer %d" % (k * k), "driver(at).\n", [("en(%d,%d,%s)." % (k * k, m, codes(p)), ("created(%d)" % (m if k * k < 1200 else 0)) if k * k < 1200 or k * k > 5000 else {"created(%d)" % m, "created(0)"}) for m, p in ((0, "u"), (1, "v"), (300, "w"), (3, "+$"))] + [("pairs.", "ok"), ("g(x,op(200,xfy,zork%d))." % k, "'.'(x,[])"), ("pairs.", "ok"), ("g(x,op(0,xfy,zork%d))." % k, "'.'(x,[])"), ("pairs.", "ok")]


def fam_many(i, n, tier):
    q = 1 << (15 if tier == "quick" else 17)
    # one table of one block per scenario, and the whole in one table for shard 0
    if i == 0:
        yield "one table of %d texts" % (q * 32), "driver(at).\n", [("many(4,5,0,%d,33)." % min(q * 32, 1 << 20), "ok")] + ([("many(4,6,0,%d,34)." % (1 << 22), "ok")] if tier == "thorough" else [])
    if i == 1:
        yield "binary texts", "driver(at).\n", [("many(1,%d,0,%d,40)." % (b, 1 << b), "ok") for b in range(1, 18)]
    if i == 2:
        yield "identifiers (completion words)", "driver(at).\n", [("many(2,%d,0,%d,97)." % (b, 1 << 2 * b), "ok") for b in range(1, 7)]


def _fill(arg):
    i, n, tier, x, base, kinds = arg
    env = get_build().env()
    out = []
    cnt = 0
    ks = range(1, 160) if tier == "quick" else range(1, 1200)

    def go(m, *a):
        e = dict(env, MAX_ATOM=str(m))
        try:
            p = subprocess.run([x, *a], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e, preexec_fn=die_with_parent)
            return p.returncode, p.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            return None, "HANG"
    full = "Atom table full (max atom: %d, environment variable used: MAX_ATOM)"
    if "small" in kinds:
        # not even the predefined atoms fit
        step = 5 if tier == "quick" else 1
        for m in range(1 + i * step, base, n * step):
            rc, o = go(m, "w", "0")
            cnt += 1
            if rc in (0, None) or rc < 0 or full.split("(")[0] not in o:
                out.append(("MAX_ATOM=%d" % m, "a table too small for the predefined atoms: exit %r, output %r, expected the message '%s'" % (rc, o[-300:], full % m)))
    for k in ks:
        if k % n != i:
            continue
        m = base + k
        for pf in ("w", "+", "$", "\xe9", "zzz"):
            md = ["n"] if pf == "zzz" else []
            # argument_list's own strings and the prefix are atoms too: find what is left by running until it is full
            rc, o = go(m, pf, str(10 ** 6), *md)
            cnt += 1
            c = o.split("\n")[0]
            if rc in (0, None) or rc < 0 or full % m not in o or c.strip("."):
                out.append(("MAX_ATOM=%d fill %s" % (m, pf), "exit %r, output %r; expected dots and then '%s'" % (rc, o[-300:], full % m)))
                continue
            got = len(c)
            if not got:
                continue
            out.append((None, (pf, k, got)))
            # the table exactly full: everything that exists still works
            # (the argument with the number is another atom than 1000000 was, so the count stays)
            rc, o = go(m, pf, str(got), *md)
            cnt += 1
            if rc != 0 or o != "." * got + "e":
                out.append(("MAX_ATOM=%d full %s" % (m, pf), "%d atoms fill the table: exit %r, output %r; expected %d dots and e" % (got, rc, o[-300:], got)))
    return cnt, out


def fill(ck):
    b = get_build()
    import tempfile
    import shutil
    d = tempfile.mkdtemp(dir=WORK)
    try:
        f = os.path.join(d, "fill.pl")
        open(f, "w").write(FILL)
        x = os.path.join(d, "fill")
        b.gplc(x, f)
        # how many atoms are there before the first one is created?
        p = subprocess.run([x, "w", "1000000"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(b.env(), MAX_ATOM="3500"), timeout=120)
        base = 3500 - p.stdout.count(b".") - 2
        rs = parmap(_fill, [(i, 16, ck.tier, x, base, ("small",)) for i in range(16)])
        seen = {}
        for c, out in rs:
            ck.add(states=c, transitions=c, traces_validated_against_impl=c)
            for k, t in out:
                if k:
                    ck.violate("fill: " + k, t)
                else:
                    pf, kk, got = t
                    seen.setdefault(pf, {})[kk] = got
        for pf, s in seen.items():
            v = {got - kk for kk, got in s.items()}
            if len(v) != 1:
                ck.violate("fill: capacity with %r" % pf, "a table with k more slots must take k more atoms; atoms created minus k: %r; (k, created): %r" % (sorted(v), sorted(s.items())[:60]))
            ck.outcome("atoms created - slots beyond base (%r): %s" % (pf, sorted(v)), len(s))
        ck.sample("fill: base %d atoms; tables of base+1..base+%d filled to the last slot" % (base, max(seen.get("w", {0: 0}))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C38")
    x = lines.exe(DRV)
    run_lines(ck, "constructors", x, fam_cons, env={"MAX_ATOM": "300000"})
    run_lines(ck, "comparison", x, fam_cmp)
    run_lines(ck, "new_atom", x, fam_new, env={"MAX_ATOM": "20000"})
    run_lines(ck, "enumeration", x, fam_enum, env={"MAX_ATOM": "6000"})
    run_lines(ck, "many", x, fam_many, shards=3, env={"MAX_ATOM": str(ck.pick(1100000, 6000000)), "GLOBALSZ": "4000000", "TRAILSZ": "1000000"}, timeout=600)
    fill(ck)
    return ck.finish(rule="states = texts, table sizes and scenarios; transitions = calls compared with the reference; each is run on the real runtime")
