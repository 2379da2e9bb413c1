"""C19: the stream table stays consistent.

Every sequence of opens, closes, alias and mirror operations and redirections up to a depth; after the last operation the
whole table (streams, properties, aliases, mirrors, current input and output) is compared with an abstract table."""
from vlib import lines, streams
from vlib.lines import run_lines
from vlib.report import Check

DRV = streams.DRV + r"""
:- dynamic(tb_h/2).
:- dynamic(tb_base/1).
tb(In) :-
	lx_line(In, L),
	current_output(Out),
	retractall(tb_h(_,_)), retractall(tb_base(_)),
	findall(S, current_stream(S), B), assertz(tb_base(B)),
	set_output(user_output), set_input(user_input),
	tb_ops(L, R),
	g_assign(tb_txt, []),
	catch(tb_state(T), E, T = bad(E)),
	tb_undo(B),
	set_input(user_input), set_output(Out),
	write(R), put_char(' '), print_t(T), nl.
print_t(T) :- writeq(T).
tb_undo(B) :- current_stream(S), \+ memberchk(S, B), catch(close(S), _, true), fail.
tb_undo(_).
tb_ops([], none).
tb_ops([O|L], R) :- catch((tb_do(O) -> R1 = ok ; R1 = no), E, tb_er(E, R1)), ( L == [] -> R = R1 ; tb_ops(L, R) ).
tb_er(error(E,_), R) :- !, tb_tr(E, R).
tb_er(E, E).
tb_tr(X, X) :- var(X), !.
tb_tr('$stream'(N), R) :- !, tb_name('$stream'(N), R).
tb_tr(X, R) :- compound(X), !, X =.. [F|A], tb_trl(A, B), R =.. [F|B].
tb_tr(X, X).
tb_trl([], []).
tb_trl([X|L], [Y|M]) :- tb_tr(X, Y), tb_trl(L, M).
tb_name('$stream'(0), in) :- !.
tb_name('$stream'(1), out) :- !.
tb_name('$stream'(2), err) :- !.
tb_name(S, K) :- tb_h(K, S), !.
tb_name(_, unknown).
tb_new(S) :- findall(K, tb_h(K,_), Ks), length(Ks, N), N1 is N+1, asserta(tb_h(N1, S)).
tb_get(K, S) :- tb_h(K, S).
tb_state(s(Hs, All, Al, Ci, Co)) :-
	tb_base(B),
	findall(K, (current_stream(S), \+ memberchk(S, B), tb_name(S, K)), All0), msort(All0, All),
	findall(K-Ps, (current_stream(S), \+ memberchk(S, B), tb_name(S, K), findall(P, (stream_property(S, P0), tb_prop(P0, P)), Ps0), msort(Ps0, Ps)), Hs0), msort(Hs0, Hs),
	findall(A-[X,Y,Z,V], (member(A, [a,b,c,current_input,current_output,user_input,user_output,user_error]), tb_al(A, X, Y, Z, V)), Al),
	current_input(I), tb_name(I, Ci0), ( catch(set_input(I), _, fail) -> Ci = Ci0 ; Ci = closed(Ci0) ),
	current_output(O), tb_name(O, Co0), ( catch(set_output(O), _, fail) -> Co = Co0 ; Co = closed(Co0) ).
tb_al(A, X, Y, Z, V) :-
	findall(K, (stream_property(S, alias(A)), tb_name(S, K)), X),
	findall(K, (stream_property(S, alias(AA)), AA == A, tb_name(S, K)), Y),
	findall(K, (current_alias(S, A), tb_name(S, K)), Z),
	findall(K, (current_alias(S, AA), AA == A, tb_name(S, K)), V).
tb_prop(file_name(F), file(B)) :- !, decompose_file_name(F, _, B, _).
tb_prop(position(_), _) :- !, fail.
tb_prop(end_of_stream(_), _) :- !, fail.
tb_prop(file_no(_), _) :- !, fail.
tb_prop(mirror(S), mirror(K)) :- !, tb_name(S, K).
tb_prop(P, P).
tb_do(0'r) :- open(f1, read, S), tb_new(S).
tb_do(0'w) :- open(f2, write, S, [alias(a)]), tb_new(S).
tb_do(0'p) :- open(f1, read, S, [alias(a),alias(b),type(binary),eof_action(error),buffering(none)]), tb_new(S).
tb_do(0'q) :- open(f3, append, S, [alias(b),reposition(false),buffering(line)]), tb_new(S).
tb_do(0'n) :- open(nofile, read, S, [alias(a)]), tb_new(S).
tb_do(0'z) :- open('/dev/ptmx', read, S, [alias(b),reposition(true)]), tb_new(S).
tb_do(0'd) :- open('nodir/x', write, S, []), tb_new(S).
tb_do(0'1) :- tb_get(1, S), close(S).
tb_do(0'2) :- tb_get(2, S), close(S, [force(true)]).
tb_do(0'3) :- tb_get(3, S), close(S).
tb_do(0'x) :- close(a).
tb_do(0'y) :- close(b).
tb_do(0'c) :- close(current_input).
tb_do(0'C) :- current_output(S), close(S).
tb_do(0'i) :- tb_get(1, S), set_input(S).
tb_do(0'j) :- tb_get(2, S), set_input(S).
tb_do(0'k) :- set_input(a).
tb_do(0'I) :- set_input(user_input).
tb_do(0'o) :- tb_get(1, S), set_output(S).
tb_do(0'O) :- tb_get(2, S), set_output(S).
tb_do(0'P) :- set_output(b).
tb_do(0'Q) :- set_output(user_error).
tb_do(0'A) :- tb_get(1, S), add_stream_alias(S, a).
tb_do(0'B) :- tb_get(2, S), add_stream_alias(S, a).
tb_do(0'S) :- tb_get(1, S), set_stream_alias(S, b).
tb_do(0'T) :- tb_get(2, S), set_stream_alias(S, b).
tb_do(0'U) :- set_stream_alias(a, c).
tb_do(0'u) :- tb_get(1, S), set_stream_alias(S, user_input).
tb_do(0'v) :- tb_get(1, S), set_stream_alias(S, current_output).
tb_do(0'J) :- close(user_input).
tb_do(0'K) :- close(user_output).
tb_do(0'L) :- close(user_error).
tb_do(0'M) :- tb_get(1, S), tb_get(2, T), add_stream_mirror(S, T).
tb_do(0'N) :- tb_get(2, S), tb_get(1, T), add_stream_mirror(S, T).
tb_do(0'R) :- tb_get(1, S), tb_get(2, T), remove_stream_mirror(S, T).
tb_do(0'm) :- open(f4, write, S, [mirror(a)]), tb_new(S).
tb_do(0'e) :- tb_get(1, S), set_stream_eof_action(S, reset).
tb_do(0't) :- tb_get(1, S), set_stream_type(S, binary).
tb_do(0'f) :- tb_get(1, S), set_stream_buffering(S, none).
"""
STD = dict(user_input="in", user_output="out", user_error="err", current_input="in", current_output="out")


class Err(Exception):
    pass


class Fail(Exception):
    pass


class T:
    """abstract table: name -> properties, alias -> name"""

    def __init__(self):
        self.n = 0
        self.s = {}
        self.al = dict(STD)
        self.mir = set()
        self.closed = {}

    def copy(self):
        t = T()
        t.n = self.n
        t.closed = dict(self.closed)
        t.s = {k: dict(v) for k, v in self.s.items()}
        t.al = dict(self.al)
        t.mir = set(self.mir)
        return t

    def open(self, f, mode, aliases=(), exists=True, mirror=None, err=None, **p):
        for a in aliases:
            if a in self.al:
                raise Err("permission_error(open,source_sink,alias(%s))" % a)
        m = self.alias(mirror, "output") if mirror else None
        if err:
            raise Err(err)
        self.n += 1
        d = dict(file=f, mode=mode, type="text", reposition="true", eof_action="eof_code", buffering="block")
        d.update(p)
        self.s[self.n] = d
        for a in aliases:
            self.al[a] = self.n
        if m is not None:
            self.mirror_add(self.n, m)

    def mirror_add(self, a, b):
        if a != b:
            self.mir.add((a, b))

    def is_in(self, k):
        return k == "in" or k in self.s and self.s[k]["mode"] == "read"

    def h(self, k, need=None, cul=None):
        if k not in self.s and k not in ("in", "out", "err"):
            raise Err("existence_error(stream,%s)" % (cul or k))
        if need and self.is_in(k) != (need == "input"):
            raise Err("permission_error(%s,stream,%s)" % (need, cul or k))
        return k

    def alias(self, a, need=None):
        if a not in self.al:
            raise Err("existence_error(stream,%s)" % a)
        return self.h(self.al[a], need, a)

    def handle(self, k):
        if k > self.n:
            raise Fail
        if k not in self.s and self.n > self.closed[k]:
            raise Skip      # its number may denote a later stream
        return k

    def close(self, k):
        for a in list(self.al):
            if self.al[a] == k:
                if a in STD:
                    self.al[a] = STD[a]
                else:
                    del self.al[a]
        if k in self.s:
            del self.s[k]
            self.closed[k] = self.n
            self.mir = {x for x in self.mir if k not in x}

    def op(self, o):
        if o == "r":
            self.open("f1", "read")
        elif o == "w":
            self.open("f2", "write", ["a"])
        elif o == "p":
            self.open("f1", "read", ["a", "b"], type="binary", eof_action="error", buffering="none")
        elif o == "q":
            self.open("f3", "append", ["b"], reposition="false", buffering="line")
        elif o == "n":
            self.open("nofile", "read", ["a"], err="existence_error(source_sink,nofile)")
        elif o == "z":
            self.open("ptmx", "read", ["b"], err="permission_error(open,source_sink,reposition(true))")
        elif o == "d":
            self.open("x", "write", [], err="existence_error(source_sink,'nodir/x')")
        elif o == "m":
            self.open("f4", "write", [], mirror="a")
        elif o in "123":
            self.close(self.h(self.handle(int(o))))
        elif o in "xy":
            self.close(self.alias(dict(x="a", y="b")[o]))
        elif o == "c":
            self.close(self.alias("current_input"))
        elif o == "C":
            self.close(self.al["current_output"])
        elif o in "JKL":
            self.close(self.alias(dict(J="user_input", K="user_output", L="user_error")[o]))
        elif o in "ij":
            self.al["current_input"] = self.h(self.handle("ij".index(o) + 1), "input")
        elif o == "k":
            self.al["current_input"] = self.alias("a", "input")
        elif o == "I":
            self.al["current_input"] = self.alias("user_input", "input")
        elif o in "oO":
            self.al["current_output"] = self.h(self.handle("oO".index(o) + 1), "output")
        elif o == "P":
            self.al["current_output"] = self.alias("b", "output")
        elif o == "Q":
            self.al["current_output"] = self.alias("user_error", "output")
        elif o in "AB":
            k = self.h(self.handle("AB".index(o) + 1))
            if self.al.get("a", k) != k:
                raise Err("permission_error(add_alias,source_sink,alias(a))")
            self.al["a"] = k
        elif o in "ST":
            self.al["b"] = self.h(self.handle("ST".index(o) + 1))
        elif o == "U":
            self.al["c"] = self.alias("a")
        elif o == "u":
            k = self.h(self.handle(1))
            if not self.is_in(k):
                raise Skip
            self.al["user_input"] = k
        elif o == "v":
            k = self.h(self.handle(1))
            if self.is_in(k):
                raise Skip
            self.al["current_output"] = k
        elif o in "MNR":
            a, b = (1, 2) if o != "N" else (2, 1)
            a, b = self.handle(a), self.handle(b)
            if max(a, b) > self.n:
                raise Fail
            self.h(a)
            if o == "R":
                self.h(b)
                if (a, b) not in self.mir:
                    raise Fail
                self.mir.discard((a, b))
            else:
                self.h(b, "output")
                self.mirror_add(a, b)
        elif o in "etf":
            k = self.h(self.handle(1))
            if o == "e":
                if self.s[k]["mode"] != "read":
                    raise Skip
                self.s[k]["eof_action"] = "reset"
            elif o == "t":
                self.s[k]["type"] = "binary"
            else:
                self.s[k]["buffering"] = "none"
        else:
            raise KeyError(o)

    def state(self):
        hs = []
        for k in sorted(self.s):
            d = self.s[k]
            ps = ["input" if d["mode"] == "read" else "output"]
            ps += sorted(["%s(%s)" % (x, d[x]) for x in d] + ["alias(%s)" % a for a in self.al if self.al[a] == k] + ["mirror(%s)" % b for a, b in self.mir if a == k], key=skey)
            hs.append("%s-[%s]" % (k, ",".join(ps)))
        al = []
        for a in ("a", "b", "c", "current_input", "current_output", "user_input", "user_output", "user_error"):
            x = "[%s]" % self.al[a] if a in self.al else "[]"
            y = x
            al.append("%s-[%s,%s,%s,%s]" % (a, x, y, x, y))
        return "s([%s],[%s],[%s],%s,%s)" % (",".join(hs), ",".join(str(k) for k in sorted(self.s)), ",".join(al), self.al["current_input"], self.al["current_output"])


class Skip(Exception):
    pass


def skey(p):
    n, a = p[:-1].split("(")
    return (n, int(a) if a.isdigit() else -1, a)


OPS = "rwpqnzm" + "123xycC" + "ijkIoOPQ" + "ABSTUuv" + "JKL" + "MNR" + "etf"
SETS = {"all": (OPS, 4, 5), "aliases": ("rwpq12xyABSTU", 5, 6), "redirections": ("rwq12cCikoPIuvJK", 5, 6), "mirrors": ("wqrm12xyMNRU", 5, 6)}


def fam(i, n, tier):
    for name in SETS:
        ops, q, t = SETS[name]
        d = q if tier == "quick" else t
        cs = []
        cnt = [0]

        def go(st, w):
            for o in ops:
                if len(w) == 0 and o in "ijoOABSTuvMNRetf123":
                    continue
                if len(w) == 1:
                    cnt[0] += 1
                    if cnt[0] % n != i:
                        continue
                s2 = st.copy()
                try:
                    s2.op(o)
                    r = "ok"
                except Err as e:
                    r = e.args[0]
                except Fail:
                    # the handle does not exist yet, or nothing to remove
                    if o in "R" and s2.n >= 2:
                        r = "no"
                    else:
                        continue
                except Skip:
                    continue
                w2 = w + o
                if len(w) >= 1 or i == 0:
                    cs.append((w2, r + " " + s2.state()))
                if len(w2) < d:
                    go(s2, w2)
        go(T(), "")
        for k in range(0, len(cs), 20000):
            yield name, "st_file(f1, [97,46,10]).\ndriver(tb).\n", cs[k:k + 20000]


def main():
    ck = Check("C19")
    x = lines.exe(DRV)
    run_lines(ck, "table", x, fam)
    return ck.finish(rule="every sequence of stream table operations: the whole table after it")
