"""Abstract input/output streams and the text driver that runs operation sequences on real ones.

A case is a sequence of operations: one letter, with an argument letter for u U w:
  g get_char  c get_code  p peek_char  k peek_code  ux unget_char(x), x the last character read  Ux unget_char(x)
  b get_byte  q peek_byte  vx unget_byte(x)  f get_char(z) (does not match)  F peek_char(z)
  e at_end_of_stream  E stream_property(end_of_stream)  r read_term
  s stream_position (kept)  t set_stream_position to the last kept  ABCDEG.. set_stream_line_column
  0-5 seek
"""
from . import lines

DRV = r"""
lx_line(S, L) :- get_code(S, C), ( C =:= -1 -> fail ; lx_line(C, S, L) ).
lx_line(10, _, []) :- !.
lx_line(-1, _, []) :- !.
lx_line(1, S, [10|L]) :- !, get_code(S, C), lx_line(C, S, L).
lx_line(C0, S, [C0|L]) :- get_code(S, C), lx_line(C, S, L).

:- dynamic(st_opt/4).
st_set(F, M, O, P) :- retractall(st_opt(_,_,_,_)), assertz(st_opt(F, M, O, P)).
st_file(F, L) :- open(F, write, S, [type(binary)]), st_put(L, S), close(S).
st_put([], _).
st_put([B|L], S) :- put_byte(S, B), st_put(L, S).

% one case: P = cur (operations on the current input) or arg, with or without the counters
st(In) :-
	lx_line(In, L),
	st_opt(F, M, O, P-C),
	st_open(M, F, O, S),
	( P = cur -> set_input(S) ; true ),
	g_assign(st_p, []),
	st_ops(L, S, P, C),
	st_close(M, S), nl.
st_close(codes, S) :- !, close_input_codes_stream(S).
st_close(chars, S) :- !, close_input_chars_stream(S).
st_close(atom, S) :- !, close_input_atom_stream(S).
st_close(_, S) :- close(S).
st_open(codes, F, _, S) :- !, open_input_codes_stream(F, S).
st_open(chars, F, _, S) :- !, open_input_chars_stream(F, S).
st_open(atom, F, _, S) :- !, open_input_atom_stream(F, S).
st_open(M, F, O, S) :- open(F, M, S, O).
st_ops([], _, _, _).
st_ops([O|L], S, P, C) :-
	st_arg(O, L, A, L1),
	catch(st_do(P, O, A, S), E, st_err(E)),
	( C = pos -> st_pos(S) ; true ),
	put_char(' '),
	st_ops(L1, S, P, C).
st_arg(O, [A|L], A, L) :- memberchk(O, "uUvVw"), !.
st_arg(_, L, [], L).
st_err(error(permission_error(_,X,_),_)) :- !, put_char(!), write(X).
st_err(error(syntax_error(_),_)) :- !, write('!!').
st_err(error(E,_)) :- put_char(!), writeq(E).
st_pos(S) :- character_count(S, N), put_char('@'), write(N),
	( stream_property(S, type(text)) ->
		line_count(S, L), line_position(S, K), put_char(':'), write(L), put_char(':'), write(K),
		stream_line_column(S, L1, K1), ( L1 =:= L+1, K1 =:= K+1 -> true ; write(' line_column '), write(L1-K1) )
	; true ).
w(X) :- writeq(X).

st_do(P, O, A, S) :- ( P = cur -> st_c(O, A, S) ; st_a(O, A, S) ), !.
st_do(_, _, _, _) :- write(no).

st_a(0'g, _, S) :- !, get_char(S, X), w(X).
st_a(0'c, _, S) :- !, get_code(S, X), w(X).
st_a(0'p, _, S) :- !, peek_char(S, X), w(X).
st_a(0'k, _, S) :- !, peek_code(S, X), w(X).
st_a(0'u, A, S) :- !, char_code(X, A), unget_char(S, X), w(u).
st_a(0'U, A, S) :- !, unget_code(S, A), w(u).
st_a(0'b, _, S) :- !, get_byte(S, X), w(X).
st_a(0'q, _, S) :- !, peek_byte(S, X), w(X).
st_a(0'v, A, S) :- !, unget_byte(S, A), w(u).
st_a(0'f, _, S) :- !, get_char(S, z), w(yes).
st_a(0'F, _, S) :- !, peek_char(S, z), w(yes).
st_a(0'e, _, S) :- !, at_end_of_stream(S), w(yes).
st_a(0'r, _, S) :- !, read_term(S, X, []), w(X).
st_a(0'w, A, S) :- !, put_char(S, A1), char_code(A1, A).
st_a(O, A, S) :- st_x(O, A, S).
st_c(0'g, _, _) :- !, get_char(X), w(X).
st_c(0'c, _, _) :- !, get_code(X), w(X).
st_c(0'p, _, _) :- !, peek_char(X), w(X).
st_c(0'k, _, _) :- !, peek_code(X), w(X).
st_c(0'u, A, _) :- !, char_code(X, A), unget_char(X), w(u).
st_c(0'U, A, _) :- !, unget_code(A), w(u).
st_c(0'b, _, _) :- !, get_byte(X), w(X).
st_c(0'q, _, _) :- !, peek_byte(X), w(X).
st_c(0'v, A, _) :- !, unget_byte(A), w(u).
st_c(0'f, _, _) :- !, get_char(z), w(yes).
st_c(0'F, _, _) :- !, peek_char(z), w(yes).
st_c(0'e, _, _) :- !, at_end_of_stream, w(yes).
st_c(0'r, _, _) :- !, read_term(X, []), w(X).
st_c(O, A, S) :- st_x(O, A, S).
st_x(0'E, _, S) :- stream_property(S, end_of_stream(X)), w(X).
st_x(0's, _, S) :- stream_position(S, X), stream_property(S, position(Y)), ( X == Y -> true ; w(X\==Y) ), g_assign(st_p, X), w(s).
st_x(0't, _, S) :- g_read(st_p, X), set_stream_position(S, X), w(t).
st_x(0'A, _, S) :- set_stream_line_column(S, 1, 1), w(l).
st_x(0'B, _, S) :- set_stream_line_column(S, 1, 2), w(l).
st_x(0'C, _, S) :- set_stream_line_column(S, 1, 3), w(l).
st_x(0'D, _, S) :- set_stream_line_column(S, 2, 1), w(l).
st_x(0'G, _, S) :- set_stream_line_column(S, 2, 2), w(l).
st_x(0'H, _, S) :- set_stream_line_column(S, 3, 1), w(l).
st_x(0'0, _, S) :- seek(S, bof, 0, X), w(X).
st_x(0'1, _, S) :- seek(S, bof, 1, X), w(X).
st_x(0'2, _, S) :- seek(S, current, 0, X), w(X).
st_x(0'3, _, S) :- seek(S, current, 1, X), w(X).
st_x(0'4, _, S) :- seek(S, current, -1, X), w(X).
st_x(0'5, _, S) :- seek(S, eof, 0, X), w(X).
st_x(0'6, _, S) :- seek(S, eof, -1, X), w(X).
"""

EOF = -1


class Perm(Exception):
    pass


class Skip(Exception):
    """not judged / not possible: the sequence is left out"""


LCOL = {"A": (0, 0), "B": (0, 1), "C": (0, 2), "D": (1, 0), "G": (1, 1), "H": (2, 0)}


class In:
    def __init__(self, data, text=True, eof="eof_code", repos=True):
        self.d, self.text, self.eof, self.repos = data, text, eof, repos
        self.pos = 0
        self.past = False
        self.pb = []
        self.cc = self.lc = self.lp = 0
        self.hist = []
        self.saved = None
        self.ccok = True

    def state(self):
        return (self.pos, tuple(self.pb), self.cc, self.lc, self.lp)

    def before(self):
        if not self.past:
            return False
        if self.eof == "error":
            raise Perm("past_end_of_stream")
        if self.eof == "eof_code":
            return True
        self.past = False
        if self.repos:
            self.setpos((0, 0, 0, 0))
        return False

    def setpos(self, p):
        self.pos, self.cc, self.lc, self.lp = p
        self.pb = []
        self.hist = []
        self.past = False

    def count(self, c):
        self.hist.append((c, self.cc, self.lc, self.lp))
        self.cc += 1
        if c == "\n":
            self.lc += 1
            self.lp = 0
        else:
            self.lp += 1

    def get(self):
        if self.before():
            return EOF
        if self.pb:
            c = self.pb.pop()
        elif self.pos < len(self.d):
            c = self.d[self.pos]
            self.pos += 1
        else:
            self.past = True
            return EOF
        self.count(c)
        return c

    def peek(self):
        if self.before():
            return EOF
        return self.pb[-1] if self.pb else self.d[self.pos] if self.pos < len(self.d) else EOF

    def unget(self):
        if not self.hist:
            raise Skip
        c, self.cc, self.lc, self.lp = self.hist.pop()
        self.pb.append(c)
        self.past = False
        return c

    def unget_other(self, c):
        self.pb.append(c)
        self.past = False
        self.hist = []
        self.ccok = False

    def at_end(self):
        if self.eof == "reset":
            raise Skip
        return "past" if self.past else "at" if not self.pb and self.pos >= len(self.d) else "not"

    def read(self):
        """terms over the characters a . newline space"""
        toks = []
        if self.before():
            return "end_of_file"
        while True:
            c = self.get()
            if c == EOF:
                return "!!" if toks else "end_of_file"
            if c in " \n":
                continue
            if c == ".":
                t = c
                while self.peek() == ".":
                    t += self.get()
                if t == "." and self.peek() in (EOF, " ", "\n"):
                    break
            else:
                t = c
                while self.peek() in ("a", "z"):
                    t += self.get()
            toks.append(t)
        return toks[0] if len(toks) == 1 else "!!"

    def q(self, c, code=False):
        if code:
            return "-1" if c == EOF else str(ord(c))
        return "end_of_file" if c == EOF else "'\\n'" if c == "\n" else "'%s'" % c if c in " ." else c

    def op(self, o):
        """(text of the operation, answer)"""
        arg = ""
        try:
            if o in "gcpkuUfFr" and not self.text and o != "r" or o == "r" and not self.text:
                if o == "u" or o == "U":
                    arg = "a"
                raise Perm("binary_stream")
            if o in "bqv" and self.text:
                arg = "a" if o == "v" else ""
                raise Perm("text_stream")
            if o in "gcb":
                a = self.q(self.get(), o != "g")
            elif o in "pkq":
                a = self.q(self.peek(), o != "p")
            elif o in "uv":
                arg = self.unget()
                a = "u"
            elif o == "U":
                self.unget_other("z")
                arg = "z"
                a = "u"
            elif o == "f":
                a = "yes" if self.get() == "z" else "no"
            elif o == "F":
                a = "yes" if self.peek() == "z" else "no"
            elif o == "e":
                a = "yes" if self.at_end() != "not" else "no"
            elif o == "E":
                a = self.at_end()
            elif o == "r":
                a = self.read()
            elif o == "s":
                if not self.ccok:
                    raise Skip
                self.saved = (self.pos - len(self.pb), self.cc, self.lc, self.lp)
                a = "s"
            elif o == "t":
                if self.saved is None:
                    raise Skip
                if not self.repos:
                    raise Perm("stream")
                self.setpos(self.saved)
                a = "t"
            elif o in LCOL:
                if not self.repos:
                    raise Perm("stream")
                if not self.text:
                    raise Perm("binary_stream")
                l, k = LCOL[o]
                ls = self.d.split("\n")
                if l >= len(ls) or k > len(ls[l]):
                    a = "no"
                else:
                    p = sum(len(x) + 1 for x in ls[:l]) + k
                    self.setpos((p, p, l, k))
                    self.ccok = True
                    a = "l"
            elif o in "0123456":
                if not self.repos:
                    raise Perm("stream")
                if self.text:
                    raise Perm("text_stream")
                if self.pb and not self.ccok:
                    raise Skip
                w, k = (("bof", 0), ("bof", 1), ("cur", 0), ("cur", 1), ("cur", -1), ("eof", 0), ("eof", -1))[int(o)]
                p = dict(bof=0, cur=self.pos - len(self.pb), eof=len(self.d))[w] + k
                if p < 0:
                    a = "no"
                else:
                    self.setpos((p, p, 0, 0))
                    a = str(p)
        except Perm as e:
            a = "!" + e.args[0]
        return o + (("\x01" if arg == "\n" else arg) if arg else ""), a


def case(data, ops, text=True, eof="eof_code", repos=True, pos=False):
    m = In(data, text, eof, repos)
    t = ""
    a = ""
    for o in ops:
        x, y = m.op(o)
        t += x
        a += y
        if pos:
            if not m.ccok:
                raise Skip
            a += "@%d" % m.cc + (":%d:%d" % (m.lc, m.lp) if text else "")
        a += " "
    return t, a


def prune(seq):
    return seq


def exe():
    return lines.exe(DRV)
