"""C33: format/2,3 outputs what its directives denote.

Every short sequence of directives over several alphabets, every directive with every form of its parameter and every
argument of a universe, and every C printf conversion, against a reference interpreter of the manual's text (columns are
recomputed from the definition; the printf interface is compared with the C library's snprintf)."""
import ctypes
import re
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.refpl import A as AT, fmt

EXTRA = r"""
:- op(700, xfx, ===>).
fm_count(N) :- findall(S, current_stream(S), L), length(L, N).
fm(K, Pre, F, A, t(X,E,C)) :-
	fm_count(N0),
	open_output_atom_stream(S),
	write(S, Pre),
	fm_call(K, S, F, A, E),
	line_position(S, C),
	close_output_atom_stream(S, X),
	fm_count(N),
	( N == N0 -> true ; throw(streams_left(N0,N)) ).
fm_call(a, S, F, A, E) :- catch((format(S, F, A), E = ok), error(E,_), true).
fm_call(c, S, F, A, E) :-
	current_output(O), set_output(S),
	( catch((format(F, A), E = ok), error(E,_), true) -> true ; true ),
	set_output(O).
% the same text on a file
fm_file(Pre, F, A, X) :-
	open('f', write, S), write(S, Pre), format(S, F, A), close(S),
	open('f', read, R), fm_get(R, L), close(R), atom_codes(X, L).
fm_get(R, L) :- get_code(R, C), ( C < 0 -> L = [] ; L = [C|M], fm_get(R, M) ).
% the text of a goal writing to the current output
fm_out(G, X) :- open_output_atom_stream(S), current_output(O), set_output(S), call(G), set_output(O), close_output_atom_stream(S, X).
% the control text in its three representations
fm_same(F, A) :- atom_chars(F, Ch), atom_codes(F, Co), fm(a, '', F, A, X), fm(a, '', Ch, A, Y), fm(a, '', Co, A, Z), ( X == Y, Y == Z -> true ; throw(differ(X, Y, Z)) ).
portray(portr(X)) :- write(user_output_is_not_used(X)).
fm_len(N, F, A, X, L) :- format_to_atom(T, F, A), atom_length(T, L), sub_atom(T, 0, N, _, X).
"""

libc = ctypes.CDLL(None)


def q(s):
    return "'" + "".join(c if c.isalnum() and ord(c) < 128 or c in " +-*/.,()[]_~`|%" else "\\x%x\\" % ord(c) for c in s) + "'"


class Err(Exception):
    def __init__(self, t):
        self.t = t          # a prefix of the error term, or a set of them


class Open(Exception):
    pass


# ---------------------------------------------------------------- arguments: source text and meaning
class Arg:
    def __init__(self, src, num=None, text=None, w=None, qq=None, k=None, var=False, atom=None, nerr=None, islist=False):
        self.src, self.num, self.text, self.w, self.q, self.k, self.var, self.atom, self.nerr, self.islist = src, num, text, w, qq, k, var, atom, nerr, islist


def I_(n):
    s = str(n)
    return Arg(s if n >= 0 else " " + s, n, None, s, s, s)


def F_(x, s=None):
    s = s or repr(x)
    return Arg(s if x >= 0 else " " + s, x, None, s, s, s)


def A_(t, qt=None, nerr=None):
    return Arg(q(t), None, t, t, qt or t, qt or t, atom=t, nerr=nerr or "type_error(evaluable,/(%s,0))" % (qt or t))


NIL = A_("[]", nerr="type_error(evaluable,/([],0))")
NIL.text = ""
NIL.src = "[]"
VAR = Arg("_", var=True)
EXPR = Arg("1+2*3", 7, None, "1+2*3", "1+2*3", "+(1,*(2,3))")
FEXPR = Arg("1.5*2", 3.0, None, "1.5*2", "1.5*2", "*(1.5,2)")
def dots(l):
    return "'.'(%s,%s)" % (l[0], dots(l[1:])) if l else "[]"


CODES = Arg('"hello"', None, "hello", "[104,101,108,108,111]", "[104,101,108,108,111]", dots([104, 101, 108, 108, 111]), islist=True)
CHARS = Arg("[h,i]", None, "hi", "[h,i]", "[h,i]", dots("hi"), islist=True)
CMP = Arg("f('A b',[x],'$VAR'(1))", None, None, "f(A b,[x],B)", "f('A b',[x],B)", "f('A b','.'(x,[]),'$VAR'(1))", nerr="type_error(evaluable,/(f,3))")
INTS = [I_(n) for n in (0, 1, -1, 7, -7, 12, 65, 97, 123, -123, 1000, 1234, -1234, 12345, 123456, 1234567, -1234567, 999999, 1000000, 255, 256, 4294967296, -4294967297, 1152921504606846975, -1152921504606846976)]
FLTS = [F_(x) for x in (0.0, 1.0, -1.5, 3.25, 0.125, 123456.75)] + [F_(1e22, "1.0e+22"), F_(2.0**-24, "5.9604644775390625e-08")]
ATOMS = [A_("a"), A_("abc"), A_("", "''"), A_("B c", "'B c'"), A_("hello world", "'hello world'"), A_("~w", "~w"), NIL]
ATOMS[5].q = ATOMS[5].k = "'~w'"
ATOMS[5].nerr = "type_error(evaluable,/('~w',0))"
ATOMS[0].nerr = None
OTHERS = [EXPR, FEXPR, CODES, CHARS, CMP, VAR]
UNIV = INTS + FLTS + ATOMS + OTHERS


def cfmt(f, *a):
    b = ctypes.create_string_buffer(400000)
    n = libc.snprintf(b, ctypes.c_size_t(len(b)), f.encode("latin-1"), *[ctypes.c_longlong(x) if type(x) is int else ctypes.c_double(x) if type(x) is float else ctypes.c_char_p(x.encode("latin-1")) for x in a])
    return b.value.decode("latin-1") if n >= 0 else None


def digits(n, r, up):
    s = ""
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[n % r] + s
        n //= r
        if not n:
            return s.upper() if up else s


class Fmt:
    """the manual's description, executed"""

    def __init__(self, pre):
        self.out = []               # text emitted so far, all of it
        self.pend = None            # pending column text: [(fill, text)] since the first ~t after a boundary
        self.col = 0
        self.put(pre)
        self.stop = 0               # previous column boundary
        self.tabs = False           # some ~t was used

    def put(self, s):
        for c in s:
            if c == "\n":
                self.flush(0)
                self.out.append("\n")
                self.col = self.stop = 0
            else:
                if self.pend is not None:
                    self.pend[-1][1] += c
                else:
                    self.out.append(c)
                self.col += 1

    def flush(self, space):
        if self.pend is None:
            return
        n = len(self.pend)
        for k, (fill, t) in enumerate(self.pend):
            p = space // n + (1 if k >= n - space % n else 0)
            self.out.append(fill * p + t)
            self.col += p
        self.pend = None

    def column(self, stop):
        space = max(0, stop - self.col)
        if self.pend is None:
            self.put(" " * space)
        else:
            self.flush(space)
        self.stop = stop

    def run(self, f, args):
        args = list(args)

        def nxt():
            if not args:
                raise Err("domain_error(non_empty_list,")
            return args.pop(0)

        def num():
            a = nxt()
            if a.var:
                raise Err("instantiation_error")
            if a.num is None:
                if a.nerr is None:
                    raise Open()
                raise Err(a.nerr)
            return a.num

        def integer():
            n = num()
            if type(n) is not int:
                raise Err("type_error(integer,")
            return n

        i = 0
        while i < len(f):
            c = f[i]
            i += 1
            if c != "~":
                self.put(c)
                continue
            n = None
            if f[i:i + 1] == "*":
                n = integer()
                if n < 0:
                    raise Err("domain_error(not_less_than_zero,%d)" % n)
                i += 1
            elif f[i:i + 1] == "`" and i + 1 < len(f):
                n = ord(f[i + 1])
                i += 2
            else:
                j = i
                while j < len(f) and f[j] in "0123456789":
                    j += 1
                if j > i:
                    n = int(f[i:j])
                    if n >= 1 << 60:
                        raise Open()
                i = j
            d = f[i:i + 1]
            i += 1
            if d == "a":
                a = nxt()
                if a.var:
                    raise Err("instantiation_error")
                if a.atom is None:
                    raise Err("type_error(atom,")
                self.put(a.atom + " " * ((n or 0) - len(a.atom)))
            elif d == "c":
                a = nxt()
                if a.var:
                    raise Err("instantiation_error")
                if type(a.num) is not int:
                    raise Err(("representation_error(character_code", "type_error("))
                if not 0 <= a.num <= 255:
                    raise Err("representation_error(character_code")
                if a.num == 0:
                    raise Open()
                self.put(chr(a.num) * (1 if n is None else n))
            elif d and d in "feEgFG":
                x = float(num())
                self.put(cfmt("%" + d, x) if n is None else cfmt("%%.%d%s" % (n, d), x))
            elif d and d in "dD":
                x = integer()
                s = str(abs(x))
                fr = ""
                if n:
                    s = s.rjust(n + 1, "0")
                    s, fr = s[:-n], "." + s[-n:]
                if d == "D":
                    s = "{:,}".format(int(s))
                self.put(("-" if x < 0 else "") + s + fr)
            elif d and d in "rR":
                x = integer()
                r = 8 if n is None else n
                if not 2 <= r <= 36:
                    raise Err(("domain_error(format_control_sequence,", "domain_error(radix,"))
                self.put(("-" if x < 0 else "") + digits(abs(x), r, d == "R"))
            elif d == "s":
                a = nxt()
                if a.var:
                    raise Err("instantiation_error")
                if a.text is None:
                    raise Err(("type_error(", "representation_error("))
                t = a.text
                self.put(t if n is None else t[:n] + " " * (n - len(t)))
            elif d == "i":
                nxt()
            elif d and d in "kqpw":
                a = nxt()
                if a.var:
                    raise Open()
                self.put({"k": a.k, "q": a.q, "p": a.w, "w": a.w}[d])
            elif d == "W":
                a, o = nxt(), nxt()
                if a.var:
                    raise Open()
                if not getattr(o, "opts", None):
                    raise Open()
                self.put({"q": a.q, "w": a.w, "x": "f('A b',[x],'$VAR'(1))" if a is CMP else a.q}[o.opts])
            elif d == "~":
                self.put("~")
            elif d == "n":
                self.put("\n" * (1 if n is None else n))
            elif d == "N":
                if self.col > 0:
                    self.put("\n")
            elif d == "|":
                self.column(self.col if n is None else n)
            elif d == "+":
                self.column(self.stop + (8 if n is None else n))
            elif d == "t":
                self.tabs = True
                fill = " " if n is None else chr(n & 255)
                if n is not None and not 1 <= n <= 255:
                    raise Open()
                if self.pend is None:
                    self.pend = []
                self.pend.append([fill, ""])
            elif d == "%":
                if f[i:i + 1] == "%":
                    i += 1
                    self.put("%")
                    continue
                j = i
                st = []
                if not re.match(r"[-+ #0]*(\d+|\*)?(\.(\d+|\*)?)?[^-+ #0-9.*%'\"&$(),/!]", f[i:] + "\0"):
                    raise Open()        # not a printf format
                while j < len(f) and f[j] in "-+ #0123456789.*":
                    if f[j] == "*":
                        st.append(integer())
                    j += 1
                cv = f[j:j + 1]
                spec = "%" + f[i:j]
                i = j + 1
                if not cv or cv not in "diouxXcsaAeEfFgG" or len(st) > 2:
                    raise Err("domain_error(format_control_sequence,")
                if cv == "s":
                    a = nxt()
                    if a.var:
                        raise Err("instantiation_error")
                    if a.text is None:
                        raise Err(("type_error(", "representation_error("))
                    x = a.text
                elif cv in "aAeEfFgG":
                    x = float(num())
                elif cv == "c":
                    x = integer()
                    if not 0 < x < 256:
                        raise Open()
                else:
                    x = integer()
                    spec += "ll"
                self.put(cfmt(spec + cv, *(st + [x])))
            else:
                raise Err("domain_error(format_control_sequence,")
        self.flush(0)
        if args:
            raise Err("domain_error(number_of_arguments,")


def expect(pre, f, args):
    """answer of fm/5: a text, or a tuple (error alternatives, output or None)"""
    m = Fmt(pre)
    try:
        m.run(f, args)
    except Open:
        return None
    except Err as e:
        out = None if m.tabs else "".join(m.out)
        return ((e.t,) if isinstance(e.t, str) else e.t, out, args)
    return "=t(%s,ok,%d)\tno" % (fmt(AT("".join(m.out))), m.col)


def match(e, g):
    if isinstance(e, str):
        return e == g
    alts, out, args = e
    for t in alts:
        if out is None:
            if g.startswith("=t(") and (",%s" % t) in g:
                return True
        elif g.startswith("=t(%s,%s" % (fmt(AT(out)), t)):
            return True
    return False


def case(key, pre, f, args, k="a"):
    e = expect(pre, f, args)
    if e is not None:
        yield key, 2, "X", "fm(%s,%s,%s,[%s],X)" % (k, q(pre), q(f), ",".join(a.src for a in args)), e


XY, LONG, N3, N12 = A_("xy"), A_("abcdefghij"), I_(3), I_(12)
TOKS = [("ab", ()), ("~w", (XY,)), ("~t", ()), ("~`*t", ()), ("~|", ()), ("~6|", ()), ("~5+", ()), ("~+", ()), ("~n", ()), ("~N", ()), ("~*c", (N3, I_(122))), ("~12|", ()), ("~3d", (I_(-12345),))]
MORE = [("\n", ()), ("~a", (LONG,)), ("~*|", (N12,)), ("~*t", (I_(45),)), ("~0|", ()), ("~0+", ()), ("~2n", ()), ("~a~n", (XY,)), ("~e", (F_(1.5),)), ("~i", (XY,)), ("~q", (CMP,)), ("~4s", (CODES,)), ("~3a", (A_("z"),)), ("~%5d", (I_(42),)), ("~~", ())]


def columns(i, n, tier):
    k = 0
    for l in range(1, 5 if tier == "quick" else 6):
        for w in itertools.product(TOKS, repeat=l):
            k += 1
            if k % n == i:
                f, a = "".join(x for x, _ in w), [y for _, ys in w for y in ys]
                for pre in ("", "pre", "l\nq")[:1 if l > 4 else 2 if l > 3 else 3]:
                    yield from case("columns", pre, f, a)
                if l < 4:
                    yield from case("columns, current output", "p", f, a, "c")
    for l in range(1, 4 if tier == "quick" else 5):
        for w in itertools.product(TOKS[:10] + MORE if l < 4 else TOKS[2:8] + MORE[:9], repeat=l):
            k += 1
            if k % n == i:
                yield from case("columns, more directives", "", "".join(x for x, _ in w), [y for _, ys in w for y in ys])


def tabs(i, n, tier):
    """distribution of the padding: every number of ~t and of spaces"""
    k = 0
    for nt in range(1, 7):
        for segs in itertools.product(("", "a", "bcd"), repeat=nt):
            for w in range(0, 16):
                for b in ("|", "+"):
                    k += 1
                    if k % n == i:
                        f = "[~2+" + "".join("~`%st%s" % (".-=+*#"[j], s) for j, s in enumerate(segs)) + "~%d%s]~30|]" % (w, b)
                        yield from case("padding", "", f, [])
    for nt in range(1, 40):
        if nt % n == i:
            yield from case("many ~t", "", "~t" * nt + "x~70|y", [])
            yield from case("many ~t", "", ("~ta" * nt + "~%d|" % (nt + 33)) * 2 + "z", [])
            yield from case("many columns", "", "~t~w~7+" * nt, [XY] * nt)
            yield from case("many columns", "", "~w~t~7+" * nt + "~n~w~t~7+", [XY] * (nt + 1))


def single(i, n, tier):
    """every directive x every form of its parameter x every argument"""
    k = 0
    ns = ["", "0", "1", "2", "3", "5", "8", "9", "10", "16", "17", "20", "36", "37", "100", "007", "`a", "` ", "`~", "`0", "``", "`\xe9"]
    for d in "acfeEgFGdDrRsikqpwW~nN|+t%bhz? '`\"xl@A\xe9":
        for p in ns:
            if p == "" and d == "`":
                continue
            for a in UNIV:
                k += 1
                if k % n == i:
                    yield from case("~" + d, "", "<~" + p + d + ">", [a])
        for st in (I_(0), I_(1), I_(4), I_(10), I_(36), I_(-1), F_(1.0), XY, VAR, EXPR):
            for a in (INTS[8], INTS[19], FLTS[3], ATOMS[1], CODES, CMP):
                k += 1
                if k % n == i:
                    yield from case("~*" + d, "", "<~*" + d + ">", [st, a])
        for args in ([], [I_(65)], [I_(65), I_(66)], [XY], [XY, XY], [NIL, XY, XY]):
            k += 1
            if k % n == i:
                yield from case("number of arguments", "", "<~" + d + ">", args)
                yield from case("number of arguments", "", "<~" + d + "~w>", args)
                yield from case("number of arguments", "", "<~*" + d + ">", args)
                yield from case("number of arguments, pending tab", "", "<~t~" + d + "~9|>", args)
    if i == 0:
        for o, src in (("q", "[quoted(true),numbervars(true)]"), ("w", "[numbervars(true)]"), ("x", "[quoted(true)]")):
            for a in (CMP, ATOMS[3], XY, INTS[3]):
                w = Arg(src)
                w.opts = o
                yield from case("~W", "", "<~W~t~30|>", [a, w])
                yield from case("~W", "", "<~t~W~w~30|>", [a, w, XY])


def numbers(i, n, tier):
    """all the small integers, and those around the powers, in every group and radix"""
    xs = sorted(set(range(-130, 131)) | set(s * (b ** e + d) for s in (1, -1) for b in (2, 10, 1000) for e in range(0, 61) for d in (-1, 0, 1) if b ** e + d < (1 << 60)))
    for k, x in enumerate(xs):
        if k % n == i:
            a = I_(x)
            for g in (0, 1, 2, 3, 4, 6, 18, 19, 20, 25):
                yield from case("~Nd", "", "~%dd ~%dD" % (g, g), [a, a])
            yield from case("~d", "", "~d ~D ~r ~R", [a] * 4)
            for r in range(2, 37):
                yield from case("~Nr", "", "~%dr ~%dR" % (r, r), [a, a])


def printf(i, n, tier):
    k = 0
    fl = ["".join(x for x in s if x) for s in itertools.product(("", "-"), ("", "+"), ("", " "), ("", "#"), ("", "0"))]
    for cv in "diouxXcsaAeEfFgGpn%bZ":
        for f in fl:
            for w in ("", "1", "5", "12", "*"):
                for p in ("", ".", ".0", ".1", ".3", ".10", ".*"):
                    for a in (INTS[0], INTS[8], INTS[9], INTS[-1], INTS[-2], FLTS[0], FLTS[2], FLTS[5], FLTS[6], ATOMS[1], ATOMS[2], CODES, VAR)[:9 if cv not in "csdx" else 13]:
                        k += 1
                        if k % n != i or cv in "pn%" and (f or w):
                            continue
                        if f and cv in "pn":
                            continue
                        st = [I_(7)] * (w == "*") + [I_(2)] * (p == ".*")
                        if cv == "p":
                            continue
                        yield from case("~%" + cv, "", "<~%" + f + w + p + cv + ">", st + [a])
                        if w == "*" and a is INTS[8]:
                            yield from case("~%" + cv, "", "<~%" + f + w + p + cv + ">", [I_(-7)] + st[1:] + [a])


def lexing(i, n, tier):
    """every control text over an alphabet, with enough arguments of the right kind"""
    alpha = "~at5+*`%| -dcn"
    k = 0
    for l in range(1, 6 if tier == "quick" else 7):
        for w in itertools.product(alpha if l < 6 else "~t5+*`%|-d", repeat=l):
            f = "".join(w)
            if "~" not in f:
                continue
            k += 1
            if k % n != i:
                continue
            if l < 4:
                for args in ([], [I_(3)], [XY], [I_(3), XY], [I_(3), I_(65)], [XY, XY]):
                    yield from case("control text", "", f, args)
            else:
                # find the arguments which make it succeed
                yield from fit(f)


def fit(f):
    args = []
    for _ in range(6):
        m = Fmt("")
        try:
            m.run(f, args)
        except Open:
            return
        except Err as e:
            t = e.t if isinstance(e.t, str) else e.t[0]
            if t.startswith("domain_error(non_empty_list"):
                args = args + [I_(2)]
                continue
            if t.startswith("type_error(atom"):
                args = args[:-1] + [XY]
                continue
            if t.startswith("representation_error") or t.startswith("domain_error(number"):
                pass
        break
    yield from case("control text", "", f, args)
    if args:
        yield from case("control text", "", f, args[:-1])


def sizes(i, n, tier):
    """control texts and arguments larger than the internal buffers"""
    k = 0
    for s in (1000, 2046, 2047, 2048, 2049, 4096, 65534, 65535, 65536, 70000, 200000):
        X = "atom_codes(X,L)"
        big = "fm_rep(%d,[0'x],L)," % s
        for nm, g, e in (
                ("long control", big + "append(L,\"~w\",F),fm_len(3,F,[ab],_,N)", s + 2),
                ("long ~a", big + X + ",fm_len(3,'<~a>',[X],_,N)", s + 2),
                ("long ~Na", "fm_len(3,'<~%da>',[ab],_,N)" % s, s + 2),
                ("long ~Na", big + X + ",fm_len(3,'<~5a>',[X],_,N)", s + 2),
                ("long ~s", big + "fm_len(3,'<~s>',[L],_,N)", s + 2),
                ("long ~s", big + X + ",fm_len(3,'<~s>',[X],_,N)", s + 2),
                ("long ~Ns", big + "fm_len(3,'<~3s>',[L],_,N)", 5),
                ("long ~Ns", big + "fm_len(3,'<~%ds>',[L],_,N)" % (s - 1), s + 1),
                ("long ~Ns", "fm_len(3,'<~%ds>',[\"abc\"],_,N)" % s, s + 2),
                ("long ~c", "fm_len(3,'<~%dc>',[0'a],_,N)" % s, s + 2),
                ("long ~w", big + X + ",fm_len(3,'<~w>',[X],_,N)", s + 2),
                ("long ~q", big + X + ",fm_len(3,'<~q>',[X],_,N)", s + 2),
                ("long ~f", "fm_len(3,'<~%df>',[1.5],_,N)" % s, s + 4),
                ("long ~e", "fm_len(3,'<~%de>',[1.5],_,N)" % s, s + 8),
                ("long ~d", "fm_len(3,'<~%dd>',[15],_,N)" % s, s + 4),
                ("long ~D", "fm_len(3,'<~%dD>',[15],_,N)" % s, s + 4),
                ("long column", "fm_len(3,'<~t~%d|>',[],_,N)" % s, s + 1),
                ("long column", "fm_len(3,'<~%d+>',[],_,N)" % s, s + 1),
                ("long column", big + X + ",fm_len(3,'<~t~w~%d|>',[X],_,N)" % (s + 10), s + 11),
                ("long ~%s", big + X + ",fm_len(3,'<~%s>',[X],_,N)", s + 2),
                ("long ~%s", big + X + ",fm_len(3,'<~%.3s>',[X],_,N)", 5),
                ("long ~%d", "fm_len(3,'<~%%%dd>',[15],_,N)" % s, s + 2),
                ("long ~%d", "fm_len(3,'<~%%0%dd>',[15],_,N)" % s, s + 2),
                ("long ~%f", "fm_len(3,'<~%%.%df>',[1.5],_,N)" % s, s + 4),
                ("long ~%*d", "fm_len(3,'<~%%*d>',[%d,15],_,N)" % s, s + 2),
                ("many flags", "fm_rep(%d,\"0\",L),append(L,\"5d>\",M),append(\"<~%%\",M,F),fm_len(3,F,[15],_,N)" % s, None if s > 2040 else 7),
                ("long numeral", "fm_rep(%d,\"0\",L),append(L,\"5|>\",M),append(\"<~\",M,F),fm_len(3,F,[],_,N)" % s, 6)):
            k += 1
            if k % n == i and e is not None:
                yield nm, 2, "N", g, "=%d\tno" % e
        if i == 1:
            yield "many flags", 2, "ok", "fm_rep(%d,\"0\",L),append(L,\"5d>\",M),append(\"<~%%\",M,F),catch(format_to_atom(_,F,[15]),_,true)" % s, "=ok\tno"


def misc(i, n, tier):
    L = [("format_to_atom(_,_,[])", "!instantiation_error"), ("format_to_atom(_,\"ab\",[])", None), ("format_to_atom(_,[0'a|_],[])", "!instantiation_error"), ("format_to_atom(_,[0'a,_],[])", "!instantiation_error"), ("format_to_atom(_,1,[])", "!type_error("), ("format_to_atom(_,f(x),[])", "!type_error("), ("format_to_atom(_,[a|b],[])", "!type_error(list,"), ("format_to_atom(_,[a,1.5],[])", "!"),
         ("format_to_atom(_,\"~w\",_)", "!instantiation_error"), ("format_to_atom(_,\"~w~w\",[a|_])", "!instantiation_error"), ("format_to_atom(_,\"a\",_)", "!instantiation_error"), ("format_to_atom(_,\"a\",b)", "!type_error(list,b)"), ("format_to_atom(_,\"~w\",b)", "!type_error(list,b)"), ("format_to_atom(_,\"~w\",[a|b])", "!type_error(list,"), ("format_to_atom(_,\"~w~w\",[a|b])", "!type_error(list,"), ("format_to_atom(_,\"~a\",f(x))", "!type_error(list,f(x))"),
         ("format(_,a,[])", "!instantiation_error"), ("format(1,a,[])", "!domain_error(stream_or_alias,1)"), ("format(noalias,a,[])", "!existence_error(stream,noalias)"), ("format(user_input,a,[])", "!permission_error(output,stream,user_input)"),
         ("open('b',write,S,[type(binary)]),catch(format(S,a,[]),error(permission_error(A,B,_),_),true),close(S),X=A-B", "=-(output,binary_stream)"),
         ("open('b',write,S),close(S),catch(format(S,a,[]),error(existence_error(A,_),_),true),X=A", "=stream"),
         ("fm_out(print(portr(1)),X)", None), ("fm_out(format(\"~p\",[portr(1)]),X)", "='user_output_is_not_used(1)'"),
         ("format_to_atom(X,\"~t~99|~t~t\",[])", "='%s'" % (" " * 99)),
         ("fm_rep(1030,\"~t\",L),catch(format(L,[]),error(resource_error(_),_),true),X=ok", "=ok\tno")]
    for g, e in L:
        if e:
            yield "errors", 2, "X", g, ((e,), None, "prefix")
    # the output goes on as the terms written one after the other
    T = ["abc", "'A b'", "1", "- 1", "-(1)", "1-2", "[a,b]", "\"ab\"", "{x}", "f(x,'Y')", "(a:-b)", "(a,b)", "'$VAR'(3)", "1.5", "'\\n'", "- - a", "\\+a", "f(:-)", "[]", "{}", "''", "_"]
    for a in T:
        for d, w in (("w", "write"), ("q", "writeq"), ("p", "print"), ("k", "write_canonical")):
            if a == "_":
                continue
            yield "as " + w, 2, "X", "fm_out(format(\"~%s\",[%s]),X0),fm_out(%s(%s),Y),(X0==Y->X=same;X=X0-Y)" % (d, a, w, a), "=same\tno"
            for b in T[:-1]:
                yield "as " + w, 2, "X", "fm_out(format(\"~%s~q~t~w~3|\",[%s,%s,x]),X0),fm_out((%s(%s),writeq(%s),write(x)),Y),(atom_concat(_,x,X0),sub_atom(Y,0,_,1,Z),sub_atom(X0,0,_,_,Z)->X=same;X=X0-Y)" % (d, a, b, w, a, b), "=same\tno"
    for f, a in (("ab~w~n", "[x]"), ("~t~d~10|~n", "[12]"), ("~q", "['A']"), ("~e", "[1]"), ("~", "[]"), ("~z", "[]"), ("\\351\\~`\\351\\t~3|", "[]")):
        yield "representations of the control", 2, "ok", "fm_same('%s',%s)" % (f, a), "=ok\tno"
    for f, args in (("~t~w~10|~w~n~a~5+~`*t~30|~n", [XY, LONG, XY]), ("~`*t NICE TABLE ~`*t~61|~n*~t*~61|~n", []), ("*~t~a~20|~t~a~t~20+~a~t~20+~t*~61|~n", [A_("Right aligned"), A_("Centered"), A_("Left aligned")]), ("*~t~d~20|~t~d~t~20+~d~t~20+~t*~61|~n", [I_(123), I_(45), I_(678)]), ("[~|~t~a~t~a~t~a~t~10+]", [A_("a"), A_("b"), A_("c")])):
        m = Fmt("pr")
        m.run(f, args)
        yield "on a file", 2, "X", "fm_file(pr,%s,[%s],X)" % (q(f), ",".join(a.src for a in args)), "=%s\tno" % fmt(AT("".join(m.out)))
        yield from case("manual", "", f, args)


def match2(e, g):
    if isinstance(e, tuple) and e[2] == "prefix":
        return any(g.startswith(x) for x in e[0])
    return match(e, g)


def main():
    ck = Check("C33")
    exe = server_exe(EXTRA + "fm_rep(N, C, L) :- ( N =< 0 -> L = [] ; append(C, M, L), N1 is N-1, fm_rep(N1, C, M) ).\n")
    for nm, f, s in (("columns", columns, 16), ("padding", tabs, 8), ("single directives", single, 16), ("numbers", numbers, 8), ("printf", printf, 16), ("control texts", lexing, 16), ("sizes", sizes, 8), ("errors and the manual", misc, 1)):
        run_cases(ck, nm, exe, f, s, match=match2)
    return ck.finish(rule="every directive sequence up to the length x every argument list, against the manual's text executed (C library for printf)")
