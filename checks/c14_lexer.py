"""C14: lexical analysis denotes the characters written.

A reference scanner written from ISO 6.4 (with the documented GNU Prolog relaxations) gives, for every string over the
alphabets up to the bound, the tokens with their values and the position after each; the real read_token/2 (and
read_number/2, read_integer/2, read_term/3) is run on each of them."""
import itertools
from vlib import lines
from vlib.lines import run_lines
from vlib.refpl import Atom, S, fmt, qatom, ffloat
from vlib.report import Check

DRV = r"""
lx_line(S, L) :- get_code(S, C), ( C =:= -1 -> fail ; lx_line(C, S, L) ).
lx_line(10, _, []) :- !.
lx_line(-1, _, []) :- !.
lx_line(1, S, [10|L]) :- !, get_code(S, C), lx_line(C, S, L).
lx_line(C0, S, [C0|L]) :- get_code(S, C), lx_line(C, S, L).

lx_tok(S) :- lx_line(S, L), open_input_codes_stream(L, T), lx_toks(T), close_input_codes_stream(T), nl.
lx_toks(T) :-
	catch(read_token(T, K), E, true),
	( nonvar(E) -> lx_err(E)
	; K == punct(end_of_file) -> true
	; write_term(K, [quoted(true),ignore_ops(true)]), character_count(T, P), put_char('@'), write(P), put_char(' '), lx_toks(T) ).
lx_err(error(syntax_error(_),_)) :- !, put_char('!').
lx_err(error(E,_)) :- put_char('!'), write_term(E, [quoted(true),ignore_ops(true)]).

lx_num(S) :- lx_line(S, L), open_input_codes_stream(L, T), lx_one(T, read_number(T, K), K), close_input_codes_stream(T), nl.
lx_int(S) :- lx_line(S, L), open_input_codes_stream(L, T), lx_one(T, read_integer(T, K), K), close_input_codes_stream(T), nl.
lx_atm(S) :- lx_line(S, L), open_input_codes_stream(L, T), lx_one(T, read_atom(T, K), K), close_input_codes_stream(T), nl.
lx_trm(S) :- lx_line(S, L), open_input_codes_stream(L, T), lx_one(T, read_term(T, K, []), K), close_input_codes_stream(T), nl.
lx_one(T, G, K) :-
	catch(G, E, true),
	( nonvar(E) -> lx_err(E) ; write_term(K, [quoted(true),ignore_ops(true)]), character_count(T, P), put_char('@'), write(P) ).
"""
A = Atom
SMALL = "abcdefghijklmnopqrstuvwxyz"
CAP = SMALL.upper()
DIG = "0123456789"
ALNUM = SMALL + CAP + DIG + "_"
GR = "#$&*+-./:<=>?@^~\\"
LAY = " \t\n" + "".join(map(chr, range(1, 9))) + "\x0b\x0c\x0d" + "".join(map(chr, range(14, 32))) + "\x7f"
ESC = dict(a=7, b=8, f=12, n=10, r=13, t=9, v=11)
INTMAX = (1 << 60) - 1


class Err(Exception):
    pass


class Open(Exception):
    """the documents do not say"""


def at(s, i):
    return s[i] if i < len(s) else ""


def quoted_char(s, i, q, strict, esc=True):
    """one character of an item quoted by q: (code or None for a continuation or -1 for the end, next index)"""
    c = at(s, i)
    if c == "":
        raise Err
    if c == q:
        if at(s, i + 1) == q:
            return ord(q), i + 2
        return -1, i + 1
    if c in "\n\t":
        raise Err
    if c != "\\" or not esc:
        return ord(c), i + 1
    c = at(s, i + 1)
    if c == "\n":
        return None, i + 2
    if c and c in "\\'\"`":
        return ord(c), i + 2
    if c and c in ESC:
        return ESC[c], i + 2
    if not strict and c and c in "se":
        return (32 if c == "s" else 27), i + 2
    if c == "x" or (c and c in "01234567"):
        b, ds, j = (16, "0123456789abcdefABCDEF", i + 2) if c == "x" else (8, "01234567", i + 1)
        k = j
        while at(s, k) and at(s, k) in ds:
            k += 1
        if k == j or at(s, k) != "\\":
            raise Err
        v = int(s[j:k], b)
        if not 1 <= v <= 255:
            raise Err
        return v, k + 1
    raise Err


def number(s, i, strict):
    """s[i] is a digit: (value, next index)"""
    if s[i] == "0":
        c = at(s, i + 1)
        if c == "'":
            d = at(s, i + 2)
            if d == "'":
                if at(s, i + 3) == "'":
                    return 39, i + 4
                if strict:
                    raise Open
                return 39, i + 3
            if not (d == "\\" and at(s, i + 3) == "\n"):
                v, j = quoted_char(s, i + 2, "'", strict)
                return v, j
            return 0, i + 1
        if c and c in "box":
            ds = {"b": "01", "o": "01234567", "x": "0123456789abcdefABCDEF"}[c]
            k = i + 2
            while at(s, k) and at(s, k) in ds:
                k += 1
            if k > i + 2:
                return int(s[i + 2:k], {"b": 2, "o": 8, "x": 16}[c]), k
    k = i
    while at(s, k) and at(s, k) in DIG:
        k += 1
    if at(s, k) == "." and at(s, k + 1) and at(s, k + 1) in DIG:
        k += 1
        while at(s, k) and at(s, k) in DIG:
            k += 1
        if at(s, k) and at(s, k) in "eE":
            j = k + 1
            if at(s, j) and at(s, j) in "+-":
                j += 1
            if at(s, j) and at(s, j) in DIG:
                while at(s, j) and at(s, j) in DIG:
                    j += 1
                k = j
        return float(s[i:k]), k
    return int(s[i:k]), k


def skip(s, i):
    while i < len(s):
        if s[i] in LAY:
            i += 1
        elif s[i] == "%":
            j = s.find("\n", i)
            i = len(s) if j < 0 else j + 1
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise Err
            i = j + 2
        else:
            break
    return i


def token(s, i, strict, dq_esc=True, bq_esc=False):       # by default the back_quotes flag is atom_no_escape
    """next token at or after i: (kind, value, end) or None at the end"""
    i = skip(s, i)
    if i >= len(s):
        return None
    c = s[i]
    if c in SMALL or c in CAP or c == "_":
        j = i
        while at(s, j) and at(s, j) in ALNUM:
            j += 1
        return ("name" if c in SMALL else "var"), s[i:j], j
    if c in DIG:
        v, j = number(s, i, strict)
        return "num", v, j
    if c in "'\"`":
        out = []
        j = i + 1
        while True:
            v, j = quoted_char(s, j, c, strict, c == "'" or (dq_esc if c == '"' else bq_esc))
            if v == -1:
                break
            if v is not None:
                out.append(chr(v))
        return {"'": "name", '"': "string", "`": "back_quotes"}[c], "".join(out), j
    if c == "." and (i + 1 == len(s) or s[i + 1] in LAY or s[i + 1] == "%"):
        return "punct", "full_stop", i + 1
    if c in GR:
        j = i
        while at(s, j) and at(s, j) in GR:
            j += 1
        return "name", s[i:j], j
    if c in "()[]{}|":
        return "punct", c, i + 1
    if c in "!,;":
        return "name", c, i + 1
    return "extended", c, i + 1


def fmt_atom(a):
    return qatom(a) if a not in (",", "|") else "'" + a + "'"


def num(v):
    return ffloat(v) if isinstance(v, float) else str(v)


def tokens(s, strict, dq_esc=True, bq_esc=False):
    r = ""
    i = 0
    try:
        while True:
            t = token(s, i, strict, dq_esc, bq_esc)
            if t is None:
                return r
            k, v, i = t
            if k == "num":
                if isinstance(v, int) and v > INTMAX:
                    raise Open
                x = num(v)
            elif k == "name":
                x = fmt_atom(v)
            else:
                x = "%s(%s)" % (k, fmt_atom(v))
            r += "%s@%d " % (x, i)
    except Err:
        return r + "!"
    except Open:
        return Prefix(r)


class Prefix:
    """what comes before the part the documents leave open"""

    def __init__(self, p):
        self.p = p
        self.__doc__ = p + "..."

    def __call__(self, g):
        return g.startswith(self.p)


def enc(s):
    return s.replace("\n", "\x01")


def strings(alpha, nl):
    for l in range(1, nl + 1):
        for s in itertools.product(alpha, repeat=l):
            yield "".join(s)


FAMS = [("numbers", "019.eE+-xbo'a ", (5, 6)), ("quoted", "'\"`\\nx41\na\t", (6, 7)), ("layout", "./*% \naA_;!,(+:", (5, 5)), ("mixed", "0'\\.x4 a\n\"", (6, 7)), ("escapes", "'\\x0189a7es", (6, 6))]


def fam_tokens(i, n, tier):
    for name, alpha, (q, t) in FAMS:
        for strict in (True, False):
            if not strict and name == "layout":
                continue
            cs = []
            nl = (q if strict else q - 1) if tier == "quick" else t
            for k, s in enumerate(strings(alpha, nl)):
                if k % n == i:
                    cs.append((enc(s), tokens(s, strict)))
            yield "%s strict_iso=%s" % (name, strict), "set_prolog_flag(strict_iso,%s).\ndriver(lx_tok).\n" % ("on" if strict else "off"), cs


def fam_flags(i, n, tier):
    k = 0
    for flag, q in (("double_quotes", '"'), ("back_quotes", "`")):
        for f in ("codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"):
            k += 1
            if k % n != i:
                continue
            esc = "no_escape" not in f
            es = (esc, False) if q == '"' else (True, esc)
            yield "%s=%s" % (flag, f), "set_prolog_flag(%s,%s).\ndriver(lx_tok).\n" % (flag, f), [(enc(s), tokens(s, True, *es)) for s in strings("\"'`\\nx4a", 5)]
            cs = []
            for s in strings(q + "\\n4\xe9a", 5):
                if s[0] != q:
                    continue
                try:
                    t = token(s, 0, True, *es)
                    if t[2] != len(s):
                        continue
                    kind = f.split("_")[0]
                    x = A(t[1])
                    if kind != "atom":
                        x = A("[]")
                        for c in reversed(t[1]):
                            x = S(".", (ord(c) if kind == "codes" else A(c), x))
                    e = "%s@%d" % (fmt(x), len(s) + 2)
                except Err:
                    continue
                cs.append((enc(s + " ."), e))
            yield "%s=%s terms" % (flag, f), "set_prolog_flag(%s,%s).\ndriver(lx_trm).\n" % (flag, f), cs


def fam_chars(i, n, tier):
    if i:
        return
    cs = []
    for c in range(2, 256):
        c = chr(c)
        if c in "\n\t":
            continue
        for pre, post in (("", ""), ("a", "b"), ("'", "'"), ('"', '"'), ("`", "`"), ("0'", " "), ("'\\", "'"), ("+", "+"), ("A", "")):
            s = pre + c + post
            if pre and ord(c) < 32 and pre[0] in "'\"`0":
                continue        # control characters in quoted items: not in the standard
            cs.append((enc(s), tokens(s, True)))
    for v in list(range(0, 300)) + [0o777, 4095, 65536 + 65, (1 << 31) + 65, (1 << 32) + 65, (1 << 36) + 65, (1 << 64) + 65]:
        for fm in ("'\\%o\\'", "'\\x%x\\'", "'a\\x%X\\b'", "\"\\%o\\\"", "`\\x%x\\`", "0'\\x%x\\", "0'\\%o\\", "'\\x000%x\\'"):
            s = fm % v
            cs.append((enc(s), tokens(s, True)))
    for b in (10, 2, 8, 16):
        for v in [0, 1, 7, 8, 255, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, INTMAX - 1, INTMAX]:
            s = {10: "%d", 8: "0o%o", 16: "0x%x"}[b] % v if b != 2 else "0b" + bin(v)[2:]
            cs.append((s, tokens(s, True)))
            cs.append((s.upper().replace("X", "x").replace("O", "o").replace("B", "b") + " ", tokens(s, True)))
            cs.append(("0" * 40 + s, tokens("0" * 40 + s, True)))
    for s in ("1.0", "1.5e10", "0.1", "123456789.123456789", "1.0e-300", "2.2250738585072014e-308", "1.7976931348623157e308", "4.9e-324", "5.0e-324", "0.000001", "1.0E+2", "1.0E02", "00.10", "1.0e0", "9007199254740993.0", "0.3333333333333333333333333333333333333",
              "1." + "0" * 500 + "1", "1" * 300 + ".0", "0." + "0" * 320 + "1"):
        cs.append((s, tokens(s, True)))
        cs.append((s + "a", tokens(s + "a", True)))
    for ln in (255, 256, 1022, 1023, 1024, 1025, 4095, 4096, 65534, 65535, 65536, 65537, 200000):
        for s in ("a" * ln, "+" * ln, "'" + "b" * ln + "'", '"' + "c" * ln + '"', "`" + "\\x64\\" * ln + "`", "'" + "''" * ln + "'", " " * ln + "a", "/*" + "*" * ln + "*/ a", "A" + "a" * (ln - 1), "1" + " " * ln + "2", "'" + "\\\n" * ln + "'"):
            if len(s) > 600000:
                continue
            cs.append((enc(s), tokens(s, True)))
    yield "every character and value", "driver(lx_tok).\n", cs


def fam_long(i, n, tier):
    """around the documented-nowhere size limits: the right answer or a syntax error, and the next term is read"""
    for k, ln in enumerate((1022, 1023, 1024, 1025, (1 << 20) - 2, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20)):
        if k % n != i:
            continue
        cs = []
        for s, e in (("a" * ln, "a" * ln), ("'" + "a" * ln + "'", "a" * ln), ("0'" + "a" * ln, "!"), ("A" * ln, "'_G'(0)"), ("f(" + "A" * ln + "," + "A" * ln + ",_" + "A" * (ln - 1) + ")", "f('_G'(0),'_G'(0),'_G'(1))"), ("0." + "1" * ln, "0.1111111111111111"), ("0." + "1" * ln, "0.1111111111111111"),
                     ("0" * ln + "7", "7"), ("+" * ln, "+" * ln), ("`" + "a" * ln + "`", "a" * ln), ("1" * ln, "!"), ("/*" + "*" * ln + "*/ b", "b"), (" " * ln + "b", "b")):
            cs.append((s + " .", {e, "!"} if ln > 1020 else e))
            cs.append(("next.", "next"))
        yield "length %d" % ln, "driver(ln_term).\n", cs


def fam_numbers(i, n, tier):
    for drv, ints in (("lx_num", False), ("lx_int", True)):
        cs = []
        for k, s in enumerate(strings("01.e-+' x\na", 5 if tier == "quick" else 6)):
            if k % n != i:
                continue
            try:
                t = token(s, 0, True)
                sg = 1
                if t and t[0] == "name" and t[1] == "-":
                    sg = -1
                    t = token(s, t[2], True)
                if t is None or t[0] != "num" or (ints and isinstance(t[1], float)):
                    e = "!"
                else:
                    e = "%s@%d" % (num(sg * t[1]), t[2])
            except Err:
                e = "!"
            except Open:
                continue
            cs.append((enc(s), e))
        yield drv, "driver(%s).\n" % drv, cs
    cs = []
    if i == 0:
        for v in (INTMAX, INTMAX + 1, INTMAX + 2, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63, 1 << 64, 10 ** 30):
            for sg in ("", "-"):
                for s in ("%d" % v, "0x%x" % v, "0o%o" % v, "0b" + bin(v)[2:]):
                    x = -v if sg else v
                    cs.append((sg + s + " .", "%d@%d" % (x, len(sg + s) + 2) if -INTMAX - 1 <= x <= INTMAX else "!"))
        yield "bounds", "driver(lx_trm).\n", cs
    cs = []
    for k, s in enumerate(strings("aA+.'\\\n; 1_", 5)):
        if k % n != i:
            continue
        j = 0
        while at(s, j) and s[j] in LAY:
            j += 1
        c = at(s, j)
        try:
            if not c or c not in SMALL + GR + "';!,":
                e = "!"
            elif c in GR:
                m = j
                while at(s, m) and at(s, m) in GR:
                    m += 1
                e = "%s@%d" % (fmt_atom(s[j:m]), m)
            else:
                t = token(s, j, True)
                e = "%s@%d" % (fmt_atom(t[1]), t[2])
        except Err:
            e = "!"
        if e != "!" and s[j] == "." and e.startswith("'.'"):
            continue                # a lone . is an end token or an atom: not documented
        cs.append((enc(s), e))
    yield "read_atom", "driver(lx_atm).\n", cs


def main():
    ck = Check("C14")
    x = lines.exe(DRV)
    run_lines(ck, "every string", x, fam_tokens)
    run_lines(ck, "flags", x, fam_flags, shards=12)
    run_lines(ck, "characters, values, lengths", x, fam_chars, shards=1)
    run_lines(ck, "long tokens", x, fam_long, shards=9, env={"GLOBALSZ": "400000"})
    run_lines(ck, "constants", x, fam_numbers)
    return ck.finish(rule="every string over the alphabets up to the bound: tokens, values, position after each token = ISO 6.4")
