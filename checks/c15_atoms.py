"""C15: atom and text conversions are exact relations."""
import itertools
from vlib.report import Check
from vlib.cases import server_exe, run_cases
from vlib.refpl import Atom, A as AT, S, lst, fmt, V

IN, TY, DO, RE = "instantiation_error", "type_error(%s,%s)", "domain_error(not_less_than_zero,%s)", "representation_error(character_code)"


def q(s):
    """an atom as source text"""
    return "'" + "".join(c if c.isalnum() and ord(c) < 128 or c in " +-*/.,()[]_" else "\\x%x\\" % ord(c) for c in s) + "'"


class Bad:
    """an argument of another kind"""

    def __init__(self, text, shown=None):
        self.text, self.shown = text, shown or text


X1, FX, FL = Bad("1"), Bad("f(x)"), Bad("1.5")


def isvar(a):
    return type(a) is str and len(a) > 1 and a[0] == "?"


def src(a):
    if isvar(a):
        return a[1:]
    if type(a) is Bad:
        return a.text
    if type(a) is int:
        return " %d" % a if a < 0 else str(a)
    if type(a) is list:
        return "[" + ",".join(map(src, a)) + "]"
    if type(a) is tuple:            # partial list
        return "[" + ",".join(map(src, a[0])) + "|" + src(a[1]) + "]" if a[0] else src(a[1])
    return q(a)


def term(a):
    if type(a) is list:
        return lst([term(x) for x in a])
    return a if type(a) is int or isinstance(a, (V, S)) else AT(a)


def unify(pat, val, env):
    """pat: an argument; val: a ground value (str, int, list)"""
    if isvar(pat):
        if pat in env:
            return env[pat] == val and type(env[pat]) is type(val)
        env[pat] = val
        return True
    if type(pat) is Bad:
        return False
    if type(pat) is tuple:
        if type(val) is not list or len(val) < len(pat[0]):
            return False
        return all(unify(p, v, env) for p, v in zip(pat[0], val)) and unify(pat[1], val[len(pat[0]):], env)
    if type(pat) is list:
        return type(val) is list and len(val) == len(pat) and all(unify(p, v, env) for p, v in zip(pat, val))
    return type(pat) is type(val) and pat == val


def vars_of(args):
    out = []

    def go(a):
        if isvar(a):
            if a not in out:
                out.append(a)
        elif type(a) is list:
            for x in a:
                go(x)
        elif type(a) is tuple:
            for x in a[0]:
                go(x)
            go(a[1])
    for a in args:
        go(a)
    return out


def case(name, args, sols, errs, mx=60, lax=()):
    """errs: the errors that apply (any of them may be the one raised); sols: value tuples in order;
    lax: other outcomes the manual leaves open"""
    goal = "%s(%s)" % (name, ",".join(map(src, args)))
    vs = vars_of(args)
    tmpl = "c(%s)" % ",".join([v[1:] for v in vs] + ["k"])
    if errs:
        return name, mx, tmpl, goal, tuple("!" + e for e in errs) + tuple(lax)
    out = []
    for s in sols:
        env = {}
        if all(unify(p, v, env) for p, v in zip(args, s)):
            k = [term(env[v]) if v in env else V() for v in vs]
            out.append("\t=" + fmt(S("c", tuple(k) + (AT("k"),))))
    e = "".join(out)[1:]
    if len(out) >= mx:
        e = "".join(out[:mx])[1:] + "\tmore"
    else:
        e = (e + "\tno") if e else "no"
    return (name, mx, tmpl, goal, (e,) + tuple(lax) if lax else e)


def match(e, g):
    return g in e if type(e) is tuple else e == g


def atom_err(a, need=False):
    if isvar(a):
        return [IN] if need else []
    return [] if type(a) is str else [TY % ("atom", fmt_arg(a))]


def fmt_arg(a):
    if type(a) is Bad:
        return a.shown
    if type(a) in (list, tuple):
        items, tail = (a, None) if type(a) is list else a
        n = [0]
        names = {}

        def go(x):
            if isvar(x):
                return "'_G'(%d)" % names.setdefault(x, len(names))
            return fmt_arg(x)
        t = "[]" if tail is None else None
        parts = [go(x) for x in items]
        t = t or go(tail)
        return "".join("'.'(%s," % p for p in parts) + t + ")" * len(parts)
    return fmt(term(a))


def int_err(a):
    if isvar(a):
        return []
    if type(a) is not int:
        return [TY % ("integer", fmt_arg(a))]
    return [DO % a] if a < 0 else []


def shard(gen):
    def fn(i, n, tier):
        for k, c in enumerate(gen(tier)):
            if k % n == i:
                yield c
    return fn


def length(tier):
    for a in ["", "a", "ab", "a b", "\xe9", "?X", X1, FX, FL, "[]", "x" * 255, "x" * 256, "x" * 5000]:
        for l in ["?L", "?X", 0, 1, 2, 3, -1, "a", FL, 255, 256, 5000, Bad("f(L)")]:
            errs = atom_err(a, True) + int_err(l)
            if type(l) is Bad and l.text == "f(L)":
                errs = [e for e in errs if "f(L)" not in e] + ["type_error(integer,f('_G'(0)))"]
            yield case("atom_length", (a, l), [(a, len(a))] if type(a) is str else [], errs)


CAT = ["", "a", "b", "ab", "aa", "aba", "abab", "bab", "?X", "?Y", X1]


def concat(tier):
    more = ["ba", "aab", "aaaa", FX, "\xe9a", "x" * 300] if tier != "quick" else ["aaaa", FX]
    for a, b, c in itertools.product(CAT + more, CAT + more, CAT + more + ["?Z"]):
        errs = atom_err(a) + atom_err(b) + atom_err(c)
        if isvar(c) and (isvar(a) or isvar(b)):
            errs.append(IN)
        if type(c) is str and not isvar(c):
            sols = [(c[:k], c[k:], c) for k in range(len(c) + 1)]
        else:
            sols = [(a, b, a + b)] if type(a) is str and type(b) is str else []
        yield case("atom_concat", (a, b, c), sols, errs, lax=("no",) if errs and any(type(x) is Bad for x in (a, b, c)) and 0 else ())


def sub(tier):
    atoms = ["", "a", "ab", "aba", "aaa"] + (["abab", "ababa"] if tier != "quick" else [])
    nums = ["?B", "?N", 0, 1, 2, 3, 4] + ([5, 6] if tier != "quick" else [])
    subs = ["?S", "", "a", "b", "ab", "ba", "aa", "aba", "abaab"]
    for a in atoms:
        sols = [(a, b, l, len(a) - b - l, a[b:b + l]) for b in range(len(a) + 1) for l in range(len(a) - b + 1)]
        for b in nums:
            for l in ["?L"] + nums[1:]:
                for f in ["?F"] + nums[1:]:
                    for s in subs:
                        yield case("sub_atom", (a, b, l, f, s), sols, [])
    for a in ["ab", "?A", X1]:
        for b, l, f in itertools.product(["?B", 0, -1, "a", FL], ["?L", 1, -1, FX], ["?F", 1, -1, "[]"]):
            for s in ["?S", "a", X1, "?A"]:
                errs = atom_err(a, True) + int_err(b) + int_err(l) + int_err(f) + atom_err(s)
                if errs:
                    yield case("sub_atom", (a, b, l, f, s), [], errs)
    big = "abc" * 100
    sols = [(big, b, l, 300 - b - l, big[b:b + l]) for b in range(301) for l in range(301 - b)]
    for b, l, f, s in [(250, "?L", "?F", "?S"), ("?B", 50, "?F", "?S"), ("?B", "?L", 299, "?S"), ("?B", "?L", "?F", "cab"), (255, "?L", 1, "?S"), (256, 3, "?F", "?S"), ("?B", 0, 256, "?S"),
                       ("?B", 255, "?F", "?S"), ("?B", "?L", 256, big[:3]), ("?B", "?N", "?N", "?S")]:
        yield case("sub_atom", (big, b, l, f, s), sols, [], 400)


def lists(codes):
    el = ["a", "b", "?E", "1"] if not codes else [97, 98, "?E", 49]
    bad = [X1, "ab", FX, ""] if not codes else ["a", 256, -1, 0, FX]
    out = [list(c) for k in (0, 1, 2) for c in itertools.product(el, repeat=k)]
    out += [list(c) for c in itertools.product(el[:1] + el[2:3], repeat=3)]
    out += [(list(c), "?T") for k in (0, 1, 2) for c in itertools.product(el, repeat=k)]
    out += [(list(c), "?E") for k in (1, 2) for c in itertools.product(el, repeat=k)]
    out += [[x] for x in bad] + [[el[0], x] for x in bad] + [["?E", x] for x in bad] + [([x], "?T") for x in bad]
    out += [([el[0]], el[1]), "x", X1, FX]
    return out


def list_errs(l, need, codes):
    """need: the list has to be built from; returns (errors, lax)"""
    errs, lax = [], []
    if isvar(l):
        return ([IN] if need else []), lax
    items, tail = (l, None) if type(l) is list else l if type(l) is tuple else ([], l)
    if tail is not None and not isvar(tail):
        errs.append(TY % ("list", fmt_arg(l)))
    if need and (tail is not None and isvar(tail) or any(isvar(x) for x in items)):
        errs.append(IN)
    for x in items:
        if isvar(x):
            continue
        if codes:
            if type(x) is not int:
                errs.append(TY % ("integer", fmt_arg(x)))
            elif not 1 <= x <= 255:
                errs.append(RE)
        elif not (type(x) is str and len(x) == 1):
            errs.append(TY % ("character", fmt_arg(x)))
    return errs, lax


def conv(name, codes):
    def gen(tier):
        for a in ["?A", "?E", "?T", "", "a", "ab", "1", "aab", "[]", X1, FX, Bad("[a]", "'.'(a,[])")]:
            for l in lists(codes) + ["?L", "?A"]:
                errs, _ = list_errs(l, isvar(a), codes)
                ae = atom_err(a)
                lax = ()
                if not isvar(a) and not ae and errs:
                    # whether the elements of the list are checked when the atom is known is left open
                    lax = ("no",)
                if isvar(a) and type(l) is list and not errs:
                    s = "".join(chr(x) if codes else x for x in l)
                    sols = [(s, l)]
                elif type(a) is str and not isvar(a):
                    sols = [(a, [ord(c) for c in a] if codes else list(a))]
                else:
                    sols = []
                yield case(name, (a, l), sols, ae + errs, lax=lax)
    return gen


def chars(tier):
    for c in list(range(-2, 260)) + ["?C", "a", FL]:
        for ch in ["?X", "?C", "a", "\xff", "ab", "", X1]:
            errs = []
            if isvar(c) and isvar(ch):
                errs.append(IN)
            if type(ch) is not str or not isvar(ch) and len(ch) != 1:
                errs.append(TY % ("character", fmt_arg(ch)))
            if not isvar(c):
                if type(c) is not int:
                    errs.append(TY % ("integer", fmt_arg(c)))
                elif not 1 <= c <= 255:
                    errs.append(RE)
            sols = [(chr(c), c)] if type(c) is int and 1 <= c <= 255 else [(ch, ord(ch))] if type(ch) is str and len(ch) == 1 else []
            # a known character with an impossible code may also just fail
            yield case("char_code", (ch, c), sols, errs, lax=("no",) if errs and type(ch) is str and len(ch) == 1 else ())
    for k in range(1, 256):
        c = chr(k)
        up = c.upper() if k < 128 else c
        lo = c.lower() if k < 128 else c
        yield case("lower_upper", (c, "?U"), [(c, up)], [])
        yield case("lower_upper", ("?L", c), [(lo, c)], [])
        yield case("lower_upper", (c, up), [(c, up)], [])
        yield case("lower_upper", (c, "q"), [(c, up)], [])
    yield case("lower_upper", ("?L", "?U"), [], [IN])
    for b in ("ab", "", X1, FX):
        yield case("lower_upper", (b, "?U"), [], [TY % ("character", fmt_arg(b))])
        yield case("lower_upper", ("?U", b), [], [TY % ("character", fmt_arg(b))])


# text -> number (None: not a number)
HI = 2**60 - 1
NUMS = {"0": 0, "1": 1, "12": 12, "-1": -1, "- 1": -1, " 1": 1, "\\n1": 1, "0'a": 97, "0x1F": 31, "0xfF": 255, "0b101": 5, "0o17": 15, "1.5": 1.5, "-1.5": -1.5, "1.0e3": 1000.0,
        "1.0E-2": 0.01, "1.5e+2": 150.0, "00012": 12, "-0": 0, "%d" % HI: HI, "-%d" % (HI + 1): -HI - 1, "0'''": 39, "0'\\\\n": 10, "-0x10": -16, "0.0": 0.0, "-0.0": -0.0,
        "a": None, "": None, "1 ": None, "1a": None, "+1": None, "1.": None, "1.e3": None, ".5": None, "--1": None, "1 2": None, "f(x)": None, "0x": None, "0xg": None, "0b2": None, "0o8": None,
        "1e": None, "1.5e": None, "-": None, "- ": None, "0'": None, "0'ab": None, "1,": None, "(1)": None, "X": None, "-a": None, "%c": None, "1.0e": None, "0x1G": None,
        "/**/1": 1, "-/**/1": None, "1%": None, "- a": None, "1.5.2": None, "0'\\\\x41\\\\": 65, "1.0Inf": None, "0b": None}


def texts(tier):
    for t, v in NUMS.items():
        want = None if v is None else "=" + (fmt(v) if type(v) is int else num(v)) + "\tno"
        for nm, conv_ in (("number_atom(N,'%s')", 0), ("atom_chars('%s',L),number_chars(N,L)", 1), ("atom_codes('%s',L),number_codes(N,L)", 1), ("atom_codes('%s',L),name(N,L),number(N)", 2)):
            if t in ("-/**/1",):
                continue
            g = nm % t.replace("'", "''")
            if want is None:
                yield "number text", 2, "N", g, "no" if conv_ == 2 else Syn()
            else:
                yield "number text", 2, "N", g, want


class Syn:
    """a syntax error of any text"""

    def __str__(self):
        return "!syntax_error(_)"


def num(x):
    s = "%.17g" % x
    if "." not in s and "e" not in s:
        s += ".0"
    elif "e" in s and "." not in s:
        s = s.replace("e", ".0e")
    return s


def numbers(tier):
    """number -> text -> number is the identity, the text is what writeq writes, over the boundary lattice"""
    ints = sorted({s * (2**k + d) for k in range(0, 61) for d in (-1, 0, 1) for s in (1, -1)} | {10**k for k in range(18)} | {-10**k for k in range(18)})
    ints = [x for x in ints if -2**60 <= x < 2**60]
    for v in ints:
        t = str(v)
        cs = "'.'(%s" % ",'.'(".join(str(ord(c)) for c in t) + ",[]" + ")" * len(t)
        sv = "(%d)" % v
        yield "int", 2, "L-M", "number_codes(%s,L),number_codes(M,L)" % sv, "=-(%s,%d)\tno" % (cs, v)
        yield "int", 2, "A-M", "number_atom(%s,A),number_atom(M,A)" % sv, "=-('%s',%d)\tno" % (t, v) if v < 0 or 1 else None
        yield "int", 2, "M", "number_chars(%s,L),number_chars(M,L),name(%s,N),atom_codes(A,N),atom_chars(A,L)" % (sv, sv), "=%d\tno" % v
    fl = [0.0, -0.0, 1.0, 0.1, 1 / 3, 1e15, 1e16, 1e17, 1e22, 1e23, 1e100, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 123456.789, 1e-5, 1e-4, 0.001, 2.0**53, 2.0**53 + 2, 0.30000000000000004]
    fl += [s * 2.0**k for k in range(-60, 61, 3) for s in (1, -1)] + [float("%se%d" % (m, e)) for m in ("1.2345678901234567", "9.999999999999999") for e in range(-20, 21)]
    for v in fl:
        e = repr(v)
        if "." not in e:
            e = e.replace("e", ".0e") if "e" in e else e + ".0"
        yield "float", 2, "x", "X=(%s),number_codes(X,L),number_codes(M,L),M==X,number_atom(X,A),number_atom(N,A),N==X,name(X,L),name(O,L),O==X,write_to_atom(A,X)" % e.replace("e+", "e"), "=x\tno"


def names(tier):
    for t in ["", "a", "a b", "A", "[]", "12a", "f(x)", "1.", "a.", "' '", "é", "!", "x" * 300]:
        b = t.encode("latin-1").decode("latin-1")
        l = [ord(c) for c in b]
        ls = "[" + ",".join(map(str, l)) + "]"
        yield "name", 2, "A", "name(A,%s)" % ls, "=%s\tno" % fmt(AT(b))
        yield "name", 2, "L", "name(%s,L)" % q(b), "=%s\tno" % fmt(lst(l))
        yield "name", 2, "x", "name(%s,%s)" % (q(b), ls), "=x\tno"
        yield "name", 2, "x", "name(%s,[0'q])" % q(b), "no"
    for a, e in [("name(A,L)", IN), ("name(A,[0'a|L])", IN), ("name(A,[L])", IN), ("name(f(x),L)", "type_error(atomic,f(x))"), ("name(A,a)", "type_error(list,a)"), ("name(A,[0'a|b])", "type_error(list,'.'(97,b))"),
                 ("name(A,[a])", "type_error(integer,a)"), ("name(A,[300])", RE), ("name(A,[-1])", RE)]:
        yield "name", 2, "x", a, "!" + e
    for p in ("number_codes", "number_chars"):
        for a, e in [("N,L", IN), ("N,[L]", IN), ("N,[%s|L]", IN), ("a,L", "type_error(number,a)"), ("f(x),[%s]", "type_error(number,f(x))"), ("N,a", "type_error(list,a)"), ("N,[%s|b]", "type_error(list,'.'(%s,b))"),
                     ("N,[f(x)]", "type_error(%s,f(x))" % ("integer" if p[-4] == "o" else "character"))]:
            c = "49" if p == "number_codes" else "'1'"
            yield p, 2, "x", "%s(%s)" % (p, a.replace("%s", c)), "!" + e.replace("%s", c if p == "number_codes" else "'1'")
        c = ["49", "50"] if p == "number_codes" else ["'1'", "'2'"]
        yield p, 2, "L", "%s(12,[L|_])" % p, "=%s\tno" % c[0]
        yield p, 2, "L", "%s(12,[_|L])" % p, "='.'(%s,[])\tno" % c[1]
        yield p, 2, "L", "%s(12,[_,_,_|L])" % p, "no"
        yield p, 2, "L", "%s(12,[L,L])" % p, "no"
        yield p, 2, "L", "%s(11,[L,L])" % p, "=%s\tno" % c[0]
    for a, e in [("N,A", IN), ("a,A", "type_error(number,a)"), ("N,1", "type_error(atom,1)"), ("N,f(x)", "type_error(atom,f(x))")]:
        yield "number_atom", 2, "x", "number_atom(%s)" % a, "!" + e


def match2(e, g):
    if type(e) is Syn:
        return g.startswith("!syntax_error(") and "\t" not in g
    return match(e, g)


def main():
    ck = Check("C15")
    exe = server_exe("")
    for nm, g in (("atom_length", length), ("atom_concat", concat), ("sub_atom", sub), ("atom_chars", conv("atom_chars", False)), ("atom_codes", conv("atom_codes", True)),
                  ("char_code, lower_upper", chars), ("numbers as text", texts), ("number round trip", numbers), ("name, errors", names)):
        run_cases(ck, nm, exe, shard(g), 8, match=match2)
    ck.assumptions = ["where several errors apply any of them is accepted; whether list elements are checked when the atom is known is left open"]
    return ck.finish(rule="every argument tuple of the universe (shared variables included) against the relation enumerated in the documented order")


if __name__ == "__main__":
    main()
