"""Reference arithmetic: values are Python ints (61 bits) and floats; ev(f, *args) returns the value or raises Ev."""
import math

STRICT = True        # flag strict_iso
LO, HI = -(1 << 60), (1 << 60) - 1


class Ev(Exception):
    pass


def EE(x):
    return Ev("evaluation_error(%s)" % x)


def ifit(x):
    if not LO <= x <= HI:
        raise EE("int_overflow")
    return x


def ffit(x):
    if x != x:
        raise EE("undefined")
    if x in (math.inf, -math.inf):
        raise EE("float_overflow")
    return x


def tdiv(x, y):
    if y == 0:
        raise EE("zero_divisor")
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def nz(y):
    if y == 0:
        raise EE("zero_divisor")
    return y


def nonneg(x):
    if x < 0:
        raise Ev("domain_error(not_less_than_zero,%d)" % x)
    return x


def shl(x, y):
    if y < 0:
        return x >> min(-y, 200)
    if x == 0:
        return 0
    return x << y if y < 200 else HI + 1


def ipow(x, y):
    if x in (0, 1, -1):
        if x == 0 and y < 0:
            raise EE("undefined")
        if y == 0:
            return 1
        return x if x >= 0 or y % 2 else 1
    if y < 0:
        raise Ev("type_error(float,%d)" % x)
    if y > 64:
        return HI + 1
    return x ** y


INT2 = {"//": tdiv, "div": lambda x, y: x // nz(y), "rem": lambda x, y: x - y * tdiv(x, y), "mod": lambda x, y: x % nz(y),
        "/\\": lambda x, y: x & y, "\\/": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "<<": shl, ">>": lambda x, y: shl(x, -y), "gcd": math.gcd}
INT1 = {"\\": lambda x: ~x, "lsb": lambda x: (nonneg(x) & -x).bit_length() - 1, "msb": lambda x: nonneg(x).bit_length() - 1,
        "popcount": lambda x: bin(nonneg(x)).count("1")}
MIX2 = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}
MIX1 = {"+": lambda x: x, "-": lambda x: -x, "inc": lambda x: x + 1, "dec": lambda x: x - 1, "abs": abs,
        "sign": lambda x: (x > 0) - (x < 0) if type(x) is int else math.copysign(1.0, x) if x else 0.0}
ROUND = {"ceiling": math.ceil, "floor": math.floor, "truncate": math.trunc}
CMPS = {"=:=": lambda x, y: x == y, "=\\=": lambda x, y: x != y, "<": lambda x, y: x < y, "=<": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}
# C's double functions: Python's math module calls the same C library
FLT1 = {n: getattr(math, n) for n in "sqrt tan atan cos acos sin asin tanh atanh cosh acosh sinh asinh exp log log10".split()}
CONST = {"pi": math.pi, "e": math.e, "epsilon": 2.0 ** -52}


def chk_int(*xs):
    for x in xs:
        if type(x) is float:
            raise Ev(("type_error(integer,", x))


def fpow(x, y):
    if x == 0.0 and y < 0:
        raise EE("undefined")
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan


def exact_round(x):
    f = math.floor(x)
    from fractions import Fraction
    return f + (1 if Fraction(x) - f >= Fraction(1, 2) else 0)


def ev(f, *a):
    n = len(a)
    if n == 0:
        return CONST[f]
    if n == 2:
        x, y = a
        if f in INT2:
            chk_int(x, y)
            return ifit(INT2[f](x, y))
        if f in MIX2:
            if type(x) is int and type(y) is int:
                return ifit(MIX2[f](x, y))
            try:
                return ffit(MIX2[f](float(x), float(y)))
            except OverflowError:
                raise EE("float_overflow")
        if f == "/":
            if y == 0:
                raise EE("zero_divisor")
            try:
                return ffit(float(x) / float(y))
            except OverflowError:
                raise EE("float_overflow")
        if f in ("min", "max"):
            if x == y:
                return x if type(x) is float else y
            return (min if f == "min" else max)(x, y)
        if f == "^":
            if type(x) is int and type(y) is int:
                return ifit(ipow(x, y))
            return ffit(fpow(float(x), float(y)))
        if f == "**":
            return ffit(fpow(float(x), float(y)))
        if f == "atan2":
            if x == 0 and y == 0:
                raise EE("undefined")
            return math.atan2(x, y)
        if f == "log":
            if x <= 0 or y <= 0:
                raise EE("undefined")
            d = math.log(float(x))
            n = math.log(float(y))
            if d == 0:
                raise EE("undefined" if n == 0 else "float_overflow")
            return ffit(n / d)
        raise KeyError(f)
    x = a[0]
    if f in INT1:
        chk_int(x)
        return ifit(INT1[f](x))
    if f in MIX1:
        return ifit(MIX1[f](x)) if type(x) is int else ffit(MIX1[f](x))
    if f in FLT1:
        x = float(x)
        if f in ("log", "log10") and x <= 0 or f == "atanh" and abs(x) >= 1:
            raise EE("undefined")
        try:
            return ffit(FLT1[f](x))
        except OverflowError:
            raise EE("float_overflow")
        except ValueError:
            raise EE("undefined")
    if f == "float":
        return float(x)
    if f == "round" or f in ROUND:
        if type(x) is int:
            if STRICT:
                raise Ev("type_error(float,%d)" % x)
            return x
        return ifit(exact_round(x) if f == "round" else ROUND[f](x))
    if f == "float_integer_part":
        if type(x) is int:
            raise Ev("type_error(float,%d)" % x)
        return float(math.trunc(x)) if x else x
    if f == "float_fractional_part":
        if type(x) is int:
            raise Ev("type_error(float,%d)" % x)
        return math.fmod(x, 1.0)
    raise KeyError(f)


FUN2 = list(INT2) + list(MIX2) + ["/", "min", "max", "^", "**", "atan2"]
FUN1 = list(INT1) + list(MIX1) + list(FLT1) + ["float", "round", "float_integer_part", "float_fractional_part"] + list(ROUND)
