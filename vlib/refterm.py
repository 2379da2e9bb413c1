"""Reference versions of the term builtins (ISO 8.3-8.5 and the GNU extensions), for refpl.Machine."""
from .refpl import (A, S, V, NIL, st, lst, deref, unlist, compare, copy, term_vars, resolve, err, inst_error, type_error,
                    dom_error, DET, det, occurs, PlError, StepLimit)

MAX_ARITY = 255


def kind(t):
    t = deref(t)
    return {V: "var", int: "int", float: "float", S: "stc"}.get(type(t), "atom")


def list_or_partial(t):
    t = deref(t)
    while type(t) is S and t.name == "." and len(t.args) == 2:
        t = deref(t.args[1])
    return type(t) is V or t is NIL


def check_list(t):
    if not list_or_partial(t):
        raise type_error("list", resolve(t))


def positive(t):
    t = deref(t)
    if type(t) is V:
        raise inst_error()
    if type(t) is not int:
        raise type_error("integer", resolve(t))
    if t < 0:
        raise dom_error("not_less_than_zero", t)
    return t


def compound(t):
    t = deref(t)
    if type(t) is V:
        raise inst_error()
    if type(t) is not S:
        raise type_error("compound", t)
    return t


def un_atom(m, t, a):
    t = deref(t)
    if type(t) is not V and type(t) is not A:
        raise type_error("atom", resolve(t))
    return m.unify(t, a)


def un_int(m, t, n):
    t = deref(t)
    if type(t) is not V and type(t) is not int:
        raise type_error("integer", resolve(t))
    return m.unify(t, n)


@det("compare", 3)
def _(m, o, a, b):
    c = compare(a, b)
    o = deref(o)
    if type(o) is not V:
        if type(o) is not A:
            raise type_error("atom", resolve(o))
        if o.name not in ("<", "=", ">"):
            raise dom_error("order", o)
    return m.unify(o, A("<=>"[c + 1]))


@det("functor", 3)
def _(m, t, f, n):
    t = deref(t)
    if type(t) is S:
        return un_atom(m, f, A(t.name)) and un_int(m, n, len(t.args))
    if type(t) is not V:
        return m.unify(t, f) and un_int(m, n, 0)
    f = deref(f)
    if type(f) is V:
        raise inst_error()
    if type(f) is S:
        raise type_error("atomic", resolve(f))
    k = positive(n)
    if k > MAX_ARITY:
        raise err(st("representation_error", A("max_arity")))
    if k and type(f) is not A:
        raise type_error("atom", f)
    return m.unify(t, S(f.name, [V() for _ in range(k)]) if k else f)


@det("arg", 3)
def _(m, n, t, a):
    k = positive(n)
    t = compound(t)
    return 1 <= k <= len(t.args) and m.unify(a, t.args[k - 1])


@det("=..", 2)
def _(m, t, l):
    t = deref(t)
    if type(t) is not V:
        check_list(l)
        return m.unify(l, lst([A(t.name), *t.args]) if type(t) is S else lst([t]))
    l0 = l
    l = deref(l)
    if type(l) is V:
        raise inst_error()
    if l is NIL:
        raise dom_error("non_empty_list", NIL)
    if type(l) is not S or l.name != "." or len(l.args) != 2:
        raise type_error("list", resolve(l0))
    f, rest = deref(l.args[0]), deref(l.args[1])
    if type(f) is V:
        raise inst_error()
    if rest is NIL:
        if type(f) is S:
            raise type_error("atomic", resolve(f))
        return m.unify(t, f)
    if type(rest) is V:
        raise inst_error()
    if type(f) is not A:
        raise type_error("atom", resolve(f))
    args = []
    while rest is not NIL:
        if type(rest) is V:
            raise inst_error()
        if type(rest) is not S or rest.name != "." or len(rest.args) != 2:
            raise type_error("list", resolve(l0))
        args.append(rest.args[0])
        rest = deref(rest.args[1])
    if len(args) > MAX_ARITY:
        raise err(st("representation_error", A("max_arity")))
    return m.unify(t, S(f.name, args))


def _type(name, f):
    DET[(name, 1)] = lambda m, a: f(deref(a))


_type("number", lambda t: type(t) in (int, float))
_type("float", lambda t: type(t) is float)
_type("is_list", lambda t: unlist(t) is not None)
_type("list", lambda t: unlist(t) is not None)
_type("list_or_partial_list", list_or_partial)
_type("partial_list", lambda t: list_or_partial(t) and unlist(t) is None)
_type("ground", lambda t: not term_vars(t))


@det("unify_with_occurs_check", 2)
def _(m, a, b):
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        a, b = deref(a), deref(b)
        if a is b:
            continue
        if type(b) is V and type(a) is not V:
            a, b = b, a
        if type(a) is V:
            if occurs(a, b):
                return False
            m.bind(a, b)
        elif type(a) is S and type(b) is S and a.name == b.name and len(a.args) == len(b.args):
            stack.extend(zip(a.args, b.args))
        elif type(a) is S or type(a) is not type(b) or a != b:
            return False
    return True


@det("term_variables", 2)
def _(m, t, l):
    check_list(l)
    return m.unify(l, lst(term_vars(t)))


@det("term_variables", 3)
def _(m, t, l, tail):
    return m.unify(l, lst(term_vars(t), tail))


@det("subsumes_term", 2)
def _(m, g, s):
    top = len(m.trail)
    before = term_vars(s)
    ok = DET[("unify_with_occurs_check", 2)](m, g, s)
    if ok:
        after = term_vars(lst(before))
        ok = len(after) == len(before) and all(x is y for x, y in zip(before, after))
        if not ok and len(after) == len(before):
            # renamed consistently is still subsumption only if the variables of s stay distinct variables
            ok = all(type(deref(x)) is V for x in before)
    m.undo(top)
    return ok


def _setarg(m, n, t, v, undo=True):
    t = compound(t)
    k = positive(n)
    v = deref(v)
    if not undo and type(v) not in (A, int):
        raise type_error("atomic", resolve(v))
    if not 1 <= k <= len(t.args):
        return False
    old = t.args
    t.args = t.args[:k - 1] + (v,) + t.args[k:]
    if undo:
        def back():
            t.args = t.args[:k - 1] + (old[k - 1],) + t.args[k:]
        m.trail.append(back)
    return True


DET[("setarg", 3)] = lambda m, n, t, v: _setarg(m, n, t, v)
DET[("nb_setarg", 3)] = lambda m, n, t, v: _setarg(m, n, t, v, False)


@det("setarg", 4)
def _(m, n, t, v, u):
    compound(t)
    positive(n)
    u = deref(u)
    if type(u) is V:
        raise inst_error()
    if type(u) is not A or u.name not in ("true", "false"):
        raise type_error("boolean", resolve(u))
    return _setarg(m, n, t, v, u.name == "true")
