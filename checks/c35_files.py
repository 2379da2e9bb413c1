"""C35: file name predicates are consistent with the file system.

Every text over an alphabet of path pieces up to a length, under several environments, through decompose_file_name,
absolute_file_name, prolog_file_name, is_absolute_file_name (reference: the manual); every property of every entry of a
tree holding each type, mode and odd name (oracle: the operating system); every sequence of directory and file operations
up to a depth on a small tree (oracle: the same operations done by the operating system in a twin tree)."""
import itertools
import os
import shutil
import stat
import time
from vlib import lines, refpl
from vlib.build import WORK
from vlib.lines import run_lines
from vlib.report import Check

DRV = r"""
fl(In) :- catch(read_term(In, T, []), E, (ln_put(E), fail)), T \== end_of_file,
	catch((fl_do(T, R) -> true ; R = no), E2, fl_ball(E2, R)), ln_put(R).
fl_ball(error(E, _), R) :- !, R = E.
fl_ball(E, ball(E)).
fl_r(G, T, R) :- catch((call(G) -> R = T ; R = no), error(E, _), R = E).
fl_do(n(F), r(D, P, S, A, I, J, K)) :-
	decompose_file_name(F, D, P, S),
	( decompose_file_name(F, D, _, _), decompose_file_name(F, _, P, _), decompose_file_name(F, _, _, S), decompose_file_name(F, D, P, S), \+ decompose_file_name(F, foo, P, S) -> true ; throw(decompose_modes) ),
	fl_r(absolute_file_name(F, A0), A0, A),
	( atom(A), A \== no -> ( absolute_file_name(F, A), absolute_file_name(A, A) -> true ; throw(absolute_modes(A)) ) ; true ),
	fl_r(is_absolute_file_name(F), yes, I), fl_r(is_relative_file_name(F), yes, J), fl_r(prolog_file_name(F, K0), K0, K).
fl_do(p(F), r(Ex, Pe, Ps, Po)) :-
	fl_r(file_exists(F), yes, Ex),
	findall(L, (fl_sub([read,write,execute,search], L), file_permission(F, L)), Pe),
	findall(L, (member(L, [read,write,execute,search]), file_permission(F, L)), Ps),
	fl_r(findall(Q, fl_prop(F, Q), Qs), Qs, Po),
	( atom(Po) -> true ; Po = [_|_] -> ( member(Q, Po), \+ file_property(F, Q) -> throw(property(Q)) ; findall(Q, (fl_pat(Q), file_property(F, Q)), Po2), Po2 \== Po -> throw(properties(Po2)) ; true ) ; true ).
fl_do(d(F), R) :- directory_files(F, L), sort(L, M), length(L, N), length(M, N2), ( N == N2 -> true ; throw(twice) ), fl_r(directory_files(F, L), M, R).
fl_do(w, R) :- working_directory(R).
fl_do(o(D, F, L), r(Rs, T)) :-
	change_directory(D), set_prolog_flag(os_error, F),
	fl_ops(L, Rs), set_prolog_flag(os_error, error), change_directory(D), fl_tree('.', T), change_directory('/').
fl_prop(F, Q) :- file_property(F, Q), fl_pat(Q).
fl_pat(absolute_file_name(_)).
fl_pat(real_file_name(_)).
fl_pat(type(_)).
fl_pat(size(_)).
fl_pat(permission(_)).
fl_pat(last_modification(_)).
fl_sub([], []).
fl_sub([X|L], [X|M]) :- fl_sub(L, M).
fl_sub([_|L], M) :- fl_sub(L, M).
fl_ops([], []).
fl_ops([O|L], [R|Rs]) :- fl_r(fl_op(O), yes, R), fl_ops(L, Rs).
fl_op(mk(F)) :- make_directory(F).
fl_op(rd(F)) :- delete_directory(F).
fl_op(cd(F)) :- change_directory(F).
fl_op(mv(F, G)) :- rename_file(F, G).
fl_op(cp(F, G)) :- copy_file(F, G).
fl_op(rm(F)) :- delete_file(F).
fl_op(ul(F)) :- unlink(F).
fl_op(wr(F)) :- open(F, write, S), write(S, w), close(S).
fl_op(ap(F)) :- open(F, append, S), write(S, p), close(S).
fl_op(ex(F)) :- file_exists(F).
fl_op(tn) :- temporary_name('zXXXXXX', N), \+ file_exists(N), atom_length(N, L), working_directory(W), atom_length(W, M), L =:= M+8, sub_atom(N, _, 7, 0, B), sub_atom(B, 0, 1, _, z), temporary_name('zXXXXXX', N2), N \== N2.
fl_op(tf(D, P)) :- temporary_file(D, P, N), \+ file_exists(N), absolute_file_name(D, A), ( A == (/) -> B = A ; atom_concat(A, /, B) ), atom_concat(B, P, C), atom_concat(C, _, N).
fl_tree(F, T) :-
	directory_files(F, L0), sort(L0, L),
	findall(X=V, (member(X, L), X \== '.', X \== '..', fl_path(F, X, P), fl_ent(P, V)), T).
fl_path(F, X, P) :- atom_concat(F, /, G), atom_concat(G, X, P).
fl_ent(P, V) :- \+ file_exists(P), !, V = none.
fl_ent(P, V) :- file_property(P, type(directory)), !, fl_tree(P, V).
fl_ent(P, V) :- open(P, read, S), fl_rd(S, L), close(S), length(L, N), ( N < 40 -> atom_chars(V, L) ; fl_sum(L, 0, X), V = N/X ).
fl_sum([], X, X).
fl_sum([C|L], X, Z) :- char_code(C, K), Y is (X*31+K) mod 1000003, fl_sum(L, Y, Z).
fl_rd(S, L) :- get_char(S, C), ( C == end_of_file -> L = [] ; L = [C|M], fl_rd(S, M) ).
"""

OPEN = object()


def Q(a):
    return "'" + "".join("''" if c == "'" else "\\\\" if c == "\\" else c if " " <= c <= "~" else "\\x%x\\" % ord(c) for c in a) + "'"


def A(x):
    """canonical text of an atom"""
    return refpl.fmt(refpl.A(x))


def L(xs):
    r = "[]"
    for x in reversed(xs):
        r = "'.'(%s,%s)" % (x, r)
    return r


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def expand(t, env, cwd):
    """the absolute name, None if invalid, OPEN if not judged"""
    out, i = "", 0
    while i < len(t):
        if t[i] == "$":
            j = i + 1
            while j < len(t) and t[j] in WORD:
                j += 1
            v = env.get(t[i + 1:j])
            out += t[i:j] if v is None else v
            i = j
        else:
            out += t[i]
            i += 1
    if t.startswith("$") and out.startswith("~"):
        return OPEN
    t = out
    if t.startswith("~"):
        u, sl, rest = t[1:].partition("/")
        h = env.get("HOME") if u == "" else {"root": "/root", "daemon": "/usr/sbin"}.get(u)
        if h is None:
            return None
        if h == "":
            return OPEN
        t = h + sl + rest
    if t == "user":
        return t
    if t == "":
        return None
    if not t.startswith("/"):
        t = cwd + "/" + t
    if len(t) > 4000:
        return OPEN
    st = []
    for c in t.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if not st:
                return None
            st.pop()
        else:
            st.append(c)
    return "/" + "/".join(st)


def pfn(t, env, cwd):
    a = expand(t, env, cwd)
    if a is None or a is OPEN:
        return a
    if a == "user":
        return t
    if t.endswith("/") or t.split("/")[-1] in (".", "..") or "$" in t:
        return OPEN
    last = t.split("/")[-1]
    if t.startswith("~") and "/" not in t:
        return OPEN
    if "." in last:
        return t
    for s in (".pl", ".pro", ".prolog"):
        if os.path.exists(expand(t + s, env, cwd)):
            return t + s
    return t + ".pl"


def name_case(t, env, cwd):
    k = t.rfind("/") + 1
    d, b = t[:k], t[k:]
    j = b.rfind(".")
    p, s = (b, "") if j < 0 else (b[:j], b[j:])
    a = expand(t, env, cwd)
    pl = pfn(t, env, cwd)
    ab = t.startswith("/")
    dom = "domain_error(os_path,%s)" % A(t)

    def f(x):
        return dom if x is None else A(x)
    pre = "r(%s,%s,%s," % (A(d), A(p), A(s))
    mid = "%s,%s" % (("yes", "no") if ab else ("no", "yes"))
    if a is OPEN or pl is OPEN:
        def ok(g):
            if len(t) > 4000:
                return g == pre + dom + "," + mid + "," + dom + ")" or g.startswith((pre + "'/", pre + "/"))
            return g.startswith(pre) and (a is OPEN or g.startswith(pre + f(a) + "," + mid + ","))
        ok.__doc__ = pre + ("..." if a is OPEN else f(a)) + "," + mid + ",...)"
        e = ok
    else:
        e = pre + f(a) + "," + mid + "," + f(pl) + ")"
    return "n(%s)." % Q(t), e


ENVS = [{"HOME": "/h/x", "a": "val"}, {"a": "/v/./w", "HOME": "/"}, {"a": "user", "HOME": "rel/h"}, {"a": ""}, {"a": "../..", "HOME": "/h/", "a_": "X", "a0": "~"}]
TOK = ["/", ".", "..", "a", "~", "~root", "~nouser", "~daemon", "$a", "$b", "user", "b.c", "\xe9", "\n", " ", "-", "_", "0", "f1", "f2", "f3", "$", "%a%", "\\"]


def fam_names(env, cwd):
    def g(i, n, tier):
        m = 6 if tier == "quick" else 8
        for k in range(m + 1):
            t = itertools.islice(itertools.product("/.a~$", repeat=k), i, None, n)
            cs = [name_case("".join(x), env, cwd) for x in t]
            for q in range(0, len(cs), 4000):
                yield "texts of %d characters, environment %s (%d)" % (k, env, q), "driver(fl).\n", cs[q:q + 4000]
        for k in range(1, 4 if tier == "quick" else 5):
            t = itertools.islice(itertools.product(TOK, repeat=k), i, None, n)
            cs = [name_case("".join(x), env, cwd) for x in t]
            for q in range(0, len(cs), 4000):
                yield "sequences of %d pieces, environment %s (%d)" % (k, env, q), "driver(fl).\n", cs[q:q + 4000]
        big = []
        for k in [1000, 2000, 3900, 4070, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, 5000, 8191, 8192, 10000, 30000, 65000]:
            for x in ("a" * k, "a/" * (k // 2), "/" * k, "../" * (k // 3), "/a/.." * (k // 5), "a." * (k // 2), "$a" * (k // 2), "~/" + "a" * k, "~root/" + "b" * k, "/" + "x" * k + ".y", "/x." + "y" * k, "~" + "z" * k, "$" + "a" * k):
                big.append(name_case(x, env, cwd))
        yield "long texts, environment %s" % env, "driver(fl).\n", big[i::n]
    return g


def tree(d):
    """entries of every type, mode, odd name; returns the names to examine"""
    os.makedirs(d)
    ns = ["."]

    def add(n):
        ns.append(n)
        return os.path.join(d.encode(), n.encode("latin-1"))
    for m in range(0, 0o1000):
        p = add("m%03o" % m)
        open(p, "w").write("x" * (m % 7))
        os.chmod(p, m)
    for m in range(0, 0o1000, 0o100):
        p = add("d%03o" % m)
        os.mkdir(p)
        os.chmod(p, m)
    os.mkfifo(add("fifo"))
    import socket
    c = os.getcwd()
    os.chdir(d)
    s = socket.socket(socket.AF_UNIX)
    s.bind("sock")
    os.chdir(c)
    ns.append("sock")
    for n, t in (("ln", "m644"), ("ld", "d700"), ("lbad", "nowhere"), ("lloop", "lloop"), ("lup", ".."), ("lln", "ln"), ("labs", "/")):
        os.symlink(t, add(n))
    for n in ("sp ace", "q'uote", "back\\slash", "new\nline", "\xe9\xff", "-dash", "UPPER", "a.b.c", ".hid", "$a", "~x", "x" * 255, "[]", "{}", "tab\t", "*", "#"):
        open(add(n), "w").write(n)
    for n, z in (("s0", 0), ("s1", 1), ("s4095", 4095), ("s2g", 2 ** 31 - 1), ("s2g0", 2 ** 31), ("s3g", 3 * 2 ** 30 + 5), ("s4g", 2 ** 32), ("s4g1", 2 ** 32 + 1), ("s5t", 5 * 2 ** 40 + 3)):
        p = add(n)
        open(p, "w").close()
        try:
            os.truncate(p, z)
        except OSError:
            pass
    for n, t in (("t0", 0), ("t1", 86399), ("t2", 951782400), ("t3", 1709208000), ("t4", 2 ** 31 + 1000), ("t5", 1072915199), ("t6", 1072915200)):
        p = add(n)
        open(p, "w").close()
        os.utime(p, (t + 5, t))
    os.makedirs(os.path.join(d, "many"))
    for i in range(300):
        open(os.path.join(d, "many", "f%d" % i), "w").close()
    ns += ["many", "many/f7", "none", "none/x", "m644/x", "m644/", "many/", "d700/.", "d700/..", "./m644", "//m644", "ld/.", "d000/x", "a" * 300, "~nouser/x", ""]
    return ns


def real_abs(d, n):
    return expand(n, {}, d)


def prop_cases(d, ns):
    out = []
    for n in ns:
        a = real_abs(d, n)
        if n == "$a":
            a = d + "/$a"
        q = "p(%s)." % Q(n)
        if a is None:
            out.append((q, "domain_error(os_path,%s)" % A(n)))
            continue
        try:
            st = os.stat(a.encode("latin-1"))
            err = None
        except OSError as x:
            st, err = None, x
        if st is None:
            if err.errno in (2, 20):
                try:
                    os.stat(a.encode("latin-1"))
                except OSError as x:
                    pass
                out.append((q, "r(no,[],[],system_error(%s))" % A(os.strerror(err.errno))))
            else:
                out.append((q, "system_error(%s)" % A(os.strerror(err.errno))))
            continue
        isd = stat.S_ISDIR(st.st_mode)
        has = {"read": bool(st.st_mode & 0o400), "write": bool(st.st_mode & 0o200), "execute": bool(st.st_mode & 0o100) and not isd, "search": bool(st.st_mode & 0o100) and isd}
        order = ["read", "write", "execute", "search"]

        def subs(l):
            if not l:
                return [[]]
            r = subs(l[1:])
            return [[l[0]] + x for x in r] + r
        pe = L([L(x) for x in subs(order) if all(has[p] for p in x)])
        ps = L([p for p in order if has[p]])
        rp = os.path.realpath(a.encode("latin-1")).decode("latin-1")
        ty = "directory" if isd else "regular" if stat.S_ISREG(st.st_mode) else "fifo" if stat.S_ISFIFO(st.st_mode) else "socket" if stat.S_ISSOCK(st.st_mode) else "character_device" if stat.S_ISCHR(st.st_mode) else "block_device" if stat.S_ISBLK(st.st_mode) else "unknown"
        dt = time.localtime(int(st.st_mtime // 1))
        pr = ["absolute_file_name(%s)" % A(a), "real_file_name(%s)" % A(rp), "type(%s)" % ty, "size(%d)" % st.st_size]
        pr += ["permission(%s)" % p for p in order if has[p]]
        pr += ["last_modification(dt(%d,%d,%d,%d,%d,%d))" % dt[:6]]
        out.append((q, "r(yes,%s,%s,%s)" % (pe, ps, L(pr))))
    for n in ns:
        a = real_abs(d, n)
        if a is None or n == "$a":
            continue
        try:
            es = os.listdir(a.encode("latin-1")) + [b".", b".."]
            e = L([A(x.decode("latin-1")) for x in sorted(es)])
        except OSError as x:
            e = "system_error(%s)" % A(os.strerror(x.errno))
        out.append(("d(%s)." % Q(n), e))
    out.append(("w.", A(d)))
    return out


# ---- sequences of operations
OPS = [("mk", "x"), ("mk", "d"), ("mk", "x/y"), ("mk", "a/y"), ("rd", "e"), ("rd", "d"), ("rd", "a"), ("rd", "x"), ("cd", "d"), ("cd", ".."), ("cd", "a"), ("cd", "x"),
       ("mv", "a", "x"), ("mv", "x", "a"), ("mv", "d", "e"), ("mv", "d", "x"), ("mv", "a", "d"), ("mv", "a", "d/b"), ("mv", "d", "d/z"),
       ("cp", "a", "x"), ("cp", "a", "d"), ("cp", "a", "d/"), ("cp", "a", "x/"), ("cp", "a", "a"), ("cp", "d/b", "."), ("cp", "d/b", "a"), ("cp", "d", "x"), ("cp", "a", "l"), ("cp", "l", "a"), ("cp", "x", "a"), ("cp", "a", "./d/../a"), ("cp", "d/b", "../" + "d/b"), ("cp", "h", "a"),
       ("rm", "a"), ("rm", "d"), ("rm", "x"), ("rm", "l"), ("ul", "a"), ("ul", "x"), ("ul", "d"), ("wr", "x"), ("ap", "a"), ("ap", "x"), ("ex", "a"), ("ex", "x"), ("ex", "d/b/c"), ("tn",), ("tf", "d", "p")]


class No(Exception):
    pass


def do(root, cwd, op):
    """returns (answer or set, cwd)"""
    k, a = op[0], op[1:]

    def ab(n):
        r = expand(n, {}, cwd)
        if r is None:
            raise No("domain_error(os_path,%s)" % A(n))
        return r
    try:
        p = [ab(n) for n in a]
        if k == "mk":
            os.mkdir(p[0], 0o777)
        elif k == "rd":
            os.rmdir(p[0])
        elif k == "cd":
            os.stat(p[0])
            if not os.path.isdir(p[0]):
                raise OSError(20, "")
            return "yes", p[0]
        elif k == "mv":
            os.rename(p[0], p[1])
        elif k in ("rm", "ul"):
            try:
                os.unlink(p[0])
            except OSError:
                if k == "rm":
                    raise
        elif k in ("wr", "ap"):
            try:
                with open(p[0], k[0]) as f:
                    f.write("w" if k == "wr" else "p")
            except FileNotFoundError:
                return "existence_error(source_sink,%s)" % A(a[0]), cwd
            except NotADirectoryError:
                return "existence_error(source_sink,%s)" % A(a[0]), cwd
            except OSError:
                return "permission_error(open,source_sink,%s)" % A(a[0]), cwd
        elif k == "ex":
            try:
                os.stat(p[0])
            except OSError as x:
                if x.errno in (2, 20):
                    return "no", cwd
                raise
        elif k == "cp":
            src, dst = p
            data = None
            with open(src, "rb") as f:
                data = f.read()
            if a[1].endswith("/") and os.path.exists(dst) and not os.path.isdir(dst):
                raise OSError(20, "")
            if os.path.isdir(dst) or (a[1].endswith("/") and not os.path.exists(dst)):
                dst = dst + "/" + os.path.basename(src)
            if os.path.exists(dst) and os.path.samefile(src, dst):
                return None, cwd        # success or not: nothing is changed
            with open(dst, "wb") as f:
                f.write(data)
        elif k == "tf":
            if not os.path.isdir(p[0]):
                return None, cwd
        return "yes", cwd
    except No as x:
        return str(x), cwd
    except OSError as x:
        return "system_error(%s)" % A(os.strerror(x.errno)), cwd


def show(d):
    r = []
    for n in sorted(os.listdir(d.encode())):
        p = os.path.join(d.encode(), n)
        if os.path.isdir(p):
            v = show(p.decode("latin-1"))
        elif not os.path.exists(p):
            v = "none"
        else:
            t = open(p, "rb").read()
            x = 0
            for c in t:
                x = (x * 31 + c) % 1000003
            v = A(t.decode("latin-1")) if len(t) < 40 else "/(%d,%d)" % (len(t), x)
        r.append("=(%s,%s)" % (A(n.decode("latin-1")), v))
    return L(r)


def base(d):
    os.makedirs(d + "/d")
    os.mkdir(d + "/e")
    open(d + "/a", "w").write("A")
    open(d + "/d/b", "w").write("".join("%d," % k for k in range(2000)))
    os.symlink("a", d + "/l")
    os.link(d + "/a", d + "/h")


def Qop(o):
    return "%s(%s)" % (o[0], ",".join(Q(x) for x in o[1:])) if len(o) > 1 else o[0]


def ops_case(ops, flag, d, twin):
    base(d)
    base(twin)
    cwd, rs = twin, []
    for o in ops:
        r, cwd = do(twin, cwd, o)
        if r is not None and r.startswith("system_error") and flag == "fail":
            r = "no"
        rs.append(r)
    t = show(twin)
    shutil.rmtree(twin)
    pre = "r(" + L([x if x is not None else "\0" for x in rs]) + "," + t + ")"
    if None in rs:
        parts = pre.split("\0")

        def ok(g):
            i = 0
            for j, q in enumerate(parts):
                k = g.find(q, i)
                if k < 0 or (j == 0 and k != 0):
                    return False
                i = k + len(q)
            return i == len(g)
        ok.__doc__ = pre.replace("\0", "...")
        e = ok
    else:
        e = pre
    return "o(%s,%s,%s)." % (Q(d), flag, "[" + ",".join(Qop(o) for o in ops) + "]"), e


def fam_ops(root):
    def g(i, n, tier):
        for flag in ("error", "fail"):
            for k in (1, 2, 3) if tier != "quick" else (1, 2):
                seqs = list(itertools.islice(itertools.product(OPS, repeat=k), i, None, n))
                for q in range(0, len(seqs), 300):
                    d = "%s/o-%s-%d-%d-%d" % (root, flag, k, i, q)
                    cs = [ops_case(s, flag, "%s/%d/p/w" % (d, x), "%s/%d/t/w" % (d, x)) for x, s in enumerate(seqs[q:q + 300])]
                    yield "operations, depth %d, os_error %s (%d)" % (k, flag, q), "driver(fl).\n", cs
                    shutil.rmtree(d, ignore_errors=True)
    return g


def main():
    os.environ["TZ"] = "UTC"
    time.tzset()
    os.umask(0o022)
    ck = Check("C35")
    root = os.path.realpath(os.path.join(WORK, "tmp-c35-%d" % os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        x = lines.exe(DRV)
        for k, env in enumerate(ENVS):
            cwd = "%s/c%d" % (root, k)
            os.makedirs(cwd + "/a")
            for f in ("f1.pl", "f2.pro", "f3.prolog", "f1.pro", "a.pl", "a/a.prolog", "user.pl", ".pl"):
                open("%s/%s" % (cwd, f), "w").close()
            def fam(i, n, tier, env=env, cwd=cwd):
                for key, setup, cs in fam_names(env, cwd)(i, n, tier):
                    yield key, "change_directory(%s).\n" % Q(cwd) + setup, cs
            run_lines(ck, "names%d" % k, x, fam, env=dict(env, TZ="UTC", **({} if "HOME" in env else {"HOME": None})))
        d = root + "/tree"
        ns = tree(d)
        cs = prop_cases(d, ns)
        run_lines(ck, "properties", x, lambda i, n, tier: iter([("entries of a tree", "change_directory(%s).\ndriver(fl).\n" % Q(d), cs[i::n])]), env={"TZ": "UTC"})
        dev = [n for n in ("/dev/null", "/dev/zero", "/dev/full", "/", "/tmp", "/dev", "/etc/passwd", "/proc/self/status") if os.path.exists(n)]
        cs2 = [c for c in prop_cases("/", dev) if "d(" not in c[0][:2] and "self" not in c[0] and c[0] != "w."]
        cs2 = [(q, lambda g, e=e: g.split("last_mod")[0] == e.split("last_mod")[0]) for q, e in cs2 if "/tmp" not in q]
        run_lines(ck, "devices", x, lambda i, n, tier: iter([("devices", "driver(fl).\n", cs2[i::n])]), env={"TZ": "UTC"})
        run_lines(ck, "operations", x, fam_ops(root))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return ck.finish(rule="states = texts, entries, operation sequences; transitions = predicate calls compared with the manual's rules or with the operating system")
