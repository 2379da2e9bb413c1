"""C20: output is delivered completely or an error is reported.

Every sequence of output operations up to a depth x buffering mode x every byte at which the operating system stops
accepting data (a file-size limit set around each operation: the write is then short, the next one fails), the file
being observed through an independent reader after every flush and close; the same on a device that is always full;
what is still buffered when the program ends."""
import itertools
import os
import re
import shutil
import subprocess
import tempfile

from vlib.build import get_build, VERIF, WORK
from vlib.lines import exe, run_lines
from vlib.report import Check
from vlib.runner import parmap, die_with_parent

D = os.path.join(VERIF, "checks", "c20")
MODES = ("none", "line", "block")


def fnv(b):
    x = 2166136261
    for c in b:
        x = ((x ^ c) * 16777619) & 0xffffffff
    return x


def big(n):
    return (b"abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[:n]


def q(t):
    return "'" + t.replace("\\", "\\\\").replace("\n", "\\n").replace("'", "\\'") + "'"


def split(s):
    if not (s.startswith("[") and s.endswith("]")):
        return None
    r, d, cur, quo = [], 0, "", False
    for c in s[1:-1]:
        if c == "'":
            quo = not quo
        if not quo:
            d += c in "([" and 1 or c in ")]" and -1 or 0
            if c == "," and d == 0:
                r.append(cur)
                cur = ""
                continue
        cur += c
    return r + [cur] if cur else r


class Stm:
    def __init__(self, f, mode, data, buf):
        self.f, self.buf = f, buf
        self.data = bytearray(data)
        self.pos = len(data) if mode == "append" else 0
        self.app = mode == "append"
        self.err = False        # an error was reported on it
        self.partial = False    # a put reported an error: what it had written is open
        self.ext = len(data)
        self.mirror = []
        self.clean = True       # nothing can be in the buffer

    def put(self, b):
        if self.app:
            self.pos = len(self.data)
        if self.pos > len(self.data):
            self.data += bytes(self.pos - len(self.data))
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.ext = max(self.ext, self.pos)
        self.clean = False


def judge(K, ops):
    """ops: python tuples; returns the predicate deciding the line of results"""
    def pred(g):
        res = split(g)
        if res is None or len(res) != len(ops):
            return False
        k = K
        kmin = 1 << 40 if K < 0 else K
        files, st = {}, {}
        after = {}              # file -> (what must be there | None when open, required suffix)
        for op, r in zip(ops, res):
            o = op[0]
            if o == "l":
                pass
            elif o == "o":
                if r != "ok":
                    return False
                _, f, mode, a, buf = op
                dev = f.startswith("/")
                d = b"" if mode == "write" or dev else files.get(f, b"")
                st[a] = Stm(f, mode, d, buf)
                files[f] = d
                after[f] = (d, None)
            elif o in ("p", "w", "n"):
                s = st[op[1]]
                b = b"\n" if o == "n" else op[-1]
                for t in [s] + [st[m] for m in s.mirror]:
                    t.put(b)
                if r != "ok":
                    if not r.startswith("e(system_error("):
                        return False
                    full = [t for t in [s] + [st[m] for m in s.mirror] if t.f.startswith("/") or t.ext > kmin]
                    if not full:
                        return False
                    for t in [s] + [st[m] for m in s.mirror]:
                        t.err = t.partial = True
                        after[t.f] = (None, None)
                elif s.buf == "none" and not s.mirror and not s.err:
                    after[s.f] = (bytes(s.data), None)
                elif s.buf == "line" and b.endswith(b"\n") and not s.mirror and not s.err:
                    after[s.f] = (bytes(s.data), None)
                else:
                    for t in [s] + [st[m] for m in s.mirror]:
                        after[t.f] = (None, None)
            elif o == "sv":
                if r != "ok":
                    return False
                st[op[1]].saved = st[op[1]].pos
            elif o in ("f", "c", "cf", "k", "rs"):
                s = st[op[1]]
                if r != "ok":
                    if o == "cf" or not (r.startswith("e(system_error(") or o in ("k", "rs") and r == "no"):
                        return False
                    if not (s.f.startswith("/") or s.ext > kmin):
                        return False
                    s.err = True
                    after[s.f] = (None, None)
                    if o in ("k", "rs"):
                        s.partial = True
                else:
                    forced = o == "cf"
                    if forced and (s.f.startswith("/") or s.ext > kmin):
                        after[s.f] = (None, None)
                    elif not s.err:
                        after[s.f] = (bytes(s.data), None)
                    if o == "k":
                        s.pos = op[2]
                    if o == "rs":
                        s.pos = s.saved
                    if o in ("c", "cf"):
                        files[s.f] = bytes(s.data)
            elif o == "r":
                n, h = map(int, r.split("-"))
                d = after[op[1]][0]
                if d is not None and (n != len(d) or h != fnv(d)):
                    return False
                # without any error so far it is a prefix when only appended to
            elif o == "g":
                if r != "ok":
                    return False
            elif o == "m":
                if r != "ok":
                    return False
                st[op[1]].mirror.append(op[2])
            elif o == "h":
                if r != "ok":
                    return False
        return True
    pred.__doc__ = "everything delivered after each flush/close or an error reported; no error within the limit; a stream that reported one can be closed"
    return pred


def enc(ops):
    r = []
    for op in ops:
        o = op[0]
        if o == "o":
            _, f, mode, a, buf = op
            r.append("o(%s,%s,%s,[buffering(%s),reposition(%s)%s])" % (q(f) if f[0] == "/" else f, mode, a, buf, "false" if f[0] == "/" or mode == "append" else "true", ",type(binary)" if any(x[0] == "w" and x[2] == 3 for x in ops) else ""))
        elif o == "p":
            b = op[2]
            r.append("p(%s,%s)" % (op[1], "big(%d)" % len(b) if len(b) > 50 else q(b.decode())))
        elif o == "w":
            r.append("w(%s,%d,%s)" % (op[1], op[2], q(op[3].decode())))
        else:
            r.append("%s(%s)" % (o, ",".join(map(str, op[1:]))))
    return "[" + ",".join(r) + "]"


def case(K, ops):
    return "c(%d,%s)." % (K, enc(ops)), judge(K, ops)


TAIL = [("c", "s0"), ("r", "f0")]
# after an error at close the stream may stay (data not delivered) or go; a forced close always ends it
A1 = [("p", "s0", b"a"), ("p", "s0", b"bc\n"), ("n", "s0"), ("f", "s0"), ("r", "f0")]


def size(ops):
    s = b = 0
    for o in ops:
        if o[0] == "p":
            s += len(o[2])
        elif o[0] == "n":
            s += 1
    return s


def gone(r):
    return r


def fam_small(i, n, tier):
    """every sequence of small operations, every byte at which the disk is full"""
    depth = 5 if tier == "quick" else 7
    al = [("p", "s0", b"a"), ("p", "s0", b"bc\n"), ("n", "s0"), ("f", "s0")]
    j = 0
    for m in MODES:
        cs = []
        for d in range(1, depth + 1):
            for w in itertools.product(al, repeat=d):
                if any(x == y == ("f", "s0") for x, y in zip(w, w[1:])) or not any(x[0] != "f" for x in w):
                    continue
                j += 1
                if j % n != i:
                    continue
                sz = size(w)
                ops = [("o", "f0", "write", "s0", m)]
                for x in w:
                    ops.append(x)
                    ops.append(("r", "f0"))
                for k in [-1] + list(range(min(sz, 9) + 1)) + [sz]:
                    cs.append(case(k, ops + TAIL))
        yield m, "driver(fl_case).", cs


def fam_big(i, n, tier):
    """data around the size of the internal buffer"""
    ns = [1, 4095, 4096, 4097] if tier == "quick" else [1, 4094, 4095, 4096, 4097, 8191, 8192, 8193]
    al = [("p", "s0", big(x)) if x > 50 else ("p", "s0", b"z" * x) for x in ns] + [("f", "s0"), ("n", "s0")]
    j = 0
    for m in MODES:
        cs = []
        for d in range(1, 4):
            for w in itertools.product(al, repeat=d):
                if w[0][0] == "f":
                    continue
                j += 1
                if j % n != i:
                    continue
                sz = size(w)
                ops = [("o", "f0", "write", "s0", m)]
                for x in w:
                    ops += [x, ("r", "f0")]
                ks = {-1, 0, 1, sz - 1, sz} | {k for b in (4096, 8192, 12288) for k in (b - 1, b, b + 1) if k < sz}
                if m == "none" and tier == "quick":
                    ks = {-1, 0, sz - 1, sz}
                for k in sorted(x for x in ks if x >= -1):
                    cs.append(case(k, ops + TAIL))
        yield m, "driver(fl_case).", cs


def fam_kinds(i, n, tier):
    """every writing predicate"""
    ts = [b"a", b"abc", b"ab\n", b"\n"]
    j = 0
    for m in MODES:
        cs = []
        for kd in range(1, 14):
            for t in ts:
                if b"\n" in t and kd in (7, 10, 8):
                    continue
                for w in ([("w", "s0", kd, t)], [("w", "s0", kd, t)] * 2, [("w", "s0", kd, t), ("f", "s0"), ("w", "s0", kd, t)]):
                    j += 1
                    if j % n != i:
                        continue
                    sz = sum(len(x[3]) for x in w if x[0] == "w")
                    ops = [("o", "f0", "write", "s0", m)]
                    for x in w:
                        ops += [x, ("r", "f0")]
                    for k in [-1] + list(range(sz + 1)):
                        cs.append(case(k, ops + TAIL))
        yield m, "driver(fl_case).", cs


def fam_modes(i, n, tier):
    """reopening: write then append/write/update, positions"""
    j = 0
    for m in MODES:
        cs = []
        for a, b, md, f in itertools.product((b"", b"a", b"bc\n", big(4096)), (b"x", b"yz", big(4097)), ("write", "append"), (0, 1)):
            for kp in (None, 0, 1, 2) if md == "write" else (None,):
                j += 1
                if j % n != i:
                    continue
                W = ("p", "s0") if kp is None or kp == 2 else ("w", "s0", 3)
                ops = [("o", "f0", "write", "s0", m)] + ([W + (a,)] if a else []) + [("c", "s0"), ("r", "f0"), ("o", "f0", md, "s0", m)] + ([("sv", "s0")] if kp == 2 else []) + [W + (b,)]
                if f:
                    ops += [("f", "s0"), ("r", "f0")]
                if kp is not None:
                    ops += [("rs", "s0") if kp == 2 else ("k", "s0", kp), W + (b"Q",), ("f", "s0"), ("r", "f0")]
                ops.append(W + (b"e",))
                sz = len(a) + len(b) + 2
                # the limit applies from the second opening on
                for k in [-1] + sorted(set([len(a), len(a) + 1, len(b), len(b) + 1, len(a) + len(b), len(a) + len(b) + 1, sz])):
                    if k >= len(a):
                        cs.append(case(k, ops + TAIL))
        yield m, "driver(fl_case).", cs


def fam_two(i, n, tier):
    """two streams interleaved, mirrors"""
    depth = 4 if tier == "quick" else 5
    al = [("p", "s0", b"a"), ("p", "s1", b"B\n"), ("p", "s0", b"c\n"), ("f", "s0"), ("f", "s1")]
    j = 0
    for m0, m1 in itertools.product(MODES, repeat=2):
        cs = []
        for mir in (0, 1):
            for d in range(1, depth + 1):
                for w in itertools.product(al, repeat=d):
                    j += 1
                    if j % n != i:
                        continue
                    ops = [("o", "f0", "write", "s0", m0), ("o", "f1", "write", "s1", m1)]
                    if mir:
                        ops.append(("m", "s0", "s1"))
                    for x in w:
                        ops += [x, ("r", "f0"), ("r", "f1")]
                    for k in (-1, 0, 1, 2, 3, 5):
                        if mir and k > 0:
                            continue
                        for e in (["s0", "s1"], ["s1", "s0"]):
                            if mir and e[0] == "s1":
                                continue
                            t = []
                            for s in e:
                                t += [("c", s), ("r", "f" + s[1])]
                            cs.append(case(k, ops + t))
        yield m0 + m1, "driver(fl_case).", cs


def fam_after(i, n, tier):
    """after an error: the stream can be closed, once; a device that is always full"""
    j = 0
    for m in MODES:
        cs = []
        for path, ks in (("f0", (0, 1, 2)), ("/dev/full", (-1,))):
            for w in itertools.product([("p", "s0", b"ab\n"), ("p", "s0", b"xyz"), ("p", "s0", big(4097)), ("f", "s0")], repeat=3):
                if w[0][0] == "f":
                    continue
                j += 1
                if j % n != i:
                    continue
                for k in ks:
                    ops = [("o", path, "write", "s0", m)] + list(w)
                    cs.append(case(k, ops + [("cf", "s0"), ("g", "s0")]))
                    cs.append(closing(k, ops))
        yield m, "driver(fl_case).", cs


def closing(k, ops):
    """close/1 until it succeeds: it must do so after at most one error, and then the stream is gone"""
    full = ops + [("c", "s0"), ("c", "s0"), ("c", "s0"), ("g", "s0")]
    base = judge(k, ops)

    def pred(g):
        r = split(g)
        if r is None or len(r) != len(full) or not base("[" + ",".join(r[:len(ops)]) + "]"):
            return False
        c, gone = r[-4:-1], r[-1]
        if gone != "ok":
            return False
        told = any(x.startswith("e(system_error(") for x in r)
        dead = [x for x in c if x.startswith("e(existence_error(stream,s0")]
        if not told:
            return False
        oks = c.index("ok") if "ok" in c else None
        if oks is None:
            return c[0].startswith("e(system_error(") and c[1] == c[2] and c[1] in dead
        return all(x.startswith("e(system_error(") for x in c[:oks]) and oks <= 1 and all(x in dead for x in c[oks + 1:])
    pred.__doc__ = "an error is reported at the latest by the first close/1, the stream is gone after the second"
    return "c(%d,%s)." % (k, enc(full)), pred


def fam_resume(i, n, tier):
    """the disk is full for a while: what is written after the error and flushed without one is there"""
    j = 0
    for m in MODES:
        cs = []
        for a, b in itertools.product((b"a", b"bc\n", b"defgh", big(4097)), (b"X", b"YZ\n", big(4096))):
            for k in sorted({0, min(1, len(a) - 1), len(a) - 1}):
                for kind in ("f", "n"):
                    j += 1
                    if j % n != i:
                        continue
                    ops = [("o", "f0", "write", "s0", m), ("p", "s0", a), ("f", "s0"), ("l", -1), ("f", "s0"), ("f", "s0"), ("p", "s0", b), ("f", "s0"), ("c", "s0")]

                    def pred(g, k=k, a=a, b=b):
                        """one error by the first flush; then no more errors than one, and the later operations succeed"""
                        r = split(g)
                        if r is None or len(r) != len(ops) - 1:
                            return False
                        o, p1, f1, f2, f3, p2, f4, c = r
                        if o != "ok" or not any(x.startswith("e(system_error(") for x in (p1, f1)):
                            return False
                        return f3 == p2 == f4 == c == "ok"
                    cs.append(("c(%d,%s)." % (k, enc(ops)), pred))
        yield m, "driver(fl_case).", cs


# ---- end of the program: everything buffered is delivered
ENDS = ("halt", "halt(3)", "true", "fail", "throw(x)", "undefined_predicate_zz", "catch(throw(a),_,halt)", "stop", "abort", "(flush_output,halt)")
END_PL = r"""
:- initialization(main).
main :- argument_list([E,M,N,K|F]), term(E, G), term(M, Md), term(N, Nb), term(K, Kd), files(F, Md, Nb), out(Kd, Nb), call(G).
term(A, T) :- read_term_from_atom(A, T, [end_of_term(eof)]).
files([], _, _).
files([A|L], M, N) :- open(A, write, S, [buffering(M)]), puts(N, S), files(L, M, N).
out(M, N) :- ( M == keep -> true ; current_output(S), set_stream_buffering(S, M) ), current_output(S1), puts(N, S1).
puts(0, _) :- !.
puts(N, S) :- C is 0'a + N mod 26, put_code(S, C), M is N-1, puts(M, S).
"""


def exp_puts(n):
    return bytes(97 + i % 26 for i in range(n, 0, -1))


def _ends(arg):
    x, tasks = arg
    d = tempfile.mkdtemp(dir=WORK)
    env = get_build().env()
    bad, cnt = [], 0
    try:
        for e, m, nb, kd, nf, via in tasks:
            cnt += 1
            fs = ["g%d" % i for i in range(nf)]
            for f in fs + ["out"]:
                if os.path.exists(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))
            cmd = [x, e, m, str(nb), kd] + fs
            try:
                if via == "pipe":
                    p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env, preexec_fn=die_with_parent)
                    out = p.stdout
                elif via == "full":
                    with open("/dev/full", "wb") as o:
                        p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.DEVNULL, timeout=60, env=env, preexec_fn=die_with_parent)
                    out = exp_puts(nb)
                else:
                    with open(os.path.join(d, "out"), "wb") as o:
                        p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.DEVNULL, timeout=60, env=env, preexec_fn=die_with_parent)
                    out = open(os.path.join(d, "out"), "rb").read()
            except subprocess.TimeoutExpired:
                bad.append((repr((e, m, nb, kd, nf, via)), "the program does not end"))
                if len(bad) > 3:
                    break
                continue
            w = exp_puts(nb)
            if not out.startswith(w):
                bad.append((repr((e, m, nb, kd, nf, via)), "standard output: %d bytes, expected %d (then messages)" % (len(out), nb)))
            for f in fs:
                try:
                    g = open(os.path.join(d, f), "rb").read()
                except OSError:
                    g = None
                if g != w and via != "full":
                    bad.append((repr((e, m, nb, kd, nf, via)), "file %s: %s bytes instead of %d" % (f, g is not None and len(g), nb)))
            if p.returncode < 0:
                bad.append((repr((e, m, nb, kd, nf, via)), "killed by signal %d" % -p.returncode))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cnt, bad


def ends(ck):
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    try:
        src = os.path.join(d, "e.pl")
        open(src, "w").write(END_PL)
        x = b.gplc(os.path.join(d, "e"), src)
        nbs = [0, 1, 100, 4096, 5000] + ([] if ck.tier == "quick" else [1023, 1024, 4095, 4097, 65536, 100000])
        ts = list(itertools.product(ENDS, MODES, nbs, ("keep",) + MODES, (0, 1, 2), ("file", "pipe", "full")))
        ts = [t for t in ts if (t[4] or t[1] == "none") and not (ck.tier == "quick" and t[4] and t[3] not in ("keep", "block"))]
        n = ck.pick(32, 64)
        for c, bad in parmap(_ends, [(x, ts[i::n]) for i in range(n)]):
            ck.add(states=c, transitions=c, traces_validated_against_impl=c)
            for k, t in bad:
                ck.violate("end: " + k, t)
        ck.cov.setdefault("cases_by_family", {})["end"] = len(ts)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C20")
    x = exe(open(os.path.join(D, "drv.pl")).read(), files=(os.path.join(D, "fl.c"),))
    for name, f in (("small", fam_small), ("big", fam_big), ("kinds", fam_kinds), ("modes", fam_modes), ("two", fam_two), ("after", fam_after), ("resume", fam_resume)):
        run_lines(ck, name, x, f, timeout=120)
    ends(ck)
    return ck.finish(rule="every sequence of output operations up to the depth x buffering mode x every byte at which the system refuses data; the file is read by another path after each flush and close")
