"""C29: predicate names map to distinct linker symbols and back.

mangling.c under a C harness (sanitizers on): every module x name x arity over short texts, decoded back, in every
surrounding; every short line; every length of name. Then native programs whose predicates have every odd name: each call
reaches the predicate named, within a file and across files; the names printed for undefined predicates read back."""
import itertools
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib.build import get_build, WORK
from vlib.report import Check
from vlib.runner import die_with_parent

HERE = os.path.dirname(os.path.abspath(__file__))


def harness(ck, jobs):
    b = get_build()
    d = os.path.join(b.root, "rng-mg-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    x = os.path.join(d, "mg")
    cmd = ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w", "-I" + b.src + "/EnginePl", "-I" + b.src + "/TopComp"]
    cmd += ["-o", x, HERE + "/c29/mg.c", b.src + "/TopComp/mangling.c"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        ck.violate("harness", p.stdout[-3000:])
        return

    def one(a):
        try:
            return a, subprocess.run([x] + [str(q) for q in a], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, preexec_fn=die_with_parent, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired:
            return a, None
    with ThreadPoolExecutor(8) as ex:
        for a, r in ex.map(one, jobs):
            key = "mangling %s" % (a,)
            if r is None or r.returncode or "bad=0" not in r.stdout:
                ck.violate(key, "run %s: %s" % (a, "no end" if r is None else "exit %d\n%s" % (r.returncode, r.stdout[:3000])))
                continue
            kv = dict(w.split("=") for w in r.stdout.split("DONE")[1].split())
            ck.add(states=int(kv["states"]), transitions=int(kv["trans"]), traces_validated_against_impl=int(kv["trans"]))
            ck.sample("%s: %s" % (key, r.stdout.strip()))


def q(a):
    """the atom of bytes a (str, latin-1) as Prolog text"""
    return "'" + "".join("''" if c == "'" else "\\\\" if c == "\\" else c if " " <= c <= "~" else "\\x%x\\" % ord(c) for c in a) + "'"


def unq(t):
    """the atom written as t, or None"""
    if re.fullmatch("[a-z][A-Za-z0-9_]*", t):
        return t
    if len(t) < 2 or t[0] != "'" or t[-1] != "'":
        return None
    out, i, t = "", 0, t[1:-1]
    while i < len(t):
        if t[i] == "'":
            if t[i:i + 2] != "''":
                return None
            out += "'"
            i += 2
        elif t[i] == "\\":
            m = re.match(r"\\x([0-9a-fA-F]+)\\|\\([0-7]+)\\|\\([abfnrtv])|\\([\\'\"`])", t[i:])
            if not m:
                return None
            out += chr(int(m[1], 16)) if m[1] else chr(int(m[2], 8)) if m[2] else "\a\b\f\n\r\t\v"["abfnrtv".index(m[3])] if m[3] else m[4]
            i += m.end()
        else:
            out += t[i]
            i += 1
    return out


AL = "aF_0$ '\"\\\n\xe9\x01/+%;"
WORDS = ["", "[]", "{}", "!", ";", ",", "|", ":-", "-->", "\\+", "\\n", "\\303x", "\xc3x", "\\x41\\", "\n3", "\x013", "a__b", "a_b", "_a", "a_", "a__a1", "X0_a__a1", "main__a0", "x%d", "%s%n", "a:b", "a/1", "(", ")", "\"q\"", "p q", "\t", "\x7f", "\xff", "end", "main0", "printf", "_start", "r0", "rax", "byte", "ptr", "st", ".text", "@", "a@b", "#a", "/*", "*/", "%", "\\\\", "\\\"", "\"\\", "E", "FL", "X", "Y"]
CTL = {(",", 2), (";", 2), ("->", 2), ("!", 0), ("|", 2), (":-", 1), ("-->", 2), (":-", 2), ("\\+", 1), ("[]", 0), ("{}", 1), ("{}", 0), ("+", 1), ("%", 0)}


def names(tier):
    k = 2 if tier == "quick" else 3
    r = list(WORDS)
    for n in range(1, k + 1):
        r += ["".join(t) for t in itertools.product(AL, repeat=n)]
    return list(dict.fromkeys(r))


def head(nm, args):
    return q(nm) + "(" + ",".join(args) + ")" if args else "(" + q(nm) + ")"


def sh(cmd, cwd, env, to=120):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="latin-1", timeout=to, preexec_fn=die_with_parent)
    except subprocess.TimeoutExpired:
        return None


def program(job):
    """kind, list of (name, arity) -> (n, mismatches). Each predicate gives its number; all are called."""
    kind, key, ps = job
    b = get_build()
    d = tempfile.mkdtemp(dir=WORK)
    env = b.env(**{"MAX_ATOM": "100000"})
    bad = []
    try:
        defs, calls, exp = [], [], []
        for i, (nm, ar) in enumerate(ps):
            a = ["A%d" % j for j in range(ar)]
            if (nm, ar) in CTL:
                continue
            if ar == 0:
                defs.append("%s :- w(%d).\n" % (head(nm, []), i))
                calls.append("c%d :- %s, w(e).\n" % (i, head(nm, [])))
                exp += [str(i), "e"]
            else:
                # several clauses: indexing on the atom, choice point, then cut
                defs.append("%s :- w(%d).\n%s.\n" % (head(nm, [q(nm)] + a[1:]), i, head(nm, ["no"] + a[1:])))
                calls.append("c%d :- %s, w(X), w((%s)).\n" % (i, head(nm, ["X"] + ["b"] * (ar - 1)), q(nm)))
                exp += [str(i), nm, nm]
            calls.append("c(%d) :- c%d, call(%s), w(z).\n" % (i, i, head(nm, [q(nm)] + ["b"] * (ar - 1) if ar else [])))
            exp += [str(i), "z"] + (["no", nm, str(i), "z"] if ar else [])
        if kind == "late":
            calls, defs = defs, calls
        main = ":- initialization(main).\nmain :- c(_), fail.\nmain :- halt.\nw(T) :- writeq(T), nl.\n"
        h = ":- public(%s).\n"
        fs = ["p.pl"]
        calls = [c for c in calls]
        pub = "".join(":- public(%s/%d).\n" % (head(nm, []), ar) for nm, ar in ps if (nm, ar) not in CTL)
        disc = ":- discontiguous(c/1).\n"
        if kind == "split":
            open(d + "/p.pl", "w", encoding="latin-1").write(main + disc + "".join(calls))
            open(d + "/q.pl", "w", encoding="latin-1").write(pub + "".join(defs))
            fs = ["p.pl", "q.pl"]
        else:
            open(d + "/p.pl", "w", encoding="latin-1").write(disc + pub + main + "".join(defs) + "".join(calls))
        if kind == "undef":
            open(d + "/p.pl", "w", encoding="latin-1").write(disc + main + "".join(calls))
        p = sh(["gplc", "--no-top-level", "-o", "p.exe"] + fs, d, env, 240)
        if kind == "undef":
            got = set()
            if p is None:
                bad.append((key, "gplc does not end"))
            else:
                for m in re.finditer(r"predicate\((.*)\)'$", p.stdout, re.M):
                    mm = re.fullmatch(r"(.*)/(\d+)", m[1], re.S)
                    got.add((unq(mm[1]), int(mm[2])) if mm else ("?", m[1]))
                want = set((nm, ar) for nm, ar in ps if (nm, ar) not in CTL)
                for x in sorted(want - got)[:10]:
                    bad.append((key, "undefined %s/%d is not reported" % (q(x[0])[:80], x[1])))
                for x in sorted(got - want, key=str)[:10]:
                    bad.append((key, "reported as undefined: %s" % (str(x)[:200],)))
        elif p is None or p.returncode or not os.path.exists(d + "/p.exe"):
            bad.append((key, "gplc: %s" % ("does not end" if p is None else p.stdout[:1500])))
        else:
            r = sh(["./p.exe"], d, env)
            if r is None or r.returncode:
                bad.append((key, "run: %s" % ("does not end" if r is None else "exit %d %s" % (r.returncode, r.stdout[-500:]))))
            else:
                g = r.stdout.split("\n")[:-1]
                e = []
                for t in exp:
                    e.append(t)
                if len(g) != len(e):
                    bad.append((key, "%d lines instead of %d" % (len(g), len(e))))
                for x, y in zip(g, e):
                    v = x if x.isdigit() else rdany(x)
                    if v != y:
                        bad.append((key, "output %s instead of %s" % (x[:100], q(y)[:100])))
                        break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return key, len(ps), bad


def rdany(x):
    v = unq(x)
    return x if v is None else v


def main():
    ck = Check("C29")
    harness(ck, [("names", s, 16, ck.pick(3, 4)) for s in range(16)] + [("lines", s, 8, ck.pick(5, 6)) for s in range(8)] + [("lengths", s, 8, ck.pick(60, 400)) for s in range(8)])
    ns = names(ck.tier)
    jobs = []
    prs = [(nm, ar) for nm in ns for ar in ((0, 1, 2) if ck.thorough or len(nm) != 2 else (0, 1))]
    size = 120
    for i in range(0, len(prs), size):
        for kind in ("one", "split", "undef"):
            jobs.append((kind, "%s file, names %d" % (kind, i // size), prs[i:i + size]))
    for L in (254, 255, 256, 257, 1000, 1023, 1024, 1025, 2030, 2047, 2048, 2049, 4080, 4096, 6000, 8192, 16380, 32760, 32768, 65534, 65535):
        for kind in ("one", "split", "undef"):
            jobs.append((kind, "%s file, length %d" % (kind, L), [("a" * L, 0), ("a" * (L - 1) + "b", 1), ("\xe9" * L, 1), ("\xe9" * (L - 1) + "\n", 2), ("A" * L, 1)]))
    with ThreadPoolExecutor(8) as ex:
        for key, n, bad in ex.map(program, jobs):
            ck.add(states=n, transitions=4 * n, traces_validated_against_impl=n)
            for k, t in bad:
                ck.violate(k, "%s: %s" % (k, t))
    ck.outcome("programs", len(jobs))
    ck.sample("names: " + " ".join(q(x) for x in ns[:80]))
    return ck.finish(rule="states = (module, name, arity) encoded, lines, predicates in programs; transitions = decodings, encodings, calls compared")
