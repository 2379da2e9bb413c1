"""mk(id, property, edits, program, expected, needs, breaks): writes /verif/seeded/id."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run in /repo after the build; exit 0 when the program prints what it has to
H=$(cd "$(dirname "$0")" && pwd)
S=$PWD/_build/work/src
for d in TopComp EnginePl Pl2Wam Wam2Ma Ma2Asm Fd2C; do PATH=$S/$d:$PATH; done
export PATH LC_ALL=C.UTF-8 LINEDIT=no %(env)s
T=$(mktemp -d) || exit 1
trap 'cd /; rm -rf "$T"' EXIT
cp "$H"/demo.pl "$T" && cd "$T" || exit 1
%(run)s >out 2>&1 </dev/null
cat out
diff out "$H/expected" >/dev/null
"""
NATIVE = """gplc %s -o demo demo.pl >log 2>&1 || { cat log; exit 1; }
timeout 60 ./demo"""


def mk(i, prop, edits, pl, exp, needs, breaks, opts="--no-top-level", run=None, env="", extra=None):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    per = {}
    for f, a, b in edits:
        per.setdefault(f, []).append((a, b))
    for f, reps in per.items():
        s = open("/repo/" + f, errors="surrogateescape").read()
        n = s
        for a, b in reps:
            assert n.count(a) == 1, (f, a, n.count(a))
            n = n.replace(a, b)
        for x, c in (("a", s), ("b", n)):
            p = os.path.join(t, x, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", errors="surrogateescape").write(c)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE)
        diff += r.stdout.decode("utf-8", "surrogateescape")
    shutil.rmtree(t)
    open(d + "/patch.diff", "w", errors="surrogateescape").write(diff)
    open(d + "/demo.pl", "w").write(pl)
    open(d + "/expected", "w").write(exp)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), "w").write(v)
    open(d + "/demo.sh", "w").write(DEMO % {"run": run or NATIVE % opts, "env": env})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
