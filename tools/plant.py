#!/usr/bin/env python3
"""plant.py ID... : for each /verif/seeded/ID, in a private copy of /repo bind-mounted over /repo in a
mount namespace of its own: the demo on the unchanged tree, then with the patch build, tests, demo and the
property's check.  plant.py -n ... skips the tests.  -c CHECK runs another check instead."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notests = "-n" in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith("-")]


def one(i):
    sd = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.copytree(sd, d + "/seed")
        for f in ("patch.diff", "meta.json"):
            os.unlink(d + "/seed/" + f)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        script = """
mount --bind %(d)s/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >%(d)s/b0 2>&1 || { echo BUILD0-FAIL; exit 1; }
timeout 300 bash %(d)s/seed/demo.sh >%(d)s/d0 2>&1; echo "demo-clean=$?"
git apply %(sd)s/patch.diff || { echo APPLY-FAIL; exit 1; }
bash /opt/vp/build.sh >%(d)s/b1 2>&1 || { echo BUILD-FAIL; tail -5 %(d)s/b1; exit 1; }
[ -n "%(nt)s" ] || timeout 150 bash /opt/vp/test.sh %(d)s/out.json >%(d)s/t1 2>&1
timeout 300 bash %(d)s/seed/demo.sh >%(d)s/d1 2>&1; echo "demo-patched=$?"
cd %(V)s
for c in %(c)s; do
VERIF_TIER=quick VERIF_WORK=%(d)s/work S=$SECONDS; timeout 900 python3 check.py $c >%(d)s/c1 2>&1; echo "check-$c=$? $((SECONDS-S))s"
grep -m1 VIOLATION %(d)s/c1 | cut -c1-60
grep -m1 -A3 '^---' %(d)s/c1 | cut -c1-250
done
""" % dict(d=d, sd=sd, V=V, c=meta["property"], nt="y" if notests else "")
        ev = os.path.join(V, "evidence", meta["property"] + ".json")
        old = open(ev).read() if os.path.exists(ev) else None
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if old is not None:
            open(ev, "w").write(old)
        out = r.stdout
        if os.path.exists(d + "/out.json"):
            o = json.load(open(d + "/out.json"))
            missing = sorted(base - set(o["passed"]))
            out += "tests: %s\n" % ("pass" if not missing else "FAIL %s" % missing[:5])
        for f in ("d0", "d1"):
            if os.path.exists(d + "/" + f):
                out += "%s: %s\n" % (f, open(d + "/" + f, errors="replace").read()[-300:].strip().replace("\n", " | "))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


for i in args:
    print("== %s" % i, flush=True)
    print(one(i), flush=True)
