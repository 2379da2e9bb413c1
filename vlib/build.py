"""Builds gprolog from /repo's current working tree into /verif/.work/<hash>/ (scratch, git-ignored).

The tree under /repo is only read.  The cache key is the content of every source file, so a
changed source always gives a new build."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SEED = "/opt/vp/seed/pl2wam"
DIRS = "TopComp EnginePl Pl2Wam Wam2Ma Ma2Asm Fd2C".split()


class BuildError(Exception):
    pass


def source_files():
    try:
        out = subprocess.run(
            ["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=True).stdout
        names = [os.fsdecode(f) for f in set(out.split(b"\0")) if f]
    except Exception:
        names = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs
                      if not f.endswith((".o", ".a"))]
        names += ["VERSION", "COPYING"]
    return sorted(f for f in names
                  if (f.startswith("src/") or f in ("VERSION", "COPYING"))
                  and os.path.isfile(os.path.join(REPO, f)))


def clean_env():
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "TMPDIR", "USER", "VERIF_SEED", "VERIF_TIER")}
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LC_ALL"] = "C.UTF-8"
    env.setdefault("HOME", "/root")
    return env


class CompileError(BuildError):
    """the compiler under test rejects or miscompiles a program that is part of a check"""


class Build:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")

    def env(self, **kw):
        env = clean_env()
        env["PATH"] = ":".join(os.path.join(self.src, d) for d in DIRS) + ":" + env["PATH"]
        env["MAX_ATOM"] = "1000000"
        env["LINEDIT"] = "no"
        env.update({k: str(v) for k, v in kw.items() if v is not None})
        for k, v in kw.items():  # None removes the variable
            if v is None:
                env.pop(k, None)
        return env

    def tool(self, name):
        for d in DIRS:
            p = os.path.join(self.src, d, name)
            if os.path.exists(p):
                return p
        raise BuildError("no tool " + name)

    def run(self, cmd, **kw):
        kw.setdefault("env", self.env())
        kw.setdefault("stdin", subprocess.DEVNULL)
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", **kw)

    def gplc(self, out, *files, opts=("--no-top-level", "--no-susp-warn", "--no-singl-warn"), cwd=None, timeout=600):
        cmd = ["gplc", *opts, "-o", out, *files]
        try:
            r = self.run(cmd, cwd=cwd or os.path.dirname(os.path.abspath(out)), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CompileError("gplc did not end within %ds: %s" % (timeout, " ".join(cmd)))
        if r.returncode != 0 or not os.path.exists(out):
            raise CompileError("gplc failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        return out


def get_build():
    files = source_files()
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b"\0" + b"%o" % (os.stat(p).st_mode & 0o111) + b"\0")
        with open(p, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    with open(os.path.abspath(__file__), "rb") as fd:
        h.update(fd.read())
    key = h.hexdigest()[:20]
    os.makedirs(WORK, exist_ok=True)
    root = os.path.join(WORK, key)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(root, "ok")):
            os.utime(os.path.join(root, "ok"))
            return Build(root)
        # keep at most 3 older builds
        old = sorted((d for d in os.listdir(WORK)
                      if len(d) == 20 and os.path.isdir(os.path.join(WORK, d))),
                     key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)
        t0 = time.time()
        try:
            _build(root, files)
        except BuildError:
            shutil.rmtree(root, ignore_errors=True)
            raise
        open(os.path.join(root, "ok"), "w").close()
        print("build: %.1fs %s" % (time.time() - t0, root), flush=True)
    return Build(root)


def _build(root, files):
    now = time.time()
    for f in files:
        dst = os.path.join(root, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), dst)
        # the .wam files are the bootstrap: they have to be newer than their .pl
        t = now - (3600 if f.endswith(".wam") else 7200)
        os.utime(dst, (t, t))
    src = os.path.join(root, "src")
    for f in ("configure", "config.sub", "config.guess", "install-sh", "mkinstalldirs"):
        if os.path.exists(os.path.join(src, f)):
            os.chmod(os.path.join(src, f), 0o755)
    stale = {"Pl2Wam": [], "BipsPl": []}
    for d in stale:
        mk = open(os.path.join(src, d, "Makefile.in"), errors="replace").read()
        for n in sorted(os.listdir(os.path.join(src, d))):
            if not n.endswith(".pl"):
                continue
            b = n[:-3]
            wam = os.path.join(src, d, b + ".wam")
            if os.path.exists(wam):
                want = ""
                with open(wam, errors="replace") as fd:
                    for line in fd:
                        if line.startswith("% hash:"):
                            want = line.split()[2]
                            break
                have = hashlib.sha1(open(os.path.join(src, d, n), "rb").read()).hexdigest()
                if want != have:
                    stale[d].append(b)
            elif b != "t" and d == "BipsPl" and (" %s@OBJ_SUFFIX@" % b) in mk:
                stale[d].append(b)
    b = Build(root)
    env = b.env()
    env["CC"] = "gcc"
    del env["MAX_ATOM"]
    log = open(os.path.join(root, "build.log"), "w")

    def sh(cmd, cwd=src, timeout=400):
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=log,
                               stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        if rc != 0:
            log.flush()
            tail = open(log.name, errors="replace").read()[-2500:]
            raise BuildError("%s -> %s\n%s" % (cmd, rc, tail))

    def make_all():
        sh(["make", "-C", "EnginePl", "config"])
        sh(["make", "-C", "EnginePl", "top_comp"])
        sh(["make", "-j%d" % min(8, os.cpu_count() or 1), "all"])

    def regen(d):
        for n in stale[d]:
            w = os.path.join(src, d, n + ".wam")
            if os.path.exists(w):
                os.unlink(w)
            sh(["make", n + ".wam"], cwd=os.path.join(src, d))

    sh(["./configure"])
    if not any(stale.values()):
        make_all()
    else:
        if not os.path.exists(SEED):
            raise BuildError("stale .wam files and no seed compiler")
        seed = os.path.join(src, "Pl2Wam", "pl2wam")
        shutil.copy(SEED, seed)
        os.utime(seed, (now - 10800, now - 10800))
        regen("Pl2Wam")
        regen("BipsPl")
        os.unlink(seed)
        make_all()
        regen("BipsPl")
        shutil.copy(seed, os.path.join(src, "Pl2Wam", "pl2wam0"))
        regen("Pl2Wam")
        for d in ("Fd2C", "EngineFD", "BipsFD"):
            sh(["make", "-C", d, "clean"])
        make_all()
    for f in ("TopComp/gprolog", "TopComp/gplc", "Pl2Wam/pl2wam", "BipsFD/libbips_fd.a"):
        if not os.path.exists(os.path.join(src, f)):
            raise BuildError("not built: " + f)


if __name__ == "__main__":
    print(get_build().root)
