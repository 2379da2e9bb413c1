"""C30: line editing shows and returns the line the keys define.

linedit.c, terminal.c and completion.c, compiled with the address and undefined-behaviour sanitizers, run under a
scripted keyboard and an emulated terminal (linker wraps of read, write, ioctl, select, ...). Every sequence of keys of
a given length over each alphabet, from several starting situations, screen widths and buffer sizes; after every key
the line, the cursor, every cell of the screen, the beeps are those of an abstract editor."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib.build import get_build
from vlib.report import Check
from vlib.runner import die_with_parent

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = "read write ioctl tcgetattr tcsetattr isatty fcntl sigaction signal select usleep malloc free realloc calloc strdup".split()
# scenario, depth quick, depth thorough, width, size of the buffer, terminal wraps at once, parts
JOBS = [("edit", 4, 5, 80, 64, 0, 16), ("edit", 3, 4, 5, 64, 0, 4), ("edit", 3, 4, 7, 64, 1, 4), ("edit", 3, 4, 4, 12, 0, 4), ("edit", 3, 4, 2, 64, 1, 4),
        ("small", 4, 5, 80, 6, 0, 4), ("small", 4, 5, 4, 7, 1, 4), ("small", 4, 5, 80, 2, 0, 2), ("small", 3, 4, 80, 1, 0, 1),
        ("hist", 4, 6, 80, 64, 0, 12), ("hist", 4, 5, 4, 64, 1, 4), ("hist", 4, 5, 80, 5, 0, 4), ("ring", 3, 4, 80, 64, 0, 8),
        ("compl", 4, 6, 80, 64, 0, 4), ("compl", 4, 5, 9, 64, 0, 4), ("compl", 4, 5, 20, 6, 1, 4), ("many", 5, 7, 80, 64, 0, 2), ("many", 4, 6, 40, 64, 1, 2),
        ("misc", 4, 6, 80, 64, 0, 4), ("misc", 3, 5, 6, 64, 0, 1), ("forms", 3, 4, 80, 64, 0, 4), ("forms", 3, 4, 6, 64, 1, 4), ("chars", 2, 3, 80, 64, 0, 2),
        ("brackets", 5, 7, 80, 64, 0, 4), ("brackets", 5, 6, 5, 64, 0, 2), ("long", 1, 2, 80, 10240, 0, 8),
        ("paste", 6, 8, 80, 12, 0, 4), ("paste", 6, 8, 5, 5, 0, 4), ("paste", 6, 8, 80, 64, 1, 4)]


def main():
    ck = Check("C30")
    b = get_build()
    d = os.path.join(b.root, "rng-le-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    x = os.path.join(d, "le")

    def sh(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            ck.violate("compile", " ".join(cmd)[:300] + "\n" + p.stdout[-3000:])
        return p.returncode == 0
    fl = ["-O1", "-U_FORTIFY_SOURCE", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    objs = []
    for f in ("Linedit/linedit", "Linedit/terminal", "Linedit/completion", "Tools/rbtree"):
        o = os.path.join(d, os.path.basename(f) + ".o")
        objs.append(o)
        inc = ["-I" + os.path.join(b.src, q) for q in ("EnginePl", "Tools", "Linedit")]
        if not sh(["gcc", "-c", "-fcommon"] + fl + inc + [os.path.join(b.src, f + ".c"), "-o", o]):
            return ck.finish(rule="")
        sh(["objcopy", "--rename-section", ".data=ledata", "--rename-section", ".bss=lebss", o])
    if not sh(["g++"] + fl + ["-o", x, os.path.join(HERE, "c30", "le.cc")] + objs + ["-Wl,--wrap=" + w for w in WRAP]):
        return ck.finish(rule="")
    jobs = [(sc, ck.pick(dq, dt), w, sz, wr, k, n) for sc, dq, dt, w, sz, wr, n in JOBS for k in range(n)]
    jobs.sort(key=lambda j: j[0] not in ("edit", "hist"))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0", TERM="xterm")
    seen = {}

    def one(a):
        if sum(seen.values()) > 20:
            return a, "skipped"
        try:
            return a, subprocess.run([x] + [str(q) for q in a], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=ck.pick(150, 7200), env=env, preexec_fn=die_with_parent)
        except subprocess.TimeoutExpired:
            return a, None
    with ThreadPoolExecutor(8) as ex:
        for a, r in ex.map(one, jobs):
            key = "%s, %d keys, %d columns, buffer of %d, wrap %d" % a[:5]
            if r == "skipped":
                continue
            if r is None or r.returncode or "bad=0" not in r.stdout:
                seen[key] = seen.get(key, 0) + 1
                if seen[key] == 1:
                    ck.violate(key, "run le %s: %s" % (" ".join(map(str, a)), "no end" if r is None else "exit %d\n%s" % (r.returncode, r.stdout[:4000])))
                continue
            kv = dict(q.split("=") for q in r.stdout.split("DONE")[1].split() if "=" in q)
            ck.add(states=int(kv["states"]), transitions=int(kv["trans"]), traces_validated_against_impl=int(kv["states"]))
            ck.outcome(key)
            ck.sample("%s: %s" % (key, r.stdout.strip()))
    return ck.finish(rule="states = sequences of keys; transitions = keys after which line, cursor, screen and beeps were compared with the abstract editor's")
