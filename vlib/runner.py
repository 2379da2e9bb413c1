"""Runs batches of cases through gprolog case servers, in parallel, with crash and hang recovery."""
import concurrent.futures
import ctypes
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import select
import tempfile
import time

CRASH = "CRASH"
HANG = "HANG"
SKIPPED = "SKIPPED"      # not run: the process had died too often


_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


def cpu(pid):
    """processor time used so far by one of our own children"""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


# deaths (crashes, hangs) seen by all the processes of this check: a tree on which there are many is
# broken, and exploring on would take hours
DEATHS = multiprocessing.Value("i", 0)
MAX_DEATHS = 12


# documented remark of the finite domain solver on standard output, not part of an answer
NOISE = re.compile(r"Warning: Vector too small - maybe lost solutions \(FD Var:_\d+\)\n")


class Server:
    """exe: a program reading `c(Id,Max,Tmpl,Goal).` terms (see pl/srv.pl)."""

    def __init__(self, exe, env, prelude="", timeout=10, cwd=None, args=()):
        """timeout: seconds without any output after which the process counts as hung"""
        self.exe, self.env, self.prelude, self.timeout, self.cwd = exe, env, prelude, timeout, cwd
        self.args = list(args)

    def _go(self, text, idle):
        with tempfile.TemporaryFile() as fin:
            fin.write(text.encode("utf-8"))
            fin.seek(0)
            p = subprocess.Popen([self.exe, *self.args], stdin=fin, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd,
                                 start_new_session=True, preexec_fn=die_with_parent)
        fd = p.stdout.fileno()
        out = []
        hang = False
        t0, c0 = time.monotonic(), 0.0
        while True:
            r, _, _ = select.select([fd], [], [], 0.5)
            if r:
                data = os.read(fd, 1 << 16)
                if not data:
                    break
                out.append(data)
                t0, c0 = time.monotonic(), cpu(p.pid)
                continue
            wall = time.monotonic() - t0
            # a loaded machine is not a hang: either it has burnt the time, or it sleeps for much longer
            if wall > idle and (cpu(p.pid) - c0 > idle * 0.7 or wall > 4 * idle):
                hang = True
                break
        if hang:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.stdout.close()
        p.wait()
        return p.returncode, hang, NOISE.sub("", b"".join(out).decode("utf-8", "replace"))

    def _parse(self, out, res):
        last = None
        for line in out.split("\n"):
            m = re.match(r"(\d+)(?:\t(.*))?$", line)
            if m:
                if m.group(2) is not None:
                    res[int(m.group(1))] = m.group(2)
                last = int(m.group(1))
        return last

    def run(self, cases):
        """cases: list of (max, template, goal) texts.  Returns the list of result texts."""
        res = {}
        start = 0
        deaths = 0
        flush = False
        n = len(cases)
        while start < n:
            if DEATHS.value > MAX_DEATHS:
                for i in range(start, n):
                    res.setdefault(i, SKIPPED)
                break
            body = [self.prelude]
            if flush:
                body.append("fl.\n")
            end = min(n, start + (400 if flush else n))
            for i in range(start, end):
                mx, t, g = cases[i]
                body.append("c(%d,%d,%s,(%s)).\n" % (i, mx, t, g))
            part = {}
            rc, hang, out = self._go("".join(body), self.timeout)
            self._parse(out, part)
            ok = rc == 0 and not hang
            # only contiguous complete lines are believed
            done = start
            while done < end and done in part:
                res[done] = part[done]
                done += 1
            if ok and done == end:
                start = end
                flush = False
                continue
            if not flush:
                # repeat the rest with a flush after every case, to see where it stops
                start = done if ok else max(start, done - 1)
                flush = True
                continue
            if done < end:
                # the case at `done` did not complete: alone, in a fresh process, with a long limit
                mx, t, g = cases[done]
                one = {}
                rc, hang, out = self._go(self.prelude + "fl.\nc(%d,%d,%s,(%s)).\n" % (done, mx, t, g),
                                         self.timeout)
                self._parse(out, one)
                if done in one and rc == 0 and not hang:
                    # only dies after the cases before it
                    res[done] = one[done] if deaths < 3 else CRASH + ":sequence"
                    deaths += 1
                else:
                    tail = out.strip().split("\n")[-1][-200:] if out else ""
                    res[done] = (HANG if hang else "%s:%d" % (CRASH, rc)) + " " + tail
                    deaths += 1
                start = done + 1
                with DEATHS.get_lock():
                    DEATHS.value += 1
            else:
                start = end
                flush = False
        return [res.get(i, "MISSING") for i in range(n)]


_JOBS = {}


def _call(key):
    fn, items = _JOBS[key[0]]
    return fn(items[key[1]])


def parmap(fn, items, workers=None):
    """Process-parallel map, in order.  The workers are forked after the items are known, so
    neither the function nor the items have to be picklable; the results have to be."""
    workers = workers or min(8, os.cpu_count() or 1)
    items = list(items)
    if len(items) <= 1 or workers == 1:
        return [fn(i) for i in items]
    k = len(_JOBS)
    _JOBS[k] = (fn, items)
    try:
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork")) as ex:
            return list(ex.map(_call, [(k, i) for i in range(len(items))]))
    finally:
        _JOBS[k] = None


def shards(n, k):
    """k contiguous ranges covering range(n)"""
    k = max(1, min(k, n))
    q, r = divmod(n, k)
    out, a = [], 0
    for i in range(k):
        b = a + q + (1 if i < r else 0)
        out.append((a, b))
        a = b
    return out
