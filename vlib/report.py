"""Verdicts, evidence files, known findings."""
import json
import os
import signal
import sys
import time
import traceback

# what is run must not inherit ignored signals (a check started in the background)
for _s in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD):
    signal.signal(_s, signal.SIG_DFL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, ".work", "replay")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"samples": []}
        self.counts = {}
        self.assumptions = []
        self.violations = []      # (key, text)
        self.outcomes = {}
        self.exhaustive = True

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def outcome(self, o, n=1):
        self.outcomes[o] = self.outcomes.get(o, 0) + n

    def sample(self, s, cap=12):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def violate(self, key, text):
        """key identifies the failing input/history; text is the replay artefact"""
        self.violations.append((key, text))

    def finish(self, **cov):
        known = {}
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            for f in json.load(open(path)).get("findings", []):
                if f["property"] == self.pid:
                    known[f["key"]] = f["what"]
        new = []
        seen_known = {}
        for k, t in self.violations:
            if k in known:
                seen_known[k] = known[k]
            else:
                new.append((k, t))
        c = dict(self.cov)
        c.update(self.counts)
        c.update(cov)
        if self.outcomes:
            top = sorted(self.outcomes.items(), key=lambda kv: -kv[1])
            c["distinct_outcomes"] = len(self.outcomes)
            c["outcome_histogram"] = {str(k)[:80]: v for k, v in top[:15]}
        c.setdefault("exhaustive", self.exhaustive)
        if not c["samples"]:
            c["samples"] = ["(none)"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": c, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k, w in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        stale = [k for k in known if k not in seen_known]
        for k in stale:
            print("note: known finding not seen in this run: %s" % k)
        print("%s %s: %s wall=%.1fs" % (self.pid, self.tier, {k: v for k, v in c.items() if isinstance(v, int)},
                                       time.time() - self.t0))
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            p = os.path.join(REPLAYS, "%s.txt" % self.pid)
            with open(p, "w") as f:
                for k, t in new[:200]:
                    f.write("=== %s\n%s\n" % (k, t))
                f.write("total new violations: %d\n" % len(new))
            for k, t in new[:5]:
                print("--- %s\n%s" % (k, t[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.stdout.flush()
            return 1
        return 0
