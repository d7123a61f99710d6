"""Verdicts, evidence and replay files of one check run."""
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class AnalysisBroken(Exception):
    """an anchor of the property (a documented class or function) is gone: no verdict is possible"""


class Check:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []      # dicts: rule, construct, detail
        self.undecided = {}       # reason -> count
        self.samples = []
        self.rule = ""
        self.evaluations = 0
        self.nontrivial = set()
        self.extra = {}
        self.assumptions = []
        self.functions = set()
        self.explanation = ""

    # ------------------------------------------------------------------ collecting
    def violation(self, rule, construct, detail, case=None):
        self.violations.append({"rule": rule, "construct": construct, "detail": detail, "case": case})

    def und(self, reason, n=1):
        self.undecided[reason] = self.undecided.get(reason, 0) + n

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def absorb(self, part):
        """merge the partial result of a worker"""
        for v in part.get("violations", ()):
            self.violations.append(v)
        for r, n in part.get("undecided", {}).items():
            self.und(r, n)
        for k, n in part.get("counts", {}).items():
            self.count(k, n)
        self.evaluations += part.get("evaluations", 0)
        self.nontrivial.update(part.get("nontrivial", ()))
        self.functions.update(part.get("functions", ()))
        for s in part.get("samples", ()):
            self.sample(s)

    # ------------------------------------------------------------------ finishing
    def finish(self):
        known = load_known(self.pid)
        fresh, listed = {}, {}
        for v in self.violations:
            key = "%s @ %s" % (v["rule"], v["construct"])
            hit = [k for k in known if k in key + " | " + v["detail"]]
            (listed if hit else fresh).setdefault(key, []).append(v)
        for key in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, key))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples[:8], "functions_analysed": sorted("%s:%s" % (f[0], f[1]) for f in self.functions),
               "undecided": sum(self.undecided.values()), "undecided_reasons": dict(sorted(self.undecided.items(), key=lambda kv: -kv[1])[:10])}
        if self.level == "other":
            cov["explanation"] = self.explanation or self.rule
        cov.update(self.extra)
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(fresh)}, f, indent=1, default=str)
        for r, n in sorted(self.undecided.items(), key=lambda kv: -kv[1])[:5]:
            print("UNDECIDED property=%s x%d: %s" % (self.pid, n, r))
        print("property=%s tier=%s analysed: %d partitions, %d distinct, %d functions, undecided %d, %.1fs" % (
            self.pid, self.tier, self.evaluations, len(self.nontrivial), len(self.functions), sum(self.undecided.values()), time.time() - self.t0))
        if fresh:
            path = os.path.join(ev, self.pid + ".replay.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violations": [{"rule_and_construct": k, "occurrences": len(v), "first": v[0]} for k, v in fresh.items()],
                           "how_to_replay": "cd /verif && python3 check.py %s --tier %s" % (self.pid, self.tier)}, f, indent=1, default=str)
            for k, v in list(fresh.items())[:8]:
                print("  %s\n    %s" % (k, v[0]["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


def load_known(pid):
    out = []
    try:
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    out.append(line.split(" ", 2)[2])
    except OSError:
        pass
    return out


class Part(dict):
    """partial result of a worker"""

    def __init__(self):
        dict.__init__(self, violations=[], undecided={}, counts={}, evaluations=0, nontrivial=set(), functions=set(), samples=[])

    def violation(self, rule, construct, detail, case=None):
        if len(self["violations"]) < 60:
            self["violations"].append({"rule": rule, "construct": construct, "detail": detail, "case": case})

    def und(self, reason, n=1):
        self["undecided"][reason] = self["undecided"].get(reason, 0) + n

    def count(self, k, n=1):
        self["counts"][k] = self["counts"].get(k, 0) + n


_work = None
_items = None
_deadline = None
BUDGET = {"quick": 300, "thorough": 780}     # seconds; what is left then is reported as undecided


def _call(r):
    try:
        if _deadline is not None and time.time() > _deadline:
            p = Part()
            p.und("time budget used up", r[1] - r[0])
            return p
        return _work(_items[r[0]:r[1]])
    except Exception:
        p = Part()
        p["error"] = traceback.format_exc()
        return p


def decided(check):
    """a violation was found some time ago: what is left cannot change the verdict"""
    return bool(check.violations) and time.time() > check.t0 + 60 and not load_known(check.pid)


def parallel(check, work, items, chunk=None, deadline=None):
    """run work(chunk_of_items) -> Part on all cores; items are picklable or inherited through fork"""
    global _work, _items, _deadline
    items = list(items)
    if not items or decided(check):
        return
    n = min(8, os.cpu_count() or 1)
    if chunk is None:
        chunk = max(1, min(200, len(items) // (n * 4) or 1))
    chunks = [(i, min(i + chunk, len(items))) for i in range(0, len(items), chunk)]
    _work, _items = work, items
    _deadline = deadline or check.t0 + BUDGET.get(check.tier, 300)
    errors = []
    if len(chunks) == 1 or n == 1:
        res = map(_call, chunks)
        for p in res:
            if "error" in p:
                errors.append(p["error"])
            check.absorb(p)
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n) as pool:
            for p in pool.imap_unordered(_call, chunks):
                if "error" in p:
                    errors.append(p["error"])
                check.absorb(p)
                if decided(check):
                    break
    for e in errors:
        if "AnalysisBroken" in e:
            raise AnalysisBroken(e.strip().splitlines()[-1])
        last = e.strip().splitlines()
        check.und("internal error of the analysis: %s" % " / ".join(last[-3:])[:300])
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(e)
