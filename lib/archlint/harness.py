"""Common frame of all checks: evidence, known findings, verdict."""
import json, os, sys, time, traceback, hashlib
from . import program as P, meta
from .program import VERIF, REPO, CheckError


class Check:
    def __init__(self, pid):
        m = meta.get(pid)
        self.pid = pid; self.rule = m["rule"]; self.level = m["level"]; self.assumptions = list(m["assumptions"])
        self.t0 = time.time()
        self.viol = []          # (ident, message, details)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.known = self._known()

    def _known(self):
        p = VERIF + "/known_findings.json"
        if not os.path.exists(p): return []
        return [x for x in json.load(open(p)) if x.get("property") == self.pid and x.get("status") == "known"]

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit: self.samples.append(s)

    def require(self, what, minimum=1):
        """An anchor that vanished is an error of the check, never a pass."""
        if self.counts.get(what, 0) < minimum:
            raise CheckError(f"{self.pid}: only {self.counts.get(what, 0)} instances of '{what}' found (expected at least {minimum}); "
                             "the rule no longer matches this code")

    def violation(self, ident, message, **details):
        """ident: stable identification (no line numbers)"""
        for v in self.viol:
            if v[0] == ident:
                return
        self.viol.append((ident, message, details))

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
        known = {k["ident"]: k for k in self.known}
        new = [v for v in self.viol if v[0] not in known]
        old = [v for v in self.viol if v[0] in known]
        for v in old:
            print(f"KNOWN-FINDING: property={self.pid} {v[0]}: {known[v[0]].get('what', v[1])}")
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        replay = f"{VERIF}/evidence/{self.pid}.violations.json"
        with open(replay, "w") as fh:
            json.dump([dict(ident=a, message=b, **c) for a, b, c in new], fh, indent=1, default=str)
        total = sum(v for k, v in self.counts.items())
        cov = {"explanation": self.rule, "instances": self.counts, "samples": self.samples or ["(none)"],
               "obligations": self.counts.get("obligations", total), "discharged": self.counts.get("obligations", total) - len(self.viol),
               "checker_cmd": f"checks/{self.pid}.py", "trusted_base": ["clang 18 front end (type checking, template instantiation, CFG)", "tool/astx.cpp", "lib/archlint"],
               "notes": self.notes}
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        tmp = f"{VERIF}/evidence/{self.pid}.json"
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"[{self.pid}] " + ", ".join(f"{k}={v}" for k, v in self.counts.items()) + f"; violations={len(new)}, known={len(old)}; {time.time() - self.t0:.1f}s")
        if new:
            for a, b, c in new:
                print(f"  {b}")
                for k, v in c.items():
                    print(f"      {k}: {v}")
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        return 0


class _Probe:
    """stand-in for Check that only collects violations"""
    def __init__(self): self.viol = []; self.counts = {}; self.notes = []
    def count(self, *a): pass
    def sample(self, *a, **k): pass
    def require(self, *a): pass
    def violation(self, ident, message, **d): self.viol.append((ident, message, d))


def selftest(c, scan, name=None):
    """Run the rule on selftest/<property>.cpp: it must report exactly the lines that are marked `// BAD`."""
    import re
    path = f"{VERIF}/selftest/{name or c.pid}.cpp"
    bad = {i + 1 for i, l in enumerate(open(path)) if "// BAD" in l}
    prog = P.load([path], roots=[VERIF + "/selftest/"], verbose=False)
    pr = _Probe()
    scan(prog, pr)
    got = set()
    for a, b, d in pr.viol:
        m = re.search(re.escape(os.path.basename(path)) + r":(\d+)", b)
        if m: got.add(int(m.group(1)))
    if got != bad:
        raise CheckError(f"{c.pid}: self-test: expected reports on lines {sorted(bad - got)} are missing, reports on lines {sorted(got - bad)} are wrong")
    c.count("self-test constructs recognised", len(bad))


def main(fn):
    try:
        sys.setrecursionlimit(20000)
        rc = fn()
        P.prune_cache()
        sys.exit(rc)
    except CheckError as e:
        print(f"CHECK-ERROR: {e}")
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR: internal error")
        sys.exit(2)
