"""Check runner: report collection, known findings, evidence."""
import json, os, sys, time, traceback
from . import ir
from .ir import AnalysisError, VERIF, relp

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.mins = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def note(self, s):
        if s not in self.notes and len(self.notes) < 60:
            self.notes.append(s)

    def violation(self, rule, fn, construct, where, msg):
        """fn: qualified function name; construct: what is wrong, without line numbers"""
        key = "%s|%s|%s" % (rule, fn, construct)
        self.viol.setdefault(key, (rule, fn, construct, where, msg))

    def atleast(self, what, n):
        """the analysis is vacuous (an error, not a pass) when fewer than n instances were found"""
        if self.counts.get(what, 0) < n:
            raise AnalysisError("%s: only %d %s found, expected at least %d - the rule's anchor is gone" %
                                (self.pid, self.counts.get(what, 0), what, n))

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError("%s: anchor not found: %s" % (self.pid, msg))


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid) and " key=" in l:
                rest = l.split(" key=", 1)[1]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from . import registry
    if pid not in registry.CHECKS:
        print("unknown property", pid)
        return 3
    R = Report(pid)
    R.tier = tier
    try:
        try:
            registry.CHECKS[pid](R)
        except AnalysisError as e:
            if not R.viol:
                raise
            R.note("analysis incomplete: %s" % e)
            print("note: analysis incomplete after the violations below: %s" % e)
        known = load_known(pid)
        new, old = [], []
        for key, v in sorted(R.viol.items()):
            (old if key in known else new).append((key, v))
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 3
    wall = time.time() - t0
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"explanation": "Static analysis of the current source of %s. Rules: %s" %
           (ir.REPO, " ".join("[%s] %s" % kv for kv in sorted(R.rules.items()))),
           "rules": len(R.rules)}
    for k, v in sorted(R.counts.items()):
        cov[k.replace(" ", "_")] = v
    cov["samples"] = R.samples or ["none"]
    if R.notes:
        cov["notes"] = R.notes
    cov["known_findings_seen"] = [k for k, _ in old]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "wall_s": round(wall, 2), "violations": len(new),
               "assumptions": ["The source parses with the include paths in sa/ir.py; third-party headers absent here are "
                               "declaration-only stand-ins in /verif/stubs.",
                               "Library functions behave as documented; calls through function pointers and virtual "
                               "calls with several overriders are not followed."]},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for key, v in old:
        print("KNOWN-FINDING: property=%s %s (%s: %s)" % (pid, known[key], v[3], v[4]))
    print("%s: %s; %.1f s" % (pid, ", ".join("%d %s" % (v, k) for k, v in sorted(R.counts.items())), wall))
    if new:
        rp = os.path.join(ev, pid + ".violations.txt")
        with open(rp, "w") as f:
            for key, (rule, fn, con, where, msg) in new:
                f.write("%s: rule %s, function %s: %s\n  rule: %s\n  key: %s\n" %
                        (where, rule, fn, msg, R.rules.get(rule, ""), key))
        for key, (rule, fn, con, where, msg) in new:
            print("  %s: [%s] %s: %s" % (where, rule, fn, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
