"""Running a check: evidence, known findings, violations."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {}
CHECKS = {}


class Outcome:
    def __init__(self, coverage=None, violations=(), assumptions=()):
        self.coverage = coverage or {}
        self.violations = list(violations)   # dicts: ident, message, replay (anything JSON)
        self.assumptions = list(assumptions)


class Violation(Exception):
    """raised by a check that cannot go on"""
    def __init__(self, ident, message, **replay):
        self.v = dict(ident=ident, message=message, replay=replay)
        super().__init__(message)


def check(pid, level, technique):
    def deco(f):
        CHECKS[pid] = (f, level, technique)
        return f
    return deco


def known_findings():
    """open findings: {property: [(ident prefix, text)]}"""
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                out.setdefault(kv["property"], []).append((kv["ident"], text.strip()))
    return out


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        return x.tolist()
    return str(x)


def main(pid, tier, seed):
    f, level, _ = CHECKS[pid]
    t0 = time.time()
    try:
        out = f(tier, seed)
    except Violation as v:
        out = Outcome(dict(evaluations=1, distinct_nontrivial=1, rule="stopped at the first violation", samples=[v.v["message"]],
                           states=1, transitions=1, traces_validated_against_impl=0), [v.v])
    except Exception as ex:  # the code under test does not even load or a harness call into it fails
        import impl
        tb = traceback.extract_tb(ex.__traceback__)
        msg = "%s: %s" % (type(ex).__name__, ex)
        at = " <- ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:]))
        out = Outcome(dict(evaluations=1, distinct_nontrivial=1, rule="stopped at an unexpected failure", samples=[msg],
                           states=1, transitions=1, traces_validated_against_impl=0),
                      [dict(ident="exception", message="unexpected %s (%s)" % (msg, at), replay={"traceback": traceback.format_exc()})])
    known = known_findings().get(pid, [])
    fresh, listed = [], {}
    for v in out.violations:
        for ident, text in known:
            if v["ident"] == ident:
                listed[ident] = text
                break
        else:
            fresh.append(v)
    for ident, text in listed.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=plain(out.coverage),
              assumptions=out.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not fresh:
        c = ev["coverage"]
        print("%s held: %s (%.1f s)" % (pid, ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, int)), ev["wall_s"]))
        return 0
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as fh:
        json.dump(plain(dict(property=pid, tier=tier, violations=fresh[:10])), fh, indent=1)
    for v in fresh[:5]:
        print("%s: %s" % (pid, v["message"][:1000]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
