"""Shows a recorded violation again: the same history against the current code, or, for checks
without single histories, the check itself."""
import json
import core, explore


def main(path):
    d = json.load(open(path))
    pid, tier = d["property"], d["tier"]
    import check_rounds, check_rows, compare, rows
    bad = False
    single = False
    for v in d["violations"]:
        r = v.get("replay") or {}
        print("recorded: %s" % v["message"])
        if "world" not in r:
            continue
        if r.get("log"):
            print("log: %s" % r["log"])
        if pid in check_rounds.FAMILIES:
            ws = check_rounds.build(pid, tier)
            chk = explore.Check(compare.CHECKS[pid], states=pid in ("C09", "C10"), tokens=pid == "C04")
        elif pid in check_rows.FAMILIES:
            ws = check_rows.build(check_rows.FAMILIES[pid] + check_rows.HIDDEN + check_rows.MIX, tier)
            chk = explore.Check(per_batch=rows.compare(pid), states=False)
        else:
            continue
        w = {x.name: x for x in ws}.get(r["world"])
        if w is None:
            continue
        single = True
        devs = tuple(tuple(x) for x in r["deviations"])
        res = explore.Result()
        explore.check_batch(w, [(devs, w.run(devs))], chk, res)
        for _, _, msg in res.bad:
            bad = True
            print("again: %s" % msg)
        if not res.bad:
            print("not seen again on this history alone")
    if bad:
        return 1
    if single:
        print("trying the whole check")
    return core.main(pid, tier, 1)
