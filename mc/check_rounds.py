"""C04-C10, C23: every history of the round worlds, real conversion against the reference."""
import compare, explore, reallog, worlds
from core import Outcome, check
from explore import Check

ALL8 = worlds.ALLK


def fam(name, quick=None, **kw):
    """a family; quick overrides for the quick tier"""
    def make(tier):
        args = dict(kw)
        if tier == "quick" and quick:
            args.update(quick)
        return (reallog.real if name == "real" else getattr(worlds, name))(**args)
    return make


# families used by each property; (family, quick-tier arguments)
SWEEPS = [fam("discard_sweep"), fam("call_sweep"), fam("kan_sweep")]
GENERAL = fam("general", quick=dict(ks=(0, 1, 2, 3)))
# recorded games: every other call, kan, riichi and win than the recorded one (thorough: every other move)
REAL = fam("real", depth=(1, 1), quick=dict(alphabet=("riichi", "ron", "tsumo", "call", "kan")))
LONGEST = fam("longest", quick=dict(ks=(0,)))
FAMILIES = {
    "C04": [REAL, fam("crowded"), LONGEST, GENERAL, fam("manykans"), fam("kans"), fam("calls"), fam("riichi_order"), fam("riichi"), fam("discard_sweep"), fam("call_sweep"),
            fam("kan_sweep"), fam("whole"), fam("chankan", quick=dict(ks=(0, 1)))],
    "C05": [REAL, fam("crowded"), fam("countdown"), LONGEST, fam("call_sweep"), fam("cross_sweep"), fam("calls"), fam("manykans"), fam("wallend"), fam("riichi"), fam("riichi_order"), GENERAL, fam("whole")],
    "C06": [REAL, fam("crowded"), fam("countdown"), LONGEST, fam("manykans"), fam("kans"), fam("kan_sweep"), fam("exchange_sweep", quick=dict(every=3)), fam("wallend"), fam("riichi"), fam("riichi_kan"), fam("riichi_order"),
            fam("rinshan", quick=dict(ks=(0, 5))), fam("chankan", quick=dict(ks=(2,))), GENERAL],
    "C07": [REAL, fam("crowded"), fam("countdown"), fam("one_yaku"), fam("extra_rounds"), fam("kan_yaku"), fam("ron_sweep"), fam("chankan_passed"), fam("exchange_sweep", quick=dict(every=7)), fam("lasttile", quick=dict(ks=(0, 1, 6, 7))), fam("rinshan", quick=dict(ks=(0, 2, 5, 7))), fam("chankan"),
            fam("furiten"), fam("manykans", quick=dict(ks=(1,))), fam("firstturn"), fam("multiron"), fam("riichi"), fam("riichi_order"), fam("riichi_kan"), fam("general", quick=dict(ks=(1,)))],
    "C08": [REAL, fam("crowded", depth=(1, 1)), fam("countdown", depth=(1, 1), quick=dict(lefts=(0, 1))), LONGEST, fam("manykans"), fam("kans", quick=dict(ks=(1,))), fam("multiron"), fam("chankan", quick=dict(ks=(0, 3))), fam("calls"), fam("call_sweep"), fam("kan_sweep"), fam("riichi"),
            fam("riichi_order"), fam("riichi_kan"), fam("firstturn"), fam("furiten", quick=dict(ks=(0, 2))), GENERAL],
    "C09": [REAL, fam("crowded"), fam("countdown"), LONGEST, GENERAL, fam("manykans"), fam("kans"), fam("kan_sweep"), fam("discard_sweep"), fam("call_sweep"), fam("whole"), fam("wallend"),
            fam("chankan", quick=dict(ks=(0, 3))), fam("rinshan", quick=dict(ks=(1,)))],
    "C10": [REAL, fam("crowded"), fam("countdown"), LONGEST, fam("riichi"), fam("riichi_order"), fam("riichi_kan"), fam("manykans"), fam("kans"), fam("kan_sweep"), GENERAL, fam("whole"), fam("wallend"),
            fam("multiron"), fam("chankan", quick=dict(ks=(0, 3))), fam("rinshan", quick=dict(ks=(0, 6)))],
    "C23": [REAL, fam("crowded"), fam("countdown"), LONGEST, GENERAL, fam("calls"), fam("manykans"), fam("kans"), fam("kan_sweep"), fam("discard_sweep"), fam("call_sweep"), fam("riichi"), fam("riichi_order"),
            fam("riichi_kan"), fam("firstturn"), fam("multiron"), fam("chankan", quick=dict(ks=(0, 1))), fam("rinshan", quick=dict(ks=(0,))),
            fam("wallend"), fam("whole")],
}
BOUNDS = "every history with at most D deviations from the default or scripted play of each world (D per family: 0-2 quick, 1-3 thorough)"
ASSUME = ["the reference model of a round (mc/game.py, mc/rules.py) states Tenhou's rules; its yaku evaluation agrees with the mahjong library on 374k hands",
          "not generated: robbing a concealed kan, a round going on after four kans of several players, swap calling that leaves no legal discard"]


def build(pid, tier):
    ws, seen = [], set()
    for f in FAMILIES[pid]:
        for w in f(tier):
            if w.name not in seen:
                seen.add(w.name)
                ws.append(w)
    return ws


def coverage(res, ws):
    return dict(states=len(res.seen), transitions=res.events, traces_validated_against_impl=res.histories,
                decision_points_compared=res.points, documents_converted=res.docs, worlds=len(ws), situations=dict(sorted(res.stats.items())),
                bounds=BOUNDS, exhaustive=True, samples=[res.sample or {"world": ws[0].name}])


def violations(res, ws):
    by = {w.name: w for w in ws}
    out = []
    for name, devs, msg in res.bad:
        r = {}
        if name in by:
            try:
                w = by[name]
                h = w.run(devs)
                from game import document
                r = dict(world=name, deviations=devs, actions=h.trace, go=w.go, log=document([h.xml()], w.go))
            except Exception as ex:
                r = dict(world=name, deviations=devs, note="%s" % ex)
        out.append(dict(ident="%s:%s" % (name, devs), message="%s %s: %s" % (name, list(devs), msg), replay=r))
    return out


def run_rounds(pid, tier, chk):
    ws = build(pid, tier)
    n = reallog.confirm()
    res = explore.explore(ws, chk, tier)
    if not res.bad:
        res.bad += [(name, (), msg) for name, msg in reallog.original(chk)][:10]
    cov = coverage(res, ws)
    cov["recorded_events_reproduced_by_the_model"] = n
    return Outcome(cov, violations(res, ws), ASSUME)


def _register(pid):
    states = pid in ("C09", "C10")

    @check(pid, "model_checking", "explicit-state bounded exploration of a reference round model, every trace replayed on the real converter")
    def f(tier, seed):
        return run_rounds(pid, tier, Check(compare.CHECKS[pid], states=states, tokens=pid == "C04"))


for _p in sorted(FAMILIES):
    _register(_p)
