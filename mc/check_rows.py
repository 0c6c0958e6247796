"""C16, C17, C18: the training rows of every decision point of every history."""
import explore, rows
from check_rounds import ASSUME, coverage, fam, violations
from core import Outcome, check
from explore import Check

HOW = "explicit-state bounded exploration of a reference round model; every history is converted and turned into rows by the real code and compared row by row"
def thin(f, n):
    """every n-th world in the quick tier"""
    return lambda tier: f(tier)[::n] if tier == "quick" else f(tier)


# full games are long; the worlds here are those in which every kind of row appears
FAMILIES = {
    "C16": [thin(fam("call_sweep"), 3), thin(fam("kan_sweep"), 1), thin(fam("discard_sweep"), 3), fam("multiron", quick=dict(ks=(0, 3), depth=(1, 2))), thin(fam("crowded", depth=(0, 0)), 3),
            fam("chankan", quick=dict(ks=(1,), depth=(0, 1))), fam("firstturn", quick=dict(ks=(0, 3))),
            fam("riichi_order", quick=dict(ks=(2,))), fam("riichi_kan", quick=dict(ks=(1,))), fam("kans", quick=dict(ks=(0,), depth=(0, 1))), fam("manykans", quick=dict(ks=(0,), depth=(0, 1))), fam("whole", quick=dict(ks=(0, 5))), fam("longest", quick=dict(ks=(0,)), depth=(0, 0)), fam("real", depth=(0, 0))],
}
FAMILIES["C18"] = FAMILIES["C16"]
FAMILIES["C17"] = FAMILIES["C16"]
HIDDEN = [fam("riichi_order", quick=dict(ks=(1,))), fam("multiron", quick=dict(ks=(2,), depth=(1, 2))), fam("chankan", quick=dict(ks=(0, 3), depth=(0, 1))),
          fam("kans", quick=dict(ks=(3,), depth=(0, 1))), fam("firstturn", quick=dict(ks=(1, 2))), fam("calls", quick=dict(ks=(0, 1), depth=(0, 1))),
          fam("wallend", quick=dict(ks=(0,), depth=(0, 1))), fam("whole", quick=dict(ks=(2, 7)))]
MIX = [fam("multiron", quick=dict(ks=(1,), depth=(0, 1))), fam("kans", quick=dict(ks=(1,), depth=(0, 0))), fam("firstturn", quick=dict(ks=(2,), depth=(0, 1))),
       fam("riichi_order", quick=dict(ks=(0,), depth=(0, 1))), fam("whole", quick=dict(ks=(1,)))]


def build(fams, tier):
    ws, seen = [], set()
    for f in fams:
        kw = {}
        for w in f(tier):
            if w.name not in seen:
                seen.add(w.name)
                ws.append(w)
    return ws


def merge(a, b):
    a.add(b)
    return a


def sizes(n):
    """the rounds of a batch as games of one, two and three rounds"""
    out, i = [], 0
    while n:
        k = min(n, (1, 2, 3)[i % 3])
        out.append(k)
        n -= k
        i += 1
    return out


def run(pid, tier, parts):
    total, ws_ = None, []
    for fams, f in parts:
        ws = build(fams, tier)
        res = explore.explore(ws, Check(per_batch=f, states=False), tier)
        total = res if total is None else merge(total, res)
        ws_ += ws
    cov = coverage(total, ws_)
    cov["model_families"] = list(rows.FAMS)
    return Outcome(cov, violations(total, ws_), ASSUME)


@check("C16", "model_checking", HOW)
def c16(tier, seed):
    return run("C16", tier, [(FAMILIES["C16"], rows.compare("C16", games=sizes)), (MIX, rows.unmixed)])


@check("C17", "model_checking", HOW + "; every history is also converted with the tiles a player cannot see renamed, and the player's rows are compared")
def c17(tier, seed):
    return run("C17", tier, [(FAMILIES["C17"], rows.compare("C17", games=sizes)), (HIDDEN, rows.hidden(("reversed",) if tier == "quick" else ("reversed", "rotated")))])


@check("C18", "model_checking", HOW)
def c18(tier, seed):
    return run("C18", tier, [(FAMILIES["C18"], rows.compare("C18", games=sizes))])
