"""C36: every single edit of an event of a recorded round; where somebody then uses a tile that
is not in hand, the log must not be converted."""
import re
import explore, impl, worlds
from core import Outcome, check
from game import DISC, DRAW, document
from rules import all_codes, decode

EVENT = re.compile(r"<[^>]*/>")
TILE = re.compile(r"<([TUVWDEFG])(\d+)\s*/>")
FIELD = re.compile(r"([A-Za-z0-9]+)=\"([^\"]*)\"")
CODES = {}


def wrong(events):
    """what is impossible about the hands in a round, or None"""
    at = dict(FIELD.findall(events[0]))
    hands = [[int(t) for t in at["hai%d" % p].split(",")] for p in range(4)]
    for p in range(4):
        if len(hands[p]) != 13 or len(set(hands[p])) != 13:
            return "player %d is not dealt thirteen tiles" % p
    hands = [set(h) for h in hands]
    throw = None      # who must throw
    for e in events[1:]:
        m = TILE.match(e)
        tag = e[1:].split(" ")[0].split("/")[0]
        if m and m.group(1) in DRAW:
            p, t = DRAW.index(m.group(1)), int(m.group(2))
            if throw is not None:
                return "player %d draws while player %d has to throw" % (p, throw)
            if t in hands[p]:
                return "player %d draws tile %d, which is in hand" % (p, t)
            hands[p].add(t)
            throw = p
        elif m:
            p, t = DISC.index(m.group(1)), int(m.group(2))
            if throw is None:
                return "player %d throws without a draw or a call" % p
            if t not in hands[p]:
                return "player %d throws tile %d, which is not in hand" % (p, t)
            if throw != p:
                return "player %d throws while player %d has to" % (p, throw)
            hands[p].discard(t)
            throw = None
        elif tag == "N":
            at = dict(FIELD.findall(e))
            p, c = int(at["who"]), decode(int(at["m"]))
            for t in c.hand:
                if t not in hands[p]:
                    return "player %d makes %r without tile %d" % (p, c, t)
                hands[p].discard(t)
            if c.fam in ("chi", "pon"):
                if c.taken in hands[p]:
                    return None      # an odd log, but no player uses what is not there
                hands[p].add(c.taken)
                hands[p].discard(c.taken)
                throw = p
            else:
                throw = None
        elif tag in ("AGARI", "RYUUKYOKU"):
            return None
    return None


def edits(E, deep):
    """(name, events): every single edit"""
    n = len(E) - 1
    for i in range(1, n):
        yield "event %d left out" % i, E[:i] + E[i + 1:]
        yield "event %d twice" % i, E[:i + 1] + E[i:]
        for j in range(i + 1, n if deep else min(n, i + 4)):
            yield "events %d and %d exchanged" % (i, j), E[:i] + [E[j]] + E[i + 1:j] + [E[i]] + E[j + 1:]
        m = TILE.match(E[i])
        if m:
            side = DRAW if m.group(1) in DRAW else DISC
            for t in range(136):
                if t != int(m.group(2)):
                    yield "tile %d in event %d" % (t, i), E[:i] + ["<%s%d/>" % (m.group(1), t)] + E[i + 1:]
            for c in side:
                if c != m.group(1):
                    yield "player %d in event %d" % (side.index(c), i), E[:i] + ["<%s%s/>" % (c, m.group(2))] + E[i + 1:]
        elif E[i].startswith("<N "):
            at = dict(FIELD.findall(E[i]))
            own = decode(int(at["m"]))
            for p in range(4):
                if p != int(at["who"]):
                    yield "player %d in event %d" % (p, i), E[:i] + [E[i].replace('who="%s"' % at["who"], 'who="%d"' % p)] + E[i + 1:]
            for fam in CODES:
                for k, m in enumerate(CODES[fam]):
                    if m != int(at["m"]) and (deep or fam == own.fam or k % 17 == 0):
                        yield "call %r in event %d" % (m, i), E[:i] + [E[i].replace('m="%s"' % at["m"], 'm="%d"' % m)] + E[i + 1:]
    at = dict(FIELD.findall(E[0]))
    for p in range(4):
        h = at["hai%d" % p].split(",")
        def dealt(x):
            return [E[0].replace('hai%d="%s"' % (p, at["hai%d" % p]), 'hai%d="%s"' % (p, ",".join(x)))] + E[1:]
        for i in range(13):
            yield "tile %d of player %d missing" % (i, p), dealt(h[:i] + h[i + 1:])
            yield "tile %d of player %d twice" % (i, p), dealt(h[:i + 1] + h[i:])
            for j in range(13):
                if i != j:
                    yield "tile %d of player %d also for tile %d" % (i, p, j), dealt(h[:j] + [h[i]] + h[j + 1:])
            for t in range(136):
                if str(t) not in h:
                    yield "tile %d of player %d is %d" % (i, p, t), dealt(h[:i] + [str(t)] + h[i + 1:])
        extra = [t for t in range(136) if str(t) not in h]
        for t in extra:
            yield "player %d is dealt %d too" % (p, t), dealt(h + [str(t)])


POOL = []


def pool(tier):
    pick = {}
    for fam, kw, n in (("general", dict(ks=(0, 1)), 3), ("calls", dict(ks=(0,)), 2), ("kans", dict(ks=(0,)), 4), ("chankan", dict(ks=(0,)), 1),
                       ("riichi_order", dict(ks=(2,)), 2), ("riichi_kan", dict(ks=(1,)), 2), ("multiron", dict(ks=(3,)), 1)):
        ws = sorted((w for w in getattr(worlds, fam)(**kw)), key=lambda w: w.name)
        ws = [ws[i * len(ws) // n] for i in range(n)] if tier == "quick" else ws[:: max(1, len(ws) // (6 * n))]
        for w in ws:
            pick[w.name] = w
    out = []
    for w in pick.values():
        xml = w.run(()).xml()
        out.append((w.name, EVENT.findall(xml)))
    return out


def _round(job):
    i, lo, hi, deep, first = job
    name, E = POOL[i]
    n, bad = 0, []
    for j, (what, E2) in enumerate(edits(E, deep)):
        if not lo <= j < hi:
            continue
        w = wrong(E2)
        if w is None:
            continue
        parts = ["".join(E2)]
        if j % 11 == 0:
            parts = [first] + parts
        elif j % 11 == 5:
            parts = parts + [first]
        n += 1
        try:
            with impl.watchdog(60):
                kind, x = impl.try_convert(impl.write("odd.xml", document(parts, 169)))
        except impl.Hang:
            bad.append("%s, %s: the conversion does not end" % (name, what))
            break
        if kind == "ok":
            bad.append("%s, %s: converted although %s" % (name, what, w))
            break
    return name, n, bad


@check("C36", "model_checking", "exhaustive enumeration of single edits (every event left out, doubled, exchanged, moved to another seat, given every other tile or call; every change of the deal) of explored rounds, each converted by the real code")
def c36(tier, seed):
    deep = tier != "quick"
    for m in all_codes():
        c = decode(m)
        CODES.setdefault(c.fam, []).append(m)
    POOL[:] = pool(tier)
    out, jobs, plain = [], [], 0
    for i, (name, E) in enumerate(POOL):
        if wrong(E) or impl.try_convert(impl.write("whole.xml", document(["".join(E)], 169)))[0] != "ok":
            return Outcome(dict(states=1, transitions=1, traces_validated_against_impl=0),
                           [dict(ident="whole", message="%s is not converted as it is (%s)" % (name, wrong(E)), replay=dict(events=E))])
        total = sum(1 for _ in edits(E, deep))
        plain += total
        jobs += [("%s" % i, lo) for lo in range(0, total, 4000)]
    jobs = [(int(i), lo, lo + 4000, deep, "".join(POOL[0][1])) for i, lo in jobs]
    n = 0
    for name, k, bad in explore.pmap(_round, jobs):
        n += k
        out += [dict(ident="edit:%s" % name, message=m, replay=dict(world=name)) for m in bad]
        if len(out) > 5:
            break
    return Outcome(dict(states=plain, transitions=n, traces_validated_against_impl=n, rounds=len(POOL), edits=plain, impossible_logs_converted=n, exhaustive=True,
                        bounds="every single edit of %d rounds (exchanges of events at most three apart and every 17th call of other families; thorough: all)" % len(POOL),
                        samples=[dict(round=POOL[0][0], events=len(POOL[0][1]))]), out,
                   ["only the hands are judged: who may act and where a taken tile comes from is not part of the claim"])
