"""Training rows: what the tensor processors of the four model families have to build."""
import numpy as np
import importlib
import impl
from rules import decode

FAMS = ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_ordered")
HEADS = ("during", "discard", "post")
WIDTH = dict(during=71, discard=37, post=154)
_mods = {}


def module(f):
    if f not in _mods:
        import torch
        torch.set_num_threads(1)
        _mods[f] = importlib.import_module("MahjongAI.agents." + f)
    return _mods[f]


def processor(f):
    return module(f).TransformerTensorProcessor()


def rows(f, hts, toks, games=None):
    """the rows a processor builds for rounds (each a list of points); one dict per head with
    numpy arrays. games: how the rounds are grouped into games (sizes)"""
    games = games or [len(hts)]
    H, T, i = [], [], 0
    for n in games:
        H.append(list(hts[i:i + n]))
        T.append(list(toks[i:i + n]))
        i += n
    out = processor(f).prepare_batches(H, T)
    res = {}
    for head, b in zip(HEADS, out):
        enc, (x1, x2, x3), mask, y = b[:4]
        d = dict(hist=enc, x1=x1, x2=x2, x3=x3, mask=mask, y=y)
        if len(b) > 4:
            d["player"] = b[4]
        res[head] = {k: np.asarray(v.detach().cpu().numpy(), dtype=np.float64) for k, v in d.items()}
    return res


_slot = {}


def slot(code, phase):
    """the output slot of a call"""
    k = (code, phase)
    if k not in _slot:
        from MahjongAI.draw import Naki
        n = Naki(code)
        _slot[k] = n.get_during_turn_filter_idx() if phase == "during" else n.get_post_turn_filter_idx()
    return _slot[k]


def decisions(r):
    """(point index, head, player, mask indices, label) of every row of round r, in order"""
    for i, e in enumerate(r.points):
        if e.kind == "during":
            o = e.offers
            idx, y = {0}, 0
            taken = [x for q, x in e.taken if q == e.player]
            if o["agari"]:
                idx.add(1)
                if "agari" in taken:
                    y = 1
            if o["riichi"]:
                idx.add(2)
                if "riichi" in taken:
                    y = 2
            for key, c in o["calls"].items():
                s = slot(c.code, "during")
                idx.add(s)
                if key in taken:
                    y = s
            if len(idx) > 1:
                yield i, "during", e.player, idx, y
        elif e.kind == "discard":
            yield i, "discard", e.player, {t for t in range(37) if e.view.hand[t]}, e.tile // 4
        else:
            for j in range(1, 4):
                q = (e.player + j) % 4
                o = e.offers[q]
                idx, y = {0}, 0
                taken = [x for p, x in e.taken if p == q]
                if o["agari"]:
                    idx.add(1)
                    if "agari" in taken:
                        y = 1
                for key, c in o["calls"].items():
                    s = slot(c.code, "post")
                    idx.add(s)
                    if key in taken:
                        y = s
                if len(idx) > 1:
                    yield i, "post", q, idx, y
                if y:
                    break


THERMO = np.arange(4)


def features(f, v):
    """x1, x2, x3 of a view"""
    if f == "transformer":
        x1 = np.array([v.hand, v.pov, v.discards[v.player]], dtype=np.float64)
    else:
        if f == "transformer_conv_ordered":
            ch = [v.hand, v.pov] + [v.discards[(v.player + j) % 4] for j in range(4)]
        else:
            ch = [v.hand, v.pov, v.discards[v.player]]
        x1 = (THERMO < np.array(ch)[:, :, None]).astype(np.float64)
    x2 = np.array([v.scores, v.parent, v.parent_left, v.double, v.riichi, v.ippatsu, v.menzen], dtype=np.float64)
    x3 = np.array([v.left, v.kyotaku, v.honba, v.rounds_left], dtype=np.float64)
    return x1, x2, x3


PARTS = dict(C16=("mask", "y"), C17=("x1", "x2", "x3"), C18=("hist",))


def expected(f, part, rounds, toks):
    """expected parts per head, with the origin of each row"""
    out = {h: ({k: [] for k in part + (("player",) if f.endswith("ordered") else ())}, []) for h in HEADS}
    for n, (r, tk) in enumerate(zip(rounds, toks)):
        for i, head, q, idx, y in decisions(r):
            e = r.points[i]
            d, org = out[head]
            org.append((n, i, q))
            if "mask" in d:
                m = np.zeros(WIDTH[head])
                m[list(idx)] = 1
                d["mask"].append(m)
                d["y"].append(y)
            if "x1" in d:
                v = e.views[q] if head == "post" else e.view
                x1, x2, x3 = features(f, v)
                if r.k >= r.n_rounds:  # past the schedule: nothing is said about what remains
                    x2[2], x3[3] = np.nan, np.nan
                for k, x in zip(("x1", "x2", "x3"), (x1, x2, x3)):
                    d[k].append(x)
            if "hist" in d:
                m = np.zeros(150)
                m[:e.enc] = tk[:e.enc]
                d["hist"].append(m)
            if "player" in d:
                d["player"].append(q)
    return out


def diff(name, a, b):
    at = np.argwhere(a != b)
    if len(at) == 0:
        return "%s differs" % name
    at = tuple(at[0])
    return "%s%s is %g, expected %g" % (name, list(map(int, at)), b[at], a[at])


def compare(part, families=FAMS, games=None):
    """a per_batch function: the rows of the real processors against the reference"""
    def f(batch, hts, toks):
        rounds = [r for _, r in batch]
        toks_ = [[int(x) for x in t] for t in toks]
        whole = {p for p in PARTS}
        for fam in families:
            got = rows(fam, hts, toks, games and games(len(hts)))
            exp = expected(fam, PARTS[part], rounds, toks_)
            bad = _mismatch(fam, part, got, exp)
            if bad and not _reordered(fam, got, rounds, toks_):
                yield bad
    return f


def _mismatch(fam, part, got, exp):
    for head in HEADS:
        d, org = exp[head]
        g = got[head]
        if len(g["y"]) != len(org):
            return 0, "%s, %s head: %d rows, expected %d" % (fam, head, len(g["y"]), len(org))
        for k, v in d.items():
            if k not in g:
                return 0, "%s, %s head: no %s" % (fam, head, k)
            if not org:
                continue
            v = np.array(v, dtype=np.float64)
            if v.shape == g[k].shape:
                v = np.where(np.isnan(v), g[k], v)
            if v.shape != g[k].shape:
                return 0, "%s, %s head: %s has shape %s, expected %s" % (fam, head, k, g[k].shape, v.shape)
            if not np.array_equal(v, g[k]):
                j = [a for a in range(len(org)) if not np.array_equal(v[a], g[k][a])][0]
                n, i, q = org[j]
                return n, "%s, %s row of player %d at point %d: %s" % (fam, head, q, i, diff(k, np.atleast_1d(v[j]), np.atleast_1d(g[k][j])))
    return None


def _reordered(fam, got, rounds, toks):
    """the same complete rows in another order are as good"""
    from collections import Counter
    exp = expected(fam, ("mask", "y", "x1", "x2", "x3", "hist"), rounds, toks)
    for head in HEADS:
        d, org = exp[head]
        g = got[head]
        if len(g["y"]) != len(org) or set(d) - set(g):
            return False
        if any(r.k >= r.n_rounds for r in rounds):
            g = dict(g, x2=g["x2"].copy(), x3=g["x3"].copy())
            for x2, x3 in zip(d["x2"], d["x3"]):
                x2[2], x3[3] = 0, 0
            if len(org):
                g["x2"][:, 2], g["x3"][:, 3] = 0, 0
        ks = sorted(d)
        a = Counter(tuple(np.asarray(d[k][i], dtype=np.float64).tobytes() for k in ks) for i in range(len(org)))
        b = Counter(tuple(np.asarray(g[k][i], dtype=np.float64).tobytes() for k in ks) for i in range(len(org)))
        if a != b:
            return False
    return True


def unmixed(batch, hts, toks, families=FAMS):
    """each point alone gives the same rows as all of them together"""
    for fam in families:
        got = rows(fam, hts, toks, [len(hts)])
        one = [1] * len(hts)
        sep = rows(fam, hts, toks, one)
        flat, ft, where = [], [], []
        for n, (h, t) in enumerate(zip(hts, toks)):
            for i, x in enumerate(h):
                flat.append([x])
                ft.append(t)
        alone = [rows(fam, [h], [t]) for h, t in zip(flat, ft)]
        for head in HEADS:
            g = got[head]
            parts = [a[head] for a in alone if len(a[head]["y"])]
            for k in g:
                for what, other in (("each round in a game of its own", sep[head][k]),
                                    ("each point alone", np.concatenate([p[k] for p in parts]) if parts else g[k][:0])):
                    if g[k].shape != other.shape or not np.array_equal(g[k], other):
                        if not _same_rows(got, [sep] if what[5] == "r" else alone, head):
                            yield 0, "%s, %s head: %s of the rows differs from %s" % (fam, head, k, what)
                            return


def _same_rows(got, others, head):
    from collections import Counter
    g = got[head]
    ks = sorted(g)
    rowsof = lambda d: [tuple(d[k][i].tobytes() for k in ks) for i in range(len(d["y"]))]
    return Counter(rowsof(g)) == Counter(x for o in others for x in rowsof(o[head]))


# ------------------------------------------------------------- what a player cannot see
def renamed(r, p, perm):
    """the log of round r with the tiles p never sees renamed: (xml, how many tiles moved)"""
    from game import DRAW
    seen, fixed = set(), set()
    seen.update(r.deal["hands"][p])
    shown = set(r.dora)
    for tag, a in r.events:
        if tag[0] in "DEFG" and tag[1:].isdigit():
            shown.add(int(tag[1:]))
        elif tag[0] == DRAW[p] and tag[1:].isdigit():
            seen.add(int(tag[1:]))
        elif tag == "REACH":
            fixed.add(int(a["who"]))
        elif tag == "AGARI":
            fixed.add(int(a["who"]))
            shown.update(map(int, a["hai"].split(",")))
        elif tag == "N":
            m = decode(int(a["m"]))
            shown.update(m.hand)
            if m.taken is not None:
                shown.add(m.taken)
    used, mine = set(), set()
    for q in range(4):
        if q != p:
            own = set(r.deal["hands"][q]) | {int(t[1:]) for t, _ in r.events if t[0] == DRAW[q] and t[1:].isdigit()}
            used |= own
            mine |= own if q in fixed else set()
    hidden = sorted(t for t in range(136) if t not in seen and t not in shown and t not in mine)
    to = perm(hidden)
    m = dict(zip(hidden, to))
    g = lambda t: m.get(t, t)
    a = dict(r.init_attr())
    for q in range(4):
        if q != p:
            a["hai%d" % q] = ",".join(str(g(t)) for t in r.deal["hands"][q])
    out = ["<INIT %s/>" % " ".join('%s="%s"' % kv for kv in a.items())]
    for tag, at in r.events:
        if tag[0] in DRAW and tag[1:].isdigit() and tag[0] != DRAW[p]:
            tag = tag[0] + str(g(int(tag[1:])))
        out.append("<%s %s/>" % (tag, " ".join('%s="%s"' % kv for kv in at.items())))
    return "".join(out), sum(m[t] != t for t in hidden if t in used)


PERMS = dict(reversed=lambda x: x[::-1], rotated=lambda x: x[len(x) // 3:] + x[:len(x) // 3])


def only(h, p):
    """the decision points of p alone"""
    import copy
    out = []
    for x in h:
        if x.type_ == x.POST:
            if x.player != p:
                x = copy.copy(x)
                x.decisions = [d if q == p else [[], [], []] for q, d in enumerate(x.decisions)]
                out.append(x)
        elif x.player == p:
            out.append(x)
    return out


def hidden(perms, families=FAMS, stat=None):
    """a per_batch function: renaming what a player cannot see changes none of its rows"""
    def f(batch, hts, toks):
        from game import document
        rounds = [r for _, r in batch]
        go = 169 if rounds[0].n_rounds == 8 else 161
        for p in range(4):
            mine = [only(h, p) for h in hts]
            for pn in perms:
                ren = [renamed(r, p, PERMS[pn]) for r in rounds]
                h2, t2 = impl.convert(document([x for x, _ in ren], go))
                mine2 = [only(h, p) for h in h2]
                for fam in families:
                    a, b = rows(fam, mine, toks), rows(fam, mine2, t2)
                    for head in HEADS:
                        for k in a[head]:
                            x, y = a[head][k], b[head][k]
                            if x.shape != y.shape or not np.array_equal(x, y):
                                n = 0
                                for n in range(len(rounds)):
                                    c, d = rows(fam, [mine[n]], [toks[n]])[head][k], rows(fam, [mine2[n]], [t2[n]])[head][k]
                                    if c.shape != d.shape or not np.array_equal(c, d):
                                        break
                                if x.shape != y.shape:
                                    yield n, "%s, %s head: player %d has %d rows, but %d after renaming tiles it cannot see" % (
                                        fam, head, p, len(x), len(y))
                                else:
                                    yield n, "%s, %s row of player %d: tiles it cannot see change %s" % (
                                        fam, head, p, diff(k, np.atleast_1d(x), np.atleast_1d(y)))
                                return
    return f
