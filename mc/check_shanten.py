"""C14: the shanten solver against the exact distance to a complete hand."""
import itertools
import explore
from core import Outcome, check

NS = (1, 2, 4, 5, 7, 8, 10, 11, 13, 14)
YAO = (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33)


def vecs(k, n, mx=4):
    if k == 0:
        if n == 0:
            yield ()
        return
    for c in range(max(0, n - mx * (k - 1)), min(mx, n) + 1):
        for r in vecs(k - 1, n - c, mx):
            yield (c,) + r


def place(kinds, v):
    h = [0] * 34
    for k, c in zip(kinds, v):
        h[k] = c
    return bytes(h)


def one_suit(suit, ns):
    ks = range(27, 34) if suit == 3 else range(9 * suit, 9 * suit + 9)
    for n in ns:
        for v in vecs(len(ks), n):
            yield place(ks, v)


def alphabet(kinds, ns):
    for n in ns:
        for v in vecs(len(kinds), n):
            yield place(kinds, v)


SHAPES = ["", "1", "5", "9", "11", "99", "12", "13", "46", "89", "79", "111", "555", "123", "456", "789", "112", "344", "668", "1111", "3333",
          "1112", "2344", "2245", "5567", "11123"]
HON = ["", "1", "11", "12", "111", "122", "1111", "1122", "5566", "55667", "1112"]


def shapes(ns, lib, hon):
    for a in lib:
        for b in lib:
            for c in lib:
                for z in hon:
                    n = len(a) + len(b) + len(c) + len(z)
                    if n in ns:
                        h = [0] * 34
                        for s, x in enumerate((a, b, c, z)):
                            for ch in x:
                                h[9 * s + int(ch) - 1] += 1
                        yield bytes(h)


def seven_pairs():
    """all combinations of singles, pairs, triplets and quads over kinds that form no sequence"""
    orders = [(0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 29, 31, 33, 30), (33, 31, 26, 23, 17, 14, 8, 5, 2, 28, 20, 11, 27, 30),
              (1, 4, 7, 10, 13, 16, 19, 22, 25, 32, 30, 28, 29, 27)]
    for n in (10, 11, 13, 14):
        for q in range(4):
            for t in range(5):
                for p in range(8):
                    s = n - 4 * q - 3 * t - 2 * p
                    if s < 0 or q + t + p + s > 14:
                        continue
                    for o in orders:
                        for arr in ((4,) * q + (3,) * t + (2,) * p + (1,) * s, (1,) * s + (2,) * p + (3,) * t + (4,) * q,
                                    (2,) * p + (1,) * s + (4,) * q + (3,) * t):
                            yield place(o, arr)


def orphans():
    """thirteen-orphan hands up to two missing kinds, with every doubled kind and filler"""
    for miss in itertools.chain([()], itertools.combinations(range(13), 1), itertools.combinations(range(13), 2)):
        have = [k for i, k in enumerate(YAO) if i not in miss]
        for fill in (4, 13, 22, 1, 25):
            base = [0] * 34
            for k in have:
                base[k] = 1
            left = 13 - len(have)
            for n in (13, 14):
                need = left + n - 13
                for dup in [None] + have:
                    h = list(base)
                    r = need
                    if dup is not None and r:
                        h[dup] += 1
                        r -= 1
                    f = fill
                    while r:
                        h[f] += 1
                        r -= 1
                        f = (f + 3) % 27
                        while f in YAO:
                            f = (f + 1) % 27
                    yield bytes(h)


COMPLETE = ["123456789m12355z", "11122233344455p"[:14] + "p", "2233445566778s8s"[:0] + "22334455667788s", "19m19p19s12345677z",
            "1133m5577p2299s44z", "123m456p789s11122z", "111m222p333s44455z", "234m345m567p888s33p", "1112345678999m5m"[:0] + "11123456789995m"[:0] + "11123455678999m",
            "223344m556677p99s", "555m0", "111222333m99p777z"]


def parse(s):
    h, num = [0] * 34, []
    for ch in s:
        if ch.isdigit():
            num.append(int(ch))
        else:
            for x in num:
                h["mpsz".index(ch) * 9 + x - 1] += 1
            num = []
    return h


def neighbours(bases, steps):
    """every hand within the given number of exchanges of complete hands, and less one tile"""
    for b in bases:
        cur = {bytes(parse(b))}
        seen = set(cur)
        for _ in range(steps):
            nxt = set()
            for h in cur:
                for i in range(34):
                    if h[i]:
                        for j in range(34):
                            if j != i and h[j] < 4:
                                g = list(h)
                                g[i] -= 1
                                g[j] += 1
                                nxt.add(bytes(g))
            cur = nxt - seen
            seen |= nxt
        for h in sorted(seen):
            yield h
            if steps == 1:
                for i in range(34):
                    if h[i]:
                        g = list(h)
                        g[i] -= 1
                        yield bytes(g)


def text(h):
    return "".join("".join(str(i % 9 + 1) * h[i] for i in range(s * 9, min(s * 9 + 9, 34))) + "mpsz"[s]
                   for s in range(4) if any(h[s * 9:min(s * 9 + 9, 34)]))


def solve(hand, dtype, solver=None):
    import numpy as np
    from MahjongAI.utils.shanten import ShantenSolver
    a = np.zeros(37, dtype=dtype)
    a[:34] = list(hand)
    before = a.copy()
    s = solver or ShantenSolver()
    s._init(a)
    r = s.solve()
    return r, bool((a == before).all())


def run_chunk(job):
    import impl
    import shanten_ref
    dtype, hands = job
    bad, hist = [], {}
    for h in hands:
        exp = shanten_ref.exact(list(h))
        hist[exp] = hist.get(exp, 0) + 1
        try:
            with impl.watchdog(60):
                got, same = solve(h, dtype)
        except (Exception, SystemExit, impl.Hang) as ex:
            bad.append((text(h), "%s: %s" % (type(ex).__name__, ex)))
            break
        if got != exp:
            bad.append((text(h), "shanten %s, true value %d" % (got, exp)))
        elif not same:
            bad.append((text(h), "the hand was altered"))
        if len(bad) > 3:
            break
    return len(hands), hist, bad


def run_pairs(job):
    """solving b after a with the same solver and with another one; and a again"""
    import impl
    import shanten_ref
    from MahjongAI.utils.shanten import ShantenSolver
    a, others = job
    bad, n = [], 0
    try:
        with impl.watchdog(300):
            for b in others:
                s = ShantenSolver()
                got = [solve(a, "float32", s)[0], solve(b, "float32", s)[0], solve(a, "int64")[0], solve(a, "float32", s)[0]]
                exp = [shanten_ref.exact(list(x)) for x in (a, b, a, a)]
                n += 1
                if got != exp:
                    bad.append((text(a) + " then " + text(b), "results %r, true values %r" % (got, exp)))
                    break
    except (Exception, SystemExit, impl.Hang) as ex:
        bad.append((text(a), "%s: %s" % (type(ex).__name__, ex)))
    return n, {}, bad


@check("C14", "exploration", "exhaustive enumeration of bounded families of hands on the real solver against an exact distance-to-complete oracle")
def C14(tier, seed):
    deep = tier == "thorough"
    small = [n for n in NS if n <= 8]
    lib = SHAPES
    qlib = ["", "1", "9", "11", "55", "12", "46", "111", "123", "456", "789", "112", "344", "1111", "2344", "11123"]
    qhon = ["", "1", "11", "12", "111", "1122", "55667"]
    wins = [range(9 * s + o, 9 * s + o + 5) for s, o in ((0, 0), (0, 4), (1, 2), (2, 0), (2, 4))]
    mixed = [(0, 1, 2, 27, 28, 33), (6, 7, 8, 9, 10, 11), (16, 17, 18, 19, 30, 31), (24, 25, 26, 27, 32, 33), (3, 4, 5, 13, 22, 29), (0, 8, 9, 17, 18, 26),
             (2, 3, 11, 12, 20, 21), (0, 2, 4, 6, 8, 27)]
    fams = [
        ("one suit, characters", one_suit(0, NS if deep else [n for n in NS if n <= 10]), "float32"),
        ("one suit, circles", one_suit(1, [n for n in NS if n <= (10 if deep else 8)]), "int64"),
        ("one suit, bamboos", one_suit(2, [n for n in NS if n <= (10 if deep else 8)]), "float32"),
        ("honours", one_suit(3, NS), "float32"),
        ("windows of five kinds in a suit", itertools.chain(*[alphabet(w, (11, 13, 14) if deep else (10, 13)) for w in wins]), "float32"),
        ("six-kind alphabets over several suits", itertools.chain(*[alphabet(m, (10, 11, 13, 14) if deep else ((13,), (10, 14), (11,))[i % 3]) for i, m in enumerate(mixed)]), "int64"),
        ("block shapes in every suit", shapes(NS, lib if deep else qlib, HON), "float32"),
        ("seven pairs", seven_pairs(), "float32"),
        ("thirteen orphans", orphans(), "float32"),
        ("one exchange from complete hands", neighbours([c for c in COMPLETE if sum(parse(c)) == 14 and (deep or len(set(c) & set("mpsz")) > 1)], 1), "float32"),
    ]
    if deep:
        fams.append(("two exchanges from complete hands", neighbours([c for c in COMPLETE if sum(parse(c)) == 14][:4], 2), "float32"))
    seen = set()
    counts, jobs = {}, []
    for name, gen, dt in fams:
        cur = []
        k = 0
        for h in gen:
            if max(h) > 4 or h in seen:
                continue
            seen.add(h)
            k += 1
            cur.append(h)
            if len(cur) == 100:
                jobs.append((dt, cur))
                cur = []
        if cur:
            jobs.append((dt, cur))
        counts[name] = k
    bad, hist, n = [], {}, 0
    import os
    jobs.sort(key=lambda j: -sum(j[1][0]))
    for k, h, b in explore.pmap(run_chunk, jobs, chunk=2):
        n += k
        for x, y in h.items():
            hist[x] = hist.get(x, 0) + y
        bad += b
        if len(bad) > 8:
            break
    pairs = 0
    if not bad:
        base = [x for i, x in enumerate(sorted(seen)) if i % max(1, len(seen) // (40 if deep else 16)) == 0] + [bytes(parse(c)) for c in COMPLETE if sum(parse(c)) == 14]
        for k, _, b in explore.pmap(run_pairs, [(a, base) for a in base]):
            pairs += k
            bad += b
    vs = [dict(ident=h, message="hand %s: %s" % (h, m), replay=dict(hand=h)) for h, m in bad[:10]]
    return Outcome(dict(evaluations=n + pairs, distinct_nontrivial=n - hist.get(-1, 0), rule="every hand of each family, each distinct; non-trivial: not complete. pairs: ordered pairs of hands solved in turn",
                        families=counts, pairs=pairs, shanten_histogram=dict(sorted(hist.items())), exhaustive=True,
                        samples=[text(sorted(seen)[i * len(seen) // 7]) for i in range(7)]), vs,
                   ["hands are given as 37 numbers of which the last three (red fives) are zero", "a fifth copy of a tile never completes a hand"])
