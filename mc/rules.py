"""Reference rules of riichi mahjong: melds, complete hands, yaku. Written from the
rules, independent of the code under test and of the `mahjong` package."""
from functools import lru_cache

RED = (16, 52, 88)
YAOCHU = (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33)
REDIDX = {16: 34, 52: 35, 88: 36}


def kind(t):
    return t // 4


def isred(t):
    return t in REDIDX


def face(t):
    """what a tile looks like: 0-33, or 34/35/36 for a red five"""
    return REDIDX.get(t, t // 4)


def name(t):
    k = t // 4
    if isred(t):
        return "0" + "mps"[k // 9]
    return str(k % 9 + 1) + "mpsz"[k // 9]


# ---------------------------------------------------------------- tenhou meld codes
class Call:
    """fam in chi/pon/kakan/minkan/ankan; rel: seat called from relative to caller (0 for
    ankan); hand: tiles leaving the concealed hand; taken: tile of the other player;
    tiles: all tiles of the resulting meld"""

    __slots__ = ("fam", "rel", "hand", "taken", "tiles", "code")

    def __init__(self, fam, rel, hand, taken, tiles, code):
        self.fam, self.rel, self.code = fam, rel, code
        self.hand, self.taken, self.tiles = tuple(sorted(hand)), taken, tuple(sorted(tiles))

    @property
    def kind(self):
        return self.tiles[0] // 4

    def key(self):
        """the call up to interchangeable copies. For an added kan: which tile is added and
        whether the pon contains the red five (which seat the pon came from is history)"""
        if self.fam == "kakan":
            return (self.fam, tuple(sorted(map(face, self.hand))), self.kind)
        if self.fam == "ankan":
            return (self.fam, self.kind)
        return (self.fam, self.rel, tuple(sorted(map(face, self.hand))), face(self.taken))

    def meldkey(self):
        """the meld as it lies on the table"""
        return (self.fam, tuple(sorted(map(face, self.tiles))), self.rel if self.fam != "ankan" else 0)

    def __repr__(self):
        return "%s(%s%s rel%d code%d)" % (
            self.fam, "".join(map(name, self.hand)),
            "" if self.taken is None else "+" + name(self.taken), self.rel, self.code)


def decode(m):
    """the Tenhou meld code, by its published bit layout"""
    rel = m & 3
    if m & 4:
        base, which = divmod(m >> 10, 3)
        s, n = divmod(base, 7)
        tiles = [(9 * s + n + i) * 4 + ((m >> (3 + 2 * i)) & 3) for i in range(3)]
        taken = tiles[which]
        return Call("chi", rel, [t for t in tiles if t != taken], taken, tiles, m)
    if m & 0x18:
        unused = (m >> 5) & 3
        k, which = divmod(m >> 9, 3)
        three = [4 * k + c for c in range(4) if c != unused]
        if m & 8:
            taken = three[which]
            return Call("pon", rel, [t for t in three if t != taken], taken, three, m)
        return Call("kakan", rel, [4 * k + unused], None, three + [4 * k + unused], m)
    tile = m >> 8
    four = [tile // 4 * 4 + c for c in range(4)]
    if rel:
        return Call("minkan", rel, [t for t in four if t != tile], tile, four, m)
    return Call("ankan", 0, four, None, four, m)


def encode(fam, rel, hand, taken, pon=None):
    if fam == "chi":
        tiles = sorted(list(hand) + [taken])
        b = tiles[0] // 4
        m = rel | 4 | ((b // 9 * 7 + b % 9) * 3 + tiles.index(taken)) << 10
        for i, t in enumerate(tiles):
            m |= (t % 4) << (3 + 2 * i)
        return m
    if fam == "pon":
        tiles = sorted(list(hand) + [taken])
        k = taken // 4
        unused = [c for c in range(4) if 4 * k + c not in tiles][0]
        return rel | 8 | unused << 5 | (k * 3 + tiles.index(taken)) << 9
    if fam == "kakan":
        t = hand[0]
        k = t // 4
        return pon.rel | 0x10 | (t % 4) << 5 | (k * 3 + list(pon.tiles).index(pon.taken)) << 9
    if fam == "minkan":
        return rel | taken << 8
    if fam == "ankan":
        return hand[0] // 4 * 4 << 8
    raise AssertionError(fam)


def all_codes():
    """every 16-bit code Tenhou can emit"""
    out = set()
    for s in range(3):
        for n in range(7):
            b = 9 * s + n
            for a in range(4):
                for c in range(4):
                    for d in range(4):
                        tiles = [4 * b + a, 4 * b + 4 + c, 4 * b + 8 + d]
                        for w in range(3):
                            out.add(encode("chi", 3, [t for t in tiles if t != tiles[w]], tiles[w]))
    for k in range(34):
        four = [4 * k + c for c in range(4)]
        for u in four:
            three = [t for t in four if t != u]
            for taken in three:
                for rel in (1, 2, 3):
                    m = encode("pon", rel, [t for t in three if t != taken], taken)
                    out.add(m)
                    out.add(encode("kakan", 0, [u], None, decode(m)))
        for t in four:
            for rel in (1, 2, 3):
                out.add(rel | t << 8)
            out.add(t << 8)  # a concealed kan names any of its tiles
    return sorted(out)


# ---------------------------------------------------------------- complete hands
@lru_cache(None)
def _decomp(v, honors):
    """all splits of one suit's counts into sets and at most one pair:
    tuples (pair index or None, ((type, idx), ...)) with type 'c'hi or 'p'on"""
    for i, c in enumerate(v):
        if c:
            break
    else:
        return ((None, ()),)
    out = set()

    def sub(idx, n):
        w = list(v)
        for j, d in zip(idx, n):
            w[j] -= d
        return tuple(w)

    if v[i] >= 3:
        for p, s in _decomp(sub([i], [3]), honors):
            out.add((p, tuple(sorted(s + (("p", i),)))))
    if v[i] >= 2:
        for p, s in _decomp(sub([i], [2]), honors):
            if p is None:
                out.add((i, s))
    if not honors and i < len(v) - 2 and v[i + 1] and v[i + 2]:
        for p, s in _decomp(sub([i, i + 1, i + 2], [1, 1, 1]), honors):
            out.add((p, tuple(sorted(s + (("c", i),)))))
    return tuple(sorted(out, key=repr))


@lru_cache(None)
def _suit(v, honors):
    """(fits sets only, fits sets + pair)"""
    d = _decomp(v, honors)
    return any(p is None for p, _ in d), any(p is not None for p, _ in d)


def _suits(c):
    return tuple(c[0:9]), tuple(c[9:18]), tuple(c[18:27]), tuple(c[27:34])


@lru_cache(200000)
def _complete(c):
    n = sum(c)
    if n % 3 != 2:
        return False
    pairs = 0
    ok = True
    for i, v in enumerate(_suits(c)):
        a, b = _suit(v, i == 3)
        if sum(v) % 3 == 0:
            if not a:
                ok = False
                break
        elif sum(v) % 3 == 2 and b:
            pairs += 1
        else:
            ok = False
            break
    if ok and pairs == 1:
        return True
    if n == 14:
        if sum(x == 2 for x in c) == 7:
            return True
        if all(c[i] for i in YAOCHU) and sum(c[i] for i in YAOCHU) == 14:
            return True
    return False


def complete(c):
    """a complete concealed part (2 mod 3 tiles)"""
    return _complete(tuple(c))


@lru_cache(200000)
def _waits(c):
    c = list(c)
    out = []
    for k in range(34):
        if c[k] < 4:
            c[k] += 1
            if _complete(tuple(c)):
                out.append(k)
            c[k] -= 1
    return frozenset(out)


def waits(c):
    return _waits(tuple(c))


def splits(c):
    """every split of the concealed counts into (pair kind, sets) over 0-33"""
    out = []
    parts = [_decomp(v, i == 3) for i, v in enumerate(_suits(c))]

    def rec(i, pair, sets):
        if i == 4:
            if pair is not None:
                out.append((pair, tuple(sets)))
            return
        for p, s in parts[i]:
            if p is not None and pair is not None:
                continue
            rec(i + 1, pair if p is None else 9 * i + p, sets + [(t, 9 * i + x) for t, x in s])

    rec(0, None, [])
    return out


@lru_cache(200000)
def shape_yaku(c, melds, win, tsumo, seat, rnd):
    """does the complete hand have a yaku from its tiles alone?
    c: concealed counts with the winning tile; melds: tuple of (type, kind) with type
    'c','p','k' (open kan) or 'a' (concealed kan); seat/rnd: wind kinds 27..30"""
    closed = all(t == "a" for t, _ in melds)
    full = list(c)
    for t, k in melds:
        if t == "c":
            for i in range(3):
                full[k + i] += 1
        else:
            full[k] += 3
    kinds = [k for k in range(34) if full[k]]
    if not any(k in YAOCHU for k in kinds):
        return "tanyao"
    suits = {k // 9 for k in kinds if k < 27}
    if len(suits) <= 1:
        return "flush"  # also all honors
    if all(k in YAOCHU for k in kinds):
        return "honroutou"  # also thirteen orphans
    if not melds and sum(c) == 14 and sum(x == 2 for x in c) == 7:
        return "chiitoi"
    for pair, sets in splits(c):
        allsets = list(sets) + [("c" if t == "c" else "p", k) for t, k in melds]
        if len(allsets) != 4:
            continue
        pons = [k for t, k in allsets if t == "p"]
        chis = [k for t, k in allsets if t == "c"]
        if any(k >= 31 or k == seat or k == rnd for k in pons):
            return "yakuhai"
        if len(pons) == 4:
            return "toitoi"
        if sum(t in "ak" for t, _ in melds) >= 3:
            return "sankantsu"
        if closed:
            cc = [k for t, k in sets if t == "c"]
            if len(cc) != len(set(cc)):
                return "iipeiko"
            if len(cc) == 4 and pair < 31 and pair not in (seat, rnd):
                for k in cc:
                    if (win == k and k % 9 != 6) or (win == k + 2 and k % 9 != 0):
                        return "pinfu"
        if any(k < 9 and k + 9 in chis and k + 18 in chis for k in chis):
            return "sanshoku"
        if any(k < 9 and k + 9 in pons and k + 18 in pons for k in pons):
            return "sanshokudoukou"
        if any(9 * s in chis and 9 * s + 3 in chis and 9 * s + 6 in chis for s in range(3)):
            return "ittsu"
        if pair in YAOCHU and all(k in YAOCHU for k in pons) and all(k % 9 in (0, 6) for k in chis):
            return "chanta"
        concealed = sum(t == "a" for t, _ in melds)
        own = [k for t, k in sets if t == "p"]
        # by ron the triplet completed by the winning tile counts as open unless the tile
        # can be seen as completing another group
        n = concealed + len(own)
        if not tsumo and win in own:
            elsewhere = pair == win or any(t == "c" and k <= win <= k + 2 for t, k in sets)
            if not elsewhere:
                n -= 1
        if n >= 3:
            return "sananko"
    return None
