"""The worlds: deals and scripts, written relative to the dealer (player 0 = dealer) and
instantiated for rounds k of the game. Hands may be partial (filled from the leftovers)."""
import itertools
from game import make_deal, parse
from explore import World

DEALKEYS = ("dora_first", "rinshan", "indicators", "tail", "honba", "kyotaku", "keep", "avoid")


def W(name, hands, draws="", script=(), k=0, n_rounds=8, actors=None, **kw):
    oya = k % 4
    H = [None] * 4
    for i, h in enumerate(hands):
        H[(i + oya) % 4] = h or None
    dk = {x: kw.pop(x) for x in DEALKEYS if x in kw}
    if "scores" in kw:
        sc = kw.pop("scores")
        dk["scores"] = [sc[(p - oya) % 4] for p in range(4)]
    nm = "%s@k%d/%d" % (name, k, n_rounds)
    def deal():
        try:
            return make_deal(H, draws=draws, k=k, n_rounds=n_rounds, **dk)
        except (ValueError, AssertionError) as ex:
            raise RuntimeError("%s: %s" % (nm, ex))
    S = []
    for it in script:
        if it[0] == "ron":
            S.append(("ron",) + tuple(sorted((p + oya) % 4 for p in it[1:])))
        else:
            S.append((it[0], (it[1] + oya) % 4) + tuple(it[2:]))
    if actors is not None:
        actors = {(p + oya) % 4 for p in actors}
    return World(nm, deal, S, actors=actors, go=169 if n_rounds == 8 else 161, **kw)


ALLK = tuple(range(8))
QK = (0, 1, 2, 3)


class Script:
    """builds the draws and the script of a round in which calls are scripted"""

    def __init__(self):
        self.draws, self.moves, self.turn, self.steps = [], [], 0, 0

    def until(self, p):
        """everybody draws and throws something until it is p's turn to draw"""
        while self.turn != p:
            self.draws.append(None)
            self.steps += 2
            self.turn = (self.turn + 1) % 4
        return self

    def throw(self, p, tile):
        """p draws the tile and throws it"""
        self.until(p)
        self.draws.append(tile)
        self.moves.append(("dis", p, tile))
        self.steps += 2
        self.turn = (p + 1) % 4
        return self

    def draw(self, p, tile):
        self.until(p)
        self.draws.append(tile)
        self.steps += 1
        return self

    def call(self, p, fam, hand, tile, junk=None, frm=None):
        """p gets the tile from the player before it (or frm) and throws junk"""
        self.throw((p - 1) % 4 if frm is None else frm, tile)
        self.moves.append(("call", p, fam, hand) if hand else ("call", p, fam))
        if junk:
            self.moves.append(("dis", p, junk))
            self.turn = (p + 1) % 4
            self.steps += 1
        else:
            self.turn = p
        return self


# ------------------------------------------------------------------ general play
GENERAL = [
    (["123m456p789s1122z", "346m0p66p77s8m67s3z9m", "234s24m35p888p99m7z", "550m44p56s406s11m"], "9p3s7z1z5p2m"),
    (["99m055p99s123s77z3p", "2233m66p40s88s1z2z5z", "340m778p234s55s6z6z", "678p5s67s88m111m2z4z"], "5m4p2z1z7z5p6z3m"),
    (["406m406p406s1122z", "3357m3377p3377s5z", "2288m2288p2288s6z", "55m55p55s34z9999m"], "7z5z4z6m6p6s"),
    (["19m19p19s1234567z", "5678m234p0679s11z", "2345m5678p234s99s", "111m222m333m88m67p"], "2z9m7z3z8m4z"),
    (["5m34p67p34s67s1z89s2z", "06m40p46p0s46s11z9m3z", "55m34m67m25s8p8s76z3p", "9m9p9s3344z7m7p7s2m"], "2z5p5z5s5s"),
]


def general(depth=(1, 2), horizon=26, ks=QK, which=range(5)):
    """ordinary hands rich in calls, red fives, riichi"""
    return [W("general%d" % i, GENERAL[i][0], GENERAL[i][1], k=k, horizon=horizon, depth=depth)
            for i in which for k in ks]


# ------------------------------------------------------------------ one hand, one winning tile
# concealed 13 tiles, winning tile (and kinds to keep away)
CLOSED = {
    "none": ("123m456p678s24m99p", "3m"),
    "pinfu": ("123m456p678s45m99p", "3m"),
    "pinfu2": ("123m456p678s45m99p", "6m"),
    "edge": ("123m456p678m12s99p", "3s"),
    "pinfu-dragon-pair": ("123m456p678s45m77z", "3m"),
    "tanki": ("123m456p678s345m9p", "9p"),
    "wind-pair1": ("123m456p678s45m11z", "3m"),
    "wind-pair2": ("123m456p678s45m22z", "3m"),
    "wind-pair3": ("123m456p678s45m33z", "3m"),
    "wind-pair4": ("123m456p678s45m44z", "3m"),
    "tanyao": ("234m456p678s46m88p", "5m"),
    "tanyao-red": ("234m456p678s46m88p", "0m"),
    "not-tanyao": ("123m456p678s46p88p", "5p"),
    "red-only": ("123m456p678s46p99p", "0p"),
    "chiitoi": ("1133m5577p2299s4z", "4z"),
    "chiitoi-red": ("1133m77p2299s44z5p", "0p"),
    "kokushi13": ("19m19p19s1234567z", "1m"),
    "kokushi": ("199m19p19s123456z", "7z"),
    "iipeiko": ("11223m456p789s99p", "3m"),
    "iipeiko-off": ("1123m456p789s99p4m", "1m"),
    "sanshoku": ("123m123p13s789m99p", "2s"),
    "sanshoku-off": ("123m123p24s789m99p", "3s"),
    "ittsu": ("123456m79m567p99s", "8m"),
    "ittsu-off": ("123456m57m567p99s", "6m"),
    "toitoi": ("111m999p33s222p44z", "3s"),
    "sananko-by-ron": ("111m999p33s678m44z", "3s"),
    "sananko": ("111m999p333s68m44z", "7m"),
    "chanta": ("123m789p999s12s44z", "3s"),
    "junchan": ("123m789p999s12s11p", "3s"),
    "honitsu": ("123456m78m999m44z", "6m"),
    "dragons": ("55z66z123m456p789s", "5z"),
    "dragon": ("77z123m456p78s234m", "9s"),
    "dragon-pon": ("77z123m456p789s22p", "7z"),
    "doukou": ("222m222p22s678m44z", "2s"),
    "gates": ("1112345678999m", "5m"),
    "wind1": ("11z123m456p789s22p", "1z"),
    "wind2": ("22z123m456p789s22p", "2z"),
    "wind3": ("33z123m456p789s22p", "3z"),
    "wind4": ("44z123m456p789s22p", "4z"),
}
# calls [(family, tiles from the hand, tile taken, tile thrown)], concealed 13 tiles before them, win
OPEN = {
    "none": ([("chi", "2m 3m", "1m", "1z")], "23m456p678s44s99p1z", "4s"),
    "tanyao": ([("chi", "2m 3m", "4m", "1z")], "23m456p678s44s88p1z", "4s"),
    "tanyao-red": ([("chi", "4m 6m", "0m", "1z")], "46m456p678s44s88p1z", "4s"),
    "tanyao-broken": ([("chi", "2m 3m", "4m", "1z")], "23m456p78s44s888p1z", "9s"),
    "pinfu-open": ([("chi", "2m 3m", "1m", "1z")], "23m456p67s344s99p1z", "2s"),
    "dragon": ([("pon", "7z 7z", "7z", "1z")], "77z123m456p78s22p1z", "9s"),
    "dragon-pair": ([("chi", "2m 3m", "1m", "1z")], "23m456p678s77z78p1z", "6p"),
    "wind1": ([("pon", "1z 1z", "1z", "7z")], "11z123m456p78s22p7z", "9s"),
    "wind2": ([("pon", "2z 2z", "2z", "7z")], "22z123m456p78s22p7z", "9s"),
    "wind3": ([("pon", "3z 3z", "3z", "7z")], "33z123m456p78s22p7z", "9s"),
    "wind4": ([("pon", "4z 4z", "4z", "7z")], "44z123m456p78s22p7z", "9s"),
    "sanshoku": ([("chi", "2m 3m", "1m", "1z")], "23m123p13s789m99p1z", "2s"),
    "ittsu": ([("chi", "2m 3m", "1m", "1z")], "23456m79m567p99s1z"[:0] + "23m456m79m567p99s1z", "8m"),
    "iipeiko-open": ([("chi", "2p 3p", "1p", "1z")], "23p11223m789s99m1z", "3m"),
    "chanta": ([("chi", "2m 3m", "1m", "1z")], "23m789p999s12s44z1z", "3s"),
    "toitoi": ([("pon", "1m 1m", "1m", "1z")], "11m999p33s222p44z1z", "3s"),
    "toitoi2": ([("pon", "1m 1m", "1m", "1z"), ("pon", "9p 9p", "9p", "2z")], "11m99p333s22p44z1z2z", "2p"),
    "honitsu": ([("chi", "2m 3m", "1m", "1z")], "23m456m78m999m44z1z"[:0] + "23m456m78m111m44z1z", "6m"),
    "sananko-open": ([("chi", "2m 3m", "1m", "1z")], "23m111p999p333s4z1z", "4z"),
    "sananko-open-by-ron": ([("chi", "2m 3m", "1m", "1z")], "23m111p999p33s44z1z", "3s"),
    "kan-none": ([("minkan", None, "9m", None)], "999m456p678s44s99p", "4s"),
    "kan-tanyao": ([("minkan", None, "5s", None)], "550s456p678s44m88p"[:0] + "550s456p67s444m88p"[:0] + "550s456p678p44m88p", "4m"),
}
# hands with a concealed or added kan before the winning tile:
# (steps [("ankan", kind drawn) | ("pon", pair, tile, junk, added)], concealed tiles, replacement tiles, win)
KANS = {
    "ankan-none": ([("ankan", "9m")], "999m456p678s24s99p", "1z", "3s"),
    "ankan-pinfu-shape": ([("ankan", "9m")], "999m456p678s45s99p", "1z", "6s"),
    "ankan-tanyao": ([("ankan", "4m")], "444m456p678s24s88p", "1z", "3s"),
    "ankan-red-tanyao": ([("ankan", "0m")], "555m456p678s24s88p", "1z", "3s"),
    "ankan-red-held": ([("ankan", "5p")], "550p456m678s24s88p", "1z", "3s"),
    "ankan-dragon": ([("ankan", "5z")], "555z456p678s24s99p", "1z", "3s"),
    "ankan-seat": ([("ankan", "3z")], "333z456p678s24s99p", "1z", "3s"),
    "ankan-sananko": ([("ankan", "9m")], "999m111p333s68s99p", "1z", "7s"),
    "ankan-sananko-by-ron": ([("ankan", "9m")], "999m111p33s678s44z", "1z", "3s"),
    "ankan-toitoi": ([("ankan", "9m"), ("pon", "1p 1p", "1p", "2z", None)], "999m11p33s44z777p2z", "1z", "3s"),
    "ankan-chi": ([("ankan", "9m"), ("chi", "4p 5p", "6p", "2z")], "999m45p678s24s99p2z", "1z", "3s"),
    "kakan-none": ([("pon", "9m 9m", "9m", "2z", "9m")], "99m456p678s24s99p2z", "1z", "3s"),
    "kakan-tanyao": ([("pon", "4m 4m", "4m", "2z", "4m")], "44m456p678s24s88p2z", "1z", "3s"),
    "kakan-tanyao-red": ([("pon", "5m 5m", "5m", "2z", "0m")], "55m456p678s24s88p2z", "1z", "3s"),
    "kakan-dragon": ([("pon", "6z 6z", "6z", "2z", "6z")], "66z456p678s24s99p2z", "1z", "3s"),
    "kakan-toitoi": ([("pon", "9m 9m", "9m", "2z", "9m")], "99m111p333s88s44z2z", "1z", "8s"),
    "kakan-sananko-by-ron": ([("pon", "9m 9m", "9m", "2z", "9m")], "99m111p333s88s44z2z"[:0] + "99m111p333s33p44s2z"[:0] + "99m11p222p333s44s2z", "1z", "4s"),
    "two-kans": ([("ankan", "9m"), ("ankan", "1p")], "999m111p456s24s99p"[:0] + "999m111p456s24s88p", "17z", "3s"),
    "three-kans": ([("ankan", "9m"), ("ankan", "1p"), ("pon", "3s 3s", "3s", "2z", "3s")], "999m111p33s24m88p2z", "137z", "3m"),
}


def kan_yaku(ks=ALLK, seats=range(4), depth=(0, 0)):
    """a hand with kans and no, or exactly one, other reason to win; winning tile from each seat"""
    out = []
    for nm, (steps, hand, rin, win) in KANS.items():
        for k in ks:
            for seat in seats:
                hands = [""] * 4
                hands[seat] = hand
                for by in range(4):
                    s = Script()
                    n = 0
                    for st in steps:
                        if st[0] == "ankan":
                            s.draw(seat, st[1])
                            s.moves.append(("kan", seat))
                            s.turn = (seat + 1) % 4
                        elif st[0] == "chi":
                            s.call(seat, *st)
                        else:
                            s.call(seat, "pon", st[1], st[2], st[3])
                            if st[4]:
                                s.draw(seat, st[4])
                                s.moves.append(("kan", seat))
                                s.turn = (seat + 1) % 4
                    s.draw(by, win)
                    out.append(W("kans-%s-%d-by%d" % (nm, seat, by), hands, s.draws, s.moves, k=k, rinshan=rin,
                                 horizon=2 * len(s.draws) + 4 * len(steps), depth=depth, avoid=win + "1z"))
    return out


def ron_sweep(ks=ALLK):
    """every hand of the one-yaku list, waiting for each of its tiles in turn: every kind of wait"""
    out = []
    i = 0
    for nm, (hand, win) in CLOSED.items():
        full = [("%d%s" % (n, "mpsz"[k // 9]) if not red else "0" + "mps"[k // 9]) for k, red, n in
                [(k, red, k % 9 + 1) for k, red in parse(hand + win)]]
        for w in sorted(set(full)):
            rest = list(full)
            rest.remove(w)
            for by in (1, 0) if i % 3 else (3, 2):
                k = ks[i % len(ks)]
                i += 1
                seat = 0 if by else 2
                hands = [""] * 4
                hands[seat] = "".join(rest)
                s = Script()
                s.draw(0, None)
                s.turn = 1
                s.draw(by, w)
                out.append(W("wait-%s-%s-%d-by%d" % (nm, w, seat, by), hands, s.draws, [], k=k, horizon=2 * len(s.draws),
                             depth=(0, 0), avoid=w.replace("0", "5") + "1z"))
                own = Script()
                own.draw(seat, None)
                own.turn = (seat + 1) % 4
                own.draw(seat, w)
                out.append(W("wait-%s-%s-%d-own" % (nm, w, seat), hands, own.draws, [], k=k, horizon=2 * len(own.draws),
                             depth=(0, 0), avoid=w.replace("0", "5") + "1z"))
    return out


EXCHANGE = ("pinfu", "edge", "tanki", "chiitoi", "kokushi13", "iipeiko", "toitoi", "sananko", "junchan", "honitsu", "gates", "dragons",
            "tanyao-red", "ittsu")


def exchange_sweep(names=EXCHANGE, ks=(0,), every=1):
    """complete fourteen-tile hands with one tile exchanged for every other face: complete, tenpai
    and not tenpai on the first own draw"""
    out, i = [], 0
    for nm in names:
        hand, win = CLOSED[nm]
        full = sorted(parse(hand + win))
        for x in sorted(set(full)):
            rest = list(full)
            rest.remove(x)
            for f in _faces():
                new = parse(f)[0]
                t = rest + [new]
                if max(sum(y[0] == z[0] for z in t) for y in t) > 4 or any(
                        y[0] % 9 == 4 and y[0] < 27 and (sum(z == (y[0], True) for z in t) > 1 or sum(z == (y[0], False) for z in t) > 3) for y in t):
                    continue
                i += 1
                if i % every:
                    continue
                spec = lambda y: ("0" if y[1] else str(y[0] % 9 + 1)) + "mpsz"[y[0] // 9]
                seat = i % 4
                hands = [""] * 4
                hands[seat] = "".join(spec(y) for y in rest)
                out.append(W("exchange-%s-%s-%s-%d" % (nm, spec(x), f, seat), hands, [None] * seat + [f], [], k=ks[i % len(ks)],
                             horizon=2 * seat + 1, depth=(0, 0)))
    return out


def extra_rounds(shapes=lambda nm: nm.startswith("wind") or nm in ("none", "pinfu")):
    """one_yaku in the rounds after the scheduled ones: West in a hanchan, South in an East game"""
    return one_yaku((8, 9, 10, 11), range(4), shapes) + one_yaku((4, 5, 6, 7), range(4), shapes, n_rounds=4)


def one_yaku(ks=ALLK, seats=range(4), shapes=None, depth=(0, 0), n_rounds=8):
    """a hand with no, or exactly one, reason to win; the winning tile comes from each seat"""
    out = []
    for nm, (hand, win) in CLOSED.items():
        if shapes and not shapes(nm):
            continue
        for k in ks:
            for seat in seats:
                hands = [""] * 4
                hands[seat] = hand
                for by in range(4):
                    s = Script()
                    if seat == 0 and by != 0:
                        s.draw(0, None)
                        s.turn = 1
                    s.draw(by, win)
                    out.append(W("closed-%s-%d-by%d" % (nm, seat, by), hands, s.draws, [], k=k, n_rounds=n_rounds,
                                 horizon=2 * len(s.draws), depth=depth, avoid=win + "1z"))
    for nm, (calls, hand, win) in OPEN.items():
        if shapes and not shapes(nm):
            continue
        for k in ks:
            for seat in seats:
                hands = [""] * 4
                hands[seat] = hand
                for by in range(4):
                    s = Script()
                    for fam, h, tile, junk in calls:
                        s.call(seat, fam, h, tile, junk)
                        if fam == "minkan":
                            s.turn = (seat + 1) % 4
                    s.draw(by, win)
                    out.append(W("open-%s-%d-by%d" % (nm, seat, by), hands, s.draws, s.moves, k=k, n_rounds=n_rounds,
                                 horizon=2 * len(s.draws) + 2 * len(calls) + 1, depth=depth, avoid=win + "1z"))
    return out


# ------------------------------------------------------------------ last tile
CHI1M = [("dis", 1, "1m"), ("call", 2, "chi", "2m 3m"), ("dis", 2, "1z")]
P2 = "23m456p678s44s99p1z"


def lasttile(ks=ALLK, depth=(1, 2)):
    """an open hand without a yaku (123m 456p 678s, waits 4s 9p) meets its winning tiles early,
    on the last draw and on the last discard"""
    out = []
    for k in ks:
        base = dict(k=k, window=(134, 400), depth=depth, avoid="4s9p1m")
        out.append(W("haitei", ["", "", P2, ""], "7z1m", CHI1M, tail="4s", **base))
        out.append(W("haitei-early", ["", "", P2, ""], "7z1m2z9p4z3z9p", CHI1M, tail="4s", k=k, window=(0, 20), depth=depth))
        # the last tile is drawn and thrown by another player
        out.append(W("houtei-by0", ["", "", P2, "67p5z"], ["7z", "1m", "8p"], CHI1M,
                     tail="4s", **dict(base, avoid="4s9p1m8p")))
        out.append(W("houtei-by3", ["1z", "", "123m456p678s44s99p", ""], "2z1z3z4z1z", [], tail="4s9p", **base))
        out.append(W("houtei-by0-open", ["", "", "23m456p678s44s99p1z", "33z5z"], ["7z", "1m", "3z"],
                     [("dis", 1, "1m"), ("call", 2, "chi", "2m 3m"), ("dis", 2, "1z"), ("dis", 3, "3z")], tail="6z9p4s", **base))
        out.append(W("houtei-by1", ["66z", "", P2, ""], ["7z", "1m", "6z"],
                     CHI1M + [("dis", 3, "6z"), ("call", 0, "pon")], tail="9p4s", **base))
    return out


def wallend(ks=QK, depth=(1, 2)):
    """the last turns of the wall: riichi needs four tiles left, a kan one, and nothing can be
    called on the last discard"""
    out = []
    for k in ks:
        kw = dict(k=k, window=(122, 400), depth=depth, alphabet=("riichi", "kan", "call", "tsumo", "ron"))
        out.append(W("wallend", ["123m456p789s11z23m", "123m456p789s22z23p", "345m567p234s55z68s", "678m123p345s66z78p"],
                     tail="3z1p4z7z9s9m1s5m9p8p", **kw))
        out.append(W("wallend-kan", ["111m234p78s1122z8m", "550p234s99m3344z2m", "888p0678s99p11s6z", "22m33m44m66p77p55z3z"],
                     tail="5p8p1m5s3z6p7p9m", **kw))
    return out


# ------------------------------------------------------------------ replacement tile, robbed kan
def rinshan(ks=ALLK, depth=(1, 2), horizon=26):
    out = []
    for k in ks:
        kw = dict(k=k, horizon=horizon, depth=depth)
        # open hand, added kan; the replacement completes it
        s = Script().call(2, "pon", "9m 9m", "9m", "1z").call(2, "chi", "2m 3m", "1m", "7z").draw(2, "9m")
        out.append(W("rinshan-kakan", ["", "", "99m456p78s11s23m1z7z", ""], s.draws, s.moves + [("kan", 2)],
                     rinshan="96s", **kw))
        # open hand, kan of another player's discard
        s = Script().call(2, "chi", "2m 3m", "1m", "1z").throw(3, "8s")
        out.append(W("rinshan-minkan", ["", "", "23m456p888s99p78p1z", ""], s.draws,
                     s.moves + [("call", 2, "minkan")], rinshan="69p", **kw))
        # open hand, concealed kan
        s = Script().call(2, "chi", "2m 3m", "1m", "1z").draw(2, "8s")
        out.append(W("rinshan-ankan", ["", "", "23m456p888s99p78p1z", ""], s.draws, s.moves + [("kan", 2)],
                     rinshan="9p6p", **kw))
        # two kans in a row, then a win or not
        s = Script().call(2, "chi", "2m 3m", "1m", "1z").throw(3, "8s")
        out.append(W("rinshan-twice", ["", "", "23m777p888s99p4s12z", ""], s.draws,
                     s.moves + [("call", 2, "minkan"), ("kan", 2)], rinshan="7p4s", **kw))
    return out


def chankan(ks=ALLK, depth=(1, 2), horizon=34):
    """player 1 adds the fourth tile to a pon; player 2 (open, no yaku), player 3 (closed, no
    yaku) and player 0 (furiten through the other end of its wait) wait for it"""
    out = []
    for k in ks:
        for nm, t, pair, add, wait, wait0, other in (
                ("plain", "3s", "33s", "3s", "24s", "45s", "6s"), ("red-added", "5s", "55s", "0s", "46s", "67s", "8s"),
                ("red-in-pon", "5s", "05s", "5s", "46s", "67s", "8s"), ("red-called", "0s", "55s", "5s", "46s", "67s", "8s")):
            for furiten in (True, False):
                s = Script().throw(0, other if furiten else "9s")
                s.call(2, "chi", "2m 3m", "1m", "4z").call(1, "pon", None, t, "1z", frm=3).draw(1, add)
                out.append(W("chankan-%s%s" % (nm, "" if furiten else "-free"), [
                    "888m" + wait0 + "123p7p7p1z2z3z", "19m19p" + pair + "123456z1s",
                    "23m678p" + wait + "11p79m8m4z", "567m456p" + wait + "33p77z"],
                    s.draws, s.moves + [("kan", 1)], k=k, horizon=horizon, depth=depth, avoid=add.replace("0", "5"),
                    alphabet="all" if k < 2 and furiten else ("kan", "ron", "riichi", "tsumo")))
        # two players rob the same kan
        for a, b, frm in ((2, 3, 0), (3, 0, 2), (0, 2, 3)):
            for swap in (0, 1):
                hands = [""] * 4
                hands[1] = "33s1z"
                hands[b if swap else a], hands[a if swap else b] = "234m456p88p45s678s", "345m678p22p24s345p"
                s = Script().call(1, "pon", None, "3s", "1z", frm=frm).draw(1, "3s")
                out.append(W("chankan-two-%d%d%s" % (a, b, "x" * swap), hands, s.draws, s.moves + [("kan", 1)], k=k, rinshan="7z",
                             horizon=2 * len(s.draws) + 5, depth=depth, alphabet=("ron", "kan"), avoid="36s1z2p8p"))
    return out


def chankan_passed(ks=ALLK, depth=(1, 2)):
    """a player lets an added kan go that it could have robbed: no ron until its next own draw"""
    out = []
    for k in ks:
        for seat, other in ((2, 3), (3, 0), (0, 2)):
            hands = [""] * 4
            hands[1] = "33s1z"
            hands[seat] = "234m456p88p45s678s"
            frm = next(p for p in (0, 2, 3) if p != seat)
            s = Script().call(1, "pon", None, "3s", "1z", frm=frm).draw(1, "3s")
            n = len(s.moves)
            s.moves.append(("kan", 1))
            s.turn = 2
            for p in (2, 3, 0):
                s.throw(p, "6s" if p == other else None) if p == other else s.draw(p, None)
                s.turn = (p + 1) % 4
            s.throw((seat + 1) % 4, "6s")
            out.append(W("chankan-passed-%d" % seat, hands, s.draws, s.moves, k=k, rinshan="7z", horizon=2 * len(s.draws) + 5,
                         depth=depth, alphabet=("ron", "tsumo"), avoid="36s1z"))
    return out


# ------------------------------------------------------------------ furiten
def furiten(ks=ALLK, depth=(1, 2)):
    """a tenpai hand with a yaku (tanyao, waits 4s/7s) sees winning tiles again and again"""
    out = []
    hand = "234m456p88p56s678s"
    for k in ks:
        for seat in range(4):
            for riichi in (False, True):
                hands = [""] * 4
                hands[seat] = hand if not riichi else hand
                others = [(seat + i) % 4 for i in (1, 2, 3)]
                # passed in the go-around, own turn resets it (not after riichi)
                for first in others:
                    s = Script()
                    if riichi:
                        s.draw(seat, "9m")
                        s.moves.append(("riichi", seat, "9m"))
                        s.turn = (seat + 1) % 4
                    s.throw(first, "4s")
                    for o in others:
                        if (o - first) % 4 < (seat - first) % 4 and o != first:
                            s.throw(o, "7s")
                    s.draw(seat, None)
                    s.turn = (seat + 1) % 4
                    s.throw(others[0], "7s")
                    out.append(W("furiten-pass-%d-%d-r%d" % (seat, first, riichi), hands, s.draws, s.moves, k=k,
                                 horizon=2 * len(s.draws) + 1, depth=depth, alphabet=("ron", "tsumo", "call", "kan"),
                                 avoid="47s1z"))
                # own discard of one wait, the other one comes
                s = Script()
                s.draw(seat, "4s")
                if riichi:
                    s.moves.append(("riichi", seat, "4s"))
                else:
                    s.moves.append(("dis", seat, "4s"))
                s.turn = (seat + 1) % 4
                s.throw(others[1], "7s").draw(seat, "7s")
                out.append(W("furiten-own-%d-r%d" % (seat, riichi), hands, s.draws, s.moves, k=k,
                             horizon=2 * len(s.draws) + 1, depth=depth, alphabet=("ron", "tsumo", "call", "kan"),
                             avoid="47s1z"))
                # the same with a red five
                if k in ks[:2]:
                    for n, (own, thrown) in enumerate(("02", "05", "20", "50")):
                        c = "mps"[(seat + n + k) % 3]
                        hands = [""] * 4
                        hands[seat] = "".join(h + d for h, d in zip(("34678", "234", "45688"), (c, "mps"["mps".index(c) - 2], "mps"["mps".index(c) - 1])))
                        s = Script().draw(seat, own + c)
                        s.moves.append(("riichi" if riichi else "dis", seat, own + c))
                        s.turn = (seat + 1) % 4
                        s.throw(others[1], thrown + c)
                        out.append(W("furiten-red-%s%s-%d-r%d" % (own + thrown, c, seat, riichi), hands, s.draws, s.moves, k=k,
                                     horizon=2 * len(s.draws) + 1, depth=(0, 1), alphabet=("ron", "tsumo", "call", "kan"), avoid="25%s1z" % c))
            # a discarded wait that somebody called away still counts
            nxt = (seat + 1) % 4
            hands = [""] * 4
            hands[seat], hands[nxt] = hand, "44s1z"
            s = Script().throw(seat, "4s")
            s.moves.append(("call", nxt, "pon"))
            s.moves.append(("dis", nxt, "1z"))
            s.turn = (nxt + 1) % 4
            s.throw((seat + 3) % 4, "7s")
            out.append(W("furiten-called-%d" % seat, hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 3,
                         depth=depth, alphabet=("ron", "tsumo", "call"), avoid="47s1z"))
            # a call by the player itself ends the go-around
            hands = [""] * 4
            hands[seat] = "234m456p88p56s78s9p"[:-2] + "9m"
            hands[seat] = "23m456p88p56s678s1z"
            s = Script().call(seat, "chi", "2m 3m", "4m", "1z")
            for o in others:
                s.throw(o, "4s" if o == others[0] else "8p" if o == others[1] else "7s")
            out.append(W("furiten-call-resets-%d" % seat, hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 3,
                         depth=depth, alphabet=("ron", "tsumo", "call"), avoid="47s1z"))
            # also for a win passed before it
            for i, j in ((0, 1), (0, 2), (1, 2)):
                hands = [""] * 4
                hands[seat] = "234m567p34s555z88s"
                s = Script().throw(others[i], "2s").call(seat, "pon", "8s 8s", "8s", "3s", frm=others[j]).throw(others[0], "4s")
                out.append(W("furiten-pass-call-%d-%d%d" % (seat, i, j), hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 3,
                             depth=depth, alphabet=("ron", "tsumo", "call"), avoid="2345s5z"))
    return out


# ------------------------------------------------------------------ riichi
TENPAI = ["123m456p789s11z23m", "345m567p234s55z78s", "678m123p345s66z67p", "999m456m33p78p111s"]


def riichi(ks=QK, depth=(2, 3), horizon=18):
    """everybody can declare at once: stakes, double riichi, one-shot, calls in between, wins on
    the declaring discard"""
    out = []
    for k in ks:
        for i, scores in enumerate(((250, 250, 250, 250), (10, 9, 250, 11), (9, 10, 0, 990), (990, 19, 20, -5))):
            out.append(W("riichi-%d" % i, TENPAI, "2z3z4z7z1z4m9s6s", scores=scores, k=k, honba=i, kyotaku=i, horizon=horizon,
                         depth=depth if i == 0 else (1, 2), alphabet=("riichi", "ron", "tsumo", "call", "kan")))
    return out


def riichi_order(ks=ALLK, depth=(1, 2), horizon=24):
    """declarations in scripted order: four riichis, double or not, one-shot lost by a call"""
    out = []
    for k in ks:
        kw = dict(k=k, horizon=horizon, depth=depth, alphabet=("riichi", "ron", "tsumo", "call", "kan"))
        out.append(W("riichi-all", TENPAI, "2z3z4z7z2z3z4z7z", [("riichi", 0, "2z"), ("riichi", 1, "3z"), ("riichi", 2, "4z"),
                                                            ("riichi", 3, "7z")], **kw))
        out.append(W("riichi-called", [TENPAI[0], "22z" + "19m19p1s34567z4s", TENPAI[2], TENPAI[3]], "2z3z4z7z",
                     [("riichi", 0, "2z"), ("call", 1, "pon")], **kw))
        out.append(W("riichi-chi", [TENPAI[0], "46m" + "19m19p1s34567z4s", TENPAI[2], TENPAI[3]], "5m3z4z7z",
                     [("riichi", 0, "5m"), ("call", 1, "chi")], **kw))
        out.append(W("riichi-after-kan", [TENPAI[0], "222z" + "19m19p1s34567z", TENPAI[2], TENPAI[3]], "5z2z4z7z1z",
                     [("kan", 1), ("riichi", 2, "4z"), ("riichi", 3, "7z")], **kw))
        out.append(W("riichi-second-turn", TENPAI, "2z3z4z7z2z3z4z7z", [("dis", 0, "2z"), ("dis", 1, "3z"), ("riichi", 2, "4z"),
                                                                    ("dis", 3, "7z"), ("riichi", 0, "2z"), ("riichi", 1, "3z")], **kw))
        out.append(W("riichi-ron-on-declaration", [TENPAI[0], "456m77p345s234s2z3z"[:-4] + "2z8s", TENPAI[2], TENPAI[3]],
                     "2z3z4z7z", [("riichi", 0, "2z")], **kw))
    # one, two or three have just declared; every kind of call takes the one-shot of all of them,
    # whether or not there was a kan before
    for k in ks[:2]:
        for pre in (0, 1):
            for act in ("chi", "pon", "minkan", "ankan", "kakan"):
                for who in ((0,), (1,), (0, 1), (0, 1, 2)):
                    s = Script()
                    if pre:
                        s.draw(3, "2z")
                        s.moves.append(("kan", 3))
                        s.turn = 0
                    if act == "kakan":
                        s.call(3, "pon", "3z 3z", "3z", "1p", frm=2)
                    s.until(0)
                    tile = {"chi": "3m", "pon": "7z", "minkan": "9m"}.get(act, "6z")
                    for p, t in ((0, "4z"), (1, "4z"), (2, tile)):
                        s.draw(p, t)
                        s.moves.append(("riichi" if p in who else "dis", p, t))
                        s.turn = p + 1
                    if act in ("ankan", "kakan"):
                        s.draw(3, "9m" if act == "ankan" else "3z")
                        s.moves.append(("kan", 3))
                    else:
                        s.moves.append(("call", 3, act))
                    out.append(W("oneshot-%s-%d-%s" % (act, pre, "".join(map(str, who))), TENPAI[:3] + ["222z33z999m24m77z1p"], s.draws, s.moves,
                                 rinshan="9p1z", k=k, horizon=2 * len(s.draws) + 14, depth=(0, 1), window=(2 * len(s.draws) - 6, 400),
                                 avoid="14m69s58p", alphabet=("riichi", "ron", "tsumo", "call", "kan")))
    return out


def riichi_kan(ks=QK, depth=(1, 2), horizon=22):
    """concealed kans after riichi: allowed only with the drawn tile and unchanged waits; and
    before riichi the hand stays concealed"""
    out = []
    for k in ks:
        for seat in range(4):
            for nm, hand, drawn in (
                    ("ok", "111m456p78s999s22z", "1m"),
                    ("honor", "777z456p78s999s22p", "7z"),
                    ("changes-waits", "111m456p78s999s22z", "9s"),
                    ("changes-waits2", "3334m456p789s111z", "3m"),
                    ("red", "055m456p78s999s22z", "5m"),
                    ("red-drawn", "555m456p78s999s22z", "0m"),
                    ("sequence", "2223334m456p789s", "3m"),
                    ("not-drawn", "1111m23m456p999s2z", "6p")):
                hands = [""] * 4
                hands[seat] = hand
                s = Script()
                s.draw(seat, "4z")
                s.moves.append(("riichi", seat, "4z"))
                s.turn = (seat + 1) % 4
                s.draw(seat, drawn)
                out.append(W("riichi-kan-%s-%d" % (nm, seat), hands, s.draws + [None] * 4, s.moves + [("kan", seat)], k=k,
                             horizon=horizon, depth=depth, alphabet=("kan", "riichi", "ron", "tsumo")))
    return out


# ------------------------------------------------------------------ kans
def kans(ks=QK, depth=(1, 2), horizon=20):
    """every kind of kan, with and without red fives, and dora reveals"""
    out = []
    for k in ks:
        kw = dict(k=k, horizon=horizon, depth=depth, alphabet=("kan", "call", "ron", "tsumo", "riichi"))
        for s_, c in zip("mps", "123"):
            for nm, trip, fourth in (("plain", "333", "3"), ("red-last", "555", "0"), ("red-held", "550", "5")):
                for seat in range(4):
                    hands = [""] * 4
                    hands[seat] = trip + s_
                    # thrown by each other player: pon, open kan; drawn: concealed kan, added kan
                    for by in range(4):
                        s = Script().throw(by, fourth + s_) if by != seat else Script().draw(by, fourth + s_)
                        if k != ks[0] and (seat, by) not in ((0, 1), (1, 3), (2, 2), (3, 0)):
                            continue
                        out.append(W("kan-%s-%s%s-%d-by%d" % (nm, trip, s_, seat, by), hands, s.draws, s.moves,
                                     **dict(kw, horizon=2 * len(s.draws) + 6)))
        # pon first, then the last copy in hand or drawn
        for nm, pair, called, last in (("plain", "33s", "3s", "3s"), ("red-added", "55s", "5s", "0s"),
                                       ("red-held", "05s", "5s", "5s"), ("red-called", "55s", "0s", "5s"), ("honor", "66z", "6z", "6z")):
            for seat in range(4):
                for frm in [(seat + i) % 4 for i in (1, 2, 3)]:
                    for held in (False, True):
                        hands = [""] * 4
                        hands[seat] = pair + "1z" + (last if held else "")
                        s = Script().call(seat, "pon", None if not held else " ".join(t + pair[2] if len(pair) > 2 else "" for t in pair[:2]),
                                          called, "1z", frm=frm)
                        s.draw(seat, None if held else last)
                        out.append(W("kakan-%s-%d-from%d-%d" % (nm, seat, frm, held), hands, s.draws, s.moves + [("kan", seat)],
                                     **dict(kw, horizon=2 * len(s.draws) + 8, depth=(0, 1) if k else depth)))
        # several kans to choose from at once
        out.append(W("kan-two-quads", ["1111m222p34s1z567s", "", "", ""], "2p", [], rinshan="9m8m", k=k, horizon=9, depth=depth,
                     alphabet=("kan", "riichi", "dis")))
        for seat in range(4):
            hands = [""] * 4
            hands[seat] = "33s05m22z777p14z"
            s = Script().call(seat, "pon", "3s 3s", "3s", "1z").call(seat, "pon", "0m 5m", "5m", "4z", frm=(seat + 2) % 4)
            for t in ("7p", "3s", "5m"):
                s.draw(seat, t)
                s.moves.append(("dis", seat, "2z"))
                s.turn = (seat + 1) % 4
            out.append(W("kan-choices-%d" % seat, hands, s.draws, s.moves[:-1], k=k, dora_first=seat % 2, rinshan="8m9m1p", horizon=2 * len(s.draws) + 10,
                         window=(2 * len(s.draws) - 4, 400), depth=(2, 2), alphabet=("kan", "dis"), actors=(seat,)))
        # several kans, dora after dora
        out.append(W("kan-chain", ["111m222p333s4z567s", "", "4z7z1p1s", ""], "1m5z6z7z", [("kan", 0)], rinshan="2p3s4z9m",
                     k=k, horizon=14, depth=depth, alphabet=("kan", "call", "ron", "tsumo")))
        out.append(W("kan-chain-open", ["111m222p333s45z67s", "", "", ""], [None, None, None, "1m"],
                     [("call", 0, "minkan"), ("kan", 0), ("kan", 0)], rinshan="2p3s4z9m",
                     k=k, horizon=24, depth=depth, alphabet=("kan", "call", "ron", "tsumo")))
    return out


def manykans(ks=(0, 1), depth=(1, 1)):
    """three quads at once, four kans by one player or by two, then nobody may make a fifth;
    four melds and added kans; calls to a riichi player's rest of the hand; riichi near the end of
    a wall shortened by kans"""
    out = []
    for k in ks:
        kw = dict(k=k, depth=depth, alphabet=("kan", "call", "ron", "tsumo", "riichi"))
        for df in (0, 1):
            out.append(W("quads-three-%d" % df, ["1111m2222p3333s4z", "", "", ""], "1z", [], rinshan="9m8m7m6m", horizon=12,
                         dora_first=df, **dict(kw, depth=(3, 3), alphabet=("kan",))))
            # four kans of one player: 0, the fifth quad or triplet is another's
            out.append(W("four-kans-%d" % df, ["111m222p333s777z5z", "666z9999m2s", "888p4s", "0567s"], ["1m", "8p", "6z", "5s", "1z"],
                         [("kan", 0), ("kan", 0), ("kan", 0), ("kan", 0)], rinshan="2p3s7z1z", dora_first=df, horizon=24, **kw))
            # open and added ones, so that the indicators come late
            s = Script().call(0, "pon", "3s 3s", "3s", "1z", frm=2).call(0, "pon", "6z 6z", "6z", "2z", frm=1)
            s.call(0, "pon", "2p 2p", "2p", "3z", frm=3)
            s.draw(0, "3s")
            out.append(W("four-added-%d" % df, ["33s66z22p888m123z4p", "", "455m", "777p"], s.draws + ["4z", "4m", "7p"],
                         s.moves + [("kan", 0), ("kan", 0), ("kan", 0), ("kan", 0)], rinshan="6z2p8m1z", dora_first=df,
                         horizon=2 * len(s.draws) + 24, **dict(kw, depth=(0, 1))))
            # four kans of two players: the round ends
            out.append(W("four-kans-two-%d" % df, ["111m222p45678s9s4z", "333s777z", "888p", "0567s"], ["1m", "3s"],
                         [("kan", 0), ("kan", 0), ("kan", 1), ("kan", 1)], rinshan="2p9s7z8p", dora_first=df, horizon=20, **kw))
        # every indicator a red five
        for i, ind in enumerate(("0m0p0s1z2z", "1z0s0p0m2z", "2z1z0m0s0p", "0p1z5m0s0m")):
            for df in (0, 1):
                out.append(W("red-indicators-%d-%d" % (i, df), ["111m222p333s777z5z", "666z5m9m2s", "55p4s", "5s67s"], ["1m", "8p", "6z", "5s", "1z"],
                             [("kan", 0), ("kan", 0), ("kan", 0), ("kan", 0)], rinshan="2p3s7z1z", indicators=ind, dora_first=df, horizon=14,
                             **dict(kw, depth=(0, 1))))
                s = Script().call(1, "minkan", None, "6z", None, frm=3)
                s.moves.append(("dis", 1, "9m"))
                s.turn = 2
                s.draw(0, "1m")
                out.append(W("red-indicators-open-%d-%d" % (i, df), ["111m222p333s777z5z", "666z5m9m2s", "55p4s", "5s67s"], s.draws,
                             s.moves + [("kan", 0)], rinshan="2s3p7m1z", indicators=ind, dora_first=df, horizon=24,
                             **dict(kw, depth=(0, 1))))
        # four open sets, then the fourth tile of each
        for n, t in enumerate(("1m", "2p", "3s", "6z")):
            s = Script()
            for pair, called, junk in (("1m 1m", "1m", "7m"), ("2p 2p", "2p", "7p"), ("3s 3s", "3s", "7s"), ("6z 6z", "6z", "1z")):
                s.call(1, "pon", pair, called, junk, frm=(n + len(s.moves)) % 4 if (n + len(s.moves)) % 4 != 1 else 0)
            s.draw(1, t)
            out.append(W("four-pons-%d" % n, ["", "11m22p33s66z7m7p7s12z", "", ""], s.draws, s.moves, rinshan="9m9p9s2z",
                         horizon=2 * len(s.draws) + 16, **dict(kw, depth=(1, 2), alphabet=("kan",))))
        # sets of the same number in several suits, one of them made a kan, then a win
        for n, (a, b) in enumerate(itertools.permutations("mps", 2)):
            for num in "35":
                s = Script().call(2, "pon", num + a + " " + num + a, num + a, "1z", frm=0).call(2, "pon", num + b + " " + num + b, num + b, "2z", frm=3)
                s.draw(2, (num if num != "5" else "0") + (a if n % 2 else b))
                s.moves.append(("kan", 2))
                s.turn = 3
                out.append(W("same-number-%s%s-%s%d" % (a, b, num, n % 2), ["", "", "%s%s%s%s%s%s%s%s678m67p88s12z" % (num, a, num, a, num, b, num, b), ""],
                             s.draws + ["8p"], s.moves, rinshan="9m", avoid="58p", horizon=2 * len(s.draws) + 12,
                             **dict(kw, depth=(1, 1), window=(2 * len(s.draws) - 4, 400))))
        # a kan that can be robbed after one, two or three others
        for nk in (1, 2, 3):
            for df in (0, 1):
                for seat, robber in ((1, 2), (2, 0), (3, 1)):
                    hands = [""] * 4
                    hands[0 if robber else 1] = "111m222p777z5z9m"
                    hands[seat] = "33s1z"
                    hands[robber] = "345m456p88p45s678s"
                    s = Script().draw(0 if robber else 1, "1m")
                    s.moves += [("kan", 0 if robber else 1)] * nk
                    s.turn = 1 if robber else 2
                    frm = next(p for p in (3, 1, 2, 0) if p not in (seat, robber))
                    s.call(seat, "pon", None, "3s", "1z", frm=frm).draw(seat, "3s")
                    out.append(W("robbed-after-%d-%d%d%s" % (nk, seat, robber, "d" * df), hands, s.draws, s.moves + [("kan", seat)],
                                 rinshan="2p7z9p9s", avoid="36s1z", dora_first=df, horizon=2 * len(s.draws) + 12,
                                 **dict(kw, depth=(0, 1), alphabet=("ron", "kan"))))
        # after riichi and a concealed kan the rest of the hand may not be called for
        for seat in range(4):
            for nm, hand, kan, thrown in (("pair", "111m456p78s999s22z", "1m", ("2z", "4p", "5p")), ("chi", "777z456p78s99s111m", "7z", ("1z", "9m", "7p"))):
                hands = [""] * 4
                hands[seat] = hand
                s = Script().draw(seat, "4z")
                s.moves.append(("riichi", seat, "4z"))
                s.turn = (seat + 1) % 4
                s.draw(seat, kan)
                out.append(W("riichi-kan-calls-%s-%d" % (nm, seat), hands, s.draws + list(thrown), s.moves + [("kan", seat)], rinshan="1z",
                             horizon=2 * len(s.draws) + 12, **dict(kw, depth=(0, 1))))
        # kans early, riichi late: 70 - draws, whatever the number of kans
        for nk in (1, 2, 3):
            hands = ["111m222p333s46m55z", "456m456p789p88s67s", "789m345p678p99s56s", "678m567p99p567s78s"]
            tail = "3z1p4z7z9s9m1s5m9p8p"
            out.append(W("kans-then-end-%d" % nk, hands, "1m", [("kan", 0)] * nk, rinshan="2p3s4z7z", tail=tail, window=(124, 400),
                         avoid="5m", **dict(kw, alphabet=("riichi", "kan", "call"))))
    return out


# ------------------------------------------------------------------ calls and their competition
def crowded(ks=(0,), depth=(0, 1), late=True):
    """every combination of up to four sets a player can hold - chi, pon, open, concealed and
    added kan - and then each thing that can come: a tile thrown for a pon, a kan, a chi or a win, a
    tile drawn for a kan or a win; with and without red fives; some of it in the last turns"""
    out, n = [], 0
    for size in range(5):
        for fams in itertools.combinations_with_replacement(("chi", "pon", "minkan", "ankan", "kakan"), size):
            if sum(f[-3:] == "kan" for f in fams) == 4 and len(set(fams)) > 2:
                continue
            for red in (False, True):
                for tail in crowd_tails(fams, red):
                    n += 1
                    if red and n % 2:
                        continue
                    for wait in ((None, n // 5 % 5) if late and size in (2, 3) and n % 5 == 0 else (None,)):
                        out.append(crowd("crowded", fams, red, tail, n, ks[0] + n // 4, wait, depth))
    return [w for w in out if w]


def countdown(ks=(0,), depth=(0, 1), lefts=range(8)):
    """each kind of offer with exactly 0, 1, 2 ... tiles left, nobody or the player itself having
    made kans before (a kan takes a tile off the wall's end)"""
    out, n = [], 0
    for fams in ((), ("chi",), ("pon",), ("ankan",), ("minkan",), ("kakan",), ("ankan", "pon"), ("minkan", "pon"), ("kakan", "chi"),
                 ("ankan", "ankan"), ("kakan", "minkan"), ("ankan", "minkan", "pon"), ("ankan", "ankan", "ankan"), ("minkan", "minkan", "minkan")):
        for left in lefts:
            for tail in crowd_tails(fams, False):
                n += 1
                # the seat for which that many tiles are left when it happens
                seats = [crowd("countdown", fams, False, tail, n, ks[0] + n // 4, left, depth, a=(n + i) % 4, exact=True) for i in range(4)]
                out += [w for w in seats if w][:1]
    return out


def crowd_tails(fams, red):
    if len(fams) == 4:
        return ("throw:7p", "draw:7p") if not red else ()
    tails = ("throw:6p", "throw:8p", "draw:6p", "draw:8p") if not red else ("throw:5p", "throw:4p", "draw:5p", "draw:7p")
    return tails + tuple("draw:" + TRIPLE[i] for i, f in enumerate(fams) if f == "pon")[:1]


TRIPLE = ("5z", "9p", "9s", "1z")


def crowd(name, fams, red, tail, n, k, left, depth, a=None, exact=False):
    """a player lays out the sets `fams`, then `tail` happens, with `left` tiles left in the wall
    (None: at once); n varies who it is, who threw the called tiles, scores, honba and deposits"""
    CHI = (("1m 2m", "3m"), ("1p 2p", "3p"), ("1s 2s", "3s"), ("4s 5s", "6s"))
    JUNK = ("2z", "3z", "4z", "6z")
    REST = {False: ("7p", "666p7p", "666p7p888s", "666p7p888s777s", "666p7p888s777s444m"),
            True: ("7p", "055p6p", "055p6p888s", "055p6p888s055m", "055p6p888s055m444m")}
    a, size = n % 4 if a is None else a, len(fams)
    s = Script()
    hand, rin = REST[red][4 - size] if size < 4 else REST[red][0], []
    ri = iter(("9m", "2m", "8m", "6m"))

    def kan(fam):
        t = next(ri)
        rin.append(t)
        if fam:
            s.moves.append(("kan", a, fam))
        s.moves.append(("dis", a, t))
        s.turn = (a + 1) % 4
    for i, f in enumerate(fams):
        frm = (a + 1 + (i + n) % 3) % 4
        if f == "chi":
            s.call(a, "chi", *CHI[i], junk=JUNK[i])
            hand += CHI[i][0].replace(" ", "") + JUNK[i]
        elif f == "minkan":
            s.call(a, "minkan", None, TRIPLE[i], None, frm=frm)
            hand += TRIPLE[i] * 3
            kan(None)
        elif f == "ankan":
            s.draw(a, TRIPLE[i])
            hand += TRIPLE[i] * 3
            kan("ankan")
        else:
            s.call(a, "pon", TRIPLE[i] + " " + TRIPLE[i], TRIPLE[i], JUNK[i], frm=frm)
            hand += TRIPLE[i] * 2 + JUNK[i]
            if f == "kakan":
                s.draw(a, TRIPLE[i])
                kan("kakan")
    nk = len(rin)
    how, tile = tail.split(":")
    who = a if how == "draw" else (a - 1 - (n if tile not in ("8p", "4p") else 0) % 3) % 4
    s.until(who)
    if left is not None:
        goal = 70 - nk - left  # so many draws, the tile being the last of them
        while len(s.draws) < goal - 1:
            s.draws.append(None)
            s.turn = (s.turn + 1) % 4
        s.until(who)
        if exact and len(s.draws) != goal - 1:
            return None
    if len(s.draws) + nk >= 70:
        return None
    s.draws.append(tile)
    if how == "throw":
        s.moves.append(("dis", who, tile))
    hands = [""] * 4
    hands[a] = hand
    sc = [250 + i for i in range(4)]
    sc[a] = (250, 10, 9, 15, 600)[n % 5]
    return W("%s-%s-%s%s%s" % (name, "+".join(fams) or "none", tail, "-red" * red, "" if left is None else "-left%d" % left), hands, s.draws, s.moves,
             k=k % 8, honba=n % 3, kyotaku=n // 3 % 3, scores=sc, rinshan="".join(rin), avoid="4567p8p",
             dora_first=n % 2, window=(2 * len(s.draws) - 8, 400), horizon=2 * len(s.draws) + 14 + 3 * nk, depth=depth,
             alphabet=("ron", "call", "kan", "tsumo", "riichi"))


def calls(ks=QK, depth=(1, 2), horizon=9):
    """one discard that several players want in several ways"""
    out = []
    for k in ks:
        for s_ in "mps":
            for nm, thrown, h1, h2, h3 in (
                    ("five", "5", "344670", "55", ""), ("five-red", "5", "3467", "05", "5"), ("red", "0", "344667", "55", "5"),
                    ("five-kan", "5", "3467", "055", ""), ("red-kan", "0", "3467", "", "555"), ("four", "4", "23560", "44", "4"),
                    ("six", "6", "45780", "66", "6"), ("three", "3", "12445", "333", ""), ("seven", "7", "56890", "77", "7"),
                    ("two", "2", "1134", "22", "2"), ("eight", "8", "6799", "88", "8"), ("one", "1", "2233", "111", ""),
                    ("nine", "9", "7788", "99", "9"), ("three-red", "3", "2405", "33", ""), ("seven-red", "7", "0568", "77", "7"),
                    ("four-only-red", "4", "306", "44", ""), ("six-only-red", "6", "4078", "666", "")):
                hands = [""] + [h + s_ if h else "" for h in (h1, h2, h3)]
                out.append(W("calls-%s%s" % (nm, s_), hands, [thrown + s_], [("dis", 0, thrown + s_)], k=k,
                             horizon=horizon, depth=depth if k == ks[0] else (1, 1), window=(1, 4)))
        for z in "1234567":
            out.append(W("calls-honor%s" % z, ["", z * 2 + "z", z + "z", ""], [z + "z"], k=k, horizon=horizon,
                         depth=(1, 1), window=(1, 3)))
            out.append(W("calls-honor-kan%s" % z, ["", "", z * 3 + "z", ""], [z + "z"], k=k, horizon=horizon,
                         depth=(1, 1), window=(1, 3)))
    return out


def multiron(ks=ALLK, depth=(1, 2), horizon=14):
    """two or three players can win on one discard, others can call it"""
    out = []
    for k in ks:
        for seat in range(4):
            hands = [""] * 4
            a, b, c = [(seat + i) % 4 for i in (1, 2, 3)]
            hands[a] = "234m456p88p56s678s"
            hands[b] = "345m678p22s56s345p"
            hands[c] = "44s678m234p999p67m"
            s = Script().throw(seat, "4s")
            out.append(W("multiron-%d" % seat, hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 3, depth=depth, avoid="47s"))
            hands = list(hands)
            hands[c] = "33s678m234m567m66p"[:0] + "35s678m234m567m66p"
            out.append(W("multiron3-%d" % seat, hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 3, depth=depth, avoid="47s",
                         alphabet=("ron", "call")))
    return out


def firstturn(ks=QK, depth=(1, 2), horizon=9):
    """wins and aborts in the first turn"""
    out = []
    for k in ks:
        out.append(W("first-win", ["123m456p789s1122z", "234m567p123s3344z"[:0] + "234m567p123s33z55z"[:-1] + "z", "", ""], "1z5z",
                     k=k, horizon=horizon, depth=depth, alphabet=("tsumo", "ron", "riichi", "abort")))
        out.append(W("first-nine", ["19m19p19s1234z258m", "19m19p19s567z258p5m", "", "1m9p"], "5z6z7z", k=k, horizon=horizon, depth=depth,
                     alphabet=("abort", "riichi", "call", "tsumo", "ron")))
    return out


# ------------------------------------------------------------------ whole rounds
def whole(ks=ALLK + (9, 11), depth=(0, 1), rounds=(4, 8)):
    """rounds played to the exhausted wall, in every scheduled round of both game lengths, and
    in the extra rounds"""
    out = []
    for n in rounds:
        for k in ks:
            i = k % len(GENERAL)
            out.append(W("whole%d" % i, GENERAL[i][0], GENERAL[i][1], k=k, n_rounds=n, depth=depth, honba=k % 3, kyotaku=k % 2,
                         alphabet=("call", "riichi", "kan", "ron", "tsumo"), scores=(123 + k, 400 - k, 0, 477)))
    return out


def longest(ks=(0, 1), depth=(0, 1)):
    """rounds with the longest histories: every player makes four calls, kans are added, then the
    wall is played to its end"""
    out = []
    for k in ks:
        kinds = [["1m", "5p", "9s", "2z"], ["3m", "5m", "7p", "4z"], ["6m", "2p", "5s", "7z"], ["9m", "4p", "3s", "1z"]]
        junk = [["8m", "6p", "1s", "5z"], ["2m", "9p", "6s", "3z"], ["7m", "1p", "8s", "6z"], ["4m", "8p", "2s", "3p"]]
        hands = ["".join(t[0] * 2 + t[1] for t in kinds[p]) + "".join(junk[p]) for p in range(4)]
        for nm, order in (("turns", [0, 1, 2, 3] * 4), ("blocks", [0] * 4 + [1] * 4 + [2] * 4 + [3] * 4), ("back", [3, 2, 1, 0] * 4)):
            for shift in (1, 2, 3):
                s, n = Script(), [0] * 4
                for p in order:
                    t = kinds[p][n[p]]
                    s.call(p, "pon", t + " " + t, t, junk[p][n[p]], frm=(p - shift) % 4)
                    n[p] += 1
                    if len(s.draws) > 60:
                        break
                for kan in range(3):
                    p = (s.turn + kan) % 4
                    if len(s.draws) < 62 and n[p] == 4:
                        s.draw(p, kinds[p][kan].replace("5", "0"))
                        s.moves.append(("kan", p))
                        s.turn = (p + 1) % 4
                out.append(W("longest-%s-%d" % (nm, shift), hands, s.draws, s.moves, k=k, depth=depth, rinshan="5z3z6z4m", window=(0, 400),
                             alphabet=("kan", "ron", "tsumo")))
    return out


# ------------------------------------------------------------------ sweeps of single events
SUITS = "mps"


def _faces():
    """the 37 faces as specs"""
    for s in SUITS:
        for n in "1234567890":
            yield n + s
    for n in "1234567":
        yield n + "z"


def discard_sweep(ks=(0,)):
    """every face thrown by every seat, as drawn and from the hand"""
    out = []
    for k in ks:
        for seat in range(4):
            for f in _faces():
                s = Script().throw(seat, f)
                out.append(W("throw-%s-%d" % (f, seat), [""] * 4, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 2, depth=(0, 0)))
                hands = [""] * 4
                hands[seat] = f
                s = Script().draw(seat, None)
                s.moves.append(("dis", seat, f))
                out.append(W("throw-held-%s-%d" % (f, seat), hands, s.draws, s.moves, k=k, horizon=2 * len(s.draws) + 2, depth=(0, 0),
                             avoid=f.replace("0", "5")))
    return out


def call_sweep(ks=(0,), full=False):
    """every face thrown, against every relevant pattern of neighbours and copies in the hand of
    each other player; each offered call is also made"""
    out = []
    for k in ks:
        for fi, f in enumerate(_faces()):
            n, s = f[0], f[1]
            num = 5 if n == "0" else int(n)
            if s == "z":
                near = []
            else:
                near = [str(x) for x in range(num - 2, num + 3) if 1 <= x <= 9 and x != num]
                if "5" in near:
                    near.append("0")
            plain, red = (str(num), "0") if num == 5 and s != "z" else (str(num), None)
            copies = [""]
            for c in range(0, 5):
                for r in (0, 1):
                    if r and not red:
                        continue
                    tot = plain * c + ("0" * r)
                    lim = 3 if red else 4
                    if c + (n != "0") > lim or r + (n == "0") > 1 or c + r > 3 or not tot:
                        continue
                    copies.append(tot)
            pats = []
            for mask in range(1 << len(near)):
                sub = "".join(near[i] for i in range(len(near)) if mask >> i & 1)
                for cp in copies:
                    if sub or cp:
                        pats.append(sub + cp)
            for pi, pat in enumerate(pats):
                has = sum(ch == plain or ch == red for ch in pat)
                for rel in (1, 2, 3):
                    if rel != 1 and not full and has < 2 and pi % 8:
                        continue
                    # the thrower's seat rotates with the pattern (all four when full)
                    for by in range(4) if full else ((fi + pi) % 4,):
                        hands = [""] * 4
                        hands[(by + rel) % 4] = pat + s
                        sc = Script().throw(by, f)
                        st = 2 * len(sc.draws)
                        out.append(W("call-%s-%s%s-%d-by%d" % (f, pat, s, rel, by), hands, sc.draws, sc.moves, k=k,
                                     window=(st - 1, st), horizon=st + 1, depth=(1, 1), alphabet=("call",),
                                     actors=[(by + rel) % 4], avoid=f.replace("0", "5")))
    return out


def cross_sweep(ks=(0,)):
    """tiles whose neighbours in the numbering belong to another suit or are honours: never a
    sequence"""
    out = []
    nm = lambda x: "%d%s" % (x % 9 + 1, "mpsz"[x // 9])
    for k in ks:
        for t in range(34):
            near = [x for x in range(t - 2, t + 3) if x != t and 0 <= x < 34]
            if t < 27 and all(x // 9 == t // 9 for x in near):
                continue
            for mask in range(1, 1 << len(near)):
                sub = [near[i] for i in range(len(near)) if mask >> i & 1]
                if len(sub) < 2:
                    continue
                hands = [""] * 4
                by = (t + mask) % 4
                hands[(by + 1) % 4] = "".join(map(nm, sub))
                sc = Script().throw(by, nm(t))
                st = 2 * len(sc.draws)
                out.append(W("cross-%s-%s-by%d" % (nm(t), hands[(by + 1) % 4], by), hands, sc.draws, sc.moves, k=k, horizon=st + 1,
                             depth=(0, 0), avoid="".join(map(nm, near + [t]))))
    return out


def kan_sweep(ks=(0,)):
    """every kind as concealed kan (fourth tile drawn or already held), open kan from every seat,
    and pon then added kan, by every seat"""
    out = []
    faces = [(f, f) for f in _faces() if f[0] != "0"]
    for k in ks:
        for f, _ in faces:
            red = f[0] == "5" and f[1] in SUITS
            trips = [(f[0] * 3, f[0])] if not red else [("550", "5"), ("555", "0")]
            for trip, last in trips:
                s_ = f[1]
                for seat in range(4):
                    hands = [""] * 4
                    hands[seat] = trip + s_
                    kw = dict(k=k, depth=(0, 0))
                    sc = Script().draw(seat, last + s_)
                    out.append(W("ankan-%s%s-%s-%d" % (trip, s_, last, seat), hands, sc.draws, [("kan", seat)],
                                 horizon=2 * len(sc.draws) + 4, **kw))
                    for frm in [(seat + i) % 4 for i in (1, 2, 3)]:
                        sc = Script().throw(frm, last + s_)
                        out.append(W("minkan-%s%s-%s-%d-from%d" % (trip, s_, last, seat, frm), hands, sc.draws,
                                     sc.moves + [("call", seat, "minkan")], horizon=2 * len(sc.draws) + 3, **kw))
                    hands = [""] * 4
                    hands[seat] = trip + last + s_
                    sc = Script().draw(seat, None)
                    out.append(W("ankan-held-%s%s-%s-%d" % (trip, s_, last, seat), hands, sc.draws, [("kan", seat)],
                                 horizon=2 * len(sc.draws) + 4, **kw))
            pons = [(f[0] * 2, f[0], f[0])] if not red else [("55", "5", "0"), ("55", "0", "5"), ("05", "5", "5")]
            for pair, called, last in pons:
                s_ = f[1]
                junk = "1z" if f != "1z" else "2z"
                for seat in range(4):
                    for frm in [(seat + i) % 4 for i in (1, 2, 3)]:
                        hands = [""] * 4
                        hands[seat] = pair + s_ + junk
                        sc = Script().call(seat, "pon", None, called + s_, junk, frm=frm).draw(seat, last + s_)
                        out.append(W("kakan-%s%s-%s-%d-from%d" % (pair, s_, called, seat, frm), hands, sc.draws, sc.moves + [("kan", seat)],
                                     k=k, horizon=2 * len(sc.draws) + 4, depth=(0, 0)))
    return out
