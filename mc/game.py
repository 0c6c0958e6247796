"""Reference model of one round as recorded in a Tenhou log, and the XML it produces.

A Round is driven by actions; it records the log events and, for every decision point, what
a correct conversion has to report. It shares no code with the implementation."""
import itertools
from rules import (RED, REDIDX, Call, complete, decode, encode, face, isred, kind, shape_yaku,
                   waits, YAOCHU)

DRAW, DISC = "TUVW", "DEFG"


class View:
    """what a correct state for one player is"""
    __slots__ = ("player", "hand", "unseen", "pov", "discards", "melds", "left", "scores",
                 "kyotaku", "honba", "dora", "parent", "rounds_left", "parent_left", "menzen",
                 "riichi", "double", "ippatsu")

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Point:
    __slots__ = ("kind", "player", "enc", "tile", "view", "views", "offers", "taken", "cause")

    def __init__(self, kind, player, enc, tile=None, view=None, views=None, offers=None, cause=None):
        self.kind, self.player, self.enc, self.tile = kind, player, enc, tile
        self.view, self.views, self.offers, self.cause = view, views, offers, cause
        self.taken = []  # (player, offer)

    def clone(self):
        p = Point(self.kind, self.player, self.enc, self.tile, self.view, self.views, self.offers, self.cause)
        p.taken = list(self.taken)
        return p


class Round:
    def __init__(self, deal):
        d = deal
        self.deal = d
        self.n_rounds, self.k = d["n_rounds"], d["k"]
        self.oya = self.k % 4
        self.honba, self.kyotaku = d.get("honba", 0), d.get("kyotaku", 0)
        self.scores = list(d.get("scores", (250, 250, 250, 250)))
        self.start_scores = tuple(self.scores)
        self.start_kyotaku = self.kyotaku
        self.hands = [set(h) for h in d["hands"]]
        self.wall = d["wall"]
        self.rinshan = d["rinshan"]
        self.indicators = d["indicators"]
        self.n_drawn = 0
        self.n_rin = 0
        self.left = 70
        self.dora = [self.indicators[0]]
        self.visible = []          # tiles everybody has seen
        self.visible.append(self.indicators[0])
        self.gone = []             # all tiles no longer hidden from everybody (dealt, drawn, revealed)
        self.seen_by = [list(h) for h in d["hands"]]
        self.unseen = [4] * 34 + [1] * 3
        self.pov = [[4] * 34 + [1] * 3 for _ in range(4)]
        for p in range(4):
            for t in d["hands"][p]:
                self._dec(self.unseen, t)
                self._dec(self.pov[p], t)
        self._reveal(self.indicators[0])
        self.disc = [[0] * 37 for _ in range(4)]
        self.melds = [[] for _ in range(4)]
        self.riichi = [0] * 4
        self.double = [0] * 4
        self.ippatsu = [0] * 4
        self.menzen = [1] * 4
        self.passed = [0] * 4      # furiten through a passed win
        self.draws_done = 0        # draws by anyone
        self.calls_done = 0
        self.phase = "draw"
        self.player = self.oya
        self.drawn = None
        self.last = None           # tile on offer to the others
        self.rin = False           # next draw is a replacement
        self.pending_dora = 0
        self.pending_riichi = None
        self.forbidden = ()        # kinds not to be discarded after chi/pon
        self.events = []           # (tag, attrs)
        self.tokens = []           # semantic events
        self.points = []
        self.trace = []            # actions taken
        self.ended = False
        self.copied = False
        self.cur = None            # index of the point that can still be marked

    # ------------------------------------------------------------- helpers
    @staticmethod
    def _dec(v, t):
        v[t // 4] -= 1
        if t in REDIDX:
            v[REDIDX[t]] -= 1

    def _reveal(self, t):
        self._dec(self.unseen, t)
        for p in range(4):
            self._dec(self.pov[p], t)

    def clone(self):
        r = Round.__new__(Round)
        d = r.__dict__
        for k, v in self.__dict__.items():
            if k == "deal":
                d[k] = v
            elif k in ("hands",):
                d[k] = [set(x) for x in v]
            elif k in ("pov", "disc", "melds", "seen_by"):
                d[k] = [list(x) for x in v]
            elif isinstance(v, list):
                d[k] = list(v)
            else:
                d[k] = v
        if r.points:
            # points may still get marks
            r.points[-1] = r.points[-1].clone()
            if len(r.points) > 1:
                r.points[-2] = r.points[-2].clone()
        return r

    def counts(self, p, extra=None):
        c = [0] * 34
        for t in self.hands[p]:
            c[t // 4] += 1
        if extra is not None:
            c[extra // 4] += 1
        return c

    def seat(self, p):
        return 27 + (p - self.oya) % 4

    @property
    def round_wind(self):
        return 27 + self.k // 4

    def hand37(self, p):
        v = [0] * 37
        for t in self.hands[p]:
            v[t // 4] += 1
            if t in REDIDX:
                v[REDIDX[t]] += 1
        return tuple(v)

    def view(self, p):
        v = View()
        v.player = p
        v.hand = self.hand37(p)
        v.unseen = tuple(self.unseen)
        v.pov = tuple(self.pov[p])
        v.discards = tuple(tuple(x) for x in self.disc)
        v.melds = tuple(tuple(sorted(m.meldkey() for m in x)) for x in self.melds)
        v.left = self.left
        v.scores = tuple(self.scores)
        v.kyotaku, v.honba = self.kyotaku, self.honba
        v.dora = tuple(self.dora)
        v.parent = tuple(int(i == self.oya) for i in range(4))
        rem = self.n_rounds - self.k
        v.rounds_left = rem
        v.parent_left = tuple(sum(1 for j in range(self.k, self.n_rounds) if j % 4 == i) for i in range(4))
        v.menzen, v.riichi = tuple(self.menzen), tuple(self.riichi)
        v.double, v.ippatsu = tuple(self.double), tuple(self.ippatsu)
        return v

    def shape_melds(self, p):
        T = {"chi": "c", "pon": "p", "kakan": "k", "minkan": "k", "ankan": "a"}
        return tuple(sorted((T[m.fam], m.kind) for m in self.melds[p]))

    # ------------------------------------------------------------- legality
    def first_turns(self):
        """nobody has called and this is somebody's first turn"""
        return self.calls_done == 0 and self.draws_done <= 4

    def can_tsumo(self, p):
        c = self.counts(p)
        if not complete(c):
            return False
        if self.menzen[p]:
            return True  # concealed self-draw
        if self.rin_drawn or self.left == 0:
            return True
        return bool(shape_yaku(tuple(c), self.shape_melds(p), self.drawn // 4, True, self.seat(p), self.round_wind))

    def waits(self, p):
        return waits(self.counts(p))

    def can_ron(self, p, tile, chankan=False):
        c = self.counts(p, tile)
        if not complete(c):
            return False
        if self.passed[p] or any(self.disc[p][k] for k in self.waits(p)):
            return False
        if self.riichi[p] or chankan or self.left == 0:
            return True
        return bool(shape_yaku(tuple(c), self.shape_melds(p), tile // 4, False, self.seat(p), self.round_wind))

    def tenpai_discards(self, p):
        """tiles whose discard leaves a hand waiting for something"""
        out = []
        for t in sorted(self.hands[p]):
            self.hands[p].discard(t)
            if self.waits(p):
                out.append(t)
            self.hands[p].add(t)
        return out

    def riichi_ok(self, p):
        return bool(self.menzen[p] and not self.riichi[p] and self.scores[p] >= 10 and self.left >= 4
                    and self.tenpai_discards(p))

    def ankans(self, p):
        c = self.counts(p)
        out = []
        if self.left == 0 or self.n_kans() >= 4:  # no replacement tile
            return out
        for k in range(34):
            if c[k] == 4:
                if self.riichi[p]:
                    if k != self.drawn // 4:
                        continue
                    before = list(c)
                    before[k] -= 1
                    after = list(c)
                    after[k] -= 4
                    if waits(before) != waits(after):
                        continue
                out.append(decode(encode("ankan", 0, [4 * k], None)))
        return out

    def kakans(self, p):
        out = []
        if self.left == 0 or self.n_kans() >= 4:
            return out
        for m in self.melds[p]:
            if m.fam == "pon":
                for t in self.hands[p]:
                    if t // 4 == m.kind:
                        out.append(decode(encode("kakan", 0, [t], None, pon=m)))
        return out

    def calls(self, p, tile, frm):
        """every legal call by p on the discarded tile, up to identical copies"""
        out = {}
        if self.riichi[p] or self.left == 0:
            return []
        hand = sorted(self.hands[p])
        rel = (frm - p) % 4
        k = tile // 4
        same = [t for t in hand if t // 4 == k]
        for a, b in itertools.combinations(same, 2):
            c = decode(encode("pon", rel, [a, b], tile))
            out.setdefault(c.key(), c)
        if len(same) == 3 and self.n_kans() < 4:
            c = decode(encode("minkan", rel, same, tile))
            out.setdefault(c.key(), c)
        if rel == 3 and k < 27:
            for base in range(k - 2, k + 1):
                if base < 0 or base // 9 != k // 9 or (base + 2) // 9 != k // 9:
                    continue
                need = [x for x in (base, base + 1, base + 2) if x != k]
                for a in [t for t in hand if t // 4 == need[0]]:
                    for b in [t for t in hand if t // 4 == need[1]]:
                        c = decode(encode("chi", rel, [a, b], tile))
                        out.setdefault(c.key(), c)
        return list(out.values())

    def n_kans(self):
        return sum(m.fam in ("ankan", "minkan", "kakan") for x in self.melds for m in x)

    def four_kans(self):
        """four kans of more than one player end the round after the next discard"""
        return self.n_kans() == 4 and sum(any(m.fam in ("ankan", "minkan", "kakan") for m in x) for x in self.melds) > 1

    # ------------------------------------------------------------- actions
    def legal(self):
        """actions, the quiet default first"""
        p = self.player
        if self.phase == "act":
            out = []
            hand = sorted(self.hands[p])
            if self.riichi[p]:
                dis = [self.drawn]
            else:
                dis = [t for t in hand if t // 4 not in self.forbidden]
            # one of several identical copies is enough; the drawn one is told apart
            seen = {}
            for t in dis:
                seen.setdefault((face(t), t == self.drawn), t)
            dis = sorted(seen.values(), key=lambda t: (t != self.drawn, t))
            out += [("dis", t) for t in dis]
            pt = self.points[-1] if self.cur is not None else None
            if self.drawn is not None:
                if pt.offers["agari"]:
                    out.append(("tsumo",))
                if pt.offers["riichi"]:
                    ok = set(self.tenpai_discards(p))
                    out += [("riichi", t) for t in dis if t in ok]
                out += [("kan", c.code) for c in self.ankans(p) + self.kakans(p)]
                if self.first_turns() and len({t // 4 for t in hand if t // 4 in YAOCHU}) >= 9:
                    out.append(("abort", "yao9"))
            return out
        if self.phase in ("react", "kakan"):
            pt = self.points[-1]
            out = [("pass",)]
            rons = [q for q in range(4) if pt.offers[q]["agari"]]
            for n in (1, 2, 3):
                for w in itertools.combinations(rons, n):
                    out.append(("ron",) + w)
            if self.phase == "react":
                for q in range(4):
                    for c in pt.offers[q]["calls"].values():
                        if self.four_kans():
                            continue
                        if c.fam in ("chi", "pon") and not self._can_discard_after(q, c):
                            continue
                        out.append(("call", q, c.code))
            return out
        return []

    def _forbidden(self, c):
        f = {c.taken // 4}
        if c.fam == "chi":
            a, b = sorted(t // 4 for t in c.hand)
            t = c.taken // 4
            if b - a == 1:
                o = a - 1 if t > a else b + 1  # the other end of the two-sided wait
                if 0 <= o < 27 and o // 9 == t // 9:
                    f.add(o)
        return tuple(f)

    def _can_discard_after(self, q, c):
        f = self._forbidden(c)
        return any(t // 4 not in f for t in self.hands[q] if t not in c.hand)

    def do(self, a):
        self.trace.append(a)
        getattr(self, "_do_" + a[0])(*a[1:])

    def start(self):
        self._draw(self.oya)
        return self

    def _event(self, tag, **attr):
        self.events.append((tag, attr))

    def _draw(self, p):
        self.player = p
        if self.rin:
            t = self.rinshan[self.n_rin]
            self.n_rin += 1
        else:
            t = self.wall[self.n_drawn]
            self.n_drawn += 1
        self.rin_drawn = self.rin
        self.rin = False
        self.left -= 1
        self.draws_done += 1
        self._event(DRAW[p] + str(t))
        self.hands[p].add(t)
        self._dec(self.unseen, t)
        self._dec(self.pov[p], t)
        self.drawn = t
        self.forbidden = ()
        if not self.riichi[p]:
            self.passed[p] = 0
        offers = {
            "agari": self.can_tsumo(p),
            "riichi": self.riichi_ok(p),
            "calls": {c.key(): c for c in self.ankans(p) + self.kakans(p)},
        }
        self.points.append(Point("during", p, len(self.tokens), None, self.view(p), None, offers,
                                 cause="rinshan" if self.rin_drawn else "draw"))
        self.cur = len(self.points) - 1
        self.phase = "act"

    def _flush_dora(self):
        while self.pending_dora:
            self.pending_dora -= 1
            self._dora()

    def _dora(self):
        t = self.indicators[len(self.dora)]
        self._event("DORA", hai=str(t))
        self.dora.append(t)
        self._reveal(t)
        self.tokens.append(("dora", t // 4))

    def _do_riichi(self, tile):
        p = self.player
        self._event("REACH", who=str(p), step="1")
        self.points[self.cur].taken.append((p, "riichi"))
        self._do_dis(tile)
        self.pending_riichi = p

    def _do_dis(self, tile):
        p = self.player
        self._flush_dora()
        self.points.append(Point("discard", p, len(self.tokens), tile, self.view(p)))
        self._event(DISC[p] + str(tile))
        self.hands[p].discard(tile)
        self.disc[p][tile // 4] = 1
        if tile in REDIDX:
            self.disc[p][REDIDX[tile]] = 1
        self.ippatsu[p] = 0
        for q in range(4):
            if q != p:
                self._dec(self.pov[q], tile)
        self.tokens.append(("discard", p, tile // 4, tile == self.drawn))
        self.drawn = None
        self.last = tile
        self._react("react", tile)

    def _react(self, phase, tile):
        p = self.player
        offers = []
        for q in range(4):
            if q == p:
                offers.append({"agari": False, "calls": {}})
                continue
            offers.append({
                "agari": self.can_ron(q, tile, phase == "kakan"),
                "calls": {c.key(): c for c in self.calls(q, tile, p)} if phase == "react" else {},
            })
        self.points.append(Point("post", p, len(self.tokens), tile, None,
                                 tuple(self.view(q) for q in range(4)), offers, cause=phase))
        self.cur = len(self.points) - 1
        for q in range(4):
            if q != p and complete(self.counts(q, tile)):
                self.passed[q] = 1
        self.phase = phase

    def _settle_riichi(self):
        p = self.pending_riichi
        if p is None:
            return
        self.pending_riichi = None
        self.scores[p] -= 10
        self.kyotaku += 1
        self.riichi[p] = 1
        self.ippatsu[p] = 1
        # a double riichi is declared in the uninterrupted first turn
        if self.first_turns():
            self.double[p] = 1
        self._event("REACH", who=str(p), step="2", ten=",".join(map(str, self.scores)))
        self.tokens.append(("riichi", p))

    def _do_pass(self):
        if self.phase == "kakan":
            self._flush_dora()
            self.rin = True
            self.pending_dora += 1
            self._draw(self.player)
            return
        self._settle_riichi()
        if self.left == 0 or self.four_kans():
            self._do_abort("kan4" if self.four_kans() else None)
            return
        self._draw((self.player + 1) % 4)

    def _expose(self, q, c):
        for t in c.hand:
            self.hands[q].discard(t)
            for o in range(4):
                if o != q:
                    self._dec(self.pov[o], t)

    def _do_call(self, q, code):
        c = decode(code)
        self.points[self.cur].taken.append((q, c.key()))
        self._settle_riichi()
        self._event("N", who=str(q), m=str(code))
        self.calls_done += 1
        self.ippatsu = [0] * 4
        self.menzen[q] = 0
        if not self.riichi[q]:
            self.passed[q] = 0
        self._expose(q, c)
        self.melds[q].append(c)
        self.tokens.append(("call", q) + c.key())
        self.player = q
        self.cur = None
        self.drawn = None
        if c.fam == "minkan":
            self.rin = True
            self.pending_dora += 1
            self._draw(q)
        else:
            self.forbidden = self._forbidden(c)
            self.phase = "act"

    def _do_kan(self, code):
        p = self.player
        c = decode(code)
        self.points[self.cur].taken.append((p, c.key()))
        if self.deal.get("dora_first"):
            self._flush_dora()     # of an earlier kan, before the next one (else after it)
        self._event("N", who=str(p), m=str(code))
        self.calls_done += 1
        self.ippatsu = [0] * 4
        self._expose(p, c)
        self.tokens.append(("call", p) + c.key())
        self.drawn = None
        if c.fam == "ankan":
            self.melds[p].append(c)
            self._flush_dora()
            self._dora()
            self.rin = True
            self._draw(p)
        else:
            self.melds[p] = [m for m in self.melds[p] if not (m.fam == "pon" and m.kind == c.kind)] + [c]
            self._react("kakan", c.hand[0])

    def _sc(self, delta):
        return ",".join("%d,%d" % (s, d) for s, d in zip(self.scores, delta))

    def _do_tsumo(self):
        p = self.player
        self.points[self.cur].taken.append((p, "agari"))
        delta = [-10] * 4
        delta[p] = 30 + 10 * self.kyotaku
        self._agari(p, p, self.drawn, delta)
        self.ended = True
        self.phase = "end"

    def _do_ron(self, *who):
        # the winners in turn order; sticks go to the first
        who = sorted(who, key=lambda q: (q - self.player) % 4)
        for i, q in enumerate(who):
            self.points[self.cur].taken.append((q, "agari"))
            delta = [0] * 4
            delta[q] = 20 + (10 * self.kyotaku if i == 0 else 0)
            delta[self.player] = -20
            self._agari(q, self.player, self.last if self.phase == "react" else self.points[self.cur].tile, delta)
        self.ended = True
        self.phase = "end"

    def _agari(self, q, frm, tile, delta):
        hand = sorted(self.hands[q] | {tile})
        attr = dict(ba="%d,%d" % (self.honba, self.kyotaku), hai=",".join(map(str, hand)))
        if self.melds[q]:
            attr["m"] = ",".join(str(m.code) for m in self.melds[q])
        attr.update(machi=str(tile), ten="30,2000,0", yaku="7,1", doraHai=",".join(map(str, self.dora)))
        attr.update(who=str(q), fromWho=str(frm), sc=self._sc(delta))
        self.events.append(("AGARI", attr))

    def _do_abort(self, type_=None):
        attr = {} if type_ is None else {"type": type_}
        attr.update(ba="%d,%d" % (self.honba, self.kyotaku), sc=self._sc([0] * 4))
        self.events.append(("RYUUKYOKU", attr))
        self.ended = True
        self.phase = "end"

    def cut(self):
        """end the round here (recorded as an abortive draw)"""
        if not self.ended:
            self._do_abort("cut")

    # ------------------------------------------------------------- output
    def init_attr(self):
        d = self.deal
        a = dict(seed=",".join(map(str, (self.k, self.honba, self.start_kyotaku, 0, 0, self.indicators[0]))),
                 ten=",".join(map(str, self.start_scores)), oya=str(self.oya))
        for p in range(4):
            a["hai%d" % p] = ",".join(map(str, d["hands"][p]))
        return a

    def xml(self):
        out = ["<INIT %s/>" % " ".join('%s="%s"' % kv for kv in self.init_attr().items())]
        for tag, attr in self.events:
            out.append("<%s %s/>" % (tag, " ".join('%s="%s"' % kv for kv in attr.items())))
        return "".join(out)


def document(rounds_xml, go, extra_head=""):
    return ('<mjloggm ver="2.3"><SHUFFLE seed="mt19937ar-sha512-n288-base64,AAAA" ref=""/>'
            '<GO type="%d" lobby="0"/><UN n0="a" n1="b" n2="c" n3="d" dan="16,16,16,16" '
            'rate="1500,1500,1500,1500" sx="M,M,M,M"/><TAIKYOKU oya="0"/>%s%s</mjloggm>'
            % (go, extra_head, "".join(rounds_xml)))


# ------------------------------------------------------------------ deals
def parse(s):
    """'123m0p77z' -> list of (kind, red)"""
    out, num = [], []
    for ch in s:
        if ch.isdigit():
            num.append(int(ch))
        elif ch in "mpsz":
            b = "mpsz".index(ch) * 9
            out += [((b + 4, True) if n == 0 else (b + n - 1, False)) for n in num]
            num = []
    assert not num, s
    return out


class Pool:
    def __init__(self):
        self.free = {}
        for t in range(136):
            self.free.setdefault((t // 4, isred(t)), []).append(t)

    def take(self, spec):
        out = []
        for key in parse(spec) if isinstance(spec, str) else spec:
            if not self.free[key]:
                raise ValueError("no %r left for %r" % (key, spec))
            out.append(self.free[key].pop(0))
        return out

    def rest(self):
        return sorted(t for v in self.free.values() for t in v)


def make_deal(hands, draws="", rinshan="", indicators="", k=0, n_rounds=8, tail="", avoid="", keep="", **kw):
    """hands: four specs by absolute seat (may be partial or None: filled with leftovers);
    draws: the first live draws in order, a spec or a list of tiles and None (any leftover);
    tail: the last live draws; avoid: kinds that leftovers must not use before the dead wall;
    keep: tiles taken out of play in the dead wall"""
    pool = Pool()
    H = [pool.take(h) if h else [] for h in hands]
    items = [[x] for x in parse(draws)] if isinstance(draws, str) else [x and parse(x) for x in draws]
    W = [pool.take(x)[0] if x else None for x in items]
    R = pool.take(rinshan)
    I = pool.take(indicators)
    T = pool.take(tail)
    K = pool.take(keep)
    rest = pool.rest()
    # spread leftovers so that neighbours in the list are unrelated tiles
    rest = [t for i in range(17) for t in rest[i::17]]
    av = {x[0] for x in parse(avoid)}
    rest = [t for t in rest if t // 4 not in av] + K + [t for t in rest if t // 4 in av]
    # the dead wall comes from the end, first the rinshan tiles and hidden indicators
    I += [rest.pop() for _ in range(5 - len(I))]
    R += [rest.pop() for _ in range(4 - len(R))]
    for h in H:
        while len(h) < 13:
            h.append(rest.pop(0))
        assert len(h) == 13, h
    W = [rest.pop(0) if t is None else t for t in W]
    W = W + rest[: 70 - len(W) - len(T)] + T
    assert len(W) == 70
    d = dict(hands=H, wall=W, rinshan=R, indicators=I, k=k, n_rounds=n_rounds)
    d.update(kw)
    return d
