"""C37: every history once more with the suits exchanged, the numbers reversed or the seats moved
on; the real converter's two results must be each other's image. The reference model only
generates the histories here: the oracle is the conversion of the image."""
import itertools, re
import explore, impl, reallog, worlds
from check_rounds import coverage, fam, violations
from check_rows import build, thin
from core import Outcome, check
from explore import Check
from game import document
from rules import decode

EVENT = re.compile(r"<([A-Za-z]+)(\d*)\s*((?:[A-Za-z0-9]+=\"[^\"]*\"\s*)*)/>")
FIELD = re.compile(r"([A-Za-z0-9]+)=\"([^\"]*)\"")
TILES = ("hai", "hai0", "hai1", "hai2", "hai3", "machi", "doraHai", "doraHaiUra")


class Image:
    """suits: where each suit goes; turn: numbers reversed; seats: how far every player moves on"""

    def __init__(self, suits=(0, 1, 2), turn=False, seats=0):
        self.suits, self.turn, self.seats = suits, turn, seats
        self.kinds = [suits[k // 9] * 9 + (8 - k % 9 if turn else k % 9) if k < 27 else k for k in range(34)]
        self.faces = self.kinds + [34 + suits[i] for i in range(3)]
        self.back = [self.faces.index(i) for i in range(37)]
        self.codes = {}

    def __repr__(self):
        out = []
        if self.suits != (0, 1, 2):
            out.append("suits mps as %s" % "".join("mps"[s] for s in self.suits))
        if self.turn:
            out.append("numbers reversed")
        if self.seats:
            out.append("seats moved on by %d" % self.seats)
        return ", ".join(out)

    def tile(self, t):
        return self.kinds[t // 4] * 4 + t % 4

    def seat(self, p):
        return (p + self.seats) % 4

    def code(self, m):
        if m not in self.codes:
            c = decode(m)
            if c.fam == "chi":
                tiles = sorted(map(self.tile, c.tiles))
                b = tiles[0] // 4
                x = m & 3 | 4 | ((b // 9 * 7 + b % 9) * 3 + tiles.index(self.tile(c.taken))) << 10
                for i, t in enumerate(tiles):
                    x |= t % 4 << 3 + 2 * i
            elif c.fam in ("pon", "kakan"):
                x = m & 0x1ff | (self.kinds[(m >> 9) // 3] * 3 + (m >> 9) % 3) << 9
            else:
                x = m & 0xff | self.tile(m >> 8) << 8
            self.codes[m] = x
        return self.codes[m]

    def per_seat(self, xs):
        out = [None] * 4
        for p in range(4):
            out[self.seat(p)] = xs[p]
        return tuple(out)

    def tiles(self, v):
        return tuple(v[i] for i in self.back)

    def event(self, m):
        tag, num, attrs = m.groups()
        at = FIELD.findall(attrs)
        if num:
            for letters in ("TUVW", "DEFG"):
                if tag in letters:
                    tag = letters[self.seat(letters.index(tag))]
            num = str(self.tile(int(num)))
        old, out = dict(at), []
        for k, v in at:
            if k in ("who", "fromWho", "oya"):
                v = str(self.seat(int(v)))
            elif tag == "INIT" and k == "seed":
                x = list(map(int, v.split(",")))
                x[0] = x[0] // 4 * 4 + self.seat(x[0] % 4)
                x[5] = self.tile(x[5])
                v = ",".join(map(str, x))
            elif tag == "INIT" and k == "ten":
                v = ",".join(self.per_seat(v.split(",")))
            elif tag == "REACH" and k == "ten":
                v = ",".join(self.per_seat(v.split(",")))
            elif k == "sc":
                x = v.split(",")
                v = ",".join(sum(self.per_seat([x[2 * p:2 * p + 2] for p in range(4)]), []))
            elif tag == "N" and k == "m":
                v = str(self.code(int(v)))
            elif tag == "AGARI" and k == "m":
                v = ",".join(str(self.code(int(x))) for x in v.split(","))
            elif k in TILES and v:
                v = ",".join(str(self.tile(int(x))) for x in v.split(","))
            out.append([k, v])
        if self.seats:
            for x in out:
                if re.fullmatch("hai[0-3]", x[0]):
                    x[0] = "hai%d" % self.seat(int(x[0][3]))
        return "<%s%s%s/>" % (tag, num, "".join(' %s="%s"' % tuple(x) for x in out))

    def round(self, xml):
        out, n = EVENT.subn(self.event, xml)
        assert n == xml.count("<")
        return out

    # what the conversion of the image must report
    def call(self, key):
        f = self.faces
        if key[0] == "kakan":
            return (key[0], tuple(sorted(f[x] for x in key[1])), f[key[2]])
        if key[0] == "ankan":
            return (key[0], f[key[1]])
        return (key[0], key[1], tuple(sorted(f[x] for x in key[2])), f[key[3]])

    def offers(self, o):
        return dict(agari=o["agari"], riichi=o["riichi"], who={self.seat(p) for p in o["who"]},
                    calls=sorted(((self.call(c), x) for c, x in o["calls"]), key=repr))

    def view(self, v):
        out = dict(v)
        out["player"] = self.seat(v["player"])
        for k in ("hand", "unseen", "pov"):
            out[k] = self.tiles(v[k])
        out["discards"] = self.per_seat([self.tiles(x) for x in v["discards"]])
        out["melds"] = self.per_seat([tuple(sorted((a, tuple(sorted(self.faces[t] for t in b)), c) for a, b, c in x)) for x in v["melds"]])
        for k in ("scores", "parent", "menzen", "riichi", "double", "ippatsu"):
            out[k] = self.per_seat(v[k])
        out["dora"] = tuple(self.tile(t) for t in v["dora"])
        if self.seats:      # another round of the game
            out["rounds_left"] = out["parent_left"] = None
        return out

    def point(self, p):
        out = dict(p)
        out["player"] = self.seat(p["player"])
        if p["kind"] == "post":
            out["offers"] = list(self.per_seat([self.offers(o) for o in p["offers"]]))
            out["views"] = list(self.per_seat([self.view(v) for v in p["views"]]))
        elif p["kind"] == "during":
            out["offers"] = self.offers(p["offers"])
        else:
            out["tile"] = self.tile(p["tile"])
        out["view"] = self.view(p["view"])
        return out


ONES = [Image(s, t) for s in itertools.permutations(range(3)) for t in (False, True)][1:] + [Image(seats=n) for n in (1, 2, 3)]
ALL = [Image(s, t, n) for s in itertools.permutations(range(3)) for t in (False, True) for n in range(4)][1:]


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] is None or k not in b:
                continue
            d = difference(a[k], b[k], "%s %s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and any(isinstance(x, (dict, list, tuple)) for x in a):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s is %r, the image of the original's is %r" % (path.strip(), b, a)


def mirrored(images, go):
    def f(batch, hts, toks):
        xmls = [r.xml() for _, r in batch]
        pts = [[impl.read_point(h) for h in hs] for hs in hts]
        for im in images:
            with impl.watchdog(240):
                h2, t2 = impl.convert(document([im.round(x) for x in xmls], go), "image.xml")
            if len(h2) != len(hts):
                yield 0, "%s: %d rounds instead of %d" % (im, len(h2), len(hts))
                return
            there, back = {}, {}
            for i, (ps, hs, ta, tb) in enumerate(zip(pts, h2, toks, t2)):
                if len(ps) != len(hs) or len(ta) != len(tb):
                    yield i, "%s: %d decision points and %d tokens instead of %d and %d" % (im, len(hs), len(tb), len(ps), len(ta))
                    return
                for j, (p, h) in enumerate(zip(ps, hs)):
                    q = impl.read_point(h)
                    if p["kind"] == "post":
                        # of the reaction points only the views of those who decide
                        p, q = dict(p), dict(q)
                        p["views"] = [dict() if s == p["player"] else v for s, v in enumerate(p["views"])]
                        q["view"] = {}
                    d = difference(im.point_(p), q)
                    if d:
                        yield i, "%s: point %d (%s of player %d): %s" % (im, j, p["kind"], p["player"], d)
                        return
                for a, b in zip(map(int, ta), map(int, tb)):
                    if there.setdefault(a, b) != b or back.setdefault(b, a) != a:
                        yield i, "%s: token %d becomes %d here and %d elsewhere" % (im, a, b, there[a])
                        return
    return f


def _point_(self, p):
    if p["kind"] != "post":
        return self.point(p)
    q = dict(p)
    me = p["player"]
    q["views"] = [p["view"] if s == me else v for s, v in enumerate(p["views"])]
    q = self.point(q)
    q["views"][self.seat(me)] = {}
    q["view"] = {}
    return q


Image.point_ = _point_
FEW = [Image((1, 0, 2)), Image((2, 0, 1), True), Image(seats=1)]  # a set from which all follow
SWEEP = [thin(fam("call_sweep", quick=dict(ks=(0,))), 4), thin(fam("kan_sweep", quick=dict(ks=(0,))), 4), thin(fam("discard_sweep", quick=dict(ks=(0,))), 2),
         fam("kans", quick=dict(ks=(1,), depth=(0, 1))), thin(fam("one_yaku", quick=dict(ks=(0, 5))), 4), thin(fam("kan_yaku", quick=dict(ks=(0,))), 5),
         thin(fam("exchange_sweep"), 6), fam("firstturn", quick=dict(ks=(0,), depth=(0, 1)))]
PLAY = [fam("general", quick=dict(ks=(0,), depth=(1, 1))), fam("calls", quick=dict(ks=(0,), depth=(1, 1))), fam("manykans", quick=dict(ks=(0,), depth=(0, 1))),
        fam("riichi", quick=dict(ks=(0,), depth=(1, 1))), fam("riichi_order", quick=dict(ks=(0,), depth=(1, 1))), fam("riichi_kan", quick=dict(ks=(0,), depth=(1, 1))),
        fam("chankan", quick=dict(ks=(0,), depth=(0, 1))), fam("multiron", quick=dict(ks=(0,))), thin(fam("furiten", quick=dict(ks=(0, 3))), 3),
        fam("wallend", quick=dict(ks=(0,), depth=(0, 1))), fam("real", depth=(0, 0))]


@check("C37", "model_checking", "explicit-state bounded exploration of round histories; every history and its images under the symmetries of the rules are converted by the real code and the results compared point by point")
def c37(tier, seed):
    total, all_, images = None, [], 0
    for fams, quick in ((SWEEP, ONES), (PLAY, FEW)):
        ims = quick if tier == "quick" else ALL
        ws = build(fams, tier)
        all_ += ws
        for go in sorted({w.go for w in ws}):
            res = explore.explore([w for w in ws if w.go == go], Check(per_batch=mirrored(ims, go)), tier)
            images += res.histories * len(ims)
            if total is None:
                total = res
            else:
                total.add(res)
    cov = coverage(total, all_)
    cov.update(symmetries=len(ONES if tier == "quick" else ALL), images_compared=images, traces_validated_against_impl=total.histories + images)
    return Outcome(cov, violations(total, all_), ["two symmetric mistakes cancel out here; C04-C10 and C23 compare with the reference model"])
