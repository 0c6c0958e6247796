"""Real Tenhou logs as worlds: the reference model is driven along the recorded events, each of
which must be a legal action of the model, and must produce the recorded log."""
import os, re
from core import ROOT
from explore import World
from game import DRAW, DISC, Round
from rules import decode, face

LOGS = ("log1.xml", "log2.xml")


class Mismatch(Exception):
    pass


def text(fname):
    with open(os.path.join(ROOT, "data", fname)) as f:
        return f.read()


def tags(xml):
    for m in re.finditer(r"<([A-Z]+)(\d*)((?:\s+[A-Za-z0-9]+=\"[^\"]*\")*)\s*/>", xml):
        yield m.group(1), m.group(2), dict(re.findall(r"([A-Za-z0-9]+)=\"([^\"]*)\"", m.group(3)))


def nums(s):
    return [int(x) for x in s.split(",")]


def rounds(xml):
    """[(deal, actions, events)] of a four-player hanchan"""
    out = []
    for tag, num, at in tags(xml):
        if tag == "INIT":
            out.append((at, []))
        elif out:
            out[-1][1].append((tag, num, at))
    return [one(at, ev) for at, ev in out]


def one(init, ev):
    k, honba, kyotaku, _, _, ind = nums(init["seed"])
    wall, rin, inds = [], [], [ind]
    acts, after_kan, rons = [], False, []
    riichi = False
    player = None
    for tag, num, at in ev:
        if tag in DRAW and num:
            (rin if after_kan else wall).append(int(num))
            if acts and acts[-1] == "react":
                acts[-1] = ("pass",)
            after_kan, player = False, DRAW.index(tag)
        elif tag in DISC and num:
            acts.append(("riichi" if riichi else "dis", int(num)))
            acts.append("react")
            riichi = False
        elif tag == "REACH":
            riichi = at["step"] == "1"
        elif tag == "N":
            c = decode(int(at["m"]))
            if c.fam in ("ankan", "kakan"):
                acts.append(("kan", c.code))
                if c.fam == "kakan":
                    acts.append("react")
            else:
                assert acts.pop() == "react"
                acts.append(("call", int(at["who"]), c.code))
            after_kan = c.fam in ("ankan", "kakan", "minkan")
        elif tag == "DORA":
            inds.append(int(at["hai"]))
        elif tag == "AGARI":
            if at["who"] == at["fromWho"]:
                acts.append(("tsumo",))
            else:
                rons.append(int(at["who"]))
        elif tag == "RYUUKYOKU":
            if at.get("type") == "yao9":
                acts.append(("abort", "yao9"))
    if rons:
        assert acts.pop() == "react"
        acts.append(("ron",) + tuple(sorted(rons)))
    elif acts[-1] == "react":
        acts[-1] = ("pass",)
    hands = [nums(init["hai%d" % p]) for p in range(4)]
    used = set(sum(hands, [])) | set(wall) | set(rin) | set(inds)
    rest = [t for t in range(136) if t not in used]
    rest = [t for i in range(17) for t in rest[i::17]]
    inds += [rest.pop() for _ in range(5 - len(inds))]
    rin += [rest.pop() for _ in range(4 - len(rin))]
    wall += rest[:70 - len(wall)]
    deal = dict(hands=hands, wall=wall, rinshan=rin, indicators=inds, k=k, n_rounds=8, honba=honba, kyotaku=kyotaku,
                scores=tuple(nums(init["ten"])))
    assert int(init["oya"]) == k % 4
    return deal, acts, ev


def same(a, b):
    """the same action up to identical copies"""
    if a[0] != b[0]:
        return False
    if a[0] == "call":
        return a[1] == b[1] and decode(a[2]).key() == decode(b[2]).key()
    if a[0] == "kan":
        return decode(a[1]).key() == decode(b[1]).key()
    return a[1:] == b[1:]


class RealWorld(World):
    """a recorded round; the default play is what was played"""

    def __init__(self, name, deal, acts, **kw):
        World.__init__(self, name, deal, (), **kw)
        self.acts = acts

    def menu(self, r):
        acts = r.legal()
        if r.sp == r.step and r.step < len(self.acts):
            want = self.acts[r.step]
            i = self.find(r, acts, want)
            if i is None:
                raise Mismatch("%s step %d: %r is not legal in the model: %r" % (self.name, r.step, want, acts))
            return [want] + acts[:i] + acts[i + 1:], True
        return acts, False

    @staticmethod
    def find(r, acts, want):
        for i, a in enumerate(acts):
            if same(a, want):
                return i
            if a[0] == want[0] and a[0] in ("dis", "riichi") and face(a[1]) == face(want[1]) and \
                    (a[1] == r.drawn) == (want[1] == r.drawn) and want[1] in r.hands[r.player]:
                return i
        return None


def real(depth=(0, 1), window=(0, 10 ** 9), logs=LOGS, alphabet="all", horizon=400, which=None):
    out = []
    for f in logs:
        for i, (deal, acts, ev) in enumerate(rounds(text(f))):
            if which is None or i in which:
                out.append(RealWorld("%s-%d" % (f, i), deal, acts, depth=depth, window=window, alphabet=alphabet, horizon=horizon))
    return out


def confirm():
    """the model reproduces every recorded round; returns the number of events compared"""
    n = 0
    for f in LOGS:
        for i, (deal, acts, ev) in enumerate(rounds(text(f))):
            w = RealWorld("%s-%d" % (f, i), deal, acts)
            r = w.run(())
            got = [(re.match("[A-Z]+", t).group(), re.search(r"\d*$", t).group(), at) for t, at in r.events]
            if len(got) != len(ev):
                raise Mismatch("%s: %d events, recorded %d" % (w.name, len(got), len(ev)))
            for a, b in zip(got, ev):
                keys = {"REACH": ("who", "step", "ten"), "N": ("who", "m"), "DORA": ("hai",),
                        "AGARI": ("who", "fromWho", "machi", "hai", "doraHai", "ba")}.get(a[0], ())
                if a[:2] != b[:2] or any(a[2].get(x) != b[2].get(x) for x in keys):
                    raise Mismatch("%s: %r, recorded %r" % (w.name, a, b))
                n += 1
    return n


def original(check):
    """the recorded files themselves, converted by the real code and compared; yields
    (world name, message)"""
    import impl
    for f in LOGS:
        ws = [RealWorld("%s-%d" % (f, i), deal, acts) for i, (deal, acts, ev) in enumerate(rounds(text(f)))]
        rs = [w.run(()) for w in ws]
        try:
            with impl.watchdog(120):
                hts, toks = impl.read(impl.convert(text(f)), check.states)
            if len(hts) != len(rs) or len(toks) != len(rs):
                raise ValueError("%d rounds in the log, %d/%d in the result" % (len(rs), len(hts), len(toks)))
        except (Exception, SystemExit) as ex:
            yield ws[0].name, "the recorded game is not converted: %s: %s" % (type(ex).__name__, ex)
            continue
        for w, r, h, t in zip(ws, rs, hts, toks):
            for msg in list(check.per_round(r, h, t))[:2]:
                yield w.name, "(as recorded) " + msg
