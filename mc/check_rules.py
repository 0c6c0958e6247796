"""C11 (prefixes), C12 (independence), C13 (rule sets)."""
import os
import explore, impl, worlds
from core import Outcome, check
from game import document
from rules import decode


# ------------------------------------------------------------------ C11
END = ("RYUUKYOKU", {"type": "cut", "ba": "0,0", "sc": "250,0,250,0,250,0,250,0"})


def event_points(tag, attr):
    if tag[0] in "TUVW" and tag[1:].isdigit():
        return 1
    if tag[0] in "DEFG" and tag[1:].isdigit():
        return 2
    if tag == "N" and decode(int(attr["m"])).fam == "kakan":
        return 1
    return 0


def xml_of(r, events):
    init = "<INIT %s/>" % " ".join('%s="%s"' % kv for kv in r.init_attr().items())
    return init + "".join("<%s %s/>" % (t, " ".join('%s="%s"' % kv for kv in a.items())) for t, a in events)


WS = []


def c11_task(args):
    wi, prefix, depth = args
    w = WS[wi]
    out = dict(hist=0, cuts=0, points=0, docs=0, bad=[], sample=None, sigs=set())
    for devs, r in w.histories(prefix, depth):
        # the first event after the last deviation: earlier cuts belong to the history without it
        base = 0
        if devs:
            q = w.start()
            dv = dict(devs)
            while q.step <= max(dv):
                acts, scripted = w.menu(q)
                i = dv.get(q.step, 0)
                n = len(q.events)
                w.advance(q, acts[i], scripted and i == 0)
            base = n
        cuts = list(range(base, len(r.events)))
        if r.events[-1] == END or r.events[-1][0] in ("AGARI", "RYUUKYOKU"):
            while cuts and any(e[0] in ("AGARI",) for e in r.events[:cuts[-1]]):
                cuts.pop()
        out["hist"] += 1
        rounds = [xml_of(r, r.events)] + [xml_of(r, r.events[:c] + [END]) for c in cuts]
        try:
            full, parts = None, []
            for i in range(0, len(rounds), 24):
                with impl.watchdog(120):
                    h, t = impl.convert(document(rounds[i:i + 24], w.go))
                out["docs"] += 1
                parts += list(zip(h, t))
            if len(parts) != len(rounds):
                raise ValueError("%d rounds give %d results" % (len(rounds), len(parts)))
        except (Exception, SystemExit, impl.Hang) as ex:
            out["bad"].append((w.name, devs, "conversion of the log or a prefix fails: %s: %s (%s)" % (type(ex).__name__, ex, explore.frame(ex))))
            return out
        (fh, ft), rest = parts[0], parts[1:]
        frozen = [impl.freeze(p) for p in fh]
        unmarked = [impl.freeze(p, ("executed",)) for p in fh]
        toks = [int(x) for x in ft]
        for c, (h, t) in zip(cuts, rest):
            out["cuts"] += 1
            out["points"] += len(h)
            n = sum(event_points(*e) for e in r.events[:c])
            msg = None
            if len(h) != n:
                msg = "%d decision points, expected %d" % (len(h), n)
            elif [int(x) for x in t] != toks[:len(t)]:
                msg = "tokens are not a prefix of the full conversion's"
            else:
                for i, p in enumerate(h):
                    last = i == n - 1
                    if last and impl.freeze(p, ("executed",)) != unmarked[i] or not last and impl.freeze(p) != frozen[i]:
                        msg = "point %d differs from the full conversion's: %s" % (i, difference(p, fh[i]))
                        break
            if msg:
                out["bad"].append((w.name, devs, "cut after event %d (%s): %s" % (c, r.events[c - 1][0] if c else "INIT", msg)))
                return out
        if len(out["sigs"]) < 200000:
            out["sigs"].add(hash(tuple(frozen)))
        # nothing recorded for the first rounds was altered by converting the later ones
        if devs and out["sample"] is None:
            out["sample"] = dict(world=w.name, deviations=devs, cuts=len(cuts), actions=[list(a) for a in r.trace][:30])
    return out


def difference(a, b, path="point"):
    if type(a).__module__.startswith("MahjongAI") and type(a) is type(b):
        y = dict(impl.attributes(b))
        for k, v in impl.attributes(a):
            if impl.freeze(v) != impl.freeze(y.get(k)):
                return difference(v, y.get(k), path + "." + k)
        return path
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if impl.freeze(x) != impl.freeze(y):
                return difference(x, y, "%s[%d]" % (path, i))
    return "%s: %s / %s" % (path, str(impl.freeze(a))[:150], str(impl.freeze(b))[:150])


@check("C11", "model_checking", "bounded exploration of round histories with every cut point: real conversion of each prefix compared with the full conversion")
def C11(tier, seed):
    global WS
    deep = tier == "thorough"
    W = worlds
    one = (0, 1)
    WS = (W.general(ks=(0, 1) if not deep else (0, 1, 2, 3), depth=one, horizon=22 if not deep else 40)
          + W.riichi(ks=(0,) if not deep else (0, 3), depth=(1, 2)) + W.riichi_order(ks=(0, 1), depth=(1, 1)) + W.riichi_kan(ks=(0,), depth=(1, 1))
          + W.kans(ks=(0,) if not deep else (0, 1), depth=(0, 1)) + W.manykans(ks=(0,), depth=(0, 1)) + W.chankan(ks=(0, 2), depth=(1, 1)) + W.rinshan(ks=(0, 3), depth=(0, 1))
          + W.calls(ks=(0,), depth=(1, 1)) + W.multiron(ks=(0, 1), depth=(1, 1)) + W.firstturn(ks=(0,), depth=(1, 2))
          + W.furiten(ks=(0,), depth=(0, 1)) + W.wallend(ks=(0,), depth=(0, 1)) + W.whole(ks=(0, 3, 6), depth=(0, 0), rounds=(8,)))
    tasks = []
    for i, w in enumerate(WS):
        for prefix, rest in w.tasks(w.depth[1] if deep else w.depth[0]):
            tasks.append((i, prefix, rest))
    tot = dict(hist=0, cuts=0, points=0, docs=0)
    bad, sample, sigs = [], None, set()
    for o in explore.pmap(c11_task, tasks, chunk=4):
        for k in tot:
            tot[k] += o[k]
        bad += o["bad"]
        sigs |= o["sigs"]
        sample = sample or o["sample"]
        if len(bad) > 5:
            break
    import check_rounds

    class R:
        pass
    res = R()
    res.bad = bad
    return Outcome(dict(states=len(sigs), transitions=tot["cuts"], traces_validated_against_impl=tot["hist"], points_compared=tot["points"],
                        documents_converted=tot["docs"], worlds=len(WS), bounds="every cut point of every history with at most D deviations",
                        exhaustive=True, samples=[sample or "none"]), check_rounds.violations(res, WS),
                   ["a log cut off after an event is closed by an abortive draw, so that it is well formed"])


# ------------------------------------------------------------------ documents for C12, C13
def pick(ws, sub, devs=()):
    for w in ws:
        if w.name.startswith(sub):
            return w, w.run(devs)
    raise KeyError(sub)


def round_pool():
    """rounds of many shapes, as XML"""
    W = worlds
    out = {}
    for key, ws, sub in (
            ("general", W.general(ks=(0,)), "general0"), ("reds", W.general(ks=(1,)), "general2"), ("calls", W.general(ks=(3,)), "general4"),
            ("riichis", W.riichi_order(ks=(0,)), "riichi-all"), ("kanchain", W.kans(ks=(0,)), "kan-chain@"),
            ("kanopen", W.kans(ks=(2,)), "kan-chain-open"), ("chankan", W.chankan(ks=(5,)), "chankan-red-added-free"),
            ("minkan", W.rinshan(ks=(7,)), "rinshan-minkan"), ("furiten", W.furiten(ks=(6,)), "furiten"),
            ("wall", W.whole(ks=(4,), rounds=(8,)), "whole")):
        out[key] = pick(ws, sub)[1].xml()
    # a win ends a round
    w = [x for x in W.multiron(ks=(1,)) if "multiron-0" in x.name][0]
    for devs, r in w.histories((), 1):
        if r.trace[-1][0] == "ron" and len(r.trace[-1]) == 3:
            out["doubleron"] = r.xml()
            break
    w = [x for x in W.riichi(ks=(2,))][0]
    for devs, r in w.histories((), 2):
        if r.trace[-1][0] == "tsumo" and any(a[0] == "riichi" for a in r.trace):
            out["riichiwin"] = r.xml()
            break
    return out


def bye(doc, where):
    tag = '<BYE who="2"/>'
    if where == "start":
        return doc.replace('<TAIKYOKU oya="0"/>', '<TAIKYOKU oya="0"/>' + tag, 1)
    if where == "end":
        return doc.replace("</mjloggm>", tag + "</mjloggm>")
    if where == "mid":
        i = doc.index("<INIT") + 1
        for _ in range(6):
            i = doc.index("<", i) + 1
        return doc[:i - 1] + tag + '<UN n2="c"/>' + doc[i - 1:]
    raise AssertionError(where)


def documents():
    p = round_pool()
    R = lambda *k: [p[x] for x in k]
    good = document(R("general", "riichis"), 169)
    d = {
        "good-general": good,
        "good-reds": document(R("reds"), 169),
        "good-kans": document(R("kanchain", "kanopen"), 161),
        "good-chankan": document(R("chankan", "doubleron"), 169),
        "good-riichi": document(R("riichiwin"), 161),
        "good-empty": document([], 169),
        "invalid-bye": bye(good, "end"),
        "invalid-bye-mid": bye(good, "mid"),
        "invalid-sanma": document(R("reds"), 185),
        "invalid-nored": document(R("kanchain"), 171),
        "invalid-nokuitan": document(R("reds"), 173),
        "invalid-bots": document(R("reds"), 168),
        "bad-truncated": good[: len(good) // 2],
        "bad-empty": "",
        "bad-binary": b"\x1f\x8b\x08\x00\xff\xfe garbage",
        "bad-nogo": good.replace('<GO type="169" lobby="0"/>', ""),
        "bad-go": good.replace('type="169"', 'type="x"'),
        "bad-tile": good.replace("<T", "<T9", 3),
        "bad-event": document([p["riichis"].replace('<REACH who="1"', '<REACH wh0="1"')], 169),
        "bad-kan": document([p["kanopen"].replace('m="', 'm="9', 2)], 169),
        "bad-hand": document([p["reds"].replace('hai0="', 'hai0="5,', 1)], 169),
        "bad-score": document([p["general"], p["doubleron"].replace('sc="', 'sc="x,')], 169),
        "bad-late": document([p["kanchain"], p["riichis"].replace("<D", "<D9")], 169),
        "bad-noattr": document([p["chankan"].replace(" hai2=", " hay2=")], 169),
    }
    return d


def outcome(path):
    kind, x = impl.try_convert(path)
    if kind == "ok":
        return ("ok", impl.freeze(x)), x
    return ("error", type(x).__name__), None


DOCS = {}
BASE = {}
ROUNDS = {}
RBASE = {}


def fresh(job):
    """one conversion in a process that has done none before"""
    what, key = job
    doc = DOCS[key] if what == "doc" else document([ROUNDS[key]], 169)
    return job, outcome(impl.write("fresh.xml", doc))[0]


def c12_seq(seq):
    out = []
    names, samename = seq
    kept = []
    for i, nm in enumerate(names):
        if nm == "bad-missing":
            path = os.path.join(impl.scratch(), "no-such-file.xml")
        else:
            path = impl.write("same.xml" if samename else "d%s.xml" % nm, DOCS[nm])
        got, raw = outcome(path)
        if got != BASE[nm]:
            out.append((names[:i + 1], "%s differs from its conversion in a fresh process (%s)" % (nm, show(got, BASE[nm]))))
            break
        if raw is not None:
            kept.append((nm, raw))
    else:
        for nm, raw in kept[:-1]:
            if ("ok", impl.freeze(raw)) != BASE[nm]:
                out.append((names, "the result of %s changed while later files were converted" % nm))
    return len(names), out


def show(a, b):
    if a[0] == b[0] == "ok":
        return "different results, %d/%d rounds" % (len(a[1][0]), len(b[1][0]))
    return "%s, expected %s" % (a if a[0] == "error" else "ok", b if b[0] == "error" else "ok")


def c12_rounds(keys):
    out = []
    kind, res = impl.try_convert(impl.write("r.xml", document([ROUNDS[k] for k in keys], 169)))
    if kind != "ok":
        return len(keys), [(keys, "rounds %r in one file: %s: %s" % (keys, type(res).__name__, res))]
    h, t = res
    if len(h) != len(keys) or len(t) != len(keys):
        return len(keys), [(keys, "%d rounds in the file, %d/%d in the result" % (len(keys), len(h), len(t)))]
    for i, k in enumerate(keys):
        a = impl.freeze((h[i], t[i]))
        b = (RBASE[k][1][0][0], RBASE[k][1][1][0])
        if a != b:
            out.append((keys, "round %d (%s) differs from its conversion alone" % (i, k)))
            break
    return len(keys), out


CHILD = """
import sys, hashlib, glob, os
sys.path.insert(0, sys.argv[1])
import check_rules
for p in sorted(glob.glob(os.path.join(sys.argv[2], "*.xml"))):
    print(os.path.basename(p)[:-4], check_rules.digest(check_rules.outcome(p)[0]))
"""


def digest(o):
    import hashlib
    return hashlib.sha1(repr(o).encode()).hexdigest()


def elsewhere():
    """the pool in processes with other hash seeds, other directories and locales: (where, differing file)"""
    import shutil, subprocess, sys
    d = os.path.join(impl.scratch(), "elsewhere")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for k in DOCS:
        with open(os.path.join(d, k + ".xml"), "wb") as f:
            f.write(DOCS[k] if isinstance(DOCS[k], bytes) else DOCS[k].encode())
    for where, env, args in (("hash seed 1", dict(PYTHONHASHSEED="1"), []), ("hash seed 2", dict(PYTHONHASHSEED="2"), []), ("hash seed 77", dict(PYTHONHASHSEED="77"), []),
                             ("C locale", dict(LC_ALL="C", LANG="C", PYTHONCOERCECLOCALE="0"), []), ("another time zone and home", dict(TZ="Asia/Tokyo", HOME=d), []),
                             ("development mode", dict(PYTHONHASHSEED="3"), ["-X", "dev"])):
        p = subprocess.run([sys.executable, "-B"] + args + ["-c", CHILD, os.path.dirname(os.path.abspath(__file__)), d], env=dict(os.environ, MC_REPO=impl.REPO, **env),
                           capture_output=True, text=True, cwd=d)
        if p.returncode:
            raise RuntimeError("%s: %s" % (where, p.stderr[-600:]))
        got = dict(l.split() for l in p.stdout.splitlines() if len(l.split()) == 2)
        yield where, next((k for k in sorted(DOCS) if got.get(k) != digest(BASE[k])), None)
    shutil.rmtree(d, ignore_errors=True)


@check("C12", "model_checking", "exhaustive enumeration of sequences of conversions (files and rounds) up to a depth against fresh-process results")
def C12(tier, seed):
    global DOCS, BASE, ROUNDS, RBASE
    import itertools, multiprocessing as mp
    DOCS, ROUNDS = documents(), round_pool()
    deep = tier == "thorough"
    # baselines: one conversion per process
    pool = mp.get_context("fork").Pool(os.cpu_count() or 4, maxtasksperchild=1)
    bad = []
    jobs = [("doc", k) for k in DOCS] + [("round", k) for k in ROUNDS]
    for (what, k), o in pool.imap_unordered(fresh, jobs, 1):
        (BASE if what == "doc" else RBASE)[k] = o
    pool.close()
    pool.join()
    BASE["bad-missing"] = ("error", "FileNotFoundError")
    for k, o in sorted(BASE.items()):
        want = "ok" if k.startswith("good") else "error"
        if o[0] != want or k.startswith("invalid") and o[1] != "InvalidGameException":
            bad.append(dict(ident="base:" + k, message="%s: %s" % (k, o if o[0] == "error" else "is converted"), replay={}))
    for k, o in sorted(RBASE.items()):
        if o[0] != "ok" or len(o[1][0]) != 1:
            bad.append(dict(ident="base:" + k, message="round %s alone: %s" % (k, o), replay={}))
    n = steps = 0
    rounds_n = 0
    if not bad:
        for where, k in elsewhere():
            n += 1
            steps += len(DOCS)
            if k:
                bad.append(dict(ident="process:%s:%s" % (where, k), message="%s converted in another process (%s) gives another result" % (k, where), replay=dict(file=k)))
    if not bad:
        names = sorted(BASE)
        goods = [k for k in names if k.startswith("good") and k != "good-empty"]
        seqs = [((a,), True) for a in names]
        seqs += [((a, b), s) for a in names for b in names for s in (True, False)]
        if deep:
            seqs += [((a, b, c), True) for a in names for b in names for c in names]
        else:
            seqs += [((a, b, c), True) for a in names for b in names for c in goods if c in (goods[0], goods[2])]
        seqs += [(tuple(names) * 2, True), (tuple(reversed(names)) * 2, False)] + [((g,) * 12, True) for g in goods]
        for k, o in explore.pmap(c12_seq, seqs, chunk=8):
            n += 1
            steps += k
            for seq, msg in o:
                bad.append(dict(ident="seq:%s" % (seq,), message="after %s: %s" % (list(seq), msg), replay=dict(sequence=seq)))
            if len(bad) > 5:
                break
        ks = sorted(ROUNDS)
        combos = [(a, b) for a in ks for b in ks] + ([x for x in itertools.product(ks, repeat=3)] if deep else
                                                     [(a, b, c) for a in ks for b in ks for c in ks if "wall" not in (a, b, c)])
        combos += [tuple(ks), tuple(reversed(ks)), tuple(ks) * 2]
        for k, o in explore.pmap(c12_rounds, combos, chunk=8):
            rounds_n += 1
            steps += k
            for seq, msg in o:
                bad.append(dict(ident="rounds:%s" % (seq,), message="%s" % msg, replay=dict(rounds=seq, log=document([ROUNDS[x] for x in seq], 169))))
            if len(bad) > 10:
                break
    return Outcome(dict(states=len(BASE) + len(RBASE), transitions=steps, traces_validated_against_impl=n + rounds_n, file_sequences=n, round_sequences=rounds_n,
                        bounds="all sequences of 2 (all) and 3 (ending in a convertible file; thorough: all) of %d files; all pairs and triples of %d rounds" % (len(BASE), len(RBASE)),
                        exhaustive=True, samples=[["bad-late", "good-kans"], ["riichis", "kanchain", "riichis"]]), bad,
                   ["the result of a conversion in a process that has converted nothing else is the reference"])


# ------------------------------------------------------------------ C13
def c13_go(go):
    from MahjongAI.process_xml import InvalidGameException
    out, n = [], 0
    ok_go = go & 1 and not go & 2 and not go & 4 and not go & 16
    for where in (None, "start", "mid", "end"):
        for shape in ("game", "sanma", "none"):
            if shape == "sanma" and not go & 16:
                continue
            doc = document([ROUNDS["a"], ROUNDS["b"]] if shape != "none" else [], go)
            if shape == "sanma":
                import re
                doc = re.sub(r'hai3="[^"]*"', 'hai3=""', doc)
            if where:
                if shape == "none" and where == "mid":
                    continue
                doc = bye(doc, where)
            n += 1
            kind, res = impl.try_convert(impl.write("g.xml", doc))
            label = "type %d (0x%x), %s%s" % (go, go, shape, ", disconnection at the %s" % where if where else "")
            want = ok_go and not where
            if want:
                if kind != "ok":
                    out.append((label, "is not converted: %s: %s" % (type(res).__name__, res)))
                    continue
                total = 8 if go & 8 else 4
                if len(res[0]) != (2 if shape == "game" else 0):
                    out.append((label, "%d rounds" % len(res[0])))
                    continue
                for i, h in enumerate(res[0]):
                    s = impl.read_state(h[0].stateObj)
                    k = (0, 3)[i]
                    exp = (total - k, tuple(sum(1 for j in range(k, total) if j % 4 == p) for p in range(4)))
                    if (s["rounds_left"], s["parent_left"]) != exp:
                        out.append((label, "round %d: rounds and dealer turns left are %r, expected %r" % (k, (s["rounds_left"], s["parent_left"]), exp)))
            elif kind == "ok":
                out.append((label, "is converted although not supported"))
            elif not isinstance(res, InvalidGameException):
                out.append((label, "is rejected with %s: %s instead of the invalid-game error" % (type(res).__name__, res)))
    return go, n, out


@check("C13", "exploration", "exhaustive enumeration of rule codes and disconnection positions on the real converter")
def C13(tier, seed):
    global ROUNDS
    from MahjongAI.gameinfo import GameInfo
    bad, n = [], 0
    p = worlds
    ROUNDS = {"a": p.general(ks=(0,), horizon=8)[0].run(()).xml(), "b": p.general(ks=(3,), horizon=8)[1].run(()).xml()}
    flags = 0
    for go in range(1 << 16):
        g = GameInfo(go)
        exp = dict(against_human=go & 1, no_red=go >> 1 & 1, kansaki=go >> 2 & 1, tonnan=go >> 3 & 1, three_players=go >> 4 & 1,
                   fast=go >> 6 & 1, level=(go & 0xA0) >> 5, n_rounds=8 if go & 8 else 4)
        for k, v in exp.items():
            flags += 1
            got = getattr(g, k)()
            if int(got) != v and len(bad) < 5:
                bad.append(dict(ident="%s:%d" % (k, go), message="GameInfo(%d).%s() is %r, expected %d" % (go, k, got, v), replay=dict(go=go)))
    gos = range(1024 if tier == "quick" else 8192)
    supported = 0
    for go, k, out in explore.pmap(c13_go, gos, chunk=8):
        n += k
        supported += bool(go & 1 and not go & 0x16)
        for label, msg in out:
            if len(bad) < 8:
                bad.append(dict(ident=label, message="%s %s" % (label, msg), replay=dict(go=go)))
    return Outcome(dict(evaluations=n + flags, distinct_nontrivial=n, rule="rule codes 0..%d, four positions of a disconnection, four-player, three-player and empty documents; and every 16-bit code for the flag decoding" % (len(gos) - 1),
                        supported_codes=supported, flag_evaluations=flags, exhaustive=True, samples=["type 169 converted, 8 rounds", "type 185 rejected"]), bad,
                   ["rule bits as published by Tenhou: 1 humans, 2 no red, 4 no open tanyao, 8 hanchan, 16 three players, 64 fast, 32/128 level"])
