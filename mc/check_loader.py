"""C15: the data loader over every small directory, batch size and pattern of passes."""
import contextlib, io, itertools, os, re, shutil
import explore, impl, worlds
from check_rules import bye
from core import Outcome, check
from game import document

GOOD, KINDS, FROZEN = [], {}, []
PLAIN = 6  # generated games; after them a full-length one


def setup():
    global GOOD, KINDS
    ws = worlds.general(ks=(0, 1), horizon=4)
    GOOD = [document([ws[i].run(()).xml()] + ([ws[i + 1].run(()).xml()] if i % 2 else []), (169, 161)[i % 2]) for i in range(6)]
    long = worlds.whole(ks=range(8), rounds=(8,))
    GOOD.append(document([w.run(()).xml() for w in long], 169))
    g = GOOD[0]
    KINDS = {
        "i": [document([ws[3].run(()).xml()], 171), bye(GOOD[1], "end"), document([ws[2].run(()).xml()], 185),
              document([ws[4].run(()).xml()], 173), document([ws[5].run(()).xml()], 168), bye(GOOD[2], "mid")],  # not supported
        "m": [g[: len(g) // 2], "", b"\x1f\x8b\x00garbage", g.replace("<GO ", "<OG ")],                         # not a log
        "f": [g.replace('hai0="', 'hai0="1,', 1), g.replace("<T", "<T9", 1), g.replace("<INIT", "<TINI", 1),
              g.replace(' hai3=', ' hay3=')],                                                              # fails inside
        "d": [None],                                                                                     # a directory
    }


def frozen(i):
    while len(FROZEN) <= i:
        kind, x = impl.try_convert(impl.write("ref.xml", GOOD[len(FROZEN)]))
        if kind != "ok":
            raise x
        FROZEN.append(impl.freeze(x))
    return FROZEN[i]


def run_dir(job):
    spec, batches = job
    out, runs, calls = [], 0, [0]
    root = os.path.join(impl.scratch(), "dir")
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    content, g, used = {}, 0, {}
    items = re.findall(r"([gimfd])(\d*)", spec)
    for i, (ch, variant) in enumerate(items):
        # names in another order than the content
        nm = "2019%02d%s%s.xml" % ((i * 7 + 3) % 11, "xyz"[i % 3], i // 33 or "")
        p = os.path.join(root, nm)
        if ch == "g":
            # the same game may be there more than once
            n = int(variant) if variant else g % PLAIN
            content[nm] = n
            data = GOOD[n]
            g += 1
        else:
            v = KINDS[ch][(int(variant) if variant else used.get(ch, 0)) % len(KINDS[ch])]
            used[ch] = used.get(ch, 0) + 1
            content[nm] = None
            data = v
        if data is None:
            os.mkdir(p)
        else:
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
    from MahjongAI.utils.dataloader import DataLoader
    orders = []
    for o in (os.listdir(root), sorted(os.listdir(root))):
        orders.append([content[n] for n in o if content[n] is not None])

    def collect(dl, bs, limit=None):
        """one pass (or its first batches): list of batches of game numbers"""
        res = []
        while limit is None or len(res) < limit:
            calls[0] += 1
            try:
                b = next(dl)
            except StopIteration:
                try:
                    next(dl)
                    return "goes on after it has stopped"
                except StopIteration:
                    pass
                break
            games, tokens = b
            if len(games) != len(tokens):
                return "a batch of %d games and %d token lists" % (len(games), len(tokens))
            ids = []
            for x, t in zip(games, tokens):
                fz = impl.freeze((x, t))
                m = [i for i in sorted({n for n in content.values() if n is not None}) if frozen(i) == fz]
                if not m:
                    return "a delivered game (with its tokens) is none of the convertible files"
                ids.append(m[0])
            res.append(ids)
            if len(res) > len(items) + 2:
                return "never stops"
        return res

    def expected(order, bs):
        return [order[i:i + bs] for i in range(0, len(order), bs)]

    for bs in batches:
        def fail(msg):
            out.append(("%s/%d" % (spec, bs), "directory %r, batch size %d: %s" % (spec, bs, msg)))
        try:
            with impl.watchdog(60), contextlib.redirect_stdout(io.StringIO()):
                dl = DataLoader(root, bs, log_func=lambda *a: None)
                p1 = collect(dl, bs)
                exps = [expected(o, bs) for o in orders]
                runs += 1
                if p1 not in exps:
                    fail("one pass delivers %r, expected %r" % (p1, exps[0]))
                    break
                dl.reset()
                p2 = collect(dl, bs)
                runs += 1
                if p2 != p1:
                    fail("the pass after a reset delivers %r, the first one %r" % (p2, p1))
                    break
                # reset in the middle of a pass, at every point
                for k in range(1, len(p1) + 1):
                    dl = DataLoader(root, bs, log_func=lambda *a: None)
                    part = collect(dl, bs, k)
                    dl.reset()
                    p3 = collect(dl, bs)
                    runs += 1
                    if part != p1[:k] or p3 != p1:
                        fail("reset after %d batches (%r): then %r, expected %r" % (k, part, p3, p1))
                        break
                # two loaders at once, one iterated by for
                a, b = DataLoader(root, bs, log_func=lambda *a: None), DataLoader(root, bs, log_func=lambda *a: None)
                first = collect(a, bs, 1)
                n = sum(1 for _ in b)
                rest = collect(a, bs)
                runs += 1
                if n != len(p1) or (first + rest if isinstance(rest, list) else rest) != p1:
                    fail("with a second loader at work a pass delivers %r then %r, expected %r" % (first, rest, p1))
                    break
        except (Exception, SystemExit, impl.Hang) as ex:
            fail("%s: %s (%s)" % (type(ex).__name__, ex, explore.frame(ex)))
            break
    shutil.rmtree(root, ignore_errors=True)
    return len(items), runs, calls[0], out


@check("C15", "model_checking", "exhaustive enumeration of directory contents, batch sizes and reset points on the real loader")
def C15(tier, seed):
    setup()
    deep = tier == "thorough"
    specs = ["".join(x) for n in range(0, 5 if deep else 4) for x in itertools.product("gimfd", repeat=n)]
    specs += ["".join(x) for n in (range(5, 7) if deep else range(4, 6)) for x in itertools.product("gim", repeat=n) if x.count("g") <= 6]
    specs += ["".join(x) for x in itertools.product("gf", repeat=5 if deep else 4)]
    # every variant of every kind between and around convertible files; a full-length game; games
    # that are there twice; many files
    specs += [s for c in "imf" for v in range(len(KINDS[c])) for s in ("g%s%dg" % (c, v), "%s%dg" % (c, v), "gg%s%d" % (c, v), "g%s%dggg" % (c, v))]
    big = PLAIN
    specs += ["g%d" % big, "g%dg0" % big, "g0g%dg1" % big, "g0g0", "g0g1g0", "g2ig2mg2", "g" * 13, "gfg" * 9, "gimgd" * 8]
    specs = sorted(set(specs), key=lambda s: (len(s), s))
    def batches(s):
        n = len(re.findall("[gimfd]", s))
        return sorted({1, 2, 3, max(1, n), n + 2} if n < 10 else {2, 5, 8, n})
    jobs = [(s, batches(s)) for s in specs]
    bad, runs, files, calls = [], 0, 0, 0
    for n, r, k, out in explore.pmap(run_dir, jobs, chunk=4):
        runs += r
        calls += k
        files += n
        bad += [dict(ident=i, message=m, replay=dict(spec=i)) for i, m in out]
        if len(bad) > 5:
            break
    return Outcome(dict(states=len(specs), transitions=calls, traces_validated_against_impl=runs, files_in_directories=files,
                        bounds="every sequence of up to %d files (convertible, unsupported, not a log, failing inside, a directory) and longer ones over fewer kinds, five batch sizes, resets at every point" % (4 if deep else 3),
                        exhaustive=True, samples=["gimg with batch size 2", "mfgg reset after 1 batch"]), bad,
                   ["the order of a pass is that of the directory listing or of the sorted names"])
