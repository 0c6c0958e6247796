"""C32: conversions and evaluations that overlap in time do not disturb each other. Every line of
the code is a point where another thread may take over."""
import os, sys, threading
import numpy as np
import check_models as cm
import explore, impl, rows, worlds
from core import Outcome, check

HERE = None
WAIT = 5.0      # a thread that waits for a lock the other one holds is left waiting


def _mine(code):
    global HERE
    if HERE is None:
        HERE = os.path.realpath(os.path.join(impl.REPO, "MahjongAI"))
    return os.path.realpath(code.co_filename).startswith(HERE)


class Thread:
    """runs f in a thread of its own; stops before its i-th line, or before its i-th call, and
    calls there(); result or exception is kept"""
    cache = {}

    def __init__(self, f, at=None, there=None, calls=False):
        self.f, self.at, self.there, self.n, self.calls = f, at, there, 0, calls
        self.result = self.error = None
        self.places = []
        self.t = threading.Thread(target=self.run, daemon=True)

    def run(self):
        if self.at is not None:
            sys.settrace(self.glob)
        try:
            self.result = self.f()
        except BaseException as ex:
            self.error = ex
        finally:
            sys.settrace(None)

    def glob(self, frame, event, arg):
        c = frame.f_code
        m = self.cache.get(c)
        if m is None:
            m = self.cache[c] = _mine(c)
        if not m:
            return None
        if self.calls:
            self.hit(c, 0)
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.hit(frame.f_code, frame.f_lineno)
        return self.local

    def hit(self, code, line):
        self.n += 1
        if self.at == -1:
            self.places.append((code, line))
        if self.n == self.at:
            sys.settrace(None)
            self.there()

    def start(self):
        self.t.start()
        return self

    def join(self):
        self.t.join(120)
        if self.t.is_alive():
            self.error = impl.Hang("does not end")
        return self


def points(f, calls=False, times=None):
    """points where f can be stopped: all, or the first `times` executions of every line and the last"""
    t = Thread(f, -1, None, calls).start().join()
    if times is None:
        return list(range(1, t.n + 1))
    at = {}
    for i, pl in enumerate(t.places):
        at.setdefault(pl, []).append(i + 1)
    return sorted({i for v in at.values() for i in v[:times] + v[-1:]})


def one(a, b, i, calls=False):
    """a up to its i-th point, all of b, the rest of a"""
    box = []

    def there():
        box.append(Thread(b).start())
        box[0].t.join(WAIT)
    x = Thread(a, i, there, calls).start().join()
    if box:
        box[0].join()
    return x, box[0] if box else None


def two(a, b, i, j, calls=False):
    """a up to i, b up to j, the rest of a, the rest of b"""
    box, paused, done = [], threading.Event(), threading.Event()

    def bpause():
        paused.set()
        done.wait(WAIT)

    def bwhole():
        try:
            return b()
        finally:
            paused.set()

    def there():
        box.append(Thread(bwhole, j, bpause, calls).start())
        paused.wait(WAIT)
    x = Thread(a, i, there, calls).start().join()
    done.set()
    if box:
        box[0].join()
    return x, box[0] if box else None


# ------------------------------------------------------------------ what runs
DOCS = {}


def docs():
    from game import document
    import random
    g = [w for w in worlds.general(ks=(0,), horizon=4, which=(0, 4))]
    k = [w for w in worlds.kan_sweep()]
    m = worlds.multiron(ks=(0,))
    ri = worlds.riichi(ks=(1,), horizon=5)

    def hist(ws, want, cap):
        """the shortest history with all the wanted events"""
        best = None
        for w in ws:
            for _, r in w.histories((), 1):
                s = r.xml()
                if all(x in s for x in want) and len(r.events) <= cap and (best is None or len(s) < len(best)):
                    best = s
            if best is not None and len(best) < 700:
                break
        assert best is not None, want
        return best
    return dict(call=document([hist(g, ("<N ", ), 12)], 169), kan=document([hist(k, ("<N ", "<DORA"), 12)], 161),
                ron=document([hist(m, ("<AGARI",), 12)], 169), riichi=document([hist(ri, ('<REACH',), 14)], 169),
                refused=document([hist(g, ("<N ",), 12)], 171), broken=document([hist(g, ("<N ",), 12)], 169)[:-200])


def conversion(nm):
    path = os.path.join(impl.scratch(), "c32_%s.xml" % nm)
    if not os.path.exists(path):
        with open(path, "w") as f:
            f.write(DOCS[nm])

    def f():
        from MahjongAI.process_xml import process
        try:
            return impl.freeze(process(path))
        except Exception as ex:
            return "refused: %s" % type(ex).__name__
    return f


ITEMS = []


def evaluation(f, scale, part):
    from check_scores import run

    def g():
        return {h: v.copy() for h, v in run(f, scale, [ITEMS[i] for i in part]).items()}
    return g


def task(t):
    return conversion(t[1]) if t[0] == "convert" else evaluation(*t[1:])


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(a[h].shape == b[h].shape and np.allclose(np.clip(a[h], -1e6, None), np.clip(b[h], -1e6, None), atol=2e-4) for h in a)
    return a == b


def show(t):
    return "conversion of the log '%s'" % t[1] if t[0] == "convert" else "evaluation of rows %s by %s%s" % (list(t[3]), t[1], " (other weights)" if t[2] else "")


SOLO = {}


def solo(t):
    if t not in SOLO:
        x = Thread(task(t)).start().join()
        if x.error:
            raise x.error
        SOLO[t] = x.result
    return SOLO[t]


def _overlap(job):
    ta, tb, pts, calls = job
    a, b = task(ta), task(tb)
    ra, rb = solo(ta), solo(tb)
    n = 0
    for i, j in pts:
        x, y = one(a, b, i, calls) if j is None else two(a, b, i, j, calls)
        n += 1
        where = "stopped before %s %d" % ("call" if calls else "line", i)
        if j is not None:
            where += ", the other before its %s %d" % ("call" if calls else "line", j)
        for z, r, t, o in ((x, ra, ta, tb), (y, rb, tb, ta)):
            if z is None:
                continue
            if z.error:
                return job[:2], n, "%s while %s runs (%s): %s: %s" % (show(t), show(o), where, type(z.error).__name__, z.error)
            if not equal(z.result, r):
                return job[:2], n, "%s while %s runs (%s): another result than alone" % (show(t), show(o), where)
    return job[:2], n, None


def _generators(job):
    """all interleavings of the consumers of several evaluations by one model"""
    f, parts = job
    import itertools, torch
    m = cm.model(f, 0.3)

    def gen(part):
        its = [ITEMS[i] for i in part]
        with torch.no_grad():
            return iter(m([[[p]] for _, p, _, _ in its], [[t] for _, _, t, _ in its]))
    ref = []
    for p in parts:
        with torch.no_grad():
            ref.append([lg.detach().numpy().copy() for lg, _ in gen(p)])
    lens = [len(r) + 1 for r in ref]
    n = 0
    for order in sorted(set(itertools.permutations([k for k, l in enumerate(lens) for _ in range(l)]))):
        gs, got = [gen(p) for p in parts], [[] for _ in parts]
        for k in order:
            with torch.no_grad():
                try:
                    got[k].append(next(gs[k])[0].detach().numpy())
                except StopIteration:
                    pass
        n += 1
        for k, (g, r) in enumerate(zip(got, ref)):
            if len(g) != len(r) or any(x.shape != y.shape or not np.allclose(np.clip(x, -1e6, None), np.clip(y, -1e6, None), atol=2e-4) for x, y in zip(g, r)):
                return job, n, "%s: evaluations of rows %s taken in turns %s: the %d. gives other scores than alone" % (f, [list(p) for p in parts], order, k + 1)
    return job, n, None


def jobs_for(tier):
    out = []
    C = [("convert", d) for d in DOCS]
    good = C[:4]
    pairs = [(a, b) for a in good for b in C] if tier != "quick" else [(a, b) for i, a in enumerate(good) for b in (good[i], good[(i + 1) % 4], C[4 + i % 2])]
    times = 2 if tier == "quick" else None
    lines = {t: points(task(t), False, times) for t in good}
    cuts = 0

    def split(ta, tb, pts, calls, k):
        nonlocal cuts
        cuts += len(pts)
        for s in range(0, len(pts), k):
            out.append((ta, tb, tuple(pts[s:s + k]), calls))
    for a, b in pairs:
        split(a, b, [(i, None) for i in lines[a]], False, 200)
    # two switches, at calls
    ncalls = {t: points(task(t), True, 1 if tier == "quick" else None) for t in good}
    for a, b in pairs if tier != "quick" else [(good[0], good[1]), (good[3], good[2])]:
        if b in ncalls:
            split(a, b, [(i, j) for i in ncalls[a] for j in ncalls[b]], True, 200)
    h = {}
    for i, it in enumerate(ITEMS):
        h.setdefault(it[3], []).append(i)
    p1 = tuple(h[x][0] for x in rows.HEADS)
    p2 = tuple(h[x][-1] for x in reversed(rows.HEADS)) + (h["post"][1],)
    evl = {}
    for f in rows.FAMS:
        for a, b in ((("eval", f, 0.3, p1), ("eval", f, 0.3, p2)), (("eval", f, 0.3, p2), ("eval", f, 0, p1))):
            solo(a), solo(b)
            evl[a] = points(task(a), False, times)
            split(a, b, [(i, None) for i in evl[a]], False, 40)
    gens = [(f, ps) for f in rows.FAMS for ps in ((p1, p2), (p1, p1), (p1[:2], p2[:2], p1[2:]))]
    return out, gens, cuts, lines, evl


@check("C32", "model_checking", "preemption-bounded exploration of the real code under a controlled scheduler: one thread is stopped at every line (and at pairs of calls), another takes over; all interleavings of lazily taken model results")
def c32(tier, seed):
    global ITEMS
    from check_scores import singles
    import torch
    torch.set_num_threads(1)
    DOCS.update(docs())
    ITEMS = singles(cm.c19_pool())
    jobs, gens, cuts, lines, evl = jobs_for(tier)
    out, n = [], 0
    for job, k, bad in explore.pmap(_overlap, jobs):
        n += k
        if bad:
            out.append(dict(ident="overlap:%s:%s" % job, message=bad, replay=dict(tasks=job)))
            if len(out) > 8:
                break
    g = 0
    if not out:
        for job, k, bad in explore.pmap(_generators, gens):
            g += k
            if bad:
                out.append(dict(ident="turns:%s" % (job,), message=bad, replay=dict(job=job)))
    cov = dict(states=n + g, transitions=n + g, schedules=n + g, traces_validated_against_impl=n + g, exhaustive=True, interleavings_of_results=g,
               lines_per_conversion={t[1]: len(k) for t, k in lines.items()}, lines_per_evaluation={"%s %s" % (t[1], list(t[3])): len(k) for t, k in evl.items()},
               bounds="two threads; one preemption at every line of the package (%s), two preemptions at every pair of calls" % (
                   "the first two times it is executed and the last" if tier == "quick" else "every time it is executed"),
               samples=[[list(jobs[0][0]), list(jobs[0][1]), "stopped before line 1"]])
    return Outcome(cov, out, ["a switch inside a library call or in the middle of a line is not explored", "a thread that waits for a lock is given 5 s, then the other goes on"])
