"""Deviation-bounded exhaustive exploration of round histories.

A world is a deal, a script of default moves, a horizon and an alphabet of deviations. All
histories with at most D deviations from the default play are generated by the reference
model (mc/game.py); each is written as a log, converted by the real code, and compared."""
import json, os, sys, time, traceback
import multiprocessing as mp
from game import Round, document
from rules import face, isred, kind, name, decode
import impl


class World:
    def __init__(self, name, deal, script=(), horizon=400, alphabet="all", window=(0, 10 ** 9), depth=(1, 2),
                 actors=None, go=169):
        self.name, self._deal, self.script, self.horizon = name, deal, list(script), horizon
        self.alphabet, self.window, self.depth = alphabet, window, depth
        self.actors = actors  # whose moves may deviate (None: everybody's)
        self.go = go

    @property
    def deal(self):
        if callable(self._deal):
            self._deal = self._deal()
        return self._deal

    def match(self, item, a, r):
        """does action a of round r realise script item?"""
        typ, p = item[0], item[1]
        if a[0] != typ:
            return False
        if typ in ("dis", "riichi"):
            return r.player == p and name(a[1]) == item[2]
        if typ in ("tsumo", "abort"):
            return r.player == p
        if typ == "kan":
            return r.player == p and (len(item) < 3 or decode(a[1]).fam == item[2])
        if typ == "call":
            c = decode(a[2])
            return a[1] == p and c.fam == item[2] and (
                len(item) < 4 or "".join(sorted(map(name, c.hand))) == "".join(sorted(item[3].split())))
        if typ == "ron":
            return a[1:] == tuple(item[1:])
        raise AssertionError(item)

    def start(self):
        r = Round(self.deal).start()
        r.step, r.sp = 0, 0
        return r

    def menu(self, r):
        acts = r.legal()
        if r.sp < len(self.script):
            for i, a in enumerate(acts):
                if self.match(self.script[r.sp], a, r):
                    return [a] + acts[:i] + acts[i + 1:], True
        return acts, False

    def allowed(self, r, a):
        if not self.window[0] <= r.step < self.window[1]:
            return False
        if self.alphabet != "all" and a[0] not in self.alphabet:
            return False
        if self.actors is not None:
            who = a[1:] if a[0] == "ron" else (a[1],) if a[0] == "call" else (r.player,)
            if a[0] != "pass" and not set(who) & set(self.actors):
                return False
        return True

    def advance(self, r, a, scripted):
        if scripted:
            r.sp += 1
        r.step += 1
        r.do(a)

    def run(self, devs):
        """replay: devs is ((step, alternative index), ...)"""
        r = self.start()
        devs = dict(devs)
        while not r.ended and r.step < self.horizon:
            acts, scripted = self.menu(r)
            i = devs.pop(r.step, 0)
            self.advance(r, acts[i], scripted and i == 0)
        if devs:
            raise AssertionError("replay diverged")
        r.cut()
        return r

    def histories(self, prefix, depth):
        """every history that starts with the deviations in prefix and has at most depth more"""
        r = self.start()
        devs = dict(prefix)
        last = max(devs) if devs else -1
        while r.step <= last:
            acts, scripted = self.menu(r)
            i = devs.get(r.step, 0)
            self.advance(r, acts[i], scripted and i == 0)
        yield from self._dfs(r, tuple(prefix), depth)

    def _dfs(self, r, devs, budget):
        while not r.ended and r.step < self.horizon:
            acts, scripted = self.menu(r)
            if budget:
                for i in range(1, len(acts)):
                    if self.allowed(r, acts[i]):
                        r2 = r.clone()
                        self.advance(r2, acts[i], False)
                        yield from self._dfs(r2, devs + ((r.step, i),), budget - 1)
            self.advance(r, acts[0], scripted)
        r.cut()
        yield devs, r

    def tasks(self, depth):
        yield (), 0
        if depth == 0:
            return
        r = self.start()
        while not r.ended and r.step < self.horizon:
            acts, scripted = self.menu(r)
            for i in range(1, len(acts)):
                if self.allowed(r, acts[i]):
                    yield ((r.step, i),), depth - 1
            self.advance(r, acts[0], scripted)


WORLDS = []
CHECK = None
BATCH = 16


class Check:
    """what to do with the conversion of a batch of rounds"""

    def __init__(self, per_round=None, per_batch=None, states=True, tokens=False):
        self.per_round = per_round    # (reference round, points read, tokens) -> messages
        self.per_batch = per_batch    # ([(devs, reference round)], raw lists, raw tokens) -> (i, message)
        self.states = states          # read the state of each decision point
        self.tokens = tokens          # collect the token of every event


class Result:
    def __init__(self):
        self.histories = self.points = self.events = self.docs = 0
        self.bad = []          # (world, devs, message)
        self.tokmap = {}       # token -> (class, world, devs)
        self.evmap = {}        # event -> (token, world, devs)
        self.seen = set()      # distinct situations (hashes)
        self.stats = {}
        self.sample = None

    def add(self, o):
        for k in ("histories", "points", "events", "docs"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.bad += o.bad
        for a, b in ((self.tokmap, o.tokmap), (self.evmap, o.evmap)):
            for k, v in b.items():
                w = a.setdefault(k, v)
                if w[0] != v[0] and len(self.bad) < 50:
                    what = "token %r stands for both %r and %r" if a is self.tokmap else "event %r has tokens %r and %r"
                    self.bad.append((v[1], v[2], what % (k, w[0], v[0])))
        self.seen |= o.seen
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.sample = self.sample or o.sample


def frame(ex):
    """where the code under test failed"""
    for f in reversed(traceback.extract_tb(ex.__traceback__)):
        if impl.REPO in f.filename:
            return "%s:%d" % (os.path.basename(f.filename), f.lineno)
    f = traceback.extract_tb(ex.__traceback__)
    return "%s:%d" % (os.path.basename(f[-1].filename), f[-1].lineno) if f else "?"


def convert_rounds(rounds, go):
    doc = document([r.xml() for r in rounds], go)
    with impl.watchdog(120):
        return impl.convert(doc)


def situation(e):
    """a hash of the reference's state at a decision point"""
    vs = e.views or (e.view,)
    off = e.offers
    if isinstance(off, dict):
        off = (off["agari"], off["riichi"], tuple(off["calls"]))
    elif off:
        off = tuple((o["agari"], tuple(o["calls"])) for o in off)
    v = vs[0]
    return hash((e.kind, e.player, e.tile, off, tuple(x.hand for x in vs), v.discards, v.melds, v.unseen, v.left,
                 v.scores, v.kyotaku, v.dora, v.riichi, v.double, v.ippatsu, v.rounds_left))


def check_batch(world, batch, check, res):
    try:
        out = convert_rounds([r for _, r in batch], world.go)
        hts, toks = out
        if len(hts) != len(batch) or len(toks) != len(batch):
            raise ValueError("%d rounds in the log, %d/%d in the result" % (len(batch), len(hts), len(toks)))
    except (Exception, SystemExit) as ex:
        if len(batch) > 1:
            for b in batch:
                check_batch(world, [b], check, res)
                if res.bad:
                    return
            # only the combination fails
            res.bad.append((world.name, batch[0][0], "converting %d rounds in one file: %s: %s" % (
                len(batch), type(ex).__name__, ex)))
            return
        res.bad.append((world.name, batch[0][0], "the conversion fails: %s: %s (%s)" % (
            type(ex).__name__, ex, frame(ex))))
        return
    res.docs += 1
    if check.per_batch:
        try:
            with impl.watchdog(300):
                for i, msg in check.per_batch(batch, hts, toks):
                    res.bad.append((world.name, batch[i][0], msg))
                    if len(res.bad) > 3:
                        break
        except (Exception, SystemExit) as ex:
            res.bad.append((world.name, batch[0][0], "failure: %s: %s (%s)" % (type(ex).__name__, ex, frame(ex))))
    for (devs, r), h, t in zip(batch, hts, toks):
        res.histories += 1
        res.events += len(r.events)
        res.points += len(r.points)
        res.seen.update(situation(e) for e in r.points)
        if check.per_round:
            try:
                pts = [impl.read_point(x, check.states) for x in h]
                tk = [int(x) for x in t]
            except (Exception, SystemExit) as ex:
                res.bad.append((world.name, devs, "unreadable result: %s: %s (%s)" % (type(ex).__name__, ex, frame(ex))))
                continue
            n = 0
            for msg in check.per_round(r, pts, tk):
                res.bad.append((world.name, devs, msg))
                n += 1
                if n >= 3:
                    break
        for e in r.points:
            if e.kind == "during":
                key = ("agari" if e.offers["agari"] else "") + ("riichi" if e.offers["riichi"] else "") + \
                    "".join(sorted(c[0] for c in e.offers["calls"]))
                if key:
                    res.stats["during:" + key] = res.stats.get("during:" + key, 0) + 1
            elif e.kind == "post":
                for o in e.offers:
                    key = ("ron" if o["agari"] else "") + "".join(sorted(c[0] for c in o["calls"]))
                    if key:
                        res.stats["post:" + key] = res.stats.get("post:" + key, 0) + 1
            for _, x in e.taken:
                key = "taken:" + (x if isinstance(x, str) else x[0])
                res.stats[key] = res.stats.get(key, 0) + 1
        if check.tokens:
            import compare
            for ev, x in zip(r.tokens, [int(x) for x in t]):
                cl = compare.token_class(ev)
                w = res.tokmap.setdefault(x, (cl, world.name, devs))
                if w[0] != cl:
                    res.bad.append((world.name, devs, "token %d stands for both %r and %r" % (x, w[0], cl)))
                w = res.evmap.setdefault(ev, (x, world.name, devs))
                if w[0] != x:
                    res.bad.append((world.name, devs, "event %r has tokens %d and %d" % (ev, w[0], x)))
        if res.sample is None and devs:
            res.sample = {"world": world.name, "deviations": devs, "actions": [list(a) for a in r.trace][:40]}


def _task(args):
    wi, prefix, depth = args
    w = WORLDS[wi]
    res = Result()
    batch = []
    try:
        for devs, r in w.histories(prefix, depth):
            batch.append((devs, r))
            if len(batch) >= BATCH:
                check_batch(w, batch, CHECK, res)
                batch = []
                if res.bad:
                    break
        if batch and not res.bad:
            check_batch(w, batch, CHECK, res)
    except impl.Hang as ex:
        res.bad.append((w.name, prefix, "the conversion hangs: %s" % ex))
    return res


def _chunk(tasks):
    """several tasks of depth 0 share documents"""
    if len(tasks) == 1:
        return _task(tasks[0])
    res = Result()
    groups = {}
    for wi, prefix, depth in tasks:
        groups.setdefault(WORLDS[wi].go, []).append((wi, prefix, depth))
    for go, g in groups.items():
        for i in range(0, len(g), BATCH):
            part = []
            for wi, prefix, depth in g[i:i + BATCH]:
                part += [(WORLDS[wi], d, r) for d, r in WORLDS[wi].histories(prefix, depth)]
            try:
                check_batch(Mixed(go, part), [((w.name, d), r) for w, d, r in part], CHECK, res)
            except impl.Hang as ex:
                res.bad.append((part[0][0].name, part[0][1], "the conversion hangs: %s" % ex))
            if res.bad:
                break
    fix = lambda name, devs: (devs[0], devs[1]) if name == "*" else (name, devs)
    res.bad = [fix(n, d) + (m,) for n, d, m in res.bad]
    for mp_ in (res.tokmap, res.evmap):
        for k, v in mp_.items():
            mp_[k] = (v[0],) + fix(v[1], v[2])
    if res.sample and res.sample["world"] == "*":
        res.sample["world"], res.sample["deviations"] = res.sample["deviations"]
    return res


class Mixed:
    name = "*"

    def __init__(self, go, part):
        self.go = go


def explore(worlds, check, tier, procs=None):
    """run check on every history of every world; stops at the first violating worlds"""
    global WORLDS, CHECK
    WORLDS, CHECK = worlds, check
    deep = tier == "thorough"
    tasks, shallow = [], []
    for i, w in enumerate(worlds):
        d = w.depth[1] if deep else w.depth[0]
        if d == 0 or (d == 1 and w.horizon <= 12):
            shallow.append((i, (), d))
            continue
        for prefix, rest in w.tasks(d):
            (tasks if rest else shallow).append((i, prefix, rest))
    tasks.sort(key=lambda t: -t[2])  # long ones first
    tasks = [[t] for t in tasks]
    # cheap tasks with equal cost per chunk
    size = 0
    for t in shallow:
        n = min(worlds[t[0]].horizon, 150)
        if not size or size + n > 400 or len(tasks[-1]) >= 64:
            tasks.append([])
            size = 0
        tasks[-1].append(t)
        size += n
    total = Result()
    ctx = mp.get_context("fork")
    pool = ctx.Pool(procs or os.cpu_count() or 4)
    try:
        for res in pool.imap_unordered(_chunk, tasks, max(1, min(8, len(tasks) // 64))):
            total.add(res)
            if len(total.bad) >= 10:
                break
    finally:
        pool.terminate()
        pool.join()
    return total


FUNC = None


def _call(x):
    return FUNC(x)


def pmap(func, items, procs=None, chunk=1, fresh=False):
    """results of func over items, in any order, in forked workers (fresh: a process per item)"""
    global FUNC
    FUNC = func
    pool = mp.get_context("fork").Pool(procs or os.cpu_count() or 4, maxtasksperchild=1 if fresh else None)
    try:
        yield from pool.imap_unordered(_call, items, chunk)
    finally:
        pool.terminate()
        pool.join()
