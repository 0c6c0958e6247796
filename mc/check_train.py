"""C21, C22: the training script on every checkpoint directory, crash point and schedule of a
bounded space, with the real data loader and stand-in networks."""
import itertools, json, os, shutil, subprocess, sys, tempfile, threading, queue
import explore, impl
import train_world as tw
from core import Outcome, ROOT, check

PY = sys.executable


def in_scratch(f):
    """run f in a fresh scratch directory"""
    d = tempfile.mkdtemp(prefix="train", dir=impl.scratch())
    old = os.getcwd()
    os.chdir(d)
    try:
        return f(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


_home = None


def home(sizes=(1,) * 8, val=1):
    """the directory of this worker: loaded script, data directories"""
    global _home
    if _home is None or _home[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="home", dir=impl.scratch())
        os.chdir(d)
        tw.load()
        tw.data_tree(d, sizes, val)
        _home = (os.getpid(), d)
    os.chdir(_home[1])
    return _home[1]


# ------------------------------------------------------------------ C21: what is in the directory
OWN = (0, 9, 10, 12000)
STRAY = ("{own}77.pt.tmp", "{own}78.pt.bak", "{own}x.pt", "old_{own}79.pt", "{own}80", "{own}81.pt~", "{own}82.pt.copy.pt")


def made(name):
    """checkpoints written by the script itself, recognisable by their tag: {tag: bytes}"""
    out = {}
    for tag in list(range(len(OWN))) + [500 + i for i in range(len(tw.NAMES))]:
        shutil.rmtree("saved_models", ignore_errors=True)
        tw.CONF["tag"] = tag
        tw.train(name, 1)
        with open(os.path.join("saved_models", tw.ckpt(name, 0)), "rb") as f:
            out[tag] = f.read()
    tw.CONF["tag"] = 999
    return out


_made = {}


def _listing(job):
    name, own, others, stray, order = job
    home()
    if not _made:
        _made.update(made(tw.NAMES[0]))
    shutil.rmtree("saved_models", ignore_errors=True)
    os.makedirs("saved_models")
    put = {}
    for i in own:
        put[tw.ckpt(name, i)] = _made[OWN.index(i)]
    for o in others:
        put[tw.ckpt(o, 40 + tw.NAMES.index(o))] = _made[500 + tw.NAMES.index(o)]
    for s in stray:
        put[s.format(own="model_%s_checkpoint_iter_" % name)] = b"not a checkpoint"
    for f, b in put.items():
        with open(os.path.join("saved_models", f), "wb") as fh:
            fh.write(b)
    # order: the checkpoints from the oldest to the newest file
    for t, i in enumerate(order):
        os.utime(os.path.join("saved_models", tw.ckpt(name, i)), (10 ** 9 + t, 10 ** 9 + t))
    tw.CONF["tag"] = 999
    what = "%s with %s in saved_models" % (name, sorted(put) or "nothing")
    if order:
        what += ", written in the order %s" % (order,)
    try:
        with impl.watchdog(60):
            tw.train(name, 1)
    except (Exception, SystemExit, impl.Hang) as ex:
        return job, "%s: training fails: %s: %s" % (what, type(ex).__name__, ex)
    want = max(own) + 1 if own else 0
    new = sorted(f for f in os.listdir("saved_models") if f.endswith(".pt") and f not in put)
    got = tw.read_ckpt(os.path.join("saved_models", tw.ckpt(name, want)))
    if got is None:
        return job, "%s: no checkpoint of iteration %d was saved (new files: %s)" % (what, want, new)
    tag = OWN.index(max(own)) if own else 999
    if got[0] != tag:
        return job, "%s: training went on from the weights of %s" % (what, "a new network" if got[0] == 999 else "iteration %d" % OWN[got[0]] if got[0] < 500 else tw.NAMES[got[0] - 500])
    if new != [tw.ckpt(name, want)]:
        return job, "%s: unexpected files %s" % (what, new)
    for f, b in put.items():
        if f.endswith(".pt"):
            try:
                same = open(os.path.join("saved_models", f), "rb").read() == b
            except OSError:
                same = False
            if not same:
                return job, "%s: %s was changed" % (what, f)
    return job, None


def listings(tier):
    for name in tw.NAMES:
        rest = [n for n in tw.NAMES if n != name]
        owns = [s for k in range(len(OWN) + 1) for s in itertools.combinations(OWN, k)]
        if tier == "quick":
            others = [()] + [(o,) for o in rest] + [tuple(rest)]
            stray = [()] + [(s,) for s in STRAY] + [STRAY]
        else:
            others = [()] + [(o,) for o in rest] + list(itertools.combinations(rest, 2)) + [tuple(rest)]
            stray = [s for k in range(len(STRAY) + 1) for s in itertools.combinations(STRAY, k)]
        for own in owns:
            for o in others:
                for s in stray:
                    yield name, own, o, s, ()
            if len(own) > 1:  # file times say nothing about the iteration
                for order in itertools.permutations(own):
                    yield name, own, (), (), order


# ------------------------------------------------------------------ C21: crashes
class Servers:
    """processes under the shim"""

    def __init__(self, base, n):
        self.base = base
        so = os.path.join(base, "shim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(ROOT, "native", "shim.c"), "-ldl"], check=True)
        self.procs = []
        for i in range(n):
            root = os.path.join(base, "s%d" % i)
            os.makedirs(root)
            tw.data_tree(root, (1,) * 8, 1)
            env = dict(os.environ, LD_PRELOAD=so, MC_SHIM=so, PYTHONDONTWRITEBYTECODE="1", MC_REPO=impl.REPO)
            self.procs.append(subprocess.Popen([PY, "-B", os.path.join(ROOT, "mc", "crash_child.py"), root], stdin=subprocess.PIPE,
                                               stdout=subprocess.PIPE, stderr=open(os.path.join(base, "err%d" % i), "w"), env=env, text=True))

    def map(self, jobs):
        """results of the jobs, in order"""
        res = [None] * len(jobs)
        q = queue.Queue()
        for x in enumerate(jobs):
            q.put(x)
        errs = []

        def work(p):
            while not errs:
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                p.stdin.write(json.dumps(j) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                if not line:
                    errs.append("the training script cannot be loaded")
                    return
                res[i] = json.loads(line)
        ts = [threading.Thread(target=work, args=(p,)) for p in self.procs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise RuntimeError(errs[0] + ": " + "".join(open(os.path.join(self.base, "err%d" % i)).read()[-600:] for i in range(1)))
        return res

    def close(self):
        for p in self.procs:
            p.stdin.close()
            p.kill()
            p.wait()


def complete_of(name, files):
    """iterations with a complete checkpoint (the n-th has seen n+1 batches)"""
    out = {}
    for f, (c, size) in files.items():
        for i in range(64):
            if f == tw.ckpt(name, i):
                out[i] = c is not None and c[1] == i + 1
    return out


def crash_search(name, tier, violations):
    """explicit-state search over checkpoint directories; transitions: a training run of one or
    two iterations that dies at some change of the directory, or finishes"""
    base = tempfile.mkdtemp(prefix="crash", dir=impl.scratch())
    depth = 2 if tier == "quick" else 3
    S = Servers(base, os.cpu_count() or 4)
    seen, runs, points = {}, 0, 0
    frontier = [(None, frozenset(), ())]   # directory, completed iterations, history
    try:
        for level in range(depth + 1):
            # what a run does from each state, without a crash
            iters = 2 if level == 0 else 1
            jobs = [dict(src=s, dst=os.path.join(base, "L%d-%d-ok" % (level, i)), name=name, op=-1, torn=0, iters=iters)
                    for i, (s, done, h) in enumerate(frontier)]
            res = S.map(jobs)
            runs += len(jobs)
            nxt = []
            crash_jobs = []
            for (s, done, h), j, r in zip(frontier, jobs, res):
                shown = list(h) or ["nothing"]
                if r["rc"] != 0:
                    violations.append(dict(ident="crash:%s" % (h,), message="%s: after %s training cannot go on: %s" % (
                        name, shown, ((r["info"] or {}).get("error") or "exit %s" % r["rc"])[-400:]), replay=dict(history=h)))
                    continue
                before = seen_files(s)
                comp = {i for i, ok in complete_of(name, before).items() if ok}
                lost = set(done) - comp
                if lost:
                    violations.append(dict(ident="crash:%s" % (h,), message="%s: after %s the completed checkpoint of iteration %d is gone or damaged" % (
                        name, shown, min(lost)), replay=dict(history=h, files=before)))
                    continue
                start = max(comp) + 1 if comp else 0
                after = complete_of(name, r["files"])
                bad = [i for i in list(done) + list(range(start, start + iters)) if not after.get(i)]
                if bad:
                    violations.append(dict(ident="crash:%s" % (h,), message="%s: after %s a rerun should go on from iteration %d; the checkpoint of iteration %d is missing or has other weights (directory %s)" % (
                        name, shown, start, bad[0], r["files"]), replay=dict(history=h, files=before)))
                    continue
                if level == depth:
                    continue
                for op, (kind, n) in enumerate(r["info"]["ops"]):
                    for torn in ([0] if kind != "w" else sorted({0, 1 % (n + 1), n // 2, max(0, n - 1), n})):
                        crash_jobs.append((dict(src=s, dst=os.path.join(base, "L%d-c%d" % (level, len(crash_jobs))), name=name, op=op, torn=torn, iters=iters),
                                           done, start, h + ("died at change %d (%s%s)" % (op, {"w": "write", "o": "open", "r": "rename", "u": "unlink", "m": "mkdir", "t": "truncate", "l": "link"}[kind],
                                                                                          " after %d of %d bytes" % (torn, n) if kind == "w" else ""),)))
            if violations or level == depth:
                break
            res = S.map([c[0] for c in crash_jobs])
            points += len(crash_jobs)
            for (job, done, start, h), r in zip(crash_jobs, res):
                if r["rc"] != 137:
                    raise RuntimeError("crash point not reached: %s %s" % (h, r))
                # iterations whose checkpoint was complete when the next one began
                d = set(done)
                comp = complete_of(name, r["files"])
                later = [i for i in range(start, start + iters) if i + 1 in comp or any(("iter_%d." % (i + 1)) in f for f in r["files"])]
                d |= set(later)
                key = (tuple(sorted((f, digest(os.path.join(job["dst"], f))) for f in r["files"])), frozenset(d))
                if key in seen:
                    shutil.rmtree(job["dst"], ignore_errors=True)
                    continue
                seen[key] = h
                nxt.append((job["dst"] if not r.get("nodir") else None, frozenset(d), h))
            frontier = nxt
    finally:
        S.close()
        shutil.rmtree(base, ignore_errors=True)
    return runs, points, len(seen)


def digest(path):
    import hashlib
    return hashlib.sha1(open(path, "rb").read()).hexdigest()


def seen_files(d):
    out = {}
    if d and os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            out[f] = [tw.read_ckpt(p), os.path.getsize(p)]
    return out


@check("C21", "model_checking", "explicit-state search over checkpoint directories: every subset of a pool of files, and every crash point (with torn writes) of saving, nested; every state is resumed by the real training script")
def c21(tier, seed):
    jobs = list(listings(tier))
    out = []
    n = 0
    for job, bad in explore.pmap(_listing, jobs, chunk=64):
        n += 1
        if bad:
            out.append(dict(ident="dir:%s" % (job,), message=bad, replay=dict(name=job[0], own=job[1], others=job[2], stray=job[3], order=job[4])))
            if len(out) > 8:
                break
    runs = points = states = 0
    if not out:
        for name in ("transformer",) if tier == "quick" else ("transformer", "transformer_conv_ordered_large_2"):
            a, b, c = crash_search(name, tier, out)
            runs, points, states = runs + a, points + b, states + c
    cov = dict(states=n + states, transitions=n + runs + points, traces_validated_against_impl=n + runs, directories=n,
               crash_points=points, crash_states=states, resumed_after_crash=runs, exhaustive=True,
               bounds="directories: subsets of %d own checkpoints x other models' x stray files, and every order of file times, for all 9 model names; crashes: every change of the checkpoint directory, writes torn at 0, 1, half, all but one and all bytes, up to %d crashes in a row" % (
                   len(OWN), 2 if tier == "quick" else 3),
               samples=[dict(zip(("model", "own", "others", "stray"), jobs[len(jobs) // 2]))])
    return Outcome(cov, out, ["a crash ends the process; what was written before stays written (no loss of power)",
                              "stand-in networks; the real ones are saved by the same call (C22 runs them)"])


# ------------------------------------------------------------------ C22
def verify(rec, idents, start, iters, val, carry):
    """messages about the record of a run; carry: weights and batches before it"""
    import torch
    evs = list(rec)
    todo = [sorted(idents[tw.YEARS[i % 8]]) for i in range(start, start + iters)]
    trained = []      # games of training batches, in order
    w = None
    vals = []         # validation passes: lists of batches
    last = None
    heads, steps = [], []

    def settle():
        a = sorted(tuple(h.tolist()) for h in heads)
        b = sorted(tuple(s.tolist()) if s is not None else () for s in steps)
        if a != b:
            return "a batch has %d head outputs but %d optimisation steps, or a step does not use the gradient of its own loss" % (len(a), len(b))
    modes = ["eval" if e[0] == "mode" and not e[1] else "train" if e[0] == "mode" else e[0] for e in evs if e[0] in ("mode", "forward")]
    for e in evs:
        if e[0] == "forward":
            _, training, grad, ids, wv, cnt = e
            if w is not None and not torch.equal(w, wv):
                yield "parameters changed outside an optimisation step (before batch %s)" % (ids,)
                return
            w = wv
            isval = set(ids) <= set(val)
            if not isval and set(ids) & set(val):
                yield "validation and training games in one batch: %s" % (ids,)
                return
            if isval:
                if training:
                    yield "validation batch %s is evaluated in training mode" % (ids,)
                    return
                if grad:
                    yield "validation batch %s is evaluated with gradients" % (ids,)
                    return
                if last != "val":
                    vals.append([])
                vals[-1].append(ids)
                last = "val"
            else:
                if not training or not grad:
                    yield "training batch %s is run in %s mode, gradients %s" % (ids, "training" if training else "evaluation", grad)
                    return
                m = settle()
                if m:
                    yield m
                    return
                heads, steps = [], []
                trained += ids
                last = "train"
        elif e[0] == "head":
            if e[1]:
                heads.append(e[4])
        elif e[0] == "step":
            if last != "train":
                yield "an optimisation step during validation"
                return
            steps.append(e[1][0])
            w = e[2]
    m = settle()
    if m:
        yield m
        return
    flat = [g for t in todo for g in t]
    i = 0
    for k, t in enumerate(todo):
        part = sorted(trained[i:i + len(t)])
        i += len(t)
        if part != t:
            yield "iteration %d (year %d) trains on games %s, expected %s" % (start + k, tw.YEARS[(start + k) % 8], part, t)
            return
    if len(trained) != len(flat):
        yield "%d games trained, expected %d" % (len(trained), len(flat))
        return
    if val and sum(1 for a, b in zip(modes, modes[1:]) if (a, b) == ("eval", "train")):
        yield "a validation sees no games of the %d in the validation set" % len(val)
        return
    if vals:
        first = vals[0]
        for v in vals[1:]:
            k = min(len(v), len(first))
            if v[:k] != first[:k]:
                yield "a validation starts with games %s, the first one with %s" % (v[:2], first[:2])
                return
        for v in vals:
            g = [x for b in v for x in b]
            if len(set(g)) != len(g):
                yield "a validation uses games more than once: %s" % g
                return


def _schedule(job):
    """a sequence of runs in one directory"""
    import torch
    name, parts, sizes, val, heads = job
    home()
    d = tempfile.mkdtemp(prefix="c22", dir=impl.scratch())
    os.chdir(d)
    n = 0
    try:
        idents = tw.data_tree(d, sizes, val)
        tw.CONF["heads"] = heads
        start, count = 0, 0
        what = "%s, runs of %s iterations, year sizes %s, %d validation games" % (name, list(parts), list(sizes), val)
        for p in parts:
            try:
                with impl.watchdog(300):
                    rec = tw.train(name, p)
            except (Exception, SystemExit, impl.Hang) as ex:
                return job, n, "%s: training fails: %s: %s" % (what, type(ex).__name__, ex)
            n += len(rec)
            for msg in verify(rec, idents, start, p, idents[tw.VAL], None):
                return job, n, "%s: %s" % (what, msg)
            if not tw.MODELS[-1].training and any(e[0] == "forward" for e in rec):
                return job, n, "%s: the network is left in evaluation mode" % what
            start += p
            have = sorted(f for f in os.listdir("saved_models") if f.endswith(".pt"))
            want = sorted(tw.ckpt(name, i) for i in range(start))
            if have != want:
                return job, n, "%s: checkpoints %s, expected %s" % (what, have, want)
            # the weights saved last are those after the last step
            c = tw.read_ckpt(os.path.join("saved_models", tw.ckpt(name, start - 1)))
            count += sum(1 for e in rec if e[0] == "forward" and e[1])
            ws = [e[2] for e in rec if e[0] == "step"]
            if c is None or c[1] != count or (ws and c[2] != ws[-1].tolist()):
                return job, n, "%s: the checkpoint of iteration %d does not hold the weights after that iteration" % (what, start - 1)
        return job, n, None
    finally:
        os.chdir(impl.scratch())
        shutil.rmtree(d, ignore_errors=True)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(1, n):
        for rest in compositions(n - a, k - 1):
            yield (a,) + rest


def schedules(tier):
    base = (2, 1, 3, 1, 2, 1, 1, 2)
    total = 10 if tier == "quick" else 17
    # long enough for a validation inside an iteration
    yield "transformer", (1, 1), (1007, 2, 1, 1, 1, 1, 1, 1), 27, 3
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        if k == 4 and total > 12:
            comps = list(compositions(12, 4))
        else:
            comps = list(compositions(total, k))
        for c in comps:
            yield "transformer_conv_large", c, base, 2, 3
    for name in tw.NAMES:
        yield name, (1, 2), (3, 6, 5, 1, 1, 1, 1, 1), 3, 3
        yield name, (1, 2), (3, 6, 5, 1, 1, 1, 1, 1), 3, 4  # batches without any output
        yield name, (2, 2), (1, 1, 1, 2, 1, 1, 1, 1), 4, 4
        yield name, (2, 9), (1, 2, 1, 1, 1, 3, 1, 1), 1, 3
        # sizes around the batch size, with and without rest
        for s in range(0, 12):
            yield name, (2,), (s, max(0, 7 - s), 1, 1, 1, 1, 1, 1), 2, 3
        for v in range(0, 30 if tier == "quick" else 45, 1):
            if v % 3 == tw.NAMES.index(name) % 3 or tier != "quick":
                yield name, (1, 2), (2, 5, 1, 1, 1, 1, 1, 1), v, 3


def _real(job):
    """the real network: one iteration on two games, then a resumed one"""
    name, = job
    d = tempfile.mkdtemp(prefix="c22r", dir=impl.scratch())
    os.chdir(d)
    try:
        import torch
        tw.load(stub=False)
        tw.data_tree(d, (2, 1, 1, 1, 1, 1, 1, 1), 1)
        snaps = []
        cls = {type(None)}
        for p in (1, 1):
            try:
                with impl.watchdog(300):
                    rec = tw.train(name, p)
            except (Exception, SystemExit, impl.Hang) as ex:
                return job, len(snaps), "%s, real network: training fails: %s: %s" % (name, type(ex).__name__, ex)
            snaps.append(len([e for e in rec if e[0] == "step"]))
        have = sorted(os.listdir("saved_models"))
        if have != [tw.ckpt(name, i) for i in range(2)]:
            return job, 2, "%s, real network: files %s" % (name, have)
        # two games may make one or two batches; each tiny game has only discard rows or also others
        if not all(snaps):
            return job, 2, "%s, real network: no optimisation step" % name
        return job, sum(snaps), None
    finally:
        os.chdir(impl.scratch())
        shutil.rmtree(d, ignore_errors=True)


@check("C22", "model_checking", "exhaustive enumeration of training schedules (runs, resumes, data sizes) executed by the real training script and loader with recording stand-in networks")
def c22(tier, seed):
    out, n, evs = [], 0, 0
    jobs = list(schedules(tier))
    for job, k, bad in explore.pmap(_schedule, jobs, chunk=2):
        n += 1
        evs += k
        if bad:
            out.append(dict(ident="schedule:%s" % (job,), message=bad, replay=dict(job=job)))
            if len(out) > 8:
                break
    real = 0
    if not out:
        for job, k, bad in explore.pmap(_real, [(x,) for x in tw.NAMES]):
            real += k
            if bad:
                out.append(dict(ident="real:%s" % (job,), message=bad, replay=dict(job=job)))
    cov = dict(states=n, transitions=evs, traces_validated_against_impl=n + len(tw.NAMES), steps_of_real_networks=real, exhaustive=True,
               bounds="every way of splitting %d iterations into up to three runs (resumes); year sizes 0-11 around the batch size and validation sizes 0-29 for all 9 model names" % (10 if tier == "quick" else 17),
               samples=[dict(name=jobs[40][0], runs=jobs[40][1], sizes=jobs[40][2], validation=jobs[40][3])])
    return Outcome(cov, out, ["stand-in networks record modes, gradients and parameters; each real network is run for two iterations"])


# ------------------------------------------------------------------ C30
def rate(n):
    import math
    return 1e-3 * (n / 1000 if n < 1000 else 0.5 * (1 + math.cos(math.pi * (n - 1000) / (1000000 - 1000))))


class Shadow:
    """one AdamW step per recorded step, at the scheduled rate, on copies of all weights of a network"""

    def __init__(self, net, tol):
        import torch
        self.net, self.tol, self.n, self.bad = net, tol, 0, None
        self.names = [k for k, p in net.named_parameters()]
        self.ps = [p for _, p in net.named_parameters()]
        self.cp = [torch.nn.Parameter(p.detach().clone()) for p in self.ps]
        self.opt = torch.optim.AdamW(self.cp, lr=1e-3, foreach=False)

    def resync(self):
        """the weights as loaded from a checkpoint"""
        for c, p in zip(self.cp, self.ps):
            c.data.copy_(p.data)

    def same(self, when):
        import torch
        if self.bad:
            return
        for k, c, p in zip(self.names, self.cp, self.ps):
            if not torch.allclose(c.data, p.data, rtol=self.tol, atol=self.tol * 1e-2):
                i = int((c.data - p.data).abs().argmax())
                self.bad = "%s, weight %s is %.12g, expected %.12g" % (when, k, p.data.flatten()[i], c.data.flatten()[i])
                return

    def step(self, grads=None):
        if self.bad:
            return
        if self.n == 0:
            self.resync()
        for i, (c, p) in enumerate(zip(self.cp, self.ps)):
            c.grad = grads[i] if grads else None if p.grad is None else p.grad.detach().clone()
        self.opt.param_groups[0]["lr"] = rate(self.n)
        self.before = [c.detach().clone() for c in self.cp]
        self.opt.step()

    def after(self):
        if self.bad:
            return
        self.same("after step %d (rate %.9g)" % (self.n, rate(self.n)))
        self.n += 1


def make_rate_stub(steps):
    """networks of one weight per role; a training batch yields as many losses as steps(run) says"""
    import torch

    class Net(torch.nn.Module):
        def __init__(self, *a, **k):
            super().__init__()
            for j, nm in enumerate(("encoder", "decoder", "tensor_processor")):
                m = torch.nn.Module()
                m.weight = torch.nn.Parameter(torch.tensor([0.5 + j, -1.0], dtype=torch.float64))
                m.bias = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))
                setattr(self, nm, m)
            self.left = list(steps)
            self.heads = []
            tw.MODELS.append(self)

        def forward(self, hts, toks, *a, **k):
            w = torch.cat([p for p in self.parameters()])
            for h in range((self.left.pop(0) if len(self.left) > 1 else self.left[0]) if self.training else 1):
                c = torch.tensor([1.0, -0.25, 0.5, 2.0, 0.125, -1.0, 0.25, 0.75, 3.0], dtype=torch.float64) * (1 + (h * 7) % 5) * (-1) ** (h // 3)
                self.heads.append(c)
                w = torch.cat([p for p in self.parameters()])
                yield torch.zeros(len(hts), 3), (w * c).sum() + 1.0
    return Net


def miniature(orig, steps):
    """the real network with the same modules and the same weights by name and number of dimensions,
    but only a few numbers in each, in double precision; its losses are made up"""
    import torch

    class Net(orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            n = 0
            for m in self.modules():
                for nm, p in list(m._parameters.items()):
                    if p is not None:
                        t = p.detach()[tuple(slice(0, 2) for _ in p.shape)].double().clone()
                        n += t.numel()
                        t += ((torch.arange(t.numel(), dtype=torch.float64) * 7 + n) % 13 / 8).view(t.shape) - 0.7
                        m._parameters[nm] = torch.nn.Parameter(t)
            self.left = list(steps)
            self.heads = []
            tw.MODELS.append(self)

        def forward(self, hts, toks, *a, **k):
            for h in range((self.left.pop(0) if len(self.left) > 1 else self.left[0]) if self.training else 1):
                w = torch.cat([p.flatten() for p in self.parameters()])
                c = ((torch.arange(len(w), dtype=torch.float64) * 5 + 3) % 17 / 4 - 2.1) * (1 + (h * 7) % 5) * (-1) ** (h // 3)
                self.heads.append(c)
                yield torch.zeros(len(hts), 3), (w * c).sum() + 1.0
    Net.__name__ = orig.__name__
    return Net


def _rate(job):
    """runs of the training script watched step by step"""
    import torch
    name, runs, real = job
    d = tempfile.mkdtemp(prefix="c30", dir=impl.scratch())
    os.chdir(d)
    n = 0
    shadows = []
    try:
        if real:
            for f, c in (("transformer", "TransformerModel"), ("transformer_conv", "TransformerConvModel"),
                         ("transformer_conv_large", "TransformerConvLargeModel"), ("transformer_conv_ordered", "TransformerConvOrderedModel")):
                import importlib
                m = importlib.import_module("MahjongAI.agents." + f)
                if real == "miniature":
                    setattr(m, c, miniature(getattr(m, c), runs))
                    continue

                def wrap(orig):
                    class Cap(orig):
                        def __init__(self, *a, **k):
                            super().__init__(*a, **k)
                            tw.MODELS.append(self)
                    return Cap
                setattr(m, c, wrap(getattr(m, c)))
        else:
            tw.make_stub = lambda: make_rate_stub(runs)
        tw.load(stub=not real)
        tw.data_tree(d, (2, 1, 1, 1, 1, 1, 1, 1), 1)
        from torch.optim.optimizer import register_optimizer_step_pre_hook

        def sh():
            if not shadows or shadows[-1].net is not tw.MODELS[-1]:
                shadows.append(Shadow(tw.MODELS[-1], 1e-6 if real is True else 1e-9))
            return shadows[-1]

        def pre(opt, args, kwargs):
            s = shadows and shadows[-1]
            if s and opt is s.opt or s and s.bad:
                return
            s = sh()
            if s.n:
                s.same("between steps %d and %d" % (s.n - 1, s.n))
            grads = None
            if real is not True:
                if not s.net.heads:
                    s.bad = "step %d without a loss" % s.n
                    return
                g = [None if p.grad is None else p.grad.detach().clone() for p in s.ps]
                if any(x is None for x in g):
                    s.bad = "step %d: no gradient for %s" % (s.n, s.names[[x is None for x in g].index(True)])
                    return
                g = torch.cat([x.flatten() for x in g])
                if not any(torch.allclose(g, c) for c in s.net.heads[-4:]):
                    s.bad = "step %d is made with gradient %s, that of its loss is %s" % (s.n, g.tolist()[:9], s.net.heads[-1].tolist()[:9])
                    return
            s.step()

        def post(opt, args, kwargs):
            s = shadows[-1]
            if opt is s.opt:
                return
            s.after()
        register_optimizer_step_pre_hook(pre)
        from torch.optim.optimizer import register_optimizer_step_post_hook
        register_optimizer_step_post_hook(post)
        for iters in (3, 2):
            what = "%s%s, %d iterations, losses per batch %s" % (name, ", real network" if real is True else ", real network in miniature" if real else "", iters, list(runs))
            try:
                with impl.watchdog(800):
                    tw.train(name, iters)
            except (Exception, SystemExit, impl.Hang) as ex:
                return job, n, "%s: training fails: %s: %s" % (what, type(ex).__name__, ex)
            s = sh()
            if not s.n:
                return job, n, "%s: no optimisation step" % what
            s.same("after the last step")
            if s.bad:
                return job, n, "%s: %s" % (what, s.bad)
            n += s.n
        return job, n, None
    finally:
        os.chdir(impl.scratch())
        shutil.rmtree(d, ignore_errors=True)


@check("C30", "model_checking", "explicit enumeration of the step counter: real training runs in lockstep with a reference optimiser, every step of every run compared, for all splits of steps over heads, batches and iterations within the bounds")
def c30(tier, seed):
    out, n, steps = [], 0, 0
    long = 40000 if tier == "quick" else 999990
    jobs = [("transformer", (long, 1), False)]
    jobs += [(x, (), True) for x in tw.NAMES]
    jobs += [(x, (1003 + i, 1), False) for i, x in enumerate(tw.NAMES)]
    jobs += [(x, (20 + i, 3, 1) if tier == "quick" else (1003 + i, 3, 1), "miniature") for i, x in enumerate(tw.NAMES)]
    jobs += [(tw.NAMES[i % 9], r, False) for i, r in enumerate(itertools.product(range(1, 4 if tier == "quick" else 5), repeat=3))]
    for job, k, bad in explore.pmap(_rate, jobs, fresh=True):
        n += 1
        steps += k
        if bad:
            out.append(dict(ident="rate:%s" % (job,), message=bad, replay=dict(job=job)))
            if len(out) > 8:
                break
    cov = dict(states=steps, transitions=steps, traces_validated_against_impl=n, exhaustive=True, steps_compared=steps,
               bounds="every step counter value from 0 to %d; every way to have 1-%d losses in each of three batches; all 9 model names; the real networks for five iterations, and with few numbers per weight (same modules, names and dimensions, double precision) for 20 steps and more; each followed by a resumed run" % (
                   long, 3 if tier == "quick" else 4),
               samples=[dict(zip(("name", "losses per batch", "real network"), jobs[0]))])
    return Outcome(cov, out, ["torch.optim.AdamW is trusted as the definition of an AdamW step"])
