"""C33: every short sequence of training commands in one directory. C35: the losses that training
reports."""
import contextlib, io, itertools, json, math, os, re, runpy, shutil, signal, sys, tempfile, traceback
import explore, impl
import train_world as tw
from core import ROOT, Outcome, check

REPO = os.environ.get("MC_REPO", "/repo")
SCRIPT = os.path.join(REPO, "MahjongAI", "supervised_learning.py")
# what each name stands for: family and layers
ARCH = {
    "transformer": ("transformer", "TransformerModel", ()),
    "transformer_conv": ("transformer_conv", "TransformerConvModel", ()),
    "transformer_conv_large": ("transformer_conv_large", "TransformerConvLargeModel", (2,)),
    "transformer_conv_large_3": ("transformer_conv_large", "TransformerConvLargeModel", (3,)),
    "transformer_conv_ordered": ("transformer_conv_ordered", "TransformerConvOrderedModel", (1,)),
    "transformer_conv_ordered_large_2": ("transformer_conv_ordered", "TransformerConvOrderedModel", (2,)),
    "transformer_conv_ordered_large_3": ("transformer_conv_ordered", "TransformerConvOrderedModel", (3,)),
    "transformer_conv_ordered_large_4": ("transformer_conv_ordered", "TransformerConvOrderedModel", (4,)),
    "transformer_conv_ordered_large_5": ("transformer_conv_ordered", "TransformerConvOrderedModel", (5,)),
}
NAMES = tuple(ARCH)
OTHER = ["Transformer", "TRANSFORMER_CONV", "transformer_", "_transformer", "transformer_conv_", "transformer_con", "conv", "", " ", "transformer ",
         "transformer_large", "transformer_conv_large_", "transformer_conv_large_1", "transformer_conv_large_2", "transformer_conv_large_4", "transformer_conv_large_03",
         "transformer_conv_large_33", "transformer_conv_ordered_", "transformer_conv_ordered_1", "transformer_conv_ordered_2", "transformer_conv_ordered_large",
         "transformer_conv_ordered_large_0", "transformer_conv_ordered_large_1", "transformer_conv_ordered_large_6", "transformer_conv_ordered_large_-2",
         "transformer_conv_ordered_large_22", "transformer-conv", "transformer*", ".", "..", "model_transformer", "transformer.pt", "transformer_conv_large_3.0"]
REFUSED = ([[n, "1"] for n in OTHER] + [[n, x] for n in (NAMES[0], NAMES[3], NAMES[8]) for x in ("x", "1.5", "", "1e1", "two", "0x2", "1,", "--1", "None")] +
           [[], [NAMES[0]], ["1"], ["1", NAMES[0]], [NAMES[0], "1", "1"], [NAMES[0], NAMES[1], "1"], [NAMES[1], "1", ""]])


def command(d, args):
    """run the script with those arguments in directory d; 'ok' or what stopped it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        res = "ok"
        try:
            signal.alarm(240)
            os.chdir(d)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.argv = [SCRIPT] + list(args)
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as ex:
                if ex.code not in (None, 0):
                    res = "SystemExit(%s)" % (ex.code,)
            except BaseException as ex:
                res = "%s: %s" % (type(ex).__name__, ex)
            os.write(w, res.encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode() or "killed"


def _live(job):
    """how many weight matrices of a network with n layers the losses of a round depend on"""
    import importlib, torch
    import reallog
    torch.set_num_threads(1)
    sys.path.insert(0, REPO)
    from MahjongAI.process_xml import process
    (mod, cls), n = job
    C = getattr(importlib.import_module("MahjongAI.agents." + mod), cls)
    try:
        hts, toks = process(os.path.join(ROOT, "data", reallog.LOGS[0]))
    except Exception:  # judged elsewhere (C23)
        return job, 0
    live = set()
    for seed in (1, 2, 3):
        torch.manual_seed(seed)
        m = C(n).eval()
        losses = [l for _, l in m([hts[:1]], [toks[:1]])]
        sum(losses[1:], losses[0]).backward()
        live |= {k for k, p in m.named_parameters() if p.dim() > 1 and p.grad is not None and p.grad.abs().max() > 0}
    return job, len(live)


_shapes = {}


def shapes(name):
    import importlib
    if name not in _shapes:
        mod, cls, args = ARCH[name]
        m = getattr(importlib.import_module("MahjongAI.agents." + mod), cls)(*args)
        _shapes[name] = {k: tuple(v.shape) for k, v in m.state_dict().items()}
    return _shapes[name]


def files(d):
    s = os.path.join(d, "saved_models")
    return {f: open(os.path.join(s, f), "rb").read() for f in sorted(os.listdir(s))} if os.path.isdir(s) else {}


def look(d, before, have, args, res):
    """what is wrong after a command in d; have: iterations per name, updated"""
    import torch
    after = files(d)
    valid = len(args) == 2 and args[0] in ARCH and re.fullmatch(r"\d+", args[1])
    for f in before:
        if f not in after:
            return "the checkpoint %s is gone" % f
        if after[f] != before[f]:
            return "the checkpoint %s is overwritten" % f
    new = sorted(set(after) - set(before))
    if not valid:
        if res == "ok":
            return "is accepted"
        if new:
            return "is refused (%s) but writes %s" % (res, new)
        return None
    name, n = args[0], int(args[1])
    if res != "ok":
        return "fails: %s" % res
    first = have.get(name, 0)
    want = sorted(tw.ckpt(name, i) for i in range(first, first + n))
    if new != want:
        return "writes %s, expected %s" % (new, want)
    last = None
    if first:
        last = torch.load(io.BytesIO(before[tw.ckpt(name, first - 1)]), map_location="cpu")
    for i in range(first, first + n):
        sd = torch.load(io.BytesIO(after[tw.ckpt(name, i)]), map_location="cpu")
        if {k: tuple(v.shape) for k, v in sd.items()} != shapes(name):
            return "saves weights of another architecture in %s" % tw.ckpt(name, i)
        if last is not None and any(not torch.equal(last[k], sd[k]) for k in sd):
            return "there are no games to train on, but %s differs from the checkpoint before it" % tw.ckpt(name, i)
        last = sd
    if n:
        have[name] = first + n
    return None


def _sequence(job):
    """all second commands after a first one"""
    import importlib, torch
    torch.set_num_threads(1)
    sys.path.insert(0, REPO)
    for m in ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_ordered"):
        importlib.import_module("MahjongAI.agents." + m)
    import MahjongAI.utils.dataloader
    first, seconds = job
    n, bad = 0, []
    base = tempfile.mkdtemp(prefix="cmd", dir=impl.scratch())
    d = os.path.join(base, "a")
    try:
        for y in tw.YEARS + (tw.VAL,):
            os.makedirs(os.path.join(d, "data", "processed", str(y)))
        have = {}
        res = command(d, first)
        n += 1
        m = look(d, {}, have, first, res)
        if m:
            return job, n, ["command %r: %s" % (first, m)]
        before = files(d)
        for args in seconds:
            e = os.path.join(base, "b")
            shutil.copytree(d, e)
            res = command(e, args)
            n += 1
            m = look(e, before, dict(have), args, res)
            shutil.rmtree(e)
            if m:
                bad.append("command %r after %r: %s" % (args, first, m))
                break
        return job, n, bad
    finally:
        shutil.rmtree(base, ignore_errors=True)


@check("C33", "model_checking", "explicit-state exploration of command sequences: every command of the alphabet in a fresh directory and after every accepted command, run by the real script, checkpoint directories compared with a reference model")
def c33(tier, seed):
    accepted = [[n, str(k)] for n in NAMES for k in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 11))]
    jobs = []
    for i, a in enumerate(accepted):
        if a[1] == "0" and tier == "quick":
            jobs.append((a, [[n, "1"] for n in NAMES]))
        elif tier == "quick":
            # every name after every name; refused ones spread over the first commands
            jobs.append((a, [[n, str(1 + (i + j) % 2)] for j, n in enumerate(NAMES)] + REFUSED[i::9] + [["%s" % a[0], "0"]]))
        else:
            jobs.append((a, accepted + REFUSED))
    jobs += [(a, []) for a in REFUSED]
    n, out = 0, []
    # every further layer adds the same number of weights that the losses depend on
    deep = {}
    for a in ARCH.values():
        if a[2]:
            deep[a[:2]] = max(deep.get(a[:2], 0), a[2][0])
    counts = {}
    for (a, layers), c in explore.pmap(_live, [(a, i) for a in deep for i in range(deep[a], 0, -1)]):
        counts[a, layers] = c
    for a in deep:
        cs = [counts[a, i] for i in range(1, deep[a] + 1)]
        if any(cs) and (len({y - x for x, y in zip(cs, cs[1:])}) > 1 or cs[-1] <= cs[0]):
            out.append(dict(ident="layers:%s" % a[1], message="%s with 1, 2, ... layers: the losses depend on %s weight matrices, so that not every layer takes part" % (a[1], cs), replay=dict(model=a)))
    for job, k, bad in explore.pmap(_sequence, jobs):
        n += k
        out += [dict(ident="command", message=m, replay=dict(job=job[0])) for m in bad]
        if len(out) > 5:
            break
    return Outcome(dict(states=len(jobs), transitions=n, traces_validated_against_impl=n, refused_command_lines=len(REFUSED), model_names=len(NAMES), exhaustive=True,
                        weights_in_use_by_layers={a[1]: [counts[a, i] for i in range(1, deep[a] + 1)] for a in deep},
                        bounds="sequences of up to two commands over all %d model names with 0-2 iterations (thorough: also 3 and 11) and %d command lines to refuse" % (len(NAMES), len(REFUSED)),
                        samples=[dict(first=j[0], second=j[1][:3]) for j in jobs[1:3]]), out,
                   ["the data directories are empty, so training changes no weight; training on games is C22 and C30"])


# ------------------------------------------------------------------ C35
STAMP = re.compile(r"\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\]")
LINE = re.compile(r"val loss\s+(\S+)\s.*?loss\s+(\S+)\s*$")


def make_stub():
    import torch

    class Net(torch.nn.Module):
        """the n-th loss it gives is its own number; the number of outputs depends on the games"""

        def __init__(self, *a, **k):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(2))

        def forward(self, hts, toks, *a, **k):
            ids = tuple(int(g[0][0].stateObj.scores[0]) for g in hts)
            tw.REC.append(("forward", self.training, ids))
            # the loss over a sample of a validation batch is not the loss of the batch
            sampled = not self.training and (k.get("sample") or bool(a and a[0])) and k.get("sample_size", a[1] if len(a) > 1 else 2250) < 10 ** 6
            for h in range(sum(ids) % CONF["mod"]):
                n = len(tw.REC)
                v = (n * 37 % 101) / 8.0 + n
                tw.REC.append(("loss", self.training, v, self.w.detach().clone()))
                yield torch.zeros(len(hts), 3), (self.w * 0).sum() + v + (1 if sampled else 0)
    return Net


CONF = dict(mod=4)
_home = None


def home():
    global _home
    if _home is None or _home[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="rep", dir=impl.scratch())
        os.chdir(d)
        import importlib, torch
        torch.set_num_threads(1)
        Net = make_stub()
        for f, c in (("transformer", "TransformerModel"), ("transformer_conv", "TransformerConvModel"),
                     ("transformer_conv_large", "TransformerConvLargeModel"), ("transformer_conv_ordered", "TransformerConvOrderedModel")):
            setattr(importlib.import_module("MahjongAI.agents." + f), c, Net)
        with tw.quiet():
            import MahjongAI.supervised_learning as SL
        _home = (os.getpid(), d, SL)
    os.chdir(_home[1])
    return _home[2]


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-5 * max(1, abs(b))


def _report(job):
    name, parts, sizes, val, mod = job
    SL = home()
    d = _home[1]
    shutil.rmtree(os.path.join(d, "data"), ignore_errors=True)
    shutil.rmtree(os.path.join(d, "saved_models"), ignore_errors=True)
    idents = tw.data_tree(d, sizes, val)
    CONF["mod"] = mod
    what = "%s, runs of %s iterations, year sizes %s, %d validation games, 0-%d outputs per batch" % (name, list(parts), list(sizes), val, mod - 1)
    n = 0
    for part in parts:
        del tw.REC[:]
        log0 = {f: os.path.getsize(f) for f in os.listdir(d) if f.startswith("training_log")}
        out = Tee()
        try:
            with impl.watchdog(300), contextlib.redirect_stdout(out):
                SL.train(name, part)
        except (Exception, SystemExit, impl.Hang) as ex:
            return job, n, "%s: training fails: %s: %s (%s)" % (what, type(ex).__name__, ex, explore.frame(ex))
        # console and log file say the same
        text = out.getvalue()
        logged = ""
        for f in sorted(os.listdir(d)):
            if f.startswith("training_log"):
                with open(f) as fh:
                    fh.seek(log0.get(f, 0))
                    logged += fh.read()
        printed = [x for x in text.split("\n") if STAMP.match(x)]
        written = [x for x in logged.split("\n") if x.strip()]
        if written != printed:
            i = next((i for i in range(min(len(written), len(printed))) if written[i] != printed[i]), min(len(written), len(printed)))
            return job, n, "%s: log file and console differ in message %d: %r, %r" % (what, i, written[i:i + 1], printed[i:i + 1])
        # the reports, in the order of the events
        last, losses, seen, reports = float("nan"), [], [], 0
        validation = set(idents[tw.VAL])
        for e in tw.REC:
            if e[0] == "forward":
                seen.append((set(e[2]) <= validation, e[2]))
                cur = seen[-1][0]
            elif e[0] == "loss":
                if cur:
                    losses.append(e[2])
                else:
                    last = e[2]
                    losses = []
            elif e[0] == "line":
                m = LINE.search(e[1])
                if not m:
                    continue
                n += 1
                reports += 1
                try:
                    v, l = float(m.group(1)), float(m.group(2))
                except ValueError:
                    return job, n, "%s: report %r" % (what, e[1])
                batches = []
                for isval, ids in reversed(seen):
                    if not isval:
                        break
                    batches.append(ids)
                games = [x for b in batches for x in b]
                want = sum(losses) / len(losses) if losses else float("nan")
                if not same(v, want):
                    return job, n, "%s: validation loss %s is reported, the mean of the losses %s is %s" % (what, v, losses[:8], want)
                if not same(l, last):
                    return job, n, "%s: loss %s is reported, the last step's was %s" % (what, l, last)
                if len(games) < min(20, val):
                    return job, n, "%s: a validation loss over %d of %d validation games" % (what, len(games), val)
                seen, losses = [], []
        if sizes[0] and not reports:
            return job, n, "%s: no losses are reported" % what
    return job, n, None


class Tee(io.StringIO):
    """what is printed, line by line among the recorded events"""

    def __init__(self):
        super().__init__()
        self.part = ""

    def write(self, s):
        self.part += s
        while "\n" in self.part:
            line, _, self.part = self.part.partition("\n")
            tw.REC.append(("line", line))
        return super().write(s)


@check("C35", "model_checking", "exhaustive enumeration of training and validation set sizes, outputs per batch and runs on the real training script with stand-in networks; every report is recomputed from the recorded events")
def c35(tier, seed):
    jobs = []
    for name in NAMES:
        for mod in (1, 2, 3, 4):
            for s in range(0, 12 if tier == "quick" else 25):
                jobs.append((name, (1,), (s, 0, 0, 0, 0, 0, 0, 0), 3, mod))
            for v in range(0, 30 if tier == "quick" else 60):
                if tier != "quick" or (v + mod) % 3 == NAMES.index(name) % 3:
                    jobs.append((name, (1,), (3, 0, 0, 0, 0, 0, 0, 0), v, mod))
            jobs.append((name, (2, 1), (3, 4, 5, 0, 0, 0, 0, 0), 7, mod))
            jobs.append((name, (1, 9), (1, 2, 3, 4, 5, 6, 7, 8), 2, mod))
    # long enough for a report inside an iteration
    jobs += [("transformer", (1,), (1007, 0, 0, 0, 0, 0, 0, 0), 3, 3)]
    if tier != "quick":
        jobs += [(n, (1,), (2011, 0, 0, 0, 0, 0, 0, 0), 22, 3) for n in NAMES]
    n, out, k = 0, [], 0
    for job, r, bad in explore.pmap(_report, jobs, chunk=4):
        n += r
        k += 1
        if bad:
            out.append(dict(ident="report", message=bad, replay=dict(job=job)))
            if len(out) > 5:
                break
    return Outcome(dict(states=k, transitions=n, traces_validated_against_impl=n, exhaustive=True,
                        bounds="all nine names, 0-11 training and 0-29 validation games, 0-3 outputs per batch, up to ten iterations in up to two runs, one run over 1,007 games",
                        samples=[dict(name=j[0], sizes=j[2], validation=j[3], outputs=j[4] - 1) for j in jobs[5:7]]), out,
                   ["stand-in networks give known losses"])
