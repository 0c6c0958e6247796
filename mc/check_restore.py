"""C31: a checkpoint holds the whole player: loaded anywhere it gives the scores of the network
that was saved."""
import json, os, shutil, subprocess, sys, tempfile
import numpy as np
import explore, impl, rows
import train_world as tw
from core import Outcome, ROOT, check

FILES = (("transformer", "TransformerModel"), ("transformer_conv", "TransformerConvModel"),
         ("transformer_conv_large", "TransformerConvLargeModel"), ("transformer_conv_ordered", "TransformerConvOrderedModel"))


def pool():
    import check_models as cm
    from check_scores import singles
    return singles(cm.c19_pool())


def scores(m, items):
    """every row's scores in evaluation mode, alone and all together, and the losses"""
    import torch
    mode = m.training
    m.eval()
    out = []
    with torch.no_grad():
        for sel in [[it] for it in items] + [items, items[::-1]]:
            for lg, loss in m([[[it[1]]] for it in sel], [[it[2]] for it in sel]):
                out.append(lg.detach().numpy().ravel().astype(np.float64))
                out.append(np.array([float(loss)]))
    m.train(mode)
    return np.concatenate(out)


def capture():
    """classes of the script's networks that note what they are made with"""
    import importlib
    for f, c in FILES:
        m = importlib.import_module("MahjongAI.agents." + f)

        def wrap(orig, f, c):
            class Cap(orig):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)
                    tw.MODELS.append(self)
                    self.__dict__["_mc_made"] = (f, c, a, k)
            return Cap
        setattr(m, c, wrap(getattr(m, c), f, c))


def build(made, seed):
    import importlib, torch
    f, c, a, k = made
    torch.manual_seed(seed)
    return getattr(importlib.import_module("MahjongAI.agents." + f), c)(*a, **k)


def child(args):
    """in a process of its own: load a checkpoint into a new network, write its scores"""
    import torch
    torch.set_num_threads(1)
    made, path, out, seed = json.loads(args)
    m = build(made, seed)
    m.load_state_dict(torch.load(path, map_location="cpu"))
    np.save(out, scores(m, pool()))


def differ(a, b):
    if a.shape != b.shape:
        return "%s numbers instead of %s" % (b.shape, a.shape)
    d = np.abs(np.clip(a, -1e6, None) - np.clip(b, -1e6, None)) / (1 + np.abs(np.clip(a, -1e6, None)))
    return None if d.max() < 1e-4 else "scores differ by up to %.4g (of %d, %d differ)" % (d.max(), len(d), (d >= 1e-4).sum())


def _restore(job):
    import torch
    name, iters = job
    d = tempfile.mkdtemp(prefix="c31", dir=impl.scratch())
    os.chdir(d)
    n = 0
    try:
        capture()
        tw.load(stub=False)
        tw.data_tree(d, (3, 2, 1, 1, 1, 1, 1, 1), 1)
        items = pool()
        prev = None
        for i in range(iters):
            try:
                with impl.watchdog(600):
                    tw.train(name, 1)
            except (Exception, SystemExit, impl.Hang) as ex:
                return job, n, "%s: training fails: %s: %s" % (name, type(ex).__name__, ex)
            if not tw.MODELS:
                return job, n, "%s: no network was made" % name
            m = tw.MODELS[-1]
            what = "%s, checkpoint of iteration %d" % (name, i)
            path = os.path.join("saved_models", tw.ckpt(name, i))
            saved = scores(m, items)
            n += 1
            fresh = scores(build(m._mc_made, 5), items)
            if differ(saved, fresh) is None:
                return job, n, "%s: the trained network gives the scores of a new one" % what
            # into new networks, however they were initialised, and whatever they did before
            for seed in (1, 2):
                m2 = build(m._mc_made, seed)
                if seed == 2:
                    scores(m2, items[:3])
                try:
                    m2.load_state_dict(torch.load(path, map_location="cpu"))
                except Exception as ex:
                    return job, n, "%s: cannot be loaded: %s" % (what, ex)
                n += 1
                bad = differ(saved, scores(m2, items))
                if bad:
                    return job, n, "%s, loaded into a new network: %s" % (what, bad)
            # into networks that were something else before
            if prev is not None:
                prev.load_state_dict(torch.load(path, map_location="cpu"))
                n += 1
                bad = differ(saved, scores(prev, items))
                if bad:
                    return job, n, "%s, loaded into the network of the iteration before: %s" % (what, bad)
            prev = m
            # in other processes
            for seed in ("1", "2"):
                out = os.path.join(d, "out.npy")
                env = dict(os.environ, PYTHONHASHSEED=seed, MC_REPO=impl.REPO)
                p = subprocess.run([sys.executable, "-B", os.path.join(ROOT, "mc", "check_restore.py"), json.dumps([m._mc_made, path, out, int(seed) + 20])],
                                   env=env, capture_output=True, text=True)
                n += 1
                if p.returncode:
                    return job, n, "%s, in another process: %s" % (what, p.stderr[-400:])
                bad = differ(saved, np.load(out))
                if bad:
                    return job, n, "%s, loaded in another process: %s" % (what, bad)
        return job, n, None
    finally:
        os.chdir(impl.scratch())
        shutil.rmtree(d, ignore_errors=True)


@check("C31", "model_checking", "explicit enumeration of the checkpoints of training histories of all nine models and of the ways to load them (new network, used network, other process); every row's scores compared with the saved network's")
def c31(tier, seed):
    out, n, jobs = [], 0, [(x, 2 if tier == "quick" else 9) for x in tw.NAMES]
    for job, k, bad in explore.pmap(_restore, jobs, fresh=True):
        n += k
        if bad:
            out.append(dict(ident="restore:%s" % job[0], message=bad, replay=dict(job=job)))
    cov = dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=True,
               bounds="the checkpoints of the first %d iterations of all nine models, each loaded in five ways; every row of a pool alone and together" % jobs[0][1],
               samples=["transformer iteration 1 loaded in another process"])
    return Outcome(cov, out, ["a pool of rows of all three kinds stands for all rows", "scores compared in float32 with tolerance 1e-4"])


if __name__ == "__main__":
    child(sys.argv[1])
