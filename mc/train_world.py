"""The training script with stand-in networks: small data directories, recorded runs."""
import contextlib, io, os, sys
import numpy as np
import impl

NAMES = ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_large_3", "transformer_conv_ordered",
         "transformer_conv_ordered_large_2", "transformer_conv_ordered_large_3", "transformer_conv_ordered_large_4",
         "transformer_conv_ordered_large_5")
YEARS = tuple(range(2012, 2020))
VAL = 2021
REC = []          # what happened, in order
CONF = dict(tag=0, heads=1)
MODELS = []       # networks made
SL = None


def game(ident):
    """a tiny game recognisable by the first player's score"""
    from game import Round, document, make_deal
    r = Round(make_deal([""] * 4, k=0, n_rounds=8, scores=(ident, 250, 250, 250))).start()
    for _ in range(2):
        r.do(r.legal()[0])
    r.cut()
    return document([r.xml()], 169)


def data_tree(root, sizes, val, first=1000):
    """data directories under root with the given number of games; {year: set of idents}"""
    out, n = {}, first
    for y, k in list(zip(YEARS, sizes)) + [(VAL, val)]:
        d = os.path.join(root, "data", "processed", str(y))
        os.makedirs(d, exist_ok=True)
        out[y] = []
        for i in range(k):
            with open(os.path.join(d, "%dgm%02d.xml" % (y, i)), "w") as f:
                f.write(game(n))
            out[y].append(n)
            n += 1
    return out


def make_stub():
    import torch

    class Net(torch.nn.Module):
        """counts its training batches; each head output has its own gradient"""

        def __init__(self, *a, **k):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(4))
            self.register_buffer("tag", torch.tensor(float(CONF["tag"]), dtype=torch.float64))
            self.register_buffer("count", torch.tensor(0.0, dtype=torch.float64))
            MODELS.append(self)

        def train(self, mode=True):
            REC.append(("mode", bool(mode)))
            return super().train(mode)

        def forward(self, hts, toks, *a, **k):
            ids = tuple(int(g[0][0].stateObj.scores[0]) for g in hts)
            REC.append(("forward", self.training, torch.is_grad_enabled(), ids, self.w.detach().clone(), float(self.count)))
            if self.training:
                self.count += 1
            for h in range({3: 1 + sum(ids) % 3, 4: sum(ids) % 4}.get(CONF["heads"], 1)):
                c = torch.tensor([1.0, float(h + 1), float(ids[0]), float(len(REC))])
                REC.append(("head", self.training, torch.is_grad_enabled(), h, c))
                loss = (self.w * c).sum() + 1.0
                yield torch.zeros(len(hts), 3), loss
    return Net


def load(stub=True):
    """import the training script (with stand-in networks); call with a scratch cwd"""
    global SL
    import torch
    torch.set_num_threads(1)
    if stub:
        import importlib
        Net = make_stub()
        for f, c in (("transformer", "TransformerModel"), ("transformer_conv", "TransformerConvModel"),
                     ("transformer_conv_large", "TransformerConvLargeModel"), ("transformer_conv_ordered", "TransformerConvOrderedModel")):
            setattr(importlib.import_module("MahjongAI.agents." + f), c, Net)
    with quiet():
        import MahjongAI.supervised_learning as SL_
    SL = SL_
    from torch.optim.optimizer import register_optimizer_step_post_hook

    def stepped(opt, args, kwargs):
        ps = [p for g in opt.param_groups for p in g["params"]]
        if stub:
            REC.append(("step", [None if p.grad is None else p.grad.detach().clone() for p in ps], ps[0].detach().clone()))
        else:
            REC.append(("step", None, None))
    register_optimizer_step_post_hook(stepped)
    return SL


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def train(name, iters):
    """one run in the current directory; the record of it"""
    del REC[:]
    del MODELS[:]
    with quiet():
        SL.train(name, iters)
    return list(REC)


def ckpt(name, i):
    return "model_%s_checkpoint_iter_%d.pt" % (name, i)


def read_ckpt(path):
    """(tag, batches, weights) of a complete checkpoint, or None"""
    import torch
    try:
        d = torch.load(path, map_location="cpu")
        return int(d["tag"]), int(d["count"]), d["w"].tolist()
    except Exception:
        return None
