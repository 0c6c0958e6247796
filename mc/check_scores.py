"""C26 (a row's scores are its own), C27 (every fact in a row reaches the scores), C28 (losses train
every weight they depend on): the complete models, run from decision points to scores."""
import copy
import numpy as np
import check_models as cm
import explore, impl, rows
from core import Outcome, check

POOL, ITEMS, BASES = [], {}, {}


def singles(pool):
    """(name, point, tokens, head) of every row of the pool, each as a point that makes one row"""
    out = []
    for name, h, t in pool:
        for i, x in enumerate(h):
            for pt in (cm.single_posts(x) if x.type_ == x.POST else [x]):
                b = rows.rows("transformer", [[pt]], [t])
                heads = [hd for hd in rows.HEADS if len(b[hd]["y"])]
                if heads:
                    out.append(("%s point %d" % (name, i), pt, t, heads[0]))
    return out


def run(f, scale, items, **kw):
    """{head: score rows} of a batch of one-point rounds"""
    import torch
    m = cm.model(f, scale)
    with torch.no_grad():
        res = list(m([[[p]] for _, p, _, _ in items], [[t] for _, _, t, _ in items], **kw))
    heads = [h for h in rows.HEADS if any(it[3] == h for it in items)]
    if len(res) != len(heads):
        raise ValueError("%d results for rows of the heads %s" % (len(res), heads))
    return {h: r[0].detach().numpy() for h, r in zip(heads, res)}


def late(heads=rows.HEADS, lengths=(64, 100, 1000)):
    """(name, points, tokens) of rounds with long histories: for each kind of row the first point with
    at least so many tokens before it (or the last one)"""
    import worlds
    from game import document
    ws = [w for w in worlds.longest(ks=(0,)) if w.name.startswith(("longest-turns-1", "longest-blocks-2"))][:2]
    hts, toks = impl.convert(document([next(iter(w.histories((), 0)))[1].xml() for w in ws], 169))
    out = []
    for w, h, t in zip(ws, hts, toks):
        by = {}
        for name, pt, tk, head in singles([(w.name, h, t)]):
            by.setdefault(head, []).append((pt.encoding_idx, len(by.get(head, ())), name, pt, tk, head))
        for head, xs in by.items():
            xs.sort(key=lambda x: x[:2])
            for n in lengths:
                x = next((x for x in xs if x[0] >= n), xs[-1])
                if x[2:] not in out:
                    out.append(x[2:])
    return out


def extreme(items):
    """one row of each kind with every number as large as it gets"""
    out = []
    for head in rows.HEADS:
        name, pt, tk, _ = next(it for it in items if it[3] == head)
        pt = copy.deepcopy(pt)
        for s in [pt.stateObj] + list(getattr(pt, "stateObjs", None) or []):
            s.scores = [990, 40, -70, 40]
            s.honba, s.kyotaku = 17, 9
        out.append(("%s, high scores" % name, pt, tk, head))
    return out


# ------------------------------------------------------------------ C26
def _together(job):
    f, scale, i = job
    ref = REF[f, scale]
    bad, n = [], 0

    def compare(what, idx, got):
        for h, lg in got.items():
            want = [ref[j] for j in idx if ITEMS[j][3] == h]
            if len(lg) != len(want):
                bad.append("%s: %d score rows for %d rows of the %s head" % (what, len(lg), len(want), h))
            elif cm.matching(lg, want) is None:
                d = max(float(np.min([np.max(np.abs(np.clip(g, -1e6, None) - np.clip(r, -1e6, None))) for r in want])) for g in lg)
                bad.append("%s: a row of the %s head does not get the scores it gets alone (differs by %g)" % (what, h, d))
    for j in range(len(ITEMS)):
        got = run(f, scale, [ITEMS[i], ITEMS[j]])
        n += 1
        compare("%s: rows %s and %s in one batch" % (f, ITEMS[i][0], ITEMS[j][0]), (i, j), got)
        if bad:
            return job, n, bad
    every = list(range(len(ITEMS)))
    for what, idx in (("all rows, starting with %s" % ITEMS[i][0], every[i:] + every[:i]), ("all rows backwards from %s" % ITEMS[i][0], (every[i:] + every[:i])[::-1]),
                      ("three times %s" % ITEMS[i][0], [i] * 3), ("all rows but %s" % ITEMS[i][0], every[:i] + every[i + 1:]),
                      ("%s among nine copies of another" % ITEMS[i][0], [(i + 1) % len(every)] * 4 + [i] + [(i + 1) % len(every)] * 5)):
        compare("%s: %s" % (f, what), idx, run(f, scale, [ITEMS[k] for k in idx]))
        compare("%s: %s, sampled" % (f, what), idx, run(f, scale, [ITEMS[k] for k in idx], sample=True))
        n += 2
    of = [k for k in every if ITEMS[k][3] == ITEMS[i][3]]
    if i == of[0]:
        # as many rows as a batch of training has
        idx = (of * 150)[:150]
        compare("%s: a batch of %d rows of the %s head" % (f, len(idx), ITEMS[i][3]), idx, run(f, scale, [ITEMS[k] for k in idx]))
        n += 1
    # the same again after all that
    compare("%s: %s alone again" % (f, ITEMS[i][0]), (i,), run(f, scale, [ITEMS[i]]))
    return job, n + 1, bad


REF = {}


@check("C26", "model_checking", "exhaustive enumeration of all pairs of rows (both orders) and of large batches around each row, run on the real models and compared with each row alone")
def c26(tier, seed):
    global ITEMS
    pool = cm.c19_pool()
    ITEMS = singles(pool)
    ITEMS = ITEMS + late() + extreme(ITEMS)
    out = []
    for f in rows.FAMS:
        for scale in (0, 0.3):
            REF[f, scale] = []
            for it in ITEMS:
                got = run(f, scale, [it])
                REF[f, scale].append(got[it[3]][0])
    n = evals = 0
    jobs = [(f, s, i) for i in range(len(ITEMS)) for f in rows.FAMS for s in (0, 0.3)]
    for job, c, bad in explore.pmap(_together, jobs):
        n += 1
        evals += c
        for b in bad[:2]:
            out.append(dict(ident="%s:%d" % (job[0], job[2]), message=b, replay=dict(job=job, rows=[it[0] for it in ITEMS])))
        if len(out) > 8:
            break
    heads = {h: sum(it[3] == h for it in ITEMS) for h in rows.HEADS}
    cov = dict(states=len(ITEMS) * 8, transitions=evals, traces_validated_against_impl=evals, rows=heads, model_families=list(rows.FAMS), exhaustive=True,
               bounds="all ordered pairs of %d rows of all heads, with histories of up to 120 tokens and more, and batches of all rows (every rotation, both directions), three and ten copies, and 150 rows of one head; two weightings per family" % len(ITEMS),
               samples=[[ITEMS[0][0], ITEMS[-1][0]]])
    return Outcome(cov, out, ["two fixed random weightings per model stand for all weights", "CPU arithmetic in float32, compared with tolerance 2e-4"])


# ------------------------------------------------------------------ C27
def facts(f, head):
    """(kind, label, set) of every single change of what a row shows; set(state, tokens) changes them"""
    out = []
    for i in range(37):
        top = 5 if i < 34 else 2
        for v in range(top):
            def hand(s, t, i=i, v=v):
                s.hand_tensor[i] = v

            def pov(s, t, i=i, v=v):
                s.remaining_tiles_pov[i] = v
            out += [("hand", (i, v), hand), ("unseen", (i, v), pov)]
        for p in range(4) if f.endswith("ordered") else ("own",):
            for v in (0, 1):
                def dis(s, t, i=i, p=p, v=v):
                    s.sutehai_tensors[s.player if p == "own" else p][i] = v
                out.append(("discards", (p, i, v), dis))

    def seq(attr, p, v):
        def g(s, t):
            x = getattr(s, attr).copy() if hasattr(getattr(s, attr), "copy") else list(getattr(s, attr))
            x[p] = v
            setattr(s, attr, x)
        return g

    def num(attr, v):
        def g(s, t):
            setattr(s, attr, v)
        return g
    for p in range(4):
        for v in (-3, 0, 9, 10, 100, 249, 250, 251, 600, 990):
            out.append(("scores", (p, v), seq("scores", p, v)))
        for v in (0, 1, 2):
            out.append(("parent_left", (p, v), seq("parent_rounds_remaining", p, v)))
        for nm, attr in (("double", "double_reaches"), ("riichi", "reaches"), ("ippatsu", "ippatsu"), ("menzen", "is_menzen")):
            for v in (0, 1):
                out.append((nm, (p, v), seq(attr, p, v)))

        def par(s, t, p=p):
            s.parent_tensor = np.eye(4, dtype=np.float32)[p]
        out.append(("parent", (p,), par))
    for nm, attr, vs in (("left", "remaining_tsumo", range(71)), ("kyotaku", "kyotaku", range(8)), ("honba", "honba", range(12)), ("rounds_left", "rounds_remaining", range(9))):
        for v in vs:
            def g(s, t, attr=attr, v=v):
                setattr(s, attr, v)
                if attr == "remaining_tsumo":
                    s.remaining_turns = v
            out.append((nm, (v,), g))
    return out


def events(toks, n):
    """every change of one event of the history; every exchange of two that are neighbours or of
    one kind"""
    for i in range(n):
        for j in range(i + 1, n):
            if toks[i] != toks[j] and (j == i + 1 or toks[i] >> 10 == toks[j] >> 10):
                yield ("order", (i, j), None)
        t = toks[i]
        for nm, x in (("gone", 0), ("seat", t ^ 0x100), ("seat", t ^ 0x200), ("tile", t ^ 1), ("tile", t ^ 2), ("drawn", t ^ 0x80)):
            st = t >> 13
            if nm == "seat" and st == 4 or nm == "drawn" and st != 1 or nm == "tile" and (st == 2 or (x & 0x7f) > 33):
                continue
            yield ("history", (i, nm, x), x)


def rendered(f, head, pt, t):
    """the row's own features, so that changes that are not visible in it are left out"""
    b = rows.rows(f, [[pt]], [t])[head]
    return tuple(b[k][0].tobytes() for k in ("hist", "x1", "x2", "x3"))


def mixed():
    """a history with every kind of event more than once"""
    import worlds
    from game import document
    ws = [w for f in (worlds.riichi_kan, worlds.kans, worlds.chankan, worlds.calls, worlds.riichi_order) for w in f(ks=(0,))]
    ws = ws[::max(1, len(ws) // 60)]
    _, toks = impl.convert(document([next(iter(w.histories((), 0)))[1].xml() for w in ws], 169))
    kinds = {}
    for t in toks:
        for x in map(int, t):
            # the kinds of event, as far as the fields of a token tell them
            k = (x >> 10, (x & 0xff) // 16 if x >> 13 in (2, 3) else x >> 7 & 1)
            if x not in kinds.setdefault(k, []):
                kinds[k].append(x)
    out, n = [], 0
    while len(out) < 44:
        for k in sorted(kinds):
            v = kinds[k]
            out.append(v[(n * 5 + len(out)) % len(v)])
        n += 1
    return out[:44]


def variants(f, head, base, same):
    """(label, point, tokens) of the base row and of all rows with one fact changed; same: gets
    the changes that the row does not show"""
    name, pt, t, _ = base
    seen = {}

    def state(p):
        if head == "post":
            q = [q for q in range(4) if sum(map(len, p.decisions[q]))][0]
            return p.stateObjs[q], q
        return p.stateObj, p.player

    asit = set()

    def add(label, p2, t2):
        k = rendered(f, head, p2, t2)
        if k not in seen:
            seen[k] = (label, p2, t2, head)
        elif p2 is not pt:
            # a fact that is not what it was has to show; one value of each is what it was
            first, of = seen[k][0], label[:-1]
            if first != ("as it is",) or of in asit:
                same.append("%s, %s head: rows that differ in one fact show the same: %s / %s" % (f, head, first, label))
            asit.add(of)
    add(("as it is",), pt, t)
    for kind, what, setter in facts(f, head) if name != "mixed" else ():
        p2 = copy.copy(pt)
        s, q = state(pt)
        s = copy.copy(s)
        for a in ("hand_tensor", "remaining_tiles_pov", "sutehai_tensors"):
            setattr(s, a, getattr(s, a).copy())
        setter(s, t)
        if head == "post":
            p2.stateObjs = [s if r == q else o for r, o in enumerate(pt.stateObjs)]
            if q == pt.player:
                p2.stateObj = s
        else:
            p2.stateObj = s
        add((kind,) + tuple(what), p2, t)
    for kind, what, x in events(t, pt.encoding_idx):
        t2 = list(t)
        if kind == "order":
            i, j = what
            t2[i], t2[j] = t2[j], t2[i]
        else:
            t2[what[0]] = x
        add((kind,) + tuple(what[:2]), pt, t2)
    return list(seen.values())


def _facts(job):
    """scores of some of the rows of one family and head"""
    f, head, b, lo, hi = job
    vs = VARS[f, head, b][lo:hi]
    out = []
    for scale in SCALES:
        part = []
        for v in vs:
            part.append(run(f, scale, [v])[head][0])
        out.append(np.array(part))
    return job, out


VARS = {}
SCALES = (0, 0.1, 0.3)


@check("C27", "model_checking", "exhaustive enumeration of every single change of what a row shows (each tile count, flag, number and event), scored by the real models; all pairs compared")
def c27(tier, seed):
    import torch
    pool = cm.c19_pool()
    items = singles(pool)
    nbase = 1 if tier == "quick" else 3
    jobs, hidden = [], []
    history = mixed()
    for head in rows.HEADS:
        # rows with a history and many options
        cand = sorted([it for it in items if it[3] == head], key=lambda it: -it[1].encoding_idx)[:nbase]
        long = copy.copy(cand[0][1])
        long.encoding_idx = len(history)
        cand.append(("mixed", long, history, head))
        for b, base in enumerate(cand):
            for f in rows.FAMS:
                VARS[f, head, b] = variants(f, head, base, hidden)
                n = len(VARS[f, head, b])
                jobs += [(f, head, b, i, min(i + 60, n)) for i in range(0, n, 60)]
    got = {}
    n = 0
    for job, res in explore.pmap(_facts, jobs):
        got[job] = res
        n += sum(len(r) for r in res)
    out = [dict(ident="same:%s" % m, message=m, replay=dict(what=m)) for m in hidden[:8]]
    pairs = 0
    for (f, head, b), vs in sorted(VARS.items()):
        parts = [got[j] for j in jobs if j[:3] == (f, head, b)]
        same = None
        for k, scale in enumerate(SCALES):
            x = torch.tensor(np.concatenate([p[k] for p in parts])).double()
            allowed = x > -1e8
            size = x[allowed].abs().max()
            # score difference on the actions allowed in both rows
            near = torch.ones(len(x), len(x), dtype=torch.bool)
            for a in range(x.shape[1]):
                both = allowed[:, a, None] & allowed[None, :, a]
                near &= ~(both & ((x[:, a, None] - x[None, :, a]).abs() > 2e-6 * size))
            same = near if same is None else same & near
        pairs += len(vs) ** 2 // 2
        hit = [(i, j) for i, j in torch.nonzero(same).tolist() if i < j]
        for i, j in hit[:2]:
            out.append(dict(ident="%s:%s:%s:%s" % (f, head, vs[i][0], vs[j][0]), message="%s, %s head: rows that differ in one fact get the same scores: %s / %s (%d such pairs of %d rows)" % (
                f, head, vs[i][0], vs[j][0], len(hit), len(vs)), replay=dict(family=f, head=head, a=str(vs[i][0]), b=str(vs[j][0]))))
    cov = dict(states=sum(map(len, VARS.values())), transitions=n, traces_validated_against_impl=n, pairs_compared=pairs, rows={"%s/%s" % (f, h): len(v) for (f, h, b), v in VARS.items() if b == 0},
               model_families=list(rows.FAMS), exhaustive=True,
               bounds="%d row(s) per family and head; every value of every tile count, flag and number it shows and every change of one event or exchange of two of its history, and of a made-up history of %d events of all kinds; all pairs" % (nbase, len(history)),
               samples=[str(v[0]) for v in VARS["transformer", "post", 0][::150]])
    return Outcome(cov, out[:10], ["three fixed weightings per model stand for all weights: rows that differ under one of them differ for almost all weights"])


# ------------------------------------------------------------------ C28
def double(m):
    """the model in double precision, whatever its inputs are made of"""
    import torch

    def cast(mod, args, kw):
        f = lambda x: x.double() if isinstance(x, torch.Tensor) and x.is_floating_point() else x
        return tuple(map(f, args)), {k: f(v) for k, v in kw.items()}
    m = m.double()
    for x in m.modules():
        if next(x.parameters(recurse=False), None) is not None:
            x.register_forward_pre_hook(cast, with_kwargs=True)
    return m


def _grad(job):
    """one family, head and mode: the gradient of every weight tensor against the loss itself"""
    import torch
    f, head, mode = job
    m = double(copy.deepcopy(cm.model(f, 0)))
    gen = torch.Generator().manual_seed(3)
    with torch.no_grad():
        for p in m.parameters():
            p.add_(0.1 * torch.randn(p.shape, generator=gen, dtype=p.dtype))
    items = [it for it in ITEMS if it[3] == head]
    hts, toks = [[[p]] for _, p, _, _ in items], [[t] for _, _, t, _ in items]
    m.train() if mode == "train" else m.eval()

    def loss():
        torch.manual_seed(17)
        res = list(m(hts, toks, sample=mode == "train"))
        if len(res) != 1:
            raise ValueError("%d losses for rows of one head" % len(res))
        return res[0][1]

    def rate(ps, ds, eps):
        with torch.no_grad():
            old = [p.detach().clone() for p in ps]
            v = []
            for e in (eps, -eps):
                for p, o, d in zip(ps, old, ds):
                    p.copy_(o + e * d)
                v.append(float(loss()))
            for p, o in zip(ps, old):
                p.copy_(o)
        return (v[0] - v[1]) / (2 * eps)
    m.zero_grad(set_to_none=True)
    lo = loss()
    if not lo.requires_grad:
        return job, 1, 0, ["%s, %s head, %s mode: the loss has no gradient" % (f, head, mode)]
    lo.backward()
    n, bad = 1, []
    names, ps = zip(*sorted(m.named_parameters()))
    gs = [None if p.grad is None else p.grad.detach().double() for p in ps]
    for name, p, g in zip(names, ps, gs):
        if g is not None and not bool(torch.isfinite(g).all()):
            bad.append("%s, %s head, %s mode: the gradient of %s is not finite" % (f, head, mode, name))
            continue
        d = torch.randn(p.shape, generator=gen, dtype=torch.float64)
        d /= d.norm()
        if g is not None and float(g.norm()) > 1e-9:
            d = 0.5 * d + g / g.norm()
        slope = 0.0 if g is None else float((g * d).sum())
        meas = []
        for eps in (1e-5, 1e-6, 1e-4, 1e-7):
            meas.append(rate([p], [d], eps))
            n += 2
            if abs(meas[-1] - slope) <= 1e-12 / eps + 1e-7 + 1e-3 * max(abs(meas[-1]), abs(slope)):
                break
        else:
            bad.append("%s, %s head, %s mode: the loss changes at rate %s with %s, its gradient says %g%s" % (
                f, head, mode, ["%.3g" % x for x in meas], name, slope, " (it has none)" if g is None else ""))
    return job, n, len(ps), bad


@check("C28", "model_checking", "exhaustive enumeration of every weight tensor of every model family, head and mode: the gradient of the real loss against the measured change of the loss")
def c28(tier, seed):
    global ITEMS
    pool = cm.c19_pool()
    ITEMS = singles(pool)
    keep = []
    for h in rows.HEADS:
        keep += [it for it in ITEMS if it[3] == h][-(3 if tier == "quick" else 12):]
    ITEMS = keep
    n = t = k = 0
    out = []
    jobs = [(f, h, mode) for f in rows.FAMS for h in rows.HEADS for mode in ("train", "eval")]
    for job, c, tensors, bad in explore.pmap(_grad, jobs):
        n += c
        t += tensors
        k += 1
        for b in bad[:2]:
            out.append(dict(ident="%s:%s:%s" % job, message=b, replay=dict(job=job)))
    cov = dict(states=t, transitions=n, traces_validated_against_impl=k, weight_tensors=t, loss_evaluations=n, model_families=list(rows.FAMS), exhaustive=True,
               bounds="every weight tensor of every family and head, in training mode (fixed dropout) and evaluation mode; central differences in double precision",
               samples=[str(j) for j in jobs[:2]])
    return Outcome(cov, out[:10], ["one fixed random weighting per model stands for all weights", "deviations below 0.1 % go unnoticed"])
