"""C19, C20: the four model families on every small batch, and the history encoders on every
event at every position."""
import itertools
import numpy as np
import explore, impl, rows, worlds
from core import Outcome, check
from explore import Check

BUILD = {
    "transformer": lambda m: m.TransformerModel(),
    "transformer_conv": lambda m: m.TransformerConvModel(),
    "transformer_conv_large": lambda m: m.TransformerConvLargeModel(2),
    "transformer_conv_ordered": lambda m: m.TransformerConvOrderedModel(1),
}
_models = {}


def model(f, scale):
    """a model with fixed weights: as initialised (scale 0) or spread out"""
    import torch
    if (f, scale) not in _models:
        torch.manual_seed(11)
        m = BUILD[f](rows.module(f))
        if scale:
            with torch.no_grad():
                for p in m.parameters():
                    if p.dim() > 1:
                        p.normal_(0, scale)
        m.eval()
        _models[f, scale] = m
    return _models[f, scale]


# ------------------------------------------------------------------ C19
def trimmed(h, keep):
    """a few decision points of a round: a smaller batch with the same kinds of rows"""
    return [x for i, x in enumerate(h) if i in keep]


def softmax_zero(logits, mask):
    import torch
    p = torch.softmax(logits, dim=1)
    return bool(((p == 0) | (mask != 0)).all()), bool((p >= 0).all() and torch.isfinite(p).all())


def ce(logits, y):
    z = logits.astype(np.float64)
    z = z - z.max(axis=1, keepdims=True)
    return float(np.mean(np.log(np.exp(z).sum(axis=1)) - z[np.arange(len(y)), y]))


TOL = 2e-4


def close(a, b):
    """logits of one row are those of another (both masked)"""
    return bool(np.all(np.abs(np.clip(a, -1e6, None) - np.clip(b, -1e6, None)) <= TOL * (1 + np.abs(np.clip(b, -1e6, None)))))


def matching(got, ref):
    """an injective match of rows; None if a row has no partner"""
    used, out = set(), []
    for g in got:
        best, bd = None, None
        for j, r in enumerate(ref):
            if j in used or r.shape != g.shape:
                continue
            d = float(np.max(np.abs(np.clip(g, -1e6, None) - np.clip(r, -1e6, None))))
            if bd is None or d < bd:
                best, bd = j, d
        if best is None or not close(g, ref[best]):
            return None
        used.add(best)
        out.append(best)
    return out


class Heads:
    """expected row by row results of a batch"""

    def __init__(self, f, scale, hts, toks, cache):
        self.ref = {h: [] for h in rows.HEADS}
        self.y = {h: [] for h in rows.HEADS}
        self.mask = {h: [] for h in rows.HEADS}
        for key, h, t in zip(cache[1], hts, toks):
            k = (f, scale, key)
            if k not in cache[0]:
                cache[0][k] = self.alone(f, scale, h, t)
            for head in rows.HEADS:
                for a, b, c in cache[0][k][head]:
                    self.ref[head].append(a)
                    self.y[head].append(b)
                    self.mask[head].append(c)

    @staticmethod
    def alone(f, scale, h, t):
        import torch
        out = {head: [] for head in rows.HEADS}
        m = model(f, scale)
        for x in h:
            if x.type_ == x.POST:
                parts = single_posts(x)
            else:
                parts = [x]
            for pt in parts:
                b = rows.rows(f, [[pt]], [t])
                heads = [hd for hd in rows.HEADS if len(b[hd]["y"])]
                if not heads:
                    continue
                with torch.no_grad():
                    res = list(m([[[pt]]], [[t]]))
                if len(res) != len(heads):
                    raise ValueError("%s: %d results for one decision" % (f, len(res)))
                for hd, (logits, loss) in zip(heads, res):
                    if len(logits) != 1:
                        raise ValueError("%s: %d score rows for one decision" % (f, len(logits)))
                    out[hd].append((logits.numpy()[0], int(b[hd]["y"][0]), b[hd]["mask"][0]))
        return out


def single_posts(x):
    """the reaction of each player that makes a row, alone"""
    import copy
    out = []
    for j in range(1, 4):
        q = (x.player + j) % 4
        d = x.decisions[q]
        if sum(map(len, d)):
            y = copy.copy(x)
            y.decisions = [d if p == q else [[], [], []] for p in range(4)]
            out.append(y)
            if any(o.executed for k in d for o in k):
                break
    return out


def check_output(f, what, res, exp, sample_size=None):
    """res: list of (logits, loss); exp: Heads"""
    import torch
    heads = [h for h in rows.HEADS if exp.ref[h]]
    if len(res) != len(heads):
        yield "%s: %d results, expected one for each of %s" % (what, len(res), heads)
        return
    for head, (logits, loss) in zip(heads, res):
        n = len(exp.ref[head])
        want = n if sample_size is None or n <= sample_size else sample_size
        w = "%s, %s head" % (what, head)
        if tuple(logits.shape) != (want, rows.WIDTH[head]):
            yield "%s: scores have shape %s, expected %s" % (w, tuple(logits.shape), (want, rows.WIDTH[head]))
            continue
        ls = float(loss)
        lg = logits.detach()
        m = matching(lg.numpy(), exp.ref[head])
        if m is None:
            yield "%s: a score row is not that of any row of its own" % w
            continue
        mask = torch.tensor(np.array([exp.mask[head][j] for j in m]))
        z, ok = softmax_zero(lg, mask)
        if not z:
            yield "%s: a disallowed action has positive probability" % w
        if not ok:
            yield "%s: scores do not give probabilities" % w
        y = [exp.y[head][j] for j in m]
        e = ce(lg.numpy(), y)
        if not np.isfinite(ls) or abs(ls - e) > 1e-3 * (1 + abs(e)):
            yield "%s: loss %r, mean cross-entropy of the labels is %r" % (w, ls, e)


class Randperm:
    """torch.randperm answers with a given permutation"""

    def __init__(self, perm):
        self.perm, self.calls = perm, 0

    def __enter__(self):
        import torch
        self.real = torch.randperm

        def fake(n, *a, **k):
            self.calls += 1
            if n == len(self.perm):
                return torch.tensor(self.perm, dtype=torch.int64)
            return torch.arange(n)
        torch.randperm = fake
        return self

    def __exit__(self, *a):
        import torch
        torch.randperm = self.real


def c19_pool():
    """(name, points, tokens): rounds cut down to a few decision points"""
    from game import document
    allw = worlds.multiron(ks=(0,)) + worlds.firstturn(ks=(0,)) + worlds.kans(ks=(0,)) + worlds.discard_sweep() + worlds.kan_sweep()
    out = []
    # rounds found by the kinds of rows they have
    def rnd(w):
        return next(iter(w.histories((), 0)))[1]
    seen = set()
    picks = []
    for w in sorted(allw, key=lambda w: (w.horizon, w.name)):
        r = rnd(w)
        n = {h: 0 for h in rows.HEADS}
        kinds = set()
        for i, head, q, idx, y in rows.decisions(r):
            n[head] += 1
            kinds.add((head, bool(y) and head != "discard", len(idx) > 2))
        fresh = kinds - seen
        if fresh and sum(n.values()) <= 40:
            seen |= kinds
            picks.append((w, r))
        if len(picks) >= 8:
            break
    hts, toks = impl.convert(document([r.xml() for _, r in picks], 169))
    for (w, r), h, t in zip(picks, hts, toks):
        rl = {}
        for i, head, q, idx, y in rows.decisions(r):
            rl.setdefault(i, head)
        # the latest points of each head
        keep = set()
        for head in rows.HEADS:
            keep |= set([i for i in sorted(rl) if rl[i] == head][-3:])
        out.append((w.name, trimmed(h, keep), [int(x) for x in t]))
    return out


def _one_batch(job):
    """one batch composition with one family: full, eval and train, and every subsample"""
    import torch
    f, scale, comp, perms = job
    pool = POOL
    keys = [k for g in comp for k in g]
    hts = [[pool[k][1] for k in g] for g in comp]
    toks = [[pool[k][2] for k in g] for g in comp]
    flat_h = [h for g in hts for h in g]
    flat_t = [t for g in toks for t in g]
    exp = Heads(f, scale, flat_h, flat_t, (CACHE, keys))
    m = model(f, scale)
    bad, n = [], 0
    what = "%s, batch %s" % (f, [[pool[k][0] for k in g] for g in comp])
    with torch.no_grad():
        m.eval()
        bad += list(check_output(f, what, list(m(hts, toks)), exp))
        n += 1
        # training mode: dropout, so only what does not depend on the numbers
        m.train()
        heads = [h for h in rows.HEADS if exp.ref[h]]
        res = list(m(hts, toks, sample=True))
        m.eval()
        n += 1
        if len(res) != len(heads):
            bad.append("%s, training mode: %d results" % (what, len(res)))
        else:
            b = rows.rows(f, flat_h, flat_t, [len(g) for g in comp])
            for head, (lg, loss) in zip(heads, res):
                mask = torch.tensor(b[head]["mask"])
                if tuple(lg.shape) != tuple(mask.shape) or not all(softmax_zero(lg, mask)):
                    bad.append("%s, training mode, %s head: wrong shape or a disallowed action has positive probability" % (what, head))
                    continue
                e = ce(lg.numpy(), b[head]["y"].astype(int))
                if not np.isfinite(float(loss)) or abs(float(loss) - e) > 1e-3 * (1 + abs(e)):
                    bad.append("%s, training mode, %s head: loss %r, mean cross-entropy of the labels is %r" % (what, head, float(loss), e))
        if perms:
            N = max(len(exp.ref[h]) for h in rows.HEADS)
            sizes = range(1, N + 2)
            for h in {len(exp.ref[h]) for h in rows.HEADS if exp.ref[h]}:
                allp = list(itertools.permutations(range(h))) if h <= perms else [
                    tuple((s * i + o) % h for i in range(h)) for s in range(1, h) for o in (0, 1) if np.gcd(s, h) == 1]
                for size in sizes:
                    if size >= h:
                        use = allp[:1]
                    else:  # one permutation for each ordered selection
                        use = list({p[:size]: p for p in allp}.values())
                    for p in use:
                        with Randperm(p) as rp:
                            res = list(m(hts, toks, sample=True, sample_size=size))
                        n += 1
                        if not rp.calls and size < N:
                            # another source of randomness: what it answers is checked, not chosen
                            torch.manual_seed(n)
                        bad += list(check_output(f, "%s, sample of %d (%s)" % (what, size, p), res, exp, size))
                        if bad:
                            return job, n, bad
    return job, n, bad


POOL, CACHE = [], {}


@check("C19", "model_checking", "exhaustive enumeration of small batches, and of every ordered subsample of a batch, run on the real models and compared with the rows alone")
def c19(tier, seed):
    global POOL
    POOL = c19_pool()
    k = len(POOL)
    games = [(i,) for i in range(k)] + [(i, j) for i in range(k) for j in range(k)]
    batches = [(g,) for g in games]
    two = [(a, b) for a in games for b in games]
    if tier == "quick":
        two = [(a, b) for a, b in two if len(a) + len(b) <= 2]
    batches += two
    # games and rounds without any row
    E = len(POOL)
    POOL = POOL + [("no rows", [], [])]
    none = [(), (E,), (E, E)]
    batches += [(a,) for a in none] + [(a, b) for a in none for b in none]
    batches += [x for a in none for i in range(k) for x in ((a, (i,)), ((i,), a), ((i,), a, ((i + 1) % k,)))]
    batches += [x for i in range(k) for x in (((E, i),), ((i, E),), ((i, E, (i + 1) % k),))]
    jobs = []
    for f in rows.FAMS:
        for b in batches:
            jobs.append((f, 0, b, 0))
            jobs.append((f, 0.3, b, 0))
        # every ordered subsample
        for i in range(k):
            jobs.insert(0, (f, 0.3, ((i,),), 5 if tier == "quick" else 6))
    n = evals = 0
    out = []
    for job, c, bad in explore.pmap(_one_batch, jobs):
        n += 1
        evals += c
        for b in bad[:3]:
            out.append(dict(ident="%s:%s" % (job[0], job[2]), message=b, replay=dict(family=job[0], batch=[[POOL[i][0] for i in g] for g in job[2]])))
        if len(out) > 8:
            break
    cov = dict(states=n, transitions=evals, traces_validated_against_impl=n, model_families=list(rows.FAMS),
               pool=[dict(name=p[0], points=len(p[1])) for p in POOL],
               bounds="batches of up to two games of up to two rounds over %d rounds, and games and rounds without rows among them; every ordered selection of every size of each head's rows (up to %d rows)" % (k, 5 if tier == "quick" else 6),
               exhaustive=True, samples=[[[POOL[i][0] for i in g] for g in batches[-1]]])
    return Outcome(cov, out, ["two fixed random weightings per model stand for all weights", "CPU arithmetic in float32, compared with tolerance 2e-4"])


# ------------------------------------------------------------------ C20
def all_tokens(tier):
    """the token of every kind of event the converter reports, by every seat: {token: class}"""
    import check_rounds as cr
    fams = [cr.fam("discard_sweep"), cr.fam("call_sweep"), cr.fam("kan_sweep"), cr.fam("riichi_order"), cr.fam("kans", quick=dict(depth=(0, 1)))]
    ws = [w for f in fams for w in f(tier)]
    res = explore.explore(ws, Check(lambda r, p, t: [], states=False, tokens=True), tier)
    if res.bad:
        return res, ws, None, 0
    seen = {t: v[0] for t, v in res.tokmap.items()}
    n = len(seen)
    # the seat is two bits of the token (C04): the same event by the other seats
    for t, cl in list(seen.items()):
        if cl[0] in ("discard", "call", "riichi"):
            for s in range(1, 4):
                q = (cl[1] + s) % 4
                seen.setdefault((t & ~0x300) | q << 8, (cl[0], q) + tuple(cl[2:]))
    return res, ws, seen, n


def embeddings(f, m, toks, pos, player, bare, base=None):
    """encoder outputs of histories equal to base except for the token at pos"""
    import torch
    T = 150
    x = torch.zeros(len(toks), T)
    if base is not None:
        x[:, :len(base)] = torch.tensor(base, dtype=torch.float32)
    x[:, pos] = torch.tensor(toks, dtype=torch.float32)
    enc = m.encoder
    with torch.no_grad():
        if f == "transformer_conv_ordered":
            return enc(x, torch.full((len(toks),), player, dtype=torch.long))
        return enc(x)


def bare_model(f):
    """the model without its attention layers: what each event is turned into"""
    import copy, torch
    m = copy.deepcopy(model(f, 0.3))
    if isinstance(getattr(m.encoder, "blocks", None), torch.nn.Module):
        m.encoder.blocks = torch.nn.Sequential()
        m.encoder.eval()
        return m
    return None


def groups(toks, classes, vec, tol):
    """a pair of tokens of different classes with (nearly) equal vectors"""
    import torch
    d = torch.cdist(vec.double(), vec.double(), compute_mode="donot_use_mm_for_euclid_dist")
    near = torch.nonzero(d < tol)
    for i, j in near.tolist():
        if i < j and classes[i] != classes[j]:
            return toks[i], toks[j], float(d[i, j])
    return None


def _position(job):
    import torch
    f, pos, player, kind = job
    toks, classes = [0] + sorted(TOKENS), [("padding",)] + [TOKENS[t] for t in sorted(TOKENS)]
    n = 0
    bad = []
    m = BARE[f] if kind == "bare" else model(f, 0)
    base = None if kind == "bare" else BASE[:pos] if kind == "prefix" else BASE
    what = "%s%s, position %d" % (f, ", player %d" % player if f.endswith("ordered") else "", pos)
    step = 512 if kind == "bare" else 64
    if kind == "bare":
        vec = torch.cat([embeddings(f, m, toks[i:i + step], pos, player, True)[:, pos] for i in range(0, len(toks), step)])
    else:  # the whole encoding of a history in which only this event differs
        parts = []
        g = torch.Generator().manual_seed(5)
        proj = None
        for i in range(0, len(toks), step):
            e = embeddings(f, m, toks[i:i + step], pos, player, False, base).reshape(len(toks[i:i + step]), -1)
            if proj is None:
                proj = torch.randn(e.shape[1], 24, generator=g) / 8
            # distances are bounded below by those of the encoding at the event itself and of a projection
            parts.append(torch.cat([e.reshape(len(e), 150, -1)[:, pos], e @ proj], dim=1))
        vec = torch.cat(parts)
    if kind == "bare":
        d = float((vec[0] - PAD[f]).abs().max())
        if d > 1e-6:
            bad.append("%s: padding is not neutral (differs by %g from padding at position 0)" % (what, d))
    hit = groups(toks, classes, vec, 1e-5)
    n += len(toks)
    if hit:
        a, b, d = hit
        name = lambda t: "padding" if t == 0 else "%r (token %d)" % (TOKENS[t], t)
        bad.append("%s: %s and %s look the same (distance %g)" % (what, name(a), name(b), d))
    if f.endswith("ordered") and (kind != "bare" or ALLROT or pos % 10 == 0):
        for s in (1, 2, 3):
            rot = [t if t == 0 or TOKENS[t][0] == "dora" else (t & ~0x300) | (((t >> 8 & 3) + s) % 4) << 8 for t in toks]
            rb = base if base is None else [t if t == 0 or SEATED.get(t) is None else (t & ~0x300) | (((t >> 8 & 3) + s) % 4) << 8 for t in base]
            for i in range(0, len(toks), step):
                a = embeddings(f, m, toks[i:i + step], pos, player, kind == "bare", base)
                b = embeddings(f, m, rot[i:i + step], pos, (player + s) % 4, kind == "bare", rb)
                n += len(a)
                w = (a - b).abs().amax(dim=(1, 2))
                j = int(w.argmax())
                if float(w[j]) > 1e-3:
                    bad.append("%s: turning the table by %d seats changes the encoding of %r (token %d) by %g" % (
                        what, s, TOKENS.get(toks[i + j], "padding"), toks[i + j], float(w[j])))
                    return job, n, bad
    return job, n, bad


TOKENS, BASE, BARE, SEATED, PAD, ALLROT = {}, [], {}, {}, {}, False


@check("C20", "model_checking", "exhaustive enumeration of every event token at every position of the history, encoded by the real models; tokens come from the bounded exploration of rounds by the real converter")
def c20(tier, seed):
    global TOKENS, BASE, BARE, SEATED, ALLROT
    ALLROT = tier != "quick"
    import check_rounds as cr
    res, ws, TOKENS, direct = all_tokens(tier)
    if res.bad:
        return Outcome(cr.coverage(res, ws), cr.violations(res, ws), cr.ASSUME)
    # a long history made of real events
    order = sorted(TOKENS)
    BASE = [order[(i * 97) % len(order)] for i in range(149)]
    SEATED = {t: c for t, c in TOKENS.items() if c[0] != "dora"}
    BARE = {f: bare_model(f) for f in rows.FAMS}
    PAD.update({f: embeddings(f, m, [0], 0, 0, True)[0, 0] for f, m in BARE.items() if m is not None})
    jobs = []
    full = (0, 40, 148) if tier == "quick" else tuple(range(0, 150, 7)) + (148,)
    for f in rows.FAMS:
        players = range(4) if f.endswith("ordered") else (0,)
        for pos in full:
            for q in players if tier != "quick" else (pos % 4,):
                jobs.append((f, pos, q if f.endswith("ordered") else 0, "context"))
                jobs.append((f, pos, q if f.endswith("ordered") else 0, "prefix"))
        if BARE[f] is None:
            jobs += [(f, pos, 0, "prefix") for pos in range(1, 149, 4)]
        else:
            for pos in range(150):
                for q in players if tier != "quick" else (pos % 4,):
                    jobs.append((f, pos, q if f.endswith("ordered") else 0, "bare"))
    n = evals = 0
    out = []
    for job, c, bad in explore.pmap(_position, jobs):
        n += 1
        evals += c
        for b in bad:
            out.append(dict(ident="%s:%d" % (job[0], job[1]), message=b, replay=dict(job=job)))
        if len(out) > 8:
            break
    cov = dict(states=len(TOKENS) * 150, transitions=evals, traces_validated_against_impl=res.histories, tokens=len(TOKENS), tokens_seen_from_converter=direct,
               encodings=evals, jobs=n, model_families=list(rows.FAMS), exhaustive=True,
               bounds="every token of every kind of event by every seat, at each of the 150 positions (embedding) and at %d positions inside a full-length history (complete encoder)" % len(full),
               samples=[dict(token=t, event=str(TOKENS[t])) for t in order[:3]])
    return Outcome(cov, out, ["two fixed random weightings per model stand for all weights: a pair of events that differs there differs for almost all weights"])
