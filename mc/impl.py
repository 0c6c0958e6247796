"""The implementation seen from outside: run the real conversion, read what it reports."""
import functools
import os, signal, sys, tempfile, time
from rules import decode

REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        import atexit, shutil
        d = tempfile.mkdtemp(prefix="mcscratch")
        pid = os.getpid()
        SCRATCH = (pid, d)

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        try:  # pool workers leave through os._exit
            from multiprocessing import util
            util.Finalize(None, clean, exitpriority=1)
        except Exception:
            pass
    return SCRATCH[1]


class Hang(Exception):
    pass


class watchdog:
    """Hang after so many seconds - counted in ticks of this process and in its processor time, so
    that a machine which is paused or busy with other work does not look like a hang"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.ticks, self.cpu = 0, time.process_time()

        def ontick(*a):
            self.ticks += 1
            if self.ticks >= self.s and (time.process_time() - self.cpu >= self.s * 0.6 or self.ticks >= max(self.s, min(4 * self.s, 600))):
                raise Hang("no result within %d s" % self.s)
        self.old = signal.signal(signal.SIGALRM, ontick)
        signal.setitimer(signal.ITIMER_REAL, 1, 1)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def convert(xml, fname="game.xml"):
    """run process() on a document; returns (halfturn lists, token lists)"""
    from MahjongAI.process_xml import process
    path = os.path.join(scratch(), fname)
    with open(path, "w") as f:
        f.write(xml)
    return process(path)


def ints(v):
    """a vector as plain numbers (1 == 1.0)"""
    return tuple(v.tolist()) if hasattr(v, "tolist") else tuple(v)


def read_state(s):
    """a StateObject as plain values, keyed like game.View"""
    return dict(
        player=int(s.player),
        hand=ints(s.hand_tensor),
        unseen=ints(s.remaining_tiles),
        pov=ints(s.remaining_tiles_pov),
        discards=tuple(ints(x) for x in s.sutehai_tensors),
        melds=tuple(tuple(sorted(decode(m.naki_code).meldkey() for m in x)) for x in s.melds),
        left=int(s.remaining_tsumo),
        scores=ints(s.scores),
        kyotaku=int(s.kyotaku),
        honba=int(s.honba),
        dora=ints(s.dora),
        parent=ints(s.parent_tensor),
        rounds_left=int(s.rounds_remaining),
        parent_left=ints(s.parent_rounds_remaining),
        menzen=ints(s.is_menzen),
        riichi=ints(s.reaches),
        double=ints(s.double_reaches),
        ippatsu=ints(s.ippatsu),
    )


def _offers(triple, player):
    """(agari offers, reach offers, call offers) of one player:
    lists of (key, executed)"""
    ag, re, na = triple
    out = {"agari": [], "riichi": [], "calls": [], "who": set()}
    for d in ag:
        out["agari"].append(bool(d.executed))
        out["who"].add(int(d.player))
    for d in re:
        out["riichi"].append(bool(d.executed))
        out["who"].add(int(d.player))
    for d in na:
        out["calls"].append((decode(d.naki.naki_code).key(), bool(d.executed)))
        out["who"].add(int(d.player))
    out["calls"].sort(key=repr)
    return out


KINDS = {0: "during", 1: "discard", 2: "post"}


def read_point(h, states=True):
    kind = KINDS[h.type_]
    d = dict(kind=kind, player=int(h.player), enc=int(h.encoding_idx))
    if kind == "during":
        d["offers"] = _offers(h.decisions, h.player)
    elif kind == "post":
        d["offers"] = [_offers(h.decisions[q], q) for q in range(4)]
    else:
        d["tile"] = int(h.discarded_tile)
    if states:
        d["view"] = read_state(h.stateObj)
        if kind == "post":
            d["views"] = [read_state(s) for s in h.stateObjs]
    return d


def read(result, states=True):
    hts, toks = result
    return [[read_point(h, states) for h in r] for r in hts], [[int(t) for t in r] for r in toks]


# ------------------------------------------------------------------ whole objects
def freeze(x, skip=(), _seen=None):
    """everything reachable from an object, as nested plain values; attributes named in skip
    are left out"""
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return x
    if hasattr(x, "tolist") and hasattr(x, "shape"):
        return (tuple(x.shape), _tup(x.tolist()))
    _seen = _seen or ()
    if id(x) in _seen:
        return "..."
    _seen = _seen + (id(x),)
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v, skip, _seen) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), freeze(v, skip, _seen)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((freeze(v, skip, _seen) for v in x), key=repr))
    out = [(k, freeze(v, skip, _seen)) for k, v in attributes(x) if k not in skip]
    return (type(x).__name__,) + tuple(out) if out else repr(type(x))


_props = {}


def attributes(x):
    """the public attributes of an object, however its class keeps them; nothing else is behaviour"""
    t = type(x)
    if t not in _props:
        names = set()
        for c in t.__mro__:
            slots = c.__dict__.get("__slots__", ())
            names |= {slots} if isinstance(slots, str) else set(slots)
            names |= {k for k, v in c.__dict__.items() if isinstance(v, (property, functools.cached_property))}
        _props[t] = [k for k in names if not k.startswith("_")]
    out = dict((k, v) for k, v in getattr(x, "__dict__", {}).items() if not k.startswith("_"))
    for k in _props[t]:
        try:
            out[k] = getattr(x, k)
        except Exception:
            out.setdefault(k, None)
    return sorted(out.items())


def _tup(v):
    return tuple(map(_tup, v)) if isinstance(v, list) else v


def try_convert(path):
    """('ok', result) or ('error', exception)"""
    from MahjongAI.process_xml import process
    try:
        with watchdog(120):
            return "ok", process(path)
    except (Exception, SystemExit) as ex:
        return "error", ex


def write(fname, data):
    path = os.path.join(scratch(), fname)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return path
